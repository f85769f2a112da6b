//! P25: names.

use crate::engine::*;
use crate::hist::*;
use crate::laws::laws;
use bongo::utils::{Name, ToDoc};
use std::collections::{BTreeMap, HashMap};

/// What is done to the string of a name.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Edit {
  /// Only asks for the string.
  Nothing,
  Push(char),
  Insert(char),
  Pop,
  Clear,
  Set(&'static str),
  /// Takes the string out.
  Take,
}

fn edit(s: &mut String, e: Edit) {
  match e {
    Edit::Nothing => {}
    Edit::Push(c) => s.push(c),
    Edit::Insert(c) => s.insert(0, c),
    Edit::Pop => {
      s.pop();
    }
    Edit::Clear => s.clear(),
    Edit::Set(t) => *s = t.to_string(),
    Edit::Take => {
      std::mem::take(s);
    }
  }
}

#[derive(Clone, Debug)]
enum Op {
  New(&'static str),
  /// Out of another name, by its text.
  Copy(usize),
  Clone(usize),
  /// Overwrites a name with a clone.
  Assign(usize, usize),
  CloneFrom(usize, usize),
  Edit(usize, Edit),
  Swap(usize),
  Drop(usize),
}

#[derive(Clone, Debug)]
struct Cfg {
  pool: usize,
  texts: &'static [&'static str],
  edits: &'static [Edit],
}

struct W {
  cfg: Cfg,
  names: Vec<Name>,
  texts: Vec<String>,
}

impl World for W {
  type Cfg = Cfg;
  type Op = Op;
  fn new(cfg: &Cfg) -> Self {
    W {
      cfg: cfg.clone(),
      names: Vec::new(),
      texts: Vec::new(),
    }
  }
  fn ops(&self) -> Vec<Op> {
    let n = self.names.len();
    let mut v = Vec::new();
    if n < self.cfg.pool {
      v.extend(self.cfg.texts.iter().map(|t| Op::New(t)));
      for i in 0..n {
        v.push(Op::Clone(i));
        v.push(Op::Copy(i));
      }
    }
    for i in 0..n {
      v.extend(self.cfg.edits.iter().map(|e| Op::Edit(i, *e)));
      for j in 0..n {
        if i != j {
          v.push(Op::Assign(i, j));
          v.push(Op::CloneFrom(i, j));
        }
      }
      if i + 1 < n {
        v.push(Op::Swap(i));
      }
      v.push(Op::Drop(i));
    }
    v
  }
  fn apply(&mut self, op: &Op) -> Verdict {
    let (ns, ts) = (&mut self.names, &mut self.texts);
    match op {
      Op::New(t) => {
        // By every kind of reference to a text.
        ns.push(match ns.len() % 3 {
          0 => Name::new(*t),
          1 => Name::new(&t.to_string()),
          _ => Name::new(t),
        });
        ts.push(t.to_string());
      }
      Op::Copy(i) => {
        let n = Name::new(&ns[*i]);
        ns.push(n);
        let t = ts[*i].clone();
        ts.push(t);
      }
      Op::Clone(i) => {
        let n = ns[*i].clone();
        ns.push(n);
        let t = ts[*i].clone();
        ts.push(t);
      }
      Op::Assign(i, j) => {
        ns[*i] = ns[*j].clone();
        ts[*i] = ts[*j].clone();
      }
      Op::CloneFrom(i, j) => {
        let src = ns[*j].clone();
        ns[*i].clone_from(&src);
        ts[*i] = ts[*j].clone();
      }
      Op::Edit(i, e) => {
        let s = ns[*i].make_mut();
        if *s != ts[*i] {
          return Err(format!("make_mut of name {} shows {:?}", i, s));
        }
        edit(s, *e);
        edit(&mut ts[*i], *e);
      }
      Op::Swap(i) => {
        ns.swap(*i, i + 1);
        ts.swap(*i, i + 1);
      }
      Op::Drop(i) => {
        ns.remove(*i);
        ts.remove(*i);
      }
    }
    Ok(())
  }
  fn check(&mut self) -> Verdict {
    for (n, t) in self.names.iter().zip(&self.texts) {
      let as_ref: &str = n.as_ref();
      let al = pretty::BoxAllocator;
      let mut doc = String::new();
      let d: pretty::DocBuilder<'_, pretty::BoxAllocator> = n.to_doc(&al);
      d.1.render_fmt(usize::max_value(), &mut doc).unwrap();
      let got = [
        n.str().to_string(),
        as_ref.to_string(),
        n.to_string(),
        format!("{:?}", n),
        doc,
      ];
      if got.iter().any(|g| g != t) {
        return Err(format!(
          "a name of {:?} has str, as_ref, Display, Debug, document {:?}",
          t, got
        ));
      }
      if hash(n) != hash(t) {
        return Err(format!("the hash of {:?} is not that of its text", t));
      }
    }
    let hs: Vec<(String, Name)> = self
      .texts
      .iter()
      .cloned()
      .zip(self.names.iter().cloned())
      .collect();
    laws("names", &hs)?;
    for (t, n) in &hs {
      for (t2, n2) in &hs {
        if n.cmp(n2) != t.cmp(t2) {
          return Err(format!("{:?} and {:?}: {:?}", t, t2, n.cmp(n2)));
        }
      }
    }
    // As keys.
    let by: BTreeMap<Name, ()> =
      self.names.iter().map(|n| (n.clone(), ())).collect();
    let hm: HashMap<Name, ()> =
      self.names.iter().map(|n| (n.clone(), ())).collect();
    let mut want = self.texts.clone();
    want.sort();
    want.dedup();
    let got: Vec<String> = by.keys().map(|k| k.str().to_string()).collect();
    if got != want
      || hm.len() != want.len()
      || !want.iter().all(|w| hm.contains_key(&Name::new(w)))
    {
      return Err(format!("as keys: {:?}, expected {:?}", got, want));
    }
    Ok(())
  }
  fn key(&self) -> u64 {
    hash(&self.texts)
  }
}

const TEXTS: &[&str] = &["", "a", "ab", "b", "\u{e9}", "\"\n"];
const EDITS: &[Edit] = &[
  Edit::Nothing,
  Edit::Push('a'),
  Edit::Push('\u{e9}'),
  Edit::Insert('b'),
  Edit::Pop,
  Edit::Clear,
  Edit::Set("b"),
  Edit::Take,
];

/// Every character alone and amid others.
fn characters(step: u32) -> Family {
  Family::new(
    "characters",
    (0x110000 / step) as u64,
    "every character, alone, doubled and amid others",
    move |u, st| {
      for c in
        (u as u32 * step..(u as u32 + 1) * step).filter_map(char::from_u32)
      {
        for t in [c.to_string(), format!("{}{}", c, c), format!("a{}b", c)] {
          let mut n = Name::new(&t);
          let mut o = n.clone();
          o.make_mut().push(c);
          n.make_mut().insert(0, c);
          let (nt, ot) = (format!("{}{}", c, t), format!("{}{}", t, c));
          let ok = n.str() == nt
            && o.str() == ot
            && n.to_string() == nt
            && format!("{:?}", n) == nt
            && hash(&n) == hash(&nt)
            && n.cmp(&o) == nt.cmp(&ot)
            && (n == o) == (nt == ot)
            && o.make_mut().pop() == Some(c)
            && o == Name::new(&t)
            && (o < n) == (t < nt)
            && n.str() == nt;
          if !ok {
            return Err(format!(
              "names of {:?}: {:?} and {:?}",
              t,
              n.str(),
              o.str()
            ));
          }
          st.transitions += 4;
        }
        st.states_extra += 1;
        st.traces += 3;
      }
      Ok(())
    },
  )
}

/// Long texts and many clones.
fn sizes(max: usize) -> Family {
  let ns = edges(max);
  Family::new(
    "sizes",
    ns.len() as u64,
    format!(
      "texts of up to {} characters that differ in one place, and as many names \
       of one text, one of them mutated",
      max
    ),
    move |u, st| {
      let n = ns[u as usize];
      for c in ['a', '\u{e9}', '\u{1f600}'] {
        let base: String = std::iter::repeat(c).take(n).collect();
        let mut texts = vec![base.clone(), format!("{}{}", base, c)];
        for at in [0, n / 2, n.saturating_sub(1)] {
          for x in ['b', '\u{0}'] {
            texts.push(
              base
                .chars()
                .enumerate()
                .map(|(i, y)| if i == at { x } else { y })
                .collect(),
            );
          }
        }
        let names: Vec<Name> = texts.iter().map(Name::new).collect();
        for (t, a) in texts.iter().zip(&names) {
          if a.str() != t || a.to_string() != *t || hash(a) != hash(t) {
            return Err(format!("a name of {} characters is {:?}", n, a.str()));
          }
          for (t2, b) in texts.iter().zip(&names) {
            if (a == b) != (t == t2) || a.cmp(b) != t.cmp(t2) {
              return Err(format!("{:?} and {:?}: {:?}", t, t2, a.cmp(b)));
            }
            st.transitions += 1;
          }
        }
      }
      // Clones, by turns of the first and of each other, and one is mutated.
      for which in [0, n / 2, n.saturating_sub(1)] {
        let mut clones = vec![Name::new("ab")];
        for i in 1..n {
          let from = if i % 2 == 0 { 0 } else { i - 1 };
          clones.push(clones[from].clone());
        }
        if which >= clones.len() {
          continue;
        }
        clones[which].make_mut().push('c');
        for (i, x) in clones.iter().enumerate() {
          let want = if i == which { "abc" } else { "ab" };
          if x.str() != want || (*x == clones[which]) != (i == which) {
            return Err(format!("clone {} of {} after a change of {}: {:?}", i, n, which, x));
          }
        }
        clones.truncate(which + 1);
        let last = clones.pop().unwrap();
        drop(clones);
        if last.str() != "abc" {
          return Err(format!("the last of {} clones: {:?}", n, last));
        }
        st.traces += 1;
      }
      st.states_extra += 1;
      Ok(())
    },
  )
}

pub fn p25(tier: Tier) -> Property {
  let all = |pool| {
    vec![Cfg {
      pool,
      texts: TEXTS,
      edits: EDITS,
    }]
  };
  let few = |pool| {
    vec![Cfg {
      pool,
      texts: &["", "a"],
      edits: &[Edit::Push('a'), Edit::Insert('b'), Edit::Clear],
    }]
  };
  let mut f = vec![
    histories::<W>("all edits", all(3), 4, "up to 3 names, 6 texts, 8 edits"),
    histories::<W>("few edits", few(3), 5, "up to 3 names, 2 texts, 3 edits"),
    histories::<W>("many names", few(5), 4, "up to 5 names, 2 texts, 3 edits"),
  ];
  f.push(characters(0x1000));
  f.push(sizes(65537));
  if tier == Tier::Thorough {
    f.push(histories::<W>(
      "all edits-deep",
      all(3),
      5,
      "up to 3 names, 6 texts, 8 edits",
    ));
    f.push(histories::<W>(
      "few edits-deep",
      few(3),
      6,
      "up to 3 names, 2 texts, 3 edits",
    ));
    f.push(histories::<W>(
      "many names-deep",
      few(5),
      6,
      "up to 5 names, 2 texts, 3 edits",
    ));
  }
  Property {
    id: "P25",
    families: f,
    assumptions: vec!["the texts and edits are of a few fixed shapes".into()],
    explanation: "Every history of creating names, cloning, overwriting, \
      mutating, swapping and dropping them is run on real names next to plain \
      strings; after each, all texts, printed forms, hashes and comparisons are \
      compared with those of the strings."
      .into(),
  }
}
