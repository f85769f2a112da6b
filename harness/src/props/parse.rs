//! P01 recognition, P02 soundness and P03 completeness of forests, P04
//! isolation of parses sharing a store.

use crate::cfg::*;
use crate::engine::*;
use crate::forest::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::{wrap_grammar_with_start, StartGrammar};
use std::sync::Arc;

pub type SG = StartGrammar<Tm, Nt, Ak, Av>;
pub type Tree = TreeOwner<Tm, Ak, Av2>;

pub fn start_grammar(g: &Gram) -> Result<SG, String> {
  let b = guard(|| to_bongo(g))
    .map_err(|p| format!("building {} panics: {}", g.show(), p))?
    .map_err(|e| format!("building {} fails: {:?}", g.show(), e))?;
  guard(|| wrap_grammar_with_start(b))
    .map_err(|p| format!("wrapping {} panics: {}", g.show(), p))?
    .map_err(|e| format!("wrapping {} fails: {:?}", g.show(), e))
}

pub fn tokens(input: &[u16], values: &[u16]) -> Vec<Token<Tm, Av2>> {
  input
    .iter()
    .zip(values)
    .map(|(k, v)| Token::new(Tm(*k), Av2(*v)))
    .collect()
}

pub fn run_parse<'a>(
  sg: &'a SG,
  tree: &'a Tree,
  input: &[u16],
  values: &[u16],
) -> Result<Option<Node<'a, Tm, Ak, Av2>>, String> {
  guard(|| parse(sg, &tree.handle(), tokens(input, values)))
}

pub fn show_input(input: &[u16], values: &[u16]) -> String {
  let mut s = String::from("[");
  for (i, (k, v)) in input.iter().zip(values).enumerate() {
    if i > 0 {
      s.push(' ');
    }
    if i == 200 {
      s.push_str(&format!("... {} in all", input.len()));
      break;
    }
    s.push_str(&format!("t{}#{}", k, v));
  }
  s.push(']');
  s
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
  Recognise,
  Sound,
  Complete,
}

pub const INCL_CAP: usize = 200_000;

fn check_one(
  mode: Mode,
  g: &Gram,
  sg: &SG,
  input: &[u16],
  values: &[u16],
  st: &mut Stats,
) -> Verdict {
  let ctx = || format!("grammar: {}\ninput: {}", g.show(), show_input(input, values));
  let tree = Tree::new();
  let got = run_parse(sg, &tree, input, values);
  let got = match got {
    Err(_) if mode == Mode::Sound => {
      // No forest was returned; that is P01's business.
      st.outcome("parse panics");
      return Ok(());
    }
    Err(p) => return Err(format!("{}\nparse panics: {}", ctx(), p)),
    Ok(g) => g,
  };
  let mut cost = Cost::default();
  let r = match mode {
    Mode::Recognise => {
      let want = in_language(g, input, &mut cost);
      judge_answer(&ctx, got.is_some(), want, st)
    }
    Mode::Sound | Mode::Complete => {
      let d = derivations(g, input, values, &mut cost);
      judge_forest(mode, &ctx, got.as_ref().map(|n| move || read_forest(n)), &d, st)
    }
  };
  st.transitions += cost.0;
  r
}

fn judge_answer(
  ctx: &dyn Fn() -> String,
  got: bool,
  want: bool,
  st: &mut Stats,
) -> Verdict {
  st.traces += 1;
  st.states_extra += 1;
  st.outcome(if want { "in the language" } else { "not in the language" });
  if want != got {
    return Err(format!(
      "{}\nin the language: {}, parse returned a tree: {}",
      ctx(),
      want,
      got
    ));
  }
  st.sample(|| ctx());
  Ok(())
}

/// `got` reads the forest returned, if one was; `d` is the automaton of all
/// derivations.
fn judge_forest(
  mode: Mode,
  ctx: &dyn Fn() -> String,
  got: Option<impl FnOnce() -> Ta>,
  d: &Ta,
  st: &mut Stats,
) -> Verdict {
  st.traces += 1;
  let read = match got {
    None => {
      // Whether this is right is P01's business, but for completeness a
      // missing forest misses every derivation.
      if mode == Mode::Complete && d.root.is_some() {
        return Err(format!("{}\nno forest, but derivations exist", ctx()));
      }
      st.outcome("no forest");
      return Ok(());
    }
    Some(f) => f,
  };
  let f = guard(read)
    .map_err(|p| format!("{}\nreading the forest panics: {}", ctx(), p))?;
  let mut ic = InclCost::default();
  let (r, what) = if mode == Mode::Sound {
    (included(&f, d, INCL_CAP, &mut ic), "the forest contains, but the grammar does not derive,")
  } else {
    (included(d, &f, INCL_CAP, &mut ic), "the grammar derives, but the forest does not contain,")
  };
  st.states_extra += ic.states;
  st.transitions += ic.transitions;
  match r {
    Incl::Yes => {
      let alts: usize = d.alts.iter().filter(|a| a.len() > 1).count();
      st.outcome(if d.root.is_none() {
        "not derivable"
      } else if alts > 0 {
        "ambiguous"
      } else {
        "unambiguous"
      });
    }
    Incl::Capped => {
      st.capped += 1;
      st.outcome("cut by the state cap");
    }
    Incl::No(t) => {
      return Err(format!(
        "{}\n{} the tree {}\nforest: {}\nderivations: {}",
        ctx(),
        what,
        t,
        f.show(),
        d.show()
      ));
    }
  }
  st.sample(|| ctx());
  Ok(())
}

/// Token values: distinct by position, all equal, or alternating.
pub fn values(n: usize, variant: usize) -> Vec<u16> {
  (0..n)
    .map(|i| match variant {
      0 => 100u16.wrapping_add(i as u16),
      _ => 7,
    })
    .collect()
}

fn space_family(
  mode: Mode,
  sp: Space,
  max_len: usize,
  unk_len: usize,
  renamed: bool,
  keys_per_head: bool,
  value_variants: usize,
) -> Family {
  const CHUNK: u64 = 16;
  let known: Vec<u16> = (0..sp.terms).collect();
  let mut with_unknown = known.clone();
  with_unknown.push(sp.terms);
  let mut inputs = strings(&known, max_len);
  for s in strings(&with_unknown, unk_len) {
    if s.contains(&sp.terms) {
      inputs.push(s);
    }
  }
  let inputs = Arc::new(inputs);
  let note = format!(
    "{}; all inputs of length <= {} over its terminals and of length <= {} \
     with an unknown terminal{}{}",
    sp.note,
    max_len,
    unk_len,
    if renamed { "; start nonterminal ordered last" } else { "" },
    if keys_per_head { "; action keys unique per head only" } else { "" }
  );
  Family::new(
    format!(
      "{}{}{}",
      sp.name,
      if renamed { "-rev" } else { "" },
      if keys_per_head { "-perhead" } else { "" }
    ),
    sp.chunks(CHUNK),
    note,
    move |u, st| {
      let f = sp.for_chunk(u, CHUNK, |g| {
        let k = g.rules.len() as u16;
        let g = if renamed { g.rename_nts(|x| k - 1 - x) } else { g };
        let g = if keys_per_head { g.keys_per_head() } else { g };
        let sg = start_grammar(&g)?;
        for input in inputs.iter() {
          for vv in 0..value_variants {
            if vv > 0 && input.len() < 2 {
              continue;
            }
            check_one(mode, &g, &sg, input, &values(input.len(), vv), st)?;
          }
        }
        Ok(())
      })?;
      st.filtered += f;
      Ok(())
    },
  )
}

fn classics_family(mode: Mode, deep: bool) -> Family {
  let gs = Arc::new(classics());
  Family::new(
    "classics",
    gs.len() as u64 * 2,
    format!(
      "{} grammars of the literature, all inputs up to a length chosen so that \
       there are at most {} inputs per grammar",
      gs.len(),
      if deep { 3000 } else { 400 }
    ),
    move |u, st| {
      let g = &gs[(u / 2) as usize];
      let k = g.rules.len() as u16;
      let g = if u % 2 == 1 {
        g.rename_nts(|x| k - 1 - x).keys_per_head()
      } else {
        g.clone()
      };
      let sg = start_grammar(&g)?;
      let terms: Vec<u16> = g.terms().into_iter().collect();
      let budget = if deep { 3000 } else { 400 };
      let mut len = 0;
      while len < 8 && strings_count(terms.len(), len + 1) <= budget {
        len += 1;
      }
      for input in strings(&terms, len) {
        for vv in 0..2 {
          check_one(mode, &g, &sg, &input, &values(input.len(), vv), st)?;
        }
      }
      Ok(())
    },
  )
}

fn strings_count(k: usize, len: usize) -> usize {
  if k == 0 {
    return if len > 1 { usize::MAX } else { 1 };
  }
  let mut n = 0usize;
  let mut p = 1usize;
  for _ in 0..=len {
    n = n.saturating_add(p);
    p = p.saturating_mul(k);
  }
  n
}

fn shapes_family(mode: Mode, deep: bool) -> Family {
  let sh = Arc::new(shapes(deep));
  let mut flat = Vec::new();
  for (i, s) in sh.iter().enumerate() {
    for j in 0..s.2.len() {
      flat.push((i, j));
    }
  }
  // The largest first.
  flat.reverse();
  Family::new(
    "shapes",
    flat.len() as u64,
    "parametric shapes: long right-hand sides, many productions, unit chains \
     and cycles, many optional parts, long inputs, highly ambiguous grammars",
    move |u, st| {
      let (i, j) = flat[u as usize];
      let (_, g, ins) = &sh[i];
      let sg = start_grammar(g)?;
      for vv in 0..2 {
        check_one(mode, g, &sg, &ins[j], &values(ins[j].len(), vv), st)?;
      }
      Ok(())
    },
  )
}

// ------------------------------------------------- other types of symbols

fn check_typed<T: Sort, NT: Sort, AK: Sort, V: Sort>(
  mode: Mode,
  what: &str,
  g: &Gram,
  inputs: &[Vec<u16>],
  st: &mut Stats,
) -> Verdict {
  let g = collapsed(g, T::COUNT, AK::COUNT);
  let sg = built_as::<T, NT, AK, Av>(&g)
    .and_then(|b| {
      guard(|| wrap_grammar_with_start(b))
        .map_err(|p| format!("wrapping panics: {}", p))?
        .map_err(|_| "wrapping fails".to_string())
    })
    .map_err(|e| format!("{}, {}: {}", what, g.show(), e))?;
  for input in inputs {
    let input: Vec<u16> = input.iter().map(|t| (*t as u16 % T::COUNT) as u16).collect();
    let values: Vec<u16> = (0..input.len() as u16).map(|i| (i + 2) % V::COUNT).collect();
    let ctx = || {
      format!("{}\ngrammar: {}\ninput: {}", what, g.show(), show_input(&input, &values))
    };
    let tree: TreeOwner<T, AK, V> = TreeOwner::new();
    let toks: Vec<Token<T, V>> = input
      .iter()
      .zip(&values)
      .map(|(k, v)| Token::new(T::make(*k as u16), V::make(*v)))
      .collect();
    let got = match guard(|| parse(&sg, &tree.handle(), toks)) {
      Err(_) if mode == Mode::Sound => {
        st.outcome("parse panics");
        continue;
      }
      Err(p) => return Err(format!("{}\nparse panics: {}", ctx(), p)),
      Ok(g) => g,
    };
    let mut cost = Cost::default();
    match mode {
      Mode::Recognise => {
        judge_answer(&ctx, got.is_some(), in_language(&g, &input, &mut cost), st)?
      }
      _ => {
        let d = derivations(&g, &input, &values, &mut cost);
        let got = got.as_ref().map(|n| {
          move || {
            read_forest_with(
              n,
              &|k: &T, v: &V| (k.number() as u16, v.number()),
              &|a: &AK| a.number(),
            )
          }
        });
        judge_forest(mode, &ctx, got, &d, st)?
      }
    }
    st.transitions += cost.0;
  }
  Ok(())
}

const TYPE_NAMES: [&str; TYPES as usize] = [
  "types of no size",
  "texts",
  "loose equality",
  "few actions",
  "two terminals",
  "large terminals",
  "the symbols of the crate",
];

fn check_types(
  mode: Mode,
  i: u64,
  g: &Gram,
  inputs: &[Vec<u16>],
  st: &mut Stats,
) -> Verdict {
  with_types!(i, check_typed, mode, TYPE_NAMES[i as usize], g, inputs, st)
}

fn types_family(mode: Mode, deep: bool) -> Vec<Family> {
  let gs = Arc::new(classics());
  let budget = if deep { 1000 } else { 150 };
  let sp = if deep {
    Space::new("types-2nt2t", 2, &[(1, 2, 2), (1, 2, 1)], false)
  } else {
    Space::new("types-2nt1t", 1, &[(1, 2, 2), (1, 2, 1)], false)
  };
  let len = if deep { 4 } else { 3 };
  let terms: Vec<u16> = (0..=sp.terms).collect();
  let inputs = strings(&terms, len);
  let note = TYPES_NOTE;
  const CHUNK: u64 = 16;
  vec![
    Family::new(
      "types",
      gs.len() as u64 * TYPES,
      format!(
        "{} grammars of the literature over {}, at most {} inputs each",
        gs.len(),
        note,
        budget
      ),
      move |u, st| {
        let g = &gs[(u / TYPES) as usize];
        let terms: Vec<u16> = g.terms().into_iter().collect();
        let mut len = 0;
        while len < 8 && strings_count(terms.len(), len + 1) <= budget {
          len += 1;
        }
        check_types(mode, u % TYPES, g, &strings(&terms, len), st)
      },
    ),
    Family::new(
      sp.name.clone(),
      sp.chunks(CHUNK) * TYPES,
      format!("{} over {}; all inputs of length <= {}", sp.note, note, len),
      move |u, st| {
        let f = sp.for_chunk(u / TYPES, CHUNK, |g| {
          check_types(mode, u % TYPES, &g, &inputs, st)
        })?;
        st.filtered += f;
        Ok(())
      },
    ),
  ]
}

// ------------------------------------------------- sizes

/// The only derivation of an input, as a tree automaton.
#[derive(Default)]
struct Only(Ta);

impl Only {
  fn add(&mut self, l: Label, kids: Vec<u32>) -> u32 {
    self.0.alts.push(vec![(l, kids)]);
    self.0.alts.len() as u32 - 1
  }
  fn leaf(&mut self, input: &[u16], i: usize) -> u32 {
    self.add(Label::Leaf(input[i], 100u16.wrapping_add(i as u16)), vec![])
  }
  fn root(mut self, r: u32) -> Ta {
    self.0.root = Some(r);
    self.0
  }
  /// A state without an alternative, so far.
  fn state(&mut self) -> u32 {
    self.0.alts.push(vec![]);
    self.0.alts.len() as u32 - 1
  }
  fn alt(&mut self, q: u32, l: Label, kids: Vec<u32>) {
    self.0.alts[q as usize].push((l, kids));
  }
}

/// Grammars and inputs whose number of derivations goes with n, and all their
/// derivations.
fn ambiguous(n: usize) -> Vec<(&'static str, Gram, Vec<u16>, Option<Ta>)> {
  let mut v = Vec::new();
  let b = Label::Branch;
  let t = Sym::T;
  let k = n as u16;
  if n == 0 {
    return v;
  }
  // Two lists: every place to split the tokens between them.
  let g = gram("S:AB;A:Aa|a;B:aB|a");
  let w = vec![0u16; n + 1];
  let mut o = Only::default();
  let leaves: Vec<u32> = (0..=n).map(|i| o.leaf(&w, i)).collect();
  let mut a = vec![0];
  let mut c = vec![0; n + 2];
  for i in 1..=n {
    let l = leaves[i - 1];
    a.push(if i == 1 { o.add(b(3), vec![l]) } else { o.add(b(2), vec![a[i - 1], l]) });
  }
  for i in (1..=n).rev() {
    let l = leaves[i];
    c[i] = if i == n { o.add(b(5), vec![l]) } else { o.add(b(4), vec![l, c[i + 1]]) };
  }
  let s = o.state();
  for i in 1..=n {
    o.alt(s, b(1), vec![a[i], c[i]]);
  }
  v.push(("two lists", g.clone(), w, Some(o.root(s))));
  v.push(("two lists", g, vec![0], None));
  // Two parts that can be split in two ways, n elements before, behind,
  // between and on both sides.
  for (name, pre, mid, post) in [
    ("pair behind", n, 0, 0),
    ("pair before", 0, 0, n),
    ("pair around", 0, n, 0),
    ("pair within", n / 2, 0, n - n / 2),
  ] {
    // A: a | aa; B: b | bb where the tokens are all the same.
    let x = |m: usize| std::iter::repeat(t(0)).take(m);
    let part = vec![vec![t(0)], vec![t(0), t(0)]];
    let top: Vec<Sym> = x(pre)
      .chain([Sym::N(1)])
      .chain(x(mid))
      .chain([Sym::N(2)])
      .chain(x(post))
      .collect();
    let g = Gram::simple(0, vec![(0, vec![top]), (1, part.clone()), (2, part)]);
    let w = vec![0u16; n + 3];
    let mut o = Only::default();
    let leaves: Vec<u32> = (0..n + 3).map(|i| o.leaf(&w, i)).collect();
    let s = o.state();
    for first in [1, 2] {
      let q = pre + first + mid;
      let y = o.add(b(1 + first as u16), leaves[pre..pre + first].to_vec());
      let z = o.add(b(3 + (3 - first) as u16), leaves[q..q + 3 - first].to_vec());
      let mut kids = leaves[..pre].to_vec();
      kids.push(y);
      kids.extend(&leaves[pre + first..q]);
      kids.push(z);
      kids.extend(&leaves[q + 3 - first..]);
      o.alt(s, b(1), kids);
    }
    v.push((name, g.clone(), w, Some(o.root(s))));
    v.push((name, g, vec![0; n + 1], None));
  }
  // n parts, one of which has two tokens.  An item keeps every way to split
  // what it has seen so far: there are exponentially many.
  if n <= 12 {
    let g = Gram::simple(
      0,
      vec![(0, vec![vec![Sym::N(1); n]]), (1, vec![vec![t(0)], vec![t(0), t(0)]])],
    );
    let w = vec![0u16; n + 1];
    let mut o = Only::default();
    let leaves: Vec<u32> = (0..=n).map(|i| o.leaf(&w, i)).collect();
    let one: Vec<u32> = (0..=n).map(|i| o.add(b(2), vec![leaves[i]])).collect();
    let two: Vec<u32> =
      (0..n).map(|i| o.add(b(3), vec![leaves[i], leaves[i + 1]])).collect();
    let s = o.state();
    for i in 0..n {
      let mut kids = one[..i].to_vec();
      kids.push(two[i]);
      kids.extend(&one[i + 2..]);
      o.alt(s, b(1), kids);
    }
    v.push(("one of two tokens", g, w, Some(o.root(s))));
  }
  // n alternatives of a node: other productions of its rule, with the same
  // elements and with different ones.
  let g = Gram::simple(0, vec![(0, vec![vec![t(0), t(1)]; n])]);
  let mut o = Only::default();
  let w = vec![0u16, 1];
  let kids: Vec<u32> = (0..2).map(|i| o.leaf(&w, i)).collect();
  let s = o.state();
  for i in 0..k {
    o.alt(s, b(i + 1), kids.clone());
  }
  v.push(("same elements", g.clone(), w, Some(o.root(s))));
  v.push(("same elements", g, vec![0, 0], None));
  let mut rules = vec![(0, (1..=k).map(|i| vec![Sym::N(i)]).collect())];
  rules.extend((1..=k).map(|i| (i, vec![vec![t(0)]])));
  let g = Gram::simple(0, rules);
  let mut o = Only::default();
  let w = vec![0u16];
  let l = o.leaf(&w, 0);
  let s = o.state();
  for i in 0..k {
    let x = o.add(b(k + i + 1), vec![l]);
    o.alt(s, b(i + 1), vec![x]);
  }
  v.push(("units", g.clone(), w, Some(o.root(s))));
  v.push(("units", g, vec![0, 0], None));
  // n nodes of two alternatives each.
  let g = gram("S:SX|X;X:A|B;A:a;B:a");
  let w = vec![0u16; n];
  let mut o = Only::default();
  let mut s = 0;
  for i in 0..n {
    let l = o.leaf(&w, i);
    let (p, q) = (o.add(b(5), vec![l]), o.add(b(6), vec![l]));
    let x = o.state();
    o.alt(x, b(3), vec![p]);
    o.alt(x, b(4), vec![q]);
    s = if i == 0 { o.add(b(2), vec![x]) } else { o.add(b(1), vec![s, x]) };
  }
  v.push(("ambiguous nodes", g, w, Some(o.root(s))));
  // All binary trees over the tokens.
  if n <= 34 {
    let g = gram("S:SS|a");
    let w = vec![0u16; n];
    let mut o = Only::default();
    let mut at = std::collections::HashMap::new();
    for i in 0..n {
      let l = o.leaf(&w, i);
      at.insert((i, i + 1), o.add(b(2), vec![l]));
    }
    for len in 2..=n {
      for i in 0..=n - len {
        let s = o.state();
        for m in i + 1..i + len {
          o.alt(s, b(1), vec![at[&(i, m)], at[&(m, i + len)]]);
        }
        at.insert((i, i + len), s);
      }
    }
    let r = at[&(0, n)];
    v.push(("binary trees", g, w, Some(o.root(r))));
  }
  // A cycle of n nonterminals, with a way out at its end.
  let g = Gram::simple(
    0,
    (0..k)
      .map(|i| (i, if i + 1 == k { vec![vec![Sym::N(0)], vec![t(0)]] } else { vec![vec![Sym::N(i + 1)]] }))
      .collect(),
  );
  let w = vec![0u16];
  let mut o = Only::default();
  let l = o.leaf(&w, 0);
  let q: Vec<u32> = (0..k).map(|_| o.state()).collect();
  for i in 0..k {
    o.alt(q[i as usize], b(i + 1), vec![q[(i as usize + 1) % n]]);
  }
  o.alt(q[n - 1], b(k + 1), vec![l]);
  let r = q[0];
  v.push(("cycle", g.clone(), w, Some(o.root(r))));
  v.push(("cycle", g, vec![0, 0], None));
  // A rule that begins with n times nothing and itself.
  let mut top = vec![Sym::N(1); n];
  top.push(Sym::N(0));
  let g = Gram::simple(0, vec![(0, vec![top, vec![t(0)]]), (1, vec![vec![]])]);
  let w = vec![0u16];
  let mut o = Only::default();
  let l = o.leaf(&w, 0);
  let e = o.add(b(3), vec![]);
  let s = o.state();
  let mut kids = vec![e; n];
  kids.push(s);
  o.alt(s, b(1), kids);
  o.alt(s, b(2), vec![l]);
  v.push(("nothing before", g, w, Some(o.root(s))));
  // n productions that wait for the same part, told apart by what follows it.
  let mut rules = vec![(0, (2..k + 2).map(|i| vec![Sym::N(i)]).collect())];
  rules.extend((2..k + 2).map(|i| (i, vec![vec![Sym::N(1), t(i)]])));
  rules.push((1, vec![vec![t(0)]]));
  let g = Gram::simple(0, rules);
  for i in [0, k / 2, k - 1] {
    let w = vec![0, i + 2];
    let mut o = Only::default();
    let (l, m) = (o.leaf(&w, 0), o.leaf(&w, 1));
    let x = o.add(b(2 * k + 1), vec![l]);
    let y = o.add(b(k + i + 1), vec![x, m]);
    let s = o.add(b(i + 1), vec![y]);
    v.push(("waiting", g.clone(), w, Some(o.root(s))));
  }
  v.push(("waiting", g, vec![0, k + 2], None));
  v
}

/// Grammars and inputs whose size goes with n, and the only derivation.
fn sized(n: usize) -> Vec<(&'static str, Gram, Vec<u16>, Option<Ta>)> {
  let mut v = Vec::new();
  let t = Sym::T;
  let b = Label::Branch;
  // Lists, to the left and to the right, and nested, with one token too many.
  for (name, s, left) in [
    ("left", "S:Sa|b", true),
    ("right", "S:aS|b", false),
    ("left, empty", "S:Sa|", true),
    ("right, empty", "S:aS|", false),
  ] {
    let g = gram(s);
    let empty = name.ends_with("empty");
    let mut w = vec![0u16; n];
    if !empty {
      w.insert(if left { 0 } else { n }, 1);
    }
    let mut o = Only::default();
    let mut x = if empty {
      o.add(b(2), vec![])
    } else {
      let l = o.leaf(&w, if left { 0 } else { n });
      o.add(b(2), vec![l])
    };
    for i in 0..n {
      let at = if left { i + !empty as usize } else { n - 1 - i };
      let l = o.leaf(&w, at);
      x = o.add(b(1), if left { vec![x, l] } else { vec![l, x] });
    }
    let mut bad = w.clone();
    bad.push(1);
    if left {
      bad.push(0);
    }
    v.push((name, g.clone(), w, Some(o.root(x))));
    v.push((name, g, bad, None));
  }
  let g = gram("S:aSb|");
  let mut w = vec![0u16; n];
  w.extend(vec![1; n]);
  let mut o = Only::default();
  let mut x = o.add(b(2), vec![]);
  for i in (0..n).rev() {
    let l = o.leaf(&w, i);
    let r = o.leaf(&w, 2 * n - 1 - i);
    x = o.add(b(1), vec![l, x, r]);
  }
  v.push(("nested", g.clone(), w.clone(), Some(o.root(x))));
  w.push(1);
  v.push(("nested", g, w, None));
  // One production of n elements.
  let w: Vec<u16> = (0..n).map(|i| i as u16).collect();
  let g = Gram::simple(0, vec![(0, vec![w.iter().map(|i| t(*i)).collect()])]);
  let mut o = Only::default();
  let kids = (0..n).map(|i| o.leaf(&w, i)).collect();
  let x = o.add(b(1), kids);
  v.push(("elements", g.clone(), w.clone(), Some(o.root(x))));
  for at in [0, n / 2, n.max(1) - 1] {
    if at < n {
      let mut bad = w.clone();
      bad[at] = 60000;
      v.push(("elements", g.clone(), bad, None));
    }
  }
  // n productions, of two elements each.
  if n > 0 {
    let pair = |i: usize| [(i % 200) as u16, (i / 200) as u16];
    let prods = (0..n).map(|i| pair(i).iter().map(|x| t(*x)).collect()).collect();
    let g = Gram::simple(0, vec![(0, prods)]);
    for i in [0, n / 2, n - 1] {
      let w = pair(i).to_vec();
      let mut o = Only::default();
      let (p, q) = (o.leaf(&w, 0), o.leaf(&w, 1));
      let x = o.add(b(i as u16 + 1), vec![p, q]);
      v.push(("productions", g.clone(), w, Some(o.root(x))));
    }
    let p = pair(n);
    v.push(("productions", g, p.to_vec(), None));
  }
  // A chain of nonterminals, in both orders, that ends in a token or not.
  if n > 0 {
    let k = n as u16;
    let rules = (0..k)
      .map(|i| {
        (i, if i + 1 == k { vec![vec![t(0)], vec![]] } else { vec![vec![Sym::N(i + 1)]] })
      })
      .collect();
    let g = Gram::simple(0, rules);
    for rev in [false, true] {
      let g = if rev { g.rename_nts(|x| k - 1 - x) } else { g.clone() };
      for w in [vec![], vec![0u16]] {
        let mut o = Only::default();
        let mut x = if w.is_empty() {
          o.add(b(k as u16 + 1), vec![])
        } else {
          let l = o.leaf(&w, 0);
          o.add(b(k as u16), vec![l])
        };
        for i in (0..k - 1).rev() {
          x = o.add(b(i as u16 + 1), vec![x]);
        }
        v.push(("chain", g.clone(), w, Some(o.root(x))));
      }
      v.push(("chain", g, vec![0, 0], None));
    }
    // n optional parts: all of them, none, one, and two in the wrong order.
    if n < 200 {
      let mut rules = vec![(0, vec![(1..=k).map(Sym::N).collect()])];
      rules.extend((1..=k).map(|i| (i, vec![vec![t(i)], vec![]])));
      let g = Gram::simple(0, rules);
      let some = |w: Vec<u16>| {
        let mut o = Only::default();
        let mut at = 0;
        let kids = (1..=k)
          .map(|i| {
            if w.get(at) == Some(&i) {
              let l = o.leaf(&w, at);
              at += 1;
              o.add(b(2 * i as u16), vec![l])
            } else {
              o.add(b(2 * i as u16 + 1), vec![])
            }
          })
          .collect();
        let x = o.add(b(1), kids);
        (w, o.root(x))
      };
      for w in [vec![], (1..=k).collect(), vec![k], vec![(k + 1) / 2], vec![1]] {
        let (w, ta) = some(w);
        v.push(("optional", g.clone(), w, Some(ta)));
      }
      v.push(("optional", g, vec![k, 1], None));
    }
  }
  v
}

fn judge_sized(
  mode: Mode,
  ctx: &dyn Fn() -> String,
  g: &Gram,
  input: &[u16],
  want: Option<Ta>,
  st: &mut Stats,
) -> Verdict {
  let sg = start_grammar(g)?;
  let tree = Tree::new();
  let vals = values(input.len(), 0);
  let got = match run_parse(&sg, &tree, input, &vals) {
    Err(_) if mode == Mode::Sound => {
      st.outcome("parse panics");
      return Ok(());
    }
    Err(p) => return Err(format!("{}\nparse panics: {}", ctx(), p)),
    Ok(g) => g,
  };
  if mode == Mode::Recognise {
    judge_answer(ctx, got.is_some(), want.is_some(), st)
  } else {
    let d = want.unwrap_or_default();
    judge_forest(mode, ctx, got.as_ref().map(|n| move || read_forest(n)), &d, st)
  }
}

/// A list of n tokens and then three more, whose derivation depends on where
/// they are, and what comes close to it.
fn long(n: usize) -> Vec<(Gram, Vec<u16>, Option<Ta>)> {
  // t0 is e, t1 is d, t2 is a, t3 is b, t4 is c.
  let g = gram("S:PeQ;P:d|Pa;Q:bc|b");
  let mut w = vec![2u16; n];
  w[0] = 1;
  w.extend([0, 3, 4]);
  let mut o = Only::default();
  let l = o.leaf(&w, 0);
  let mut x = o.add(Label::Branch(2), vec![l]);
  for i in 1..n {
    let l = o.leaf(&w, i);
    x = o.add(Label::Branch(3), vec![x, l]);
  }
  let (e, b, c) = (o.leaf(&w, n), o.leaf(&w, n + 1), o.leaf(&w, n + 2));
  let q = o.add(Label::Branch(4), vec![b, c]);
  let s = o.add(Label::Branch(1), vec![x, e, q]);
  let mut bad = w.clone();
  bad.swap(n, n + 1);
  vec![(g.clone(), w, Some(o.root(s))), (g, bad, None)]
}

fn long_family(mode: Mode, ns: &'static [usize]) -> Family {
  Family::new(
    "long",
    2 * ns.len() as u64,
    format!("lists of {:?} tokens with a position told apart behind", ns),
    move |u, st| {
      let n = ns[u as usize / 2];
      let (g, input, want) = long(n).swap_remove(u as usize % 2);
      let ctx = || format!("{} on a list of {} tokens and three more", g.show(), n);
      judge_sized(mode, &ctx, &g, &input, want, st)
    },
  )
}

fn sizes_family(mode: Mode, max: usize) -> Family {
  let mut ns = edges(max);
  ns.extend([255, 256, 257].iter().filter(|n| **n > max));
  ns.reverse();
  let mut of: Vec<(usize, usize)> =
    ns.iter().flat_map(|n| (0..sized(*n).len()).map(move |i| (*n, i))).collect();
  // The work on these goes with the cube of the size.
  of.retain(|(n, i)| *n <= max || !sized(*n)[*i].0.starts_with("right"));
  Family::new(
    "sizes",
    of.len() as u64,
    format!(
      "lists, nestings, productions of many elements, many productions, chains \
       of nonterminals and many optional parts, of sizes around the powers of \
       two up to {}, and, but for lists to the right, around 256",
      max
    ),
    move |u, st| {
      let (n, i) = of[u as usize];
      let (name, g, input, want) = sized(n).swap_remove(i);
      let ctx = || format!("{} of size {}", name, n);
      judge_sized(mode, &ctx, &g, &input, want, st)
    },
  )
}

fn ambiguous_family(mode: Mode, max: usize) -> Family {
  let mut ns = edges(max);
  ns.extend([101, 200, 255, 256, 257].iter().filter(|n| **n > max));
  ns.reverse();
  let mut of: Vec<(usize, usize)> = Vec::new();
  for n in ns {
    for (i, (name, ..)) in ambiguous(n).iter().enumerate() {
      // The work on these goes with the cube of the size.
      if n <= max || *name != "two lists" {
        of.push((n, i));
      }
    }
  }
  Family::new(
    "ambiguous-sizes",
    of.len() as u64,
    format!(
      "two lists without a border, two parts without a border among many other \
       elements, many parts one of which is longer, nodes of many alternatives, \
       many nodes of two, all binary trees over the tokens (up to 34), cycles of \
       many nonterminals, a rule that begins with itself behind many times nothing, \
       and many productions that wait for the same part; of sizes around the powers \
       of two up to {}, and, but for the two lists, around 256",
      max
    ),
    move |u, st| {
      let (n, i) = of[u as usize];
      let (name, g, input, want) = ambiguous(n).swap_remove(i);
      let ctx = || format!("{} of size {}", name, n);
      judge_sized(mode, &ctx, &g, &input, want, st)
    },
  )
}

fn families(mode: Mode, tier: Tier) -> Vec<Family> {
  let deep = tier == Tier::Thorough;
  let vv = if mode == Mode::Recognise { 1 } else { 2 };
  let mut f = vec![classics_family(mode, deep), shapes_family(mode, deep)];
  f.push(sizes_family(mode, if deep { 200 } else { 130 }));
  f.push(ambiguous_family(mode, if deep { 200 } else { 101 }));
  f.push(long_family(mode, &[65_530, 65_540]));
  f.extend(types_family(mode, deep));
  let g1 = Space::new("1nt2t", 2, &[(1, 2, 3)], false);
  f.push(space_family(mode, g1, 5, 3, false, false, vv));
  let g2 = Space::new("2nt1t", 1, &[(1, 2, 2), (1, 2, 2)], false);
  f.push(space_family(mode, g2.clone(), 4, 2, false, false, vv));
  f.push(space_family(mode, g2, 4, 0, true, true, 1));
  let gl = Space::new("1nt1t-long", 1, &[(1, 2, 4)], false);
  f.push(space_family(mode, gl, 6, 0, false, false, 1));
  let gs = Space::new("2nt1t-wide", 1, &[(1, 1, 4), (1, 2, 1)], false);
  f.push(space_family(mode, gs, 6, 0, false, false, 1));
  if deep {
    let g = Space::new("1nt2t-3prods", 2, &[(1, 3, 3)], true);
    f.push(space_family(mode, g, 4, 2, false, false, 1));
    let g = Space::new("2nt2t", 2, &[(1, 2, 2), (1, 2, 2)], false);
    f.push(space_family(mode, g, 4, 2, false, false, 1));
    let g = Space::new("2nt1t-rhs3", 1, &[(1, 2, 3), (1, 2, 3)], false);
    f.push(space_family(mode, g, 4, 0, false, false, 1));
    let g = Space::new("3nt1t", 1, &[(1, 2, 2), (1, 1, 2), (1, 2, 2)], false);
    f.push(space_family(mode, g, 4, 0, false, false, 1));
    let g = Space::new("2nt1t-3prods", 1, &[(1, 3, 2), (1, 2, 2)], false);
    f.push(space_family(mode, g, 5, 0, true, false, 1));
  } else {
    let g = Space::new("2nt2t-mixed", 2, &[(1, 2, 2), (1, 2, 1)], false);
    f.push(space_family(mode, g, 3, 0, false, false, 1));
    let g = Space::new("3nt1t-small", 1, &[(1, 1, 2), (1, 2, 1), (1, 2, 1)], false);
    f.push(space_family(mode, g, 3, 0, true, false, 1));
  }
  f
}

const ASSUME: &[&str] = &[
  "grammars and inputs outside the listed spaces are not explored",
  "tokens are compared through their kinds and values only",
];

pub fn p01(tier: Tier) -> Property {
  Property {
    id: "P01",
    families: families(Mode::Recognise, tier),
    assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
    explanation: "states: (grammar, input) pairs, each parsed by the real \
      Earley parser and compared with membership by a naive least fixed point \
      over spans; transitions: facts derived by that fixed point; a panic or a \
      unit without an answer for 60 s is a violation"
      .into(),
  }
}

pub fn p02(tier: Tier) -> Property {
  Property {
    id: "P02",
    families: families(Mode::Sound, tier),
    assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
    explanation: "per (grammar, input) the forest returned by the real parser \
      is read through the public interface as a tree automaton, and the subset \
      construction decides whether every tree of any height it accepts is a \
      derivation; states: pairs (forest node, set of derivation states) \
      visited; transitions: combinations of child pairs"
      .into(),
  }
}

pub fn p03(tier: Tier) -> Property {
  Property {
    id: "P03",
    families: families(Mode::Complete, tier),
    assumptions: ASSUME.iter().map(|s| s.to_string()).collect(),
    explanation: "per (grammar, input) the automaton of all derivations (built \
      naively from the grammar) is compared with the forest returned by the \
      real parser: the subset construction decides whether every derivation \
      tree, of any height, can be read off the forest; states: pairs \
      (derivation state, set of forest nodes) visited"
      .into(),
  }
}

// ------------------------------------------------------------------ P04

/// A step of a history: which grammar, which input.
pub fn p04_menu(deep: bool) -> (Vec<Gram>, Vec<(usize, Vec<u16>, usize)>) {
  let gs = vec![
    gram("S:SS|a"),
    gram("S:S|a|"),
    gram("S:aSb|"),
    gram("S:A|B;A:a|B;B:a|A"),
    gram("E:E+E|n"),
    // Same action keys and terminals as the first, another language.
    gram("S:aS|a"),
  ];
  let mut m: Vec<(usize, Vec<u16>, usize)> = vec![
    (0, vec![0], 1),
    (0, vec![0, 0], 1),
    (0, vec![0, 0, 0], 0),
    (0, vec![0, 1], 0),
    (1, vec![], 0),
    (1, vec![0], 1),
    (2, vec![0, 1], 0),
    (2, vec![0, 0, 1, 1], 1),
    (3, vec![0], 1),
    (4, vec![1, 0, 1, 0, 1], 0),
    (5, vec![0, 0], 1),
    (5, vec![0, 0, 0], 0),
  ];
  if deep {
    m.push((0, vec![0, 0, 0], 1));
    m.push((2, vec![0, 1, 1], 0));
    m.push((3, vec![0, 0], 0));
    m.push((4, vec![1, 0, 1, 0, 1, 0, 1], 1));
    m.push((4, vec![1], 1));
    m.push((2, vec![], 0));
  }
  (gs, m)
}

/// Which productions share an action key.
#[derive(Clone, Copy)]
pub enum Keys {
  Unique,
  PerHead,
  One,
}

/// Steps over all grammars of small spaces, which all use the same small
/// action keys, terminals and values, so that their alternatives collide.
pub fn p04_steps(
  spaces: Vec<Space>,
  max_len: usize,
  keys: Keys,
) -> (Vec<Gram>, Vec<(usize, Vec<u16>, usize)>, String) {
  let mut gs: Vec<Gram> = Vec::new();
  let mut terms = 0;
  for sp in &spaces {
    terms = terms.max(sp.terms);
    gs.extend((0..sp.count()).filter_map(|i| sp.get(i)).map(|g| {
      match keys {
        Keys::Unique => g,
        Keys::PerHead => g.keys_per_head(),
        Keys::One => collapsed(&g, 250, 1),
      }
    }));
  }
  let inputs = strings(&(0..terms).collect::<Vec<_>>(), max_len);
  let mut menu: Vec<(usize, Vec<u16>, usize)> = Vec::new();
  let mut cost = Cost::default();
  for (i, g) in gs.iter().enumerate() {
    for input in &inputs {
      // Failed parses are kept for the shortest input only.
      if input.len() < 2 || in_language(g, input, &mut cost) {
        menu.push((i, input.clone(), 1));
      }
    }
  }
  let note = format!(
    "the {} (grammar, input) steps of {} grammars \
     ({}), inputs of length <= {}, equal token values, {}",
    menu.len(),
    gs.len(),
    spaces.iter().map(|s| s.note.as_str()).collect::<Vec<_>>().join("; "),
    max_len,
    match keys {
      Keys::Unique => "the same action keys in every grammar",
      Keys::PerHead => "action keys unique per head only",
      Keys::One => "one action key for all productions",
    }
  );
  (gs, menu, note)
}

/// Every ordered pair of steps over all grammars of small spaces, with the
/// first step repeated at the end.  All grammars use the same small action
/// keys, terminals and values, so that their alternatives collide.
fn p04_pairs(name: &str, spaces: Vec<Space>, max_len: usize, keys: Keys) -> Family {
  let (gs, menu, note) = p04_steps(spaces, max_len, keys);
  let note = format!("all histories x, y, x over {}", note);
  let units = menu.len() as u64;
  let gs = Arc::new(gs);
  let menu = Arc::new(menu);
  Family::new(name, units, note, move |u, st| {
    let sgs: Vec<SG> = gs.iter().map(start_grammar).collect::<Result<_, _>>()?;
    let mut fresh = Fresh::new();
    for y in 0..menu.len() {
      let hist = [u as usize, y, u as usize];
      p04_history(&gs, &sgs, &menu, &hist, &mut fresh, false, st)?;
    }
    Ok(())
  })
}

/// Long histories: the whole menu in several orders in one store.
fn p04_long(gs: Vec<Gram>, menu: Vec<(usize, Vec<u16>, usize)>, rounds: usize) -> Family {
  let k = menu.len();
  let strides: Vec<usize> = (1..k).filter(|s| gcd(*s, k) == 1).collect();
  let gs = Arc::new(gs);
  let menu = Arc::new(menu);
  let note = format!(
    "{} histories of {} parses: {} times the whole menu, in the order of every \
     stride prime to its size and from every start; all results checked at the end",
    strides.len() * k,
    k * rounds,
    rounds
  );
  Family::new("long", (strides.len() * k) as u64, note, move |u, st| {
    let sgs: Vec<SG> = gs.iter().map(start_grammar).collect::<Result<_, _>>()?;
    let s = strides[u as usize / k];
    let from = u as usize % k;
    let hist: Vec<usize> = (0..k * rounds).map(|i| (from + i * s) % k).collect();
    p04_history(&gs, &sgs, &menu, &hist, &mut Fresh::new(), true, st)
  })
}

/// Steps whose forests have many nodes: of one alternative, and of two.
fn p04_fills(
  gs: &mut Vec<Gram>,
  menu: &mut Vec<(usize, Vec<u16>, usize)>,
  sizes: &[usize],
) -> Vec<usize> {
  let from = menu.len();
  for n in sizes {
    let mut w = vec![0; *n];
    w[0] = 1;
    menu.push((gs.len(), w, 0));
    menu.push((gs.len() + 1, vec![0; *n / 4 + 1], 0));
  }
  gs.push(gram("S:Sa|b"));
  gs.push(gram("S:SX|X;X:A|B;A:a;B:a"));
  (from..menu.len()).collect()
}

/// Every ordered pair of steps, with the first repeated at the end, in a store
/// that already holds a large forest.
fn p04_filled_pairs(
  mut gs: Vec<Gram>,
  mut menu: Vec<(usize, Vec<u16>, usize)>,
  sizes: &[usize],
) -> Family {
  let k = menu.len();
  let fills = p04_fills(&mut gs, &mut menu, sizes);
  let note = format!(
    "all histories x, y, x over the menu, in stores that already hold the forests \
     of lists of {:?} tokens",
    sizes
  );
  Family::new("filled-pairs", (fills.len() * k) as u64, note, move |u, st| {
    let sgs: Vec<SG> = gs.iter().map(start_grammar).collect::<Result<_, _>>()?;
    let fill = fills[u as usize / k];
    let x = u as usize % k;
    let mut fresh = Fresh::new();
    for y in 0..k {
      p04_history(&gs, &sgs, &menu, &[fill, x, y, x], &mut fresh, true, st)?;
    }
    Ok(())
  })
}

/// The whole menu, in several orders, in a store that already holds a large
/// forest.
fn p04_filled(
  name: &str,
  (mut gs, mut menu, note): (Vec<Gram>, Vec<(usize, Vec<u16>, usize)>, String),
  sizes: &[usize],
) -> Family {
  let k = menu.len();
  let fills = p04_fills(&mut gs, &mut menu, sizes);
  let strides: Vec<usize> =
    [1, k - 1].into_iter().chain((7..k).filter(|s| gcd(*s, k) == 1).take(4)).collect();
  let units = (fills.len() * strides.len()) as u64;
  let note = format!(
    "{} histories: all of {}, in {} orders, in stores that already hold the forests \
     of lists of {:?} tokens; all results checked at the end",
    units,
    note,
    strides.len(),
    sizes
  );
  Family::new(name, units, note, move |u, st| {
    let sgs: Vec<SG> = gs.iter().map(start_grammar).collect::<Result<_, _>>()?;
    let s = strides[u as usize % strides.len()];
    let mut hist = vec![fills[u as usize / strides.len()]];
    hist.extend((0..k).map(|i| (i * s) % k));
    p04_history(&gs, &sgs, &menu, &hist, &mut Fresh::new(), true, st)
  })
}

fn gcd(a: usize, b: usize) -> usize {
  if b == 0 {
    a
  } else {
    gcd(b, a % b)
  }
}

pub fn p04(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let depth = if deep { 4 } else { 3 };
  let (gs, menu) = p04_menu(deep);
  let k = menu.len() as u64;
  let units = k.pow(2);
  let long = p04_long(gs.clone(), menu.clone(), if deep { 20 } else { 4 });
  let sizes: &[usize] = if deep { &[130, 600, 1100, 3000, 9000] } else { &[600, 3000] };
  let filled = p04_filled_pairs(gs.clone(), menu.clone(), sizes);
  let gs = Arc::new(gs);
  let menu = Arc::new(menu);
  let note = format!(
    "all histories of {} parses from a menu of {} (grammar, input, values) \
     steps over {} grammars, in one shared tree store; every prefix is checked",
    depth, k, gs.len()
  );
  let run = move |u: u64, st: &mut Stats| -> Verdict {
    let sgs: Vec<SG> =
      gs.iter().map(start_grammar).collect::<Result<_, _>>()?;
    let rest = depth - 2;
    let mut fresh = Fresh::new();
    for r in 0..k.pow(rest as u32) {
      let mut hist = vec![(u / k) as usize, (u % k) as usize];
      let mut x = r;
      for _ in 0..rest {
        hist.push((x % k) as usize);
        x /= k;
      }
      p04_history(&gs, &sgs, &menu, &hist, &mut fresh, false, st)?;
    }
    Ok(())
  };
  let mut families = vec![Family::new("histories", units, note, run), long, filled];
  let small = || {
    vec![
      Space::new("2nt1t-rhs1", 1, &[(1, 2, 1), (1, 2, 1)], false),
      Space::new("1nt1t", 1, &[(1, 2, 2)], false),
    ]
  };
  let all = [(Keys::Unique, ""), (Keys::PerHead, "-perhead"), (Keys::One, "-onekey")];
  let mid = |p: &[(usize, usize, usize)]| vec![Space::new("2nt1t-mid", 1, p, false)];
  for (keys, suffix) in all {
    let pairs = |families: &mut Vec<Family>, name: &str, spaces, len| {
      families.push(p04_pairs(&format!("{}{}", name, suffix), spaces, len, keys));
    };
    pairs(&mut families, "pairs", small(), 2);
    pairs(&mut families, "pairs-mid", mid(&[(1, 1, 2), (1, 2, 1)]), 2);
    pairs(&mut families, "pairs-mid2", mid(&[(1, 2, 2), (1, 1, 1)]), 2);
    families.push(p04_filled(
      &format!("filled{}", suffix),
      p04_steps(small(), 2, keys),
      &[1000, 11_000, 66_000],
    ));
    if deep {
      pairs(&mut families, "pairs-2nt1t", mid(&[(1, 2, 2), (1, 2, 1)]), 2);
      pairs(&mut families, "pairs-1nt2t", vec![Space::new("1nt2t", 2, &[(1, 2, 2)], false)], 3);
    }
  }
  Property {
    id: "P04",
    families,
    assumptions: vec![
      "histories longer than the stated depths, and grammars outside the menus, \
       are not explored"
        .into(),
      "each parse alone is the reference for the same parse in a shared store; \
       that it is right is P01 to P03"
        .into(),
    ],
    explanation: "states: (history prefix, earlier result) pairs; after each \
      parse every forest returned so far is read again and compared, as a set \
      of trees of any height in both directions by the subset construction, \
      with what the same parse returns in a fresh store"
      .into(),
  }
}

/// What each step returns in a fresh store; None: it panics.
type Fresh = std::collections::HashMap<usize, Option<Option<Ta>>>;

fn p04_history(
  gs: &[Gram],
  sgs: &[SG],
  menu: &[(usize, Vec<u16>, usize)],
  hist: &[usize],
  fresh: &mut Fresh,
  only_at_end: bool,
  st: &mut Stats,
) -> Verdict {
  let tree = Tree::new();
  for h in hist {
    fresh.entry(*h).or_insert_with(|| {
      let (gi, input, vv) = &menu[*h];
      let vals = values(input.len(), *vv);
      let fresh_tree = Tree::new();
      match run_parse(&sgs[*gi], &fresh_tree, input, &vals) {
        Ok(f) => Some(f.as_ref().map(read_forest)),
        Err(_) => None,
      }
    });
  }
  let fresh = &*fresh;
  let mut results: Vec<(Option<Node<'_, Tm, Ak, Av2>>, &Option<Ta>)> = vec![];
  let show = |upto: usize| {
    hist[..=upto]
      .iter()
      .map(|h| {
        let (g, i, v) = &menu[*h];
        format!("  parse {} with {}", show_input(i, &values(i.len(), *v)), gs[*g].show())
      })
      .collect::<Vec<_>>()
      .join("\n")
  };
  for (step, h) in hist.iter().enumerate() {
    let (gi, input, vv) = &menu[*h];
    let vals = values(input.len(), *vv);
    let fresh_ta = match &fresh[h] {
      None => {
        // Not about sharing (P01).
        st.outcome("parse panics in a fresh store");
        return Ok(());
      }
      Some(f) => f,
    };
    let got = run_parse(&sgs[*gi], &tree, input, &vals)
      .map_err(|p| format!("history:\n{}\nlast parse panics: {}", show(step), p))?;
    results.push((got, fresh_ta));
    st.traces += 1;
    if only_at_end && step + 1 < hist.len() {
      continue;
    }
    for (old, (node, want)) in results.iter().enumerate() {
      st.states_extra += 1;
      match (node, want) {
        (None, None) => {}
        (Some(n), Some(w)) => {
          let now = guard(|| read_forest(n))
            .map_err(|p| format!("history:\n{}\nreading panics: {}", show(step), p))?;
          if now == *w {
            st.outcome("same graph");
            continue;
          }
          let mut ic = InclCost::default();
          for (a, b, what) in
            [(&now, w, "gained"), (w, &now, "lost")]
          {
            match included(a, b, INCL_CAP, &mut ic) {
              Incl::Yes => {}
              Incl::Capped => st.capped += 1,
              Incl::No(t) => {
                return Err(format!(
                  "history:\n{}\nafter step {}, the result of step {} {} the tree {}\n\
                   now: {}\nalone: {}",
                  show(step), step + 1, old + 1, what, t, now.show(), w.show()
                ));
              }
            }
          }
          st.transitions += ic.transitions;
          st.outcome("another graph, same trees");
        }
        _ => {
          return Err(format!(
            "history:\n{}\nstep {}: a tree in a fresh store: {}, in the shared store: {}",
            show(step), old + 1, want.is_some(), node.is_some()
          ));
        }
      }
    }
  }
  st.sample(|| show(hist.len() - 1));
  Ok(())
}
