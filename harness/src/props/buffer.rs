//! P20: reading text buffers.

use crate::engine::*;
use crate::hist::*;
use bongo::utils::buffer::BufferRange;

#[derive(Clone, Debug)]
enum Op {
  ReadMut(usize),
  Read(usize),
  AdvanceMut(usize, usize),
  Advance(usize, usize),
  RemoveSuffix(usize, usize),
  Clone(usize),
}

struct W {
  text: Vec<char>,
  /// Ranges with their start and end, in characters.
  r: Vec<(usize, usize, BufferRange)>,
  pool: usize,
  big: usize,
}

fn text_of(c: &[char]) -> String {
  c.iter().collect()
}

impl W {
  fn push(&mut self, a: usize, b: usize, r: BufferRange) {
    self.r.push((a, b, r));
  }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Verdict {
  if got != want {
    return Err(format!("{}: {:?}, expected {:?}", what, got, want));
  }
  Ok(())
}

impl World for W {
  /// Text, number of ranges, largest count to read.
  type Cfg = (String, usize, usize);
  type Op = Op;

  fn new(c: &Self::Cfg) -> Self {
    let text: Vec<char> = c.0.chars().collect();
    let r = BufferRange::new("<mc>", &c.0);
    W { r: vec![(0, text.len(), r)], text, pool: c.1, big: c.2 }
  }

  fn ops(&self) -> Vec<Op> {
    let mut v = Vec::new();
    let room = self.r.len() < self.pool;
    for i in 0..self.r.len() {
      v.push(Op::ReadMut(i));
      for n in 0..=self.big {
        v.push(Op::AdvanceMut(i, n));
      }
      if room {
        v.push(Op::Read(i));
        for n in 0..=self.big {
          v.push(Op::Advance(i, n));
        }
        v.push(Op::Clone(i));
        for j in 0..self.r.len() {
          if self.r[i].1 == self.r[j].1 && self.r[i].0 <= self.r[j].0 {
            v.push(Op::RemoveSuffix(i, j));
          }
        }
      }
    }
    v
  }

  fn apply(&mut self, op: &Op) -> Verdict {
    match *op {
      Op::ReadMut(i) => {
        let (a, b, r) = &mut self.r[i];
        let want = if a < b { Some(self.text[*a]) } else { None };
        same("read_char_mut", r.read_char_mut(), want)?;
        if want.is_some() {
          *a += 1;
        }
      }
      Op::Read(i) => {
        let (a, b, r) = self.r[i].clone();
        let want = if a < b { Some(self.text[a]) } else { None };
        let got = r.read_char();
        same("read_char", got.as_ref().map(|x| x.0), want)?;
        if let Some((_, n)) = got {
          self.push(a + 1, b, n);
        }
      }
      Op::AdvanceMut(i, n) => {
        let (a, b, r) = &mut self.r[i];
        let want = if *b - *a >= n {
          Some(text_of(&self.text[*a..*a + n]))
        } else {
          None
        };
        let got = r.advance_n_mut(n).map(|s| s.to_string());
        if want.is_some() {
          *a += n;
        }
        same("advance_n_mut", got, want)?;
      }
      Op::Advance(i, n) => {
        let (a, b, r) = self.r[i].clone();
        let want = if b - a >= n {
          Some(text_of(&self.text[a..a + n]))
        } else {
          None
        };
        let got = r.advance_n(n);
        same("advance_n", got.as_ref().map(|x| x.0.to_string()), want)?;
        if let Some((_, x)) = got {
          self.push(a + n, b, x);
        }
      }
      Op::RemoveSuffix(i, j) => {
        let (a, b) = (self.r[i].0, self.r[j].0);
        let x = self.r[i].2.remove_suffix(&self.r[j].2);
        self.push(a, b, x);
      }
      Op::Clone(i) => {
        let c = self.r[i].clone();
        self.r.push(c);
      }
    }
    Ok(())
  }

  fn check(&mut self) -> Verdict {
    for (i, (a, b, r)) in self.r.iter().enumerate() {
      let want = text_of(&self.text[*a..*b]);
      same(&format!("text of range {}", i), r.as_str(), &want)?;
      same(&format!("length of range {}", i), r.byte_len(), want.len())?;
      same(&format!("emptiness of range {}", i), r.empty(), want.is_empty())?;
    }
    Ok(())
  }

  fn key(&self) -> u64 {
    let p: Vec<_> = self.r.iter().map(|x| (x.0, x.1)).collect();
    hash(&(&self.text, p))
  }
}

const ALPHA: &[char] =
  &['a', '\u{e9}', '\u{3042}', '\u{1F600}', '\u{301}', '\r', '\n'];

fn texts(alpha: &[char], max: usize) -> Vec<String> {
  let mut out = vec![String::new()];
  let mut from = 0;
  for _ in 0..max {
    let to = out.len();
    for i in from..to {
      for c in alpha {
        let mut s = out[i].clone();
        s.push(*c);
        out.push(s);
      }
    }
    from = to;
  }
  out
}

/// Long texts read in steps of every size.
fn long(max: u64) -> Family {
  Family::new(
    "long",
    max + 1,
    format!("texts of 0 to {} characters of mixed widths, read in steps of every size", max),
    |n, st| {
      let n = n as usize;
      let text: Vec<char> = (0..n).map(|i| ALPHA[i * i % 7]).collect();
      let whole = BufferRange::new("", text_of(&text));
      for step in 1..=n + 1 {
        let mut r = whole.clone();
        let mut at = 0;
        loop {
          let before = r.clone();
          let fits = at + step <= n;
          let got = r.advance_n_mut(step).map(|s| s.to_string());
          let want =
            if fits { Some(text_of(&text[at..at + step])) } else { None };
          same("advance_n_mut", got, want)?;
          if fits {
            at += step;
            let cut = whole.remove_suffix(&r);
            same("text before", cut.as_str(), &text_of(&text[..at]))?;
            let piece = before.remove_suffix(&r);
            same("piece", piece.as_str(), &text_of(&text[at - step..at]))?;
            // The piece ends where its own text ends.
            if piece.advance_n(step + 1).is_some() {
              return Err("reading past the end of a piece".to_string());
            }
            same("piece read", piece.advance_n(step).is_some(), true)?;
          }
          same("rest", r.as_str(), &text_of(&text[at..]))?;
          same("length", r.byte_len(), text_of(&text[at..]).len())?;
          same("empty", r.empty(), at == n)?;
          st.transitions += 1;
          if !fits {
            break;
          }
        }
        st.traces += 1;
        st.states_extra += 1;
      }
      Ok(())
    },
  )
}

/// Every character there is, in several surroundings.
fn every_char() -> Family {
  const CHUNK: u32 = 2048;
  Family::new(
    "every character",
    (0x11_0000 / CHUNK) as u64,
    "every Unicode character at the start, in the middle and at the end of a text",
    move |u, st| {
      for c in u as u32 * CHUNK..(u as u32 + 1) * CHUNK {
        let c = match char::from_u32(c) {
          Some(c) => c,
          None => continue,
        };
        for text in [vec![c], vec![c, 'b'], vec!['\u{e9}', c], vec!['a', c, 'b']] {
          let s = text_of(&text);
          let whole = BufferRange::new("<mc>", &s);
          let mut r = whole.clone();
          for i in 0..=text.len() {
            same("text", r.as_str(), &text_of(&text[i..]))?;
            same("length", r.byte_len(), text_of(&text[i..]).len())?;
            same("before", whole.remove_suffix(&r).as_str(), &text_of(&text[..i]))?;
            let n = text.len() - i;
            same("all", r.advance_n(n).map(|x| x.0.to_string()), Some(text_of(&text[i..])))?;
            same("more", r.advance_n(n + 1).is_none(), true)?;
            same("read_char", r.read_char().map(|x| x.0), text.get(i).copied())?;
            same("read_char_mut", r.read_char_mut(), text.get(i).copied())?;
            st.transitions += 1;
          }
          same("at the end", r.empty(), true)?;
          st.traces += 1;
          st.states_extra += 1;
        }
      }
      Ok(())
    },
  )
}

/// Large texts.
fn sizes(list: Vec<usize>) -> Family {
  Family::new(
    "sizes",
    list.len() as u64,
    format!("texts of {:?} characters, read at once, by halves and one by one", list),
    move |u, st| {
      let n = list[u as usize];
      for alpha in [&['a'][..], &['\u{1F600}'][..], ALPHA] {
        let text: Vec<char> = (0..n).map(|i| alpha[i * i % alpha.len()]).collect();
        let s = text_of(&text);
        let whole = BufferRange::new("x", &s);
        same("text", whole.as_str(), &s)?;
        same("length", whole.byte_len(), s.len())?;
        same("too much", whole.advance_n(n + 1).is_none(), true)?;
        same("as many as bytes", whole.advance_n(s.len()).is_some(), s.len() == n)?;
        same("far too much", whole.clone().advance_n_mut(usize::MAX).is_none(), true)?;
        for k in [0, 1, n / 2, n.saturating_sub(1), n] {
          if k > n {
            continue;
          }
          let (got, rest) = whole.advance_n(k).ok_or("a read that fits fails")?;
          same("read", got, &text_of(&text[..k]))?;
          same("rest", rest.as_str(), &text_of(&text[k..]))?;
          let mut m = whole.clone();
          same("read", m.advance_n_mut(k), Some(&*text_of(&text[..k])))?;
          same("rest", m.as_str(), rest.as_str())?;
          let mut cut = whole.remove_suffix(&rest);
          same("before", cut.as_str(), &text_of(&text[..k]))?;
          same("past the cut", cut.advance_n(k + 1).is_none(), true)?;
          same("past the cut", cut.advance_n_mut(n + 1).is_none(), true)?;
          same("to the cut", cut.advance_n_mut(k).is_some(), true)?;
          same("empty", cut.empty(), true)?;
          st.transitions += 1;
        }
        let mut r = whole.clone();
        for c in &text {
          same("character", r.read_char_mut(), Some(*c))?;
        }
        same("end", r.read_char_mut(), None)?;
        st.traces += 1;
        st.states_extra += 1;
        beat();
      }
      Ok(())
    },
  )
}

pub fn p20(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let widths: &[char] = &['a', '\u{e9}', '\u{3042}', '\u{1F600}'];
  let cfgs = |a: &[char], n, pool: usize| -> Vec<(String, usize, usize)> {
    texts(a, n)
      .into_iter()
      .map(|s| {
        let k = s.chars().count() + 1;
        (s, pool, k)
      })
      .collect()
  };
  let mut f = vec![
    long(if deep { 120 } else { 60 }),
    every_char(),
    sizes(if deep { edges(65536) } else { edges_and(8192, 65536) }),
    histories::<W>("widths", cfgs(widths, 3, 3), 3, "texts of up to 3 characters of 4 widths, up to 3 ranges"),
    histories::<W>("all characters", cfgs(ALPHA, 2, 3), 3, "texts of up to 2 of 7 characters, up to 3 ranges"),
    histories::<W>("deeper", cfgs(&['a', '\u{3042}'], 2, 3), 4, "texts of up to 2 of 2 characters, up to 3 ranges"),
  ];
  if deep {
    f.push(histories::<W>("widths-deep", cfgs(widths, 3, 3), 4, "texts of up to 3 characters of 4 widths, up to 3 ranges"));
    f.push(histories::<W>("all characters-deep", cfgs(ALPHA, 4, 2), 3, "texts of up to 4 of 7 characters, up to 2 ranges"));
    f.push(histories::<W>("deepest", cfgs(&['a', '\u{3042}'], 2, 3), 5, "texts of up to 2 of 2 characters, up to 3 ranges"));
  }
  Property {
    id: "P20",
    families: f,
    assumptions: vec![
      "remove_suffix is only asked to remove a range with the same end".into(),
    ],
    explanation: "states: (text, start and end of each range held); transitions: \
      operations; after every history the text, length and emptiness of every \
      range are compared with a vector of characters"
      .into(),
  }
}
