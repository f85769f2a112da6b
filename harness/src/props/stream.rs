//! P19: token streams.

use crate::cfg::*;
use crate::engine::*;
use crate::hist::*;
use crate::spaces::gram;
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, NodeContent, TreeOwner};
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use bongo::start_grammar::{wrap_grammar_with_start, StartGrammar};

type Tok = (u16, u16);
type RTok = Token<Tm, Val>;
type Stream = VecTokenStream<Tm, Val>;
type SG = StartGrammar<Tm, Nt, Ak, Av>;

/// A value that owns memory.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Val(Box<u16>);

fn real(t: Tok) -> RTok {
  Token::new(Tm(t.0), Val(Box::new(t.1)))
}

/// A token shows its kind and value only to the parser.
struct Reader(SG);

impl Reader {
  fn new() -> Reader {
    let g = to_bongo(&gram("S:|Sa|Sb|Sc")).expect("the reader's grammar");
    Reader(wrap_grammar_with_start(g).expect("the reader's grammar"))
  }

  fn read(&self, toks: Vec<RTok>) -> Result<Vec<Tok>, String> {
    let o: TreeOwner<Tm, Ak, Val> = TreeOwner::new();
    let root = parse(&self.0, &o.handle(), toks)
      .ok_or("the tokens read have no known kinds")?;
    fn walk(n: &Node<Tm, Ak, Val>, out: &mut Vec<Tok>) -> Verdict {
      let a = n.alts().next().ok_or("no alternative")?;
      match a.content() {
        NodeContent::Leaf(l) => out.push((l.kind().0, *l.value().0)),
        NodeContent::Branch(b) => {
          for k in b.nodes() {
            walk(&k, out)?;
          }
        }
      }
      Ok(())
    }
    let mut out = Vec::new();
    walk(&root, &mut out)?;
    Ok(out)
  }
}

thread_local! {
  static READER: Reader = Reader::new();
}

fn read(toks: Vec<RTok>) -> Result<Vec<Tok>, String> {
  READER.with(|r| r.read(toks))
}

/// A sequence whose iterator does not know its length.
fn unsized_iter(toks: &[Tok]) -> impl Iterator<Item = RTok> + '_ {
  let mut i = 0;
  std::iter::from_fn(move || {
    let t = toks.get(i).copied();
    i += 1;
    t.map(real)
  })
}

/// An iterator with a lower and an upper bound of its length of its own.
struct Hinted<I>(I, usize, Option<usize>);

impl<I: Iterator> Iterator for Hinted<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    let x = self.0.next();
    self.1 = self.1.saturating_sub(1);
    self.2 = self.2.map(|n| n.saturating_sub(1));
    x
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    (self.1, self.2)
  }
}

/// Every correct pair of bounds of a length, up to some slack.
fn hints(max: usize) -> Family {
  Family::new(
    "bounds",
    max as u64 + 1,
    format!(
      "sequences of 0 to {} tokens whose iterators tell any lower bound up to \
       the length, and no upper bound or any up to three more; collections of \
       the standard library",
      max
    ),
    |n, st| {
      let n = n as usize;
      let toks: Vec<Tok> =
        (0..n).map(|i| ((i % 3) as u16, (i * 7 % 5) as u16)).collect();
      let it = || toks.iter().copied().map(real);
      let mut all: Vec<(String, Stream)> = Vec::new();
      for lo in 0..=n {
        for up in (n..=n + 3).map(Some).chain([None, Some(usize::MAX)]) {
          all.push((
            format!("bounds {} {:?}", lo, up),
            Stream::from_into_iter(Hinted(it(), lo, up)),
          ));
        }
      }
      use std::collections::*;
      all.push(("deque".into(), Stream::from_into_iter(it().collect::<VecDeque<_>>())));
      all.push(("list".into(), Stream::from_into_iter(it().collect::<LinkedList<_>>())));
      all.push(("boxes".into(), Stream::from_into_iter(Vec::from_iter(it().collect::<Box<[_]>>().into_vec()))));
      all.push(("chain".into(), Stream::from_into_iter(it().take(n / 2).chain(it().skip(n / 2)))));
      all.push(("filter".into(), Stream::from_into_iter(it().chain(it()).enumerate().filter(|x| x.0 >= n).map(|x| x.1))));
      all.push(("reversed".into(), Stream::from_into_iter(it().rev().collect::<Vec<_>>().into_iter().rev())));
      let boxed: Box<dyn Iterator<Item = RTok>> = Box::new(it());
      all.push(("boxed".into(), Stream::from_into_iter(boxed)));
      if n == 1 {
        all.push(("option".into(), Stream::from_into_iter(Some(real(toks[0])))));
      }
      for (how, s) in all {
        let v = drain(&s, n).map_err(|e| format!("{}: {}", how, e))?;
        if v.len() != n || read(v)? != toks {
          return Err(format!("{} tokens, {}: other tokens are read", n, how));
        }
        st.traces += 1;
        st.states_extra += 1;
        st.transitions += n as u64 + 1;
      }
      Ok(())
    },
  )
}

/// Some bounds of larger lengths.
fn large_hints(max: usize) -> Family {
  let ns = edges(max);
  Family::new(
    "bounds of large streams",
    ns.len() as u64,
    format!(
      "sequences of up to {} tokens, around the powers of two, with the lower \
       bounds 0, 1, half, all but one and all, and as upper bounds none, all, one \
       and n more, the largest",
      max
    ),
    move |u, st| {
      let n = ns[u as usize];
      let toks: Vec<Tok> =
        (0..n).map(|i| ((i % 3) as u16, i as u16)).collect();
      for lo in [0, 1.min(n), n / 2, n.saturating_sub(1), n] {
        for up in [None, Some(n), Some(n + 1), Some(2 * n), Some(usize::MAX)] {
          let it = toks.iter().copied().map(real);
          let s = Stream::from_into_iter(Hinted(it, lo, up));
          let how = format!("{} tokens, bounds {} {:?}", n, lo, up);
          let v = drain(&s, n).map_err(|e| format!("{}: {}", how, e))?;
          if v.len() != n || read(v)? != toks {
            return Err(format!("{}: other tokens are read", how));
          }
          st.traces += 1;
          st.states_extra += 1;
          st.transitions += n as u64 + 1;
          beat();
        }
      }
      Ok(())
    },
  )
}

/// Large streams; a token's value is read through its clones.
fn sizes(list: Vec<usize>) -> Family {
  Family::new(
    "sizes",
    list.len() as u64,
    format!("streams of {:?} tokens", list),
    move |u, st| {
      let n = list[u as usize];
      let toks: Vec<Tok> =
        (0..n).map(|i| ((i % 3) as u16, i as u16)).collect();
      let s = Stream::from_into_iter(toks.iter().copied().map(real));
      let v = drain(&s, n)?;
      if v.len() != n {
        return Err(format!("{} tokens of {}", v.len(), n));
      }
      for (g, w) in v.chunks(12).zip(toks.chunks(12)) {
        if read(g.to_vec())? != w {
          return Err(format!("tokens of a stream of {} differ", n));
        }
        beat();
      }
      // Types without values.
      let mut z = VecTokenStream::from_into_iter((0..n).map(|_| Token::new((), ())));
      for i in 0..n {
        z = z.next().ok_or(format!("{} of {} tokens without values", i, n))?.1;
      }
      if z.next().is_some() {
        return Err("a token after the end".to_string());
      }
      st.traces += 2;
      st.states_extra += n as u64 + 1;
      st.transitions += n as u64 + 1;
      Ok(())
    },
  )
}

fn drain(s: &Stream, max: usize) -> Result<Vec<RTok>, String> {
  let mut out = Vec::new();
  let mut s = s.clone();
  while let Some((t, r)) = s.next() {
    out.push(t);
    s = r;
    if out.len() > max {
      return Err("the stream does not end".to_string());
    }
  }
  if s.next().is_some() {
    return Err("a token after the end".to_string());
  }
  Ok(out)
}

#[derive(Clone, Debug)]
enum Op {
  /// Reads from a stream; the rest is a new stream.
  Next(usize),
  /// Reads from a stream and continues with the rest only.
  Step(usize),
  Clone(usize),
  Drop(usize),
  /// Makes a new stream out of what one yields.
  Copy(usize),
}

struct W {
  toks: Vec<Tok>,
  /// Streams with their positions.
  s: Vec<(usize, Stream)>,
  /// Every token read, with what it should be.
  got: Vec<(Tok, RTok)>,
  max: usize,
}

impl World for W {
  type Cfg = (Vec<Tok>, usize);
  type Op = Op;

  fn new(c: &Self::Cfg) -> Self {
    let s = VecTokenStream::from_into_iter(
      c.0.iter().copied().map(real).collect::<Vec<_>>(),
    );
    W { toks: c.0.clone(), s: vec![(0, s)], got: vec![], max: c.1 }
  }

  fn ops(&self) -> Vec<Op> {
    let mut v = Vec::new();
    for i in 0..self.s.len() {
      v.push(Op::Step(i));
      if self.s.len() < self.max {
        v.push(Op::Next(i));
        v.push(Op::Clone(i));
        v.push(Op::Copy(i));
      }
      if self.s.len() > 1 {
        v.push(Op::Drop(i));
      }
    }
    v
  }

  fn apply(&mut self, op: &Op) -> Verdict {
    match op {
      Op::Next(i) | Op::Step(i) => {
        let (p, s) = &self.s[*i];
        let p = *p;
        match (s.next(), self.toks.get(p)) {
          (None, None) => {}
          (Some((t, r)), Some(w)) => {
            self.got.push((*w, t));
            if matches!(op, Op::Step(_)) {
              self.s[*i] = (p + 1, r);
            } else {
              self.s.push((p + 1, r));
            }
          }
          (r, w) => {
            return Err(format!(
              "reading at {} of {:?}: a token {}, expected {:?}",
              p,
              self.toks,
              r.is_some(),
              w
            ))
          }
        }
      }
      Op::Clone(i) => {
        let c = self.s[*i].clone();
        self.s.push(c);
      }
      Op::Copy(i) => {
        let (p, s) = &self.s[*i];
        let v = drain(s, self.toks.len())?;
        for (t, w) in v.iter().zip(&self.toks[*p..]) {
          self.got.push((*w, t.clone()));
        }
        if v.len() != self.toks.len() - p {
          return Err(format!("{} tokens after {}", v.len(), p));
        }
        // All tokens again, this stream's position being behind them.
        let mut c = VecTokenStream::from_into_iter(
          self.toks[..*p].iter().map(|t| real(*t)).chain(v),
        );
        for _ in 0..*p {
          c = c.next().ok_or("a stream ends early")?.1;
        }
        let p = *p;
        self.s.push((p, c));
      }
      Op::Drop(i) => {
        self.s.remove(*i);
      }
    }
    Ok(())
  }

  fn check(&mut self) -> Verdict {
    let mut all: Vec<RTok> = self.got.iter().map(|x| x.1.clone()).collect();
    let mut want: Vec<Tok> = self.got.iter().map(|x| x.0).collect();
    for (p, s) in &self.s {
      let v = drain(s, self.toks.len())?;
      if v.len() != self.toks.len() - p {
        return Err(format!(
          "{} tokens from position {} of {:?}",
          v.len(),
          p,
          self.toks
        ));
      }
      all.extend(v);
      want.extend_from_slice(&self.toks[*p..]);
    }
    let got = read(all)?;
    if got != want {
      return Err(format!(
        "(kind, value) of the tokens read: {:?}, expected {:?}",
        got, want
      ));
    }
    Ok(())
  }

  fn key(&self) -> u64 {
    hash(&(&self.toks, self.s.iter().map(|x| x.0).collect::<Vec<_>>()))
  }
}

fn seqs(alpha: &[Tok], max: usize) -> Vec<Vec<Tok>> {
  let mut out: Vec<Vec<Tok>> = vec![vec![]];
  let mut from = 0;
  for _ in 0..max {
    let to = out.len();
    for i in from..to {
      for t in alpha {
        let mut s = out[i].clone();
        s.push(*t);
        out.push(s);
      }
    }
    from = to;
  }
  out
}

/// Long streams, from collections of several sorts, every position kept and
/// read again in several orders.
fn long(max: u64) -> Family {
  Family::new(
    "long",
    max + 1,
    format!(
      "streams of 0 to {} tokens, from vectors and from iterators of unknown \
       length; every position is read again in reverse and in forward order",
      max
    ),
    |n, st| {
      let toks: Vec<Tok> =
        (0..n).map(|i| ((i % 3) as u16, (i * 7 % 5) as u16)).collect();
      for how in 0..2 {
        let s: Stream = if how == 0 {
          VecTokenStream::from_into_iter(
            toks.iter().copied().map(real).collect::<Vec<_>>(),
          )
        } else {
          VecTokenStream::from_into_iter(unsized_iter(&toks))
        };
        let mut at = vec![s];
        let mut got = Vec::new();
        let mut want = Vec::new();
        for (i, w) in toks.iter().enumerate() {
          let (t, r) =
            at[i].next().ok_or(format!("{} of {} tokens", i, n))?;
          got.push(t);
          want.push(*w);
          at.push(r);
        }
        for order in [true, false] {
          for k in 0..=toks.len() {
            let i = if order { toks.len() - k } else { k };
            let x = at[i].next();
            match (x, toks.get(i)) {
              (None, None) => {}
              (Some((t, r)), Some(w)) => {
                got.push(t);
                want.push(*w);
                if let (Some((t, _)), Some(w)) = (r.next(), toks.get(i + 1)) {
                  got.push(t);
                  want.push(*w);
                } else if i + 1 < toks.len() {
                  return Err(format!("the stream ends after {}", i));
                }
              }
              _ => return Err(format!("reading at {} of {}", i, n)),
            }
            st.transitions += 1;
          }
        }
        // In pieces: the reader's parse grows faster than its input.
        for (g, w) in got.chunks(12).zip(want.chunks(12)) {
          if read(g.to_vec())? != w {
            return Err(format!("tokens of a stream of {} differ", n));
          }
        }
        st.traces += 1;
        st.states_extra += n + 1;
      }
      Ok(())
    },
  )
}

pub fn p19(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let full: Vec<Tok> = vec![(0, 0), (0, 1), (1, 0), (1, 1)];
  let small: Vec<Tok> = vec![(0, 0), (1, 1)];
  let cfgs = |a: &[Tok], n, pool: usize| -> Vec<(Vec<Tok>, usize)> {
    seqs(a, n).into_iter().map(|s| (s, pool)).collect()
  };
  let mut f = vec![
    long(if deep { 150 } else { 60 }),
    hints(if deep { 40 } else { 12 }),
    large_hints(if deep { 4096 } else { 512 }),
    sizes(if deep { edges(65536) } else { edges_and(2048, 65536) }),
    histories::<W>("all tokens", cfgs(&full, 3, 3), 3, "sequences of up to 3 tokens of 2 kinds and 2 values, up to 3 streams"),
    histories::<W>("deeper", cfgs(&small, 3, 3), 4, "sequences of up to 3 of 2 tokens, up to 3 streams"),
  ];
  if deep {
    f.push(histories::<W>("all tokens-deep", cfgs(&full, 4, 3), 4, "sequences of up to 4 tokens of 2 kinds and 2 values, up to 3 streams"));
    f.push(histories::<W>("deepest", cfgs(&small, 3, 3), 6, "sequences of up to 3 of 2 tokens, up to 3 streams"));
  }
  Property {
    id: "P19",
    families: f,
    assumptions: vec![
      "kind and value of a token are read back by parsing it with a grammar of \
       all token sequences, as a token has no other reader"
        .into(),
    ],
    explanation: "states: (sequence, positions of the streams held); transitions: \
      operations; after every history every stream held is read to its end and all \
      tokens ever read are compared"
      .into(),
  }
}
