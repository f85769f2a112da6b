//! P27: formatting helpers.

use crate::engine::*;
use bongo::utils::fmt::{list_fmt, set_fmt, struct_fmt, tuple_fmt};
use bongo::utils::Name;
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};
use std::fmt::{self, Debug, Formatter, Write};
use std::rc::Rc;

type D = Rc<dyn Debug>;

/// What the standard builders write.
#[derive(Clone)]
enum Std {
  List(Vec<D>),
  Set(Vec<D>),
  Tuple(String, Vec<D>),
  Struct(String, Vec<(String, D)>),
}

impl Debug for Std {
  fn fmt(&self, f: &mut Formatter) -> fmt::Result {
    match self {
      Std::List(v) => {
        let mut b = f.debug_list();
        for x in v {
          b.entry(x);
        }
        b.finish()
      }
      Std::Set(v) => {
        let mut b = f.debug_set();
        for x in v {
          b.entry(x);
        }
        b.finish()
      }
      Std::Tuple(n, v) => {
        let mut b = f.debug_tuple(n);
        for x in v {
          b.field(x);
        }
        b.finish()
      }
      Std::Struct(n, v) => {
        let mut b = f.debug_struct(n);
        for (k, x) in v {
          b.field(k, x);
        }
        b.finish()
      }
    }
  }
}

#[derive(Clone, Debug)]
enum Expr {
  Leaf(usize),
  List(Vec<Expr>),
  Set(Vec<Expr>),
  Tuple(usize, Vec<Expr>),
  Struct(usize, Vec<Expr>),
}
use Expr::*;

/// Writes nothing.
#[derive(Clone)]
struct Silent;
impl Debug for Silent {
  fn fmt(&self, _: &mut Formatter) -> fmt::Result {
    Ok(())
  }
}

/// Writes something and fails.
#[derive(Clone)]
struct Fails;
impl Debug for Fails {
  fn fmt(&self, f: &mut Formatter) -> fmt::Result {
    f.write_str("f")?;
    Err(fmt::Error)
  }
}

const NAMES: &[&str] = &["N", "", "a b"];
const FIELDS: &[&str] = &["x", "y", "", "x"];
const LEAVES: usize = 8;

fn leaf(i: usize) -> D {
  match i {
    0 => Rc::new(7u8),
    1 => Rc::new("a\n\u{e9}"),
    2 => Rc::new(Silent),
    3 => Rc::new(Some((1, 'c'))),
    4 => Rc::new(-1.5f64),
    5 => Rc::new(Vec::<u8>::new()),
    6 => Rc::new(BTreeMap::from([(1u8, "z")])),
    _ => Rc::new(Fails),
  }
}

/// By the helpers, out of one of several kinds of collection.
fn real(e: &Expr, kind: usize) -> D {
  let items = |v: &[Expr]| v.iter().map(|x| real(x, kind)).collect::<Vec<D>>();
  let fields = |v: &[Expr]| {
    v.iter()
      .enumerate()
      .map(|(i, x)| (FIELDS[i], real(x, kind)))
      .collect::<Vec<_>>()
  };
  macro_rules! each {
    ($f:ident $(, $n:expr)?; $v:expr) => {{
      let v = $v;
      match kind {
        0 => Rc::new($f($($n,)? v)) as D,
        1 => Rc::new($f($($n,)? v.into_iter().collect::<LinkedList<_>>())) as D,
        2 => Rc::new($f($($n,)? v.into_iter().collect::<VecDeque<_>>())) as D,
        3 => Rc::new($f($($n,)? v.into_iter())) as D,
        _ => {
          let n = v.len();
          Rc::new($f($($n,)? (0..n).map(move |i| v[i].clone()))) as D
        }
      }
    }};
  }
  match e {
    Leaf(i) => leaf(*i),
    List(v) => each!(list_fmt; items(v)),
    Set(v) => each!(set_fmt; items(v)),
    Tuple(n, v) => match kind % 3 {
      0 => each!(tuple_fmt, NAMES[*n]; items(v)),
      1 => each!(tuple_fmt, NAMES[*n].to_string(); items(v)),
      _ => each!(tuple_fmt, Name::new(NAMES[*n]); items(v)),
    },
    Struct(n, v) => match kind % 3 {
      0 => each!(struct_fmt, NAMES[*n]; fields(v)),
      1 => {
        each!(struct_fmt, NAMES[*n].to_string(); fields(v).into_iter().map(|(k, x)| (k.to_string(), x)).collect::<Vec<_>>())
      }
      _ => {
        each!(struct_fmt, Name::new(NAMES[*n]); fields(v).into_iter().map(|(k, x)| (Name::new(k), x)).collect::<Vec<_>>())
      }
    },
  }
}

fn std(e: &Expr) -> D {
  let items = |v: &[Expr]| v.iter().map(std).collect::<Vec<D>>();
  match e {
    Leaf(i) => leaf(*i),
    List(v) => Rc::new(Std::List(items(v))),
    Set(v) => Rc::new(Std::Set(items(v))),
    Tuple(n, v) => Rc::new(Std::Tuple(NAMES[*n].to_string(), items(v))),
    Struct(n, v) => Rc::new(Std::Struct(
      NAMES[*n].to_string(),
      v.iter()
        .enumerate()
        .map(|(i, x)| (FIELDS[i].to_string(), std(x)))
        .collect(),
    )),
  }
}

/// A writer that takes a number of bytes and then fails.
struct Limited(String, usize);
impl Write for Limited {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    // What fits, so that it does not matter how the text is split up.
    for c in s.chars() {
      if self.0.len() + c.len_utf8() > self.1 {
        return Err(fmt::Error);
      }
      self.0.push(c);
    }
    Ok(())
  }
}

const FORMS: usize = 9;

fn write(d: &D, form: usize, limit: usize) -> (String, bool) {
  let mut w = Limited(String::new(), limit);
  let r = match form {
    0 => write!(w, "{:?}", d),
    1 => write!(w, "{:#?}", d),
    2 => write!(w, "{:4?}", d),
    3 => write!(w, "{:#04?}", d),
    4 => write!(w, "{:x?}", d),
    5 => write!(w, "{:#X?}", d),
    6 => write!(w, "{:*>6.2?}", d),
    7 => write!(w, "{:+?}", d),
    _ => write!(w, "{:#<#3?}", d),
  };
  (w.0, r.is_ok())
}

fn check(e: &Expr, limits: bool, st: &mut Stats) -> Verdict {
  let want = std(e);
  for kind in 0..5 {
    let r = guard(|| {
      let got = real(e, kind);
      for form in 0..FORMS {
        let w = write(&want, form, usize::MAX);
        for time in 0..2 {
          let g = write(&got, form, usize::MAX);
          st.transitions += 1;
          if g != w {
            return Err(format!(
              "form {}, time {}:\n{:?}\nexpected\n{:?}",
              form, time, g, w
            ));
          }
        }
        if limits && form < 2 {
          for n in 0..w.0.len() {
            let (g, w) = (write(&got, form, n), write(&want, form, n));
            st.transitions += 1;
            if g != w {
              return Err(format!(
                "form {}, writer of {} bytes:\n{:?}\nexpected\n{:?}",
                form, n, g, w
              ));
            }
          }
        }
      }
      Ok(())
    });
    st.traces += 1;
    r.unwrap_or_else(|p| Err(format!("panics: {}", p)))
      .map_err(|x| format!("{:?}, collection kind {}\n{}", e, kind, x))?;
  }
  st.states_extra += 1;
  st.sample(|| format!("{:?}", e));
  Ok(())
}

/// Every helper around the items.
fn around(v: &[Expr], names: usize) -> Vec<Expr> {
  let mut r = vec![List(v.to_vec()), Set(v.to_vec())];
  for n in 0..names {
    r.push(Tuple(n, v.to_vec()));
    r.push(Struct(n, v.to_vec()));
  }
  r
}

fn seqs(items: &[Expr], n: usize) -> Vec<Vec<Expr>> {
  let mut r = vec![vec![]];
  for _ in 0..n {
    r = r
      .into_iter()
      .flat_map(|s: Vec<Expr>| {
        items.iter().map(move |x| {
          let mut s = s.clone();
          s.push(x.clone());
          s
        })
      })
      .collect();
  }
  r
}

fn upto(items: &[Expr], n: usize) -> Vec<Vec<Expr>> {
  (0..=n).flat_map(|i| seqs(items, i)).collect()
}

fn family(name: &str, items: Vec<Expr>, n: usize, limits: bool) -> Family {
  let all = upto(&items, n);
  Family::new(
    name,
    all.len() as u64,
    format!(
      "every helper around every sequence of up to {} of {} items",
      n,
      items.len()
    ),
    move |u, st| {
      for e in around(&all[u as usize], NAMES.len()) {
        check(&e, limits, st)?;
      }
      Ok(())
    },
  )
}

fn leaves() -> Vec<Expr> {
  (0..LEAVES).map(Leaf).collect()
}

/// Helpers around up to `n` of the first `k` items.
fn nested(k: usize, n: usize) -> Vec<Expr> {
  let mut r: Vec<Expr> = leaves()[..k].to_vec();
  for v in upto(&leaves()[..k], n) {
    r.extend(around(&v, 2));
  }
  r
}

/// Items of one concrete type, by reference too.
fn concrete() -> Family {
  Family::new(
    "concrete",
    125,
    "sequences of up to 3 numbers as slices, references and sets",
    |u, st| {
      let v: Vec<u8> = [u % 5, u / 5 % 5, u / 25]
        .iter()
        .filter(|d| **d > 0)
        .map(|d| *d as u8)
        .collect();
      let set: BTreeSet<u8> = v.iter().cloned().collect();
      let map: BTreeMap<String, u8> =
        v.iter().map(|x| (x.to_string(), *x)).collect();
      let r = guard(|| {
        let pairs = vec![
          (format!("{:?}", list_fmt(&v)), format!("{:?}", v)),
          (format!("{:#?}", list_fmt(&v)), format!("{:#?}", v)),
          (format!("{:?}", list_fmt(&v[..])), format!("{:?}", v)),
          (
            format!("{:?}", list_fmt(v.iter().rev())),
            format!("{:?}", v.iter().rev().collect::<Vec<_>>()),
          ),
          (format!("{:?}", set_fmt(&set)), format!("{:?}", set)),
          (
            format!("{:#?}", set_fmt(set.clone())),
            format!("{:#?}", set),
          ),
          (
            format!("{:?}", set_fmt(&v)),
            format!(
              "{:?}",
              Std::Set(v.iter().map(|x| Rc::new(*x) as D).collect())
            ),
          ),
          (
            format!("{:?}", tuple_fmt("T", &v)),
            format!(
              "{:?}",
              Std::Tuple(
                "T".into(),
                v.iter().map(|x| Rc::new(*x) as D).collect()
              )
            ),
          ),
          (
            format!("{:#?}", struct_fmt("S", &map)),
            format!(
              "{:#?}",
              Std::Struct(
                "S".into(),
                map
                  .iter()
                  .map(|(k, x)| (k.clone(), Rc::new(*x) as D))
                  .collect()
              )
            ),
          ),
        ];
        for (i, (g, w)) in pairs.iter().enumerate() {
          if g != w {
            return Err(format!("{:?} as {}: {:?}, expected {:?}", v, i, g, w));
          }
        }
        Ok(())
      });
      st.traces += 1;
      st.states_extra += 1;
      st.transitions += 9;
      r.unwrap_or_else(|p| Err(format!("panics: {}", p)))
    },
  )
}

/// Many items, long names, every character in names.
fn sizes(max: usize) -> Family {
  let ns = edges_and(max, 65536);
  Family::new(
    "sizes",
    ns.len() as u64,
    format!("up to {} items, names of up to as many characters; the same of 65535, 65536 and 65537", max),
    move |u, st| {
      let n = ns[u as usize];
      let v: Vec<usize> = (0..n).collect();
      let ds: Vec<D> = v.iter().map(|x| Rc::new(*x) as D).collect();
      let name = "n\u{e9}".repeat(n);
      let fields: Vec<(String, usize)> =
        v.iter().map(|i| (format!("f{}", i), *i)).collect();
      let long = vec![(name.clone(), name.clone())];
      let std_fields = fields
        .iter()
        .map(|(k, x)| (k.clone(), Rc::new(*x) as D))
        .collect();
      let std_long = vec![(name.clone(), Rc::new(name.clone()) as D)];
      let mut pairs: Vec<(D, Std)> = vec![
        (Rc::new(list_fmt(v.clone())), Std::List(ds.clone())),
        (Rc::new(list_fmt(0..n)), Std::List(ds.clone())),
        (Rc::new(set_fmt(v.clone())), Std::Set(ds.clone())),
        (
          Rc::new(tuple_fmt(name.clone(), v.clone())),
          Std::Tuple(name.clone(), ds.clone()),
        ),
        (
          Rc::new(struct_fmt(name.clone(), fields.clone())),
          Std::Struct(name.clone(), std_fields),
        ),
        (
          Rc::new(struct_fmt(name.clone(), long)),
          Std::Struct(name.clone(), std_long),
        ),
      ];
      // Nested as deep.
      let (mut a, mut b) = (ds.get(0).cloned(), ds.get(0).cloned());
      for i in 0..n.min(200) {
        if let (Some(x), Some(y)) = (a, b) {
          let f = |x: &D| vec![("f".to_string(), x.clone())];
          let (p, q): (D, D) = match i % 4 {
            0 => (Rc::new(list_fmt(vec![x])), Rc::new(Std::List(vec![y]))),
            1 => (
              Rc::new(tuple_fmt("T", vec![x])),
              Rc::new(Std::Tuple("T".into(), vec![y])),
            ),
            2 => (Rc::new(set_fmt(vec![x])), Rc::new(Std::Set(vec![y]))),
            _ => (
              Rc::new(struct_fmt("S", f(&x))),
              Rc::new(Std::Struct("S".into(), f(&y))),
            ),
          };
          a = Some(p);
          b = Some(q);
        } else {
          a = None;
          b = None;
        }
      }
      if let (Some(a), Some(b)) = (a, b) {
        pairs.push((a, Std::List(vec![b.clone()])));
        let last = pairs.last_mut().unwrap();
        last.0 = Rc::new(list_fmt(vec![last.0.clone()]));
      }
      for (i, (g, w)) in pairs.into_iter().enumerate() {
        let w: D = Rc::new(w);
        for form in 0..2 {
          for time in 0..2 {
            if write(&g, form, usize::MAX) != write(&w, form, usize::MAX) {
              return Err(format!(
                "{} items as {}, form {}, time {}",
                n, i, form, time
              ));
            }
            st.transitions += 1;
          }
        }
        st.traces += 1;
      }
      st.states_extra += 1;
      Ok(())
    },
  )
}

fn characters(step: u32) -> Family {
  Family::new(
    "characters",
    (0x110000 / step) as u64,
    "every character in names of tuples, structs and fields",
    move |u, st| {
      for c in
        (u as u32 * step..(u as u32 + 1) * step).filter_map(char::from_u32)
      {
        let n = format!("{}a{}", c, c);
        let pairs: [(D, D); 2] = [
          (
            Rc::new(tuple_fmt(n.clone(), vec![c])),
            Rc::new(Std::Tuple(n.clone(), vec![Rc::new(c)])),
          ),
          (
            Rc::new(struct_fmt(n.clone(), vec![(n.clone(), c)])),
            Rc::new(Std::Struct(n.clone(), vec![(n.clone(), Rc::new(c))])),
          ),
        ];
        for (g, w) in &pairs {
          for form in 0..2 {
            let (g, w) =
              (write(g, form, usize::MAX), write(w, form, usize::MAX));
            if g != w {
              return Err(format!("{:?}, expected {:?}", g, w));
            }
            st.transitions += 1;
          }
        }
        st.states_extra += 1;
        st.traces += 2;
      }
      Ok(())
    },
  )
}

/// Collections whose iteration is out of the ordinary.
fn odd(max: usize) -> Family {
  /// Claims the given size hint, whatever it yields.
  #[derive(Clone)]
  struct Hint(std::vec::IntoIter<usize>, usize, Option<usize>);
  impl Iterator for Hint {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
      self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
      (self.1, self.2)
    }
  }
  /// Yields further items when asked again after its end.
  #[derive(Clone)]
  struct Restart(Vec<usize>, usize);
  impl Iterator for Restart {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
      let i = self.1;
      self.1 += 1;
      let n = self.0.len();
      if i < n {
        Some(self.0[i])
      } else if i == n {
        None
      } else if i < 2 * n + 1 {
        Some(99)
      } else {
        None
      }
    }
  }
  let ns = edges(max);
  Family::new(
    "odd collections",
    ns.len() as u64,
    format!(
      "iterators of up to {} items with 5 size hints, and ones that go on after \
       their end",
      max
    ),
    move |u, st| {
      let n = ns[u as usize];
      let v: Vec<usize> = (0..n).collect();
      let ds: Vec<D> = v.iter().map(|x| Rc::new(*x) as D).collect();
      let named = |x: usize| (format!("f{}", x), x);
      let fs: Vec<(String, D)> = v
        .iter()
        .map(|x| (format!("f{}", x), Rc::new(*x) as D))
        .collect();
      let k = n;
      let hints =
        [(0, None), (0, Some(k)), (k, None), (k, Some(k)), (0, Some(k + 7))];
      let mut its: Vec<Vec<D>> = hints
        .iter()
        .map(|(a, b)| {
          let h = || Hint(v.clone().into_iter(), *a, *b);
          vec![
            Rc::new(list_fmt(h())) as D,
            Rc::new(set_fmt(h())),
            Rc::new(tuple_fmt("T", h())),
            Rc::new(struct_fmt("S", h().map(named))),
          ]
        })
        .collect();
      let h = || Restart(v.clone(), 0);
      its.push(vec![
        Rc::new(list_fmt(h())),
        Rc::new(set_fmt(h())),
        Rc::new(tuple_fmt("T", h())),
        Rc::new(struct_fmt("S", h().map(named))),
      ]);
      let want: Vec<D> = vec![
        Rc::new(Std::List(ds.clone())),
        Rc::new(Std::Set(ds.clone())),
        Rc::new(Std::Tuple("T".into(), ds)),
        Rc::new(Std::Struct("S".into(), fs)),
      ];
      for (i, it) in its.iter().enumerate() {
        for (g, w) in it.iter().zip(&want) {
          for form in [0, 1, 0] {
            let g = write(g, form, usize::MAX);
            let w = write(w, form, usize::MAX);
            if g != w {
              return Err(format!("{} items, iterator {}: {:?}, expected {:?}", n, i, g, w));
            }
            st.transitions += 1;
          }
          st.traces += 1;
        }
      }
      st.states_extra += 1;
      Ok(())
    },
  )
}

pub fn p27(tier: Tier) -> Property {
  let mut f = vec![
    concrete(),
    odd(if tier == Tier::Thorough { 4096 } else { 1024 }),
    characters(0x1000),
    sizes(if tier == Tier::Thorough { 4097 } else { 257 }),
    family("leaves", leaves(), 3, true),
    family("nested", nested(2, 1), 2, true),
    family("nested wider", nested(4, 1), 2, false),
  ];
  // Two levels of nesting.
  let inner: Vec<Expr> = nested(2, 1);
  let mut mid = leaves()[..2].to_vec();
  for v in upto(&inner, 1) {
    mid.extend(around(&v, 1));
  }
  f.push(family("nested twice", mid.clone(), 1, true));
  if tier == Tier::Thorough {
    f.push(family("leaves-deep", leaves(), 4, true));
    f.push(family("nested-deep", nested(4, 2), 2, true));
    f.push(family("nested twice-deep", mid, 2, true));
  }
  Property {
    id: "P27",
    families: f,
    assumptions: vec![
      "the builders of the standard library are what the helpers are measured \
       against"
        .into(),
    ],
    explanation: "Every expression of helpers up to the bounds, out of five \
      kinds of collections, is written twice in nine formats, and to writers \
      that fail at every byte, and compared with what the standard builders \
      write."
      .into(),
  }
}
