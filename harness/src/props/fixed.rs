//! P23: search and fixed-point helpers.

use crate::engine::*;
use bongo::utils::{
  apply_fixed_point, breadth_first_search, change_iter, change_loop,
  fixed_point, FixedPointProcessor, WasChanged,
};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------ search

/// All graphs on n vertices, from all sets of initial items.
fn graphs(n: usize) -> Family {
  let low = (n * n).min(12);
  Family::new(
    format!("graphs of {}", n),
    1 << (n * n - low),
    format!("every graph on {} vertices, every initial set, steps in both orders and twice", n),
    move |u, st| {
      for x in 0..1u64 << low {
        let g = u << low | x;
        let next =
          |v: usize| (0..n).filter(move |w| g >> (v * n + w) & 1 == 1);
        // Reachability by repeated squaring of nothing: plain closure.
        for init in 0..1u64 << n {
          let mut want = init;
          loop {
            let mut w = want;
            for v in 0..n {
              if want >> v & 1 == 1 {
                w |= (g >> (v * n)) & ((1 << n) - 1);
              }
            }
            if w == want {
              break;
            }
            want = w;
            st.transitions += 1;
          }
          let want: BTreeSet<usize> =
            (0..n).filter(|v| want >> v & 1 == 1).collect();
          let from = || (0..n).filter(|v| init >> v & 1 == 1);
          let got = guard(|| {
            [
              breadth_first_search(from(), |v| next(*v).collect::<Vec<_>>()),
              breadth_first_search(
                from().chain(from()).collect::<Vec<_>>().into_iter().rev(),
                |v| {
                  let mut s: Vec<usize> = next(*v).collect();
                  s.reverse();
                  s.extend(next(*v));
                  s
                },
              ),
            ]
          })
          .map_err(|p| format!("search panics: {}", p))?;
          for got in got {
            if got != want {
              return Err(format!(
                "edges {:?}, from {:?}: {:?}, expected {:?}",
                (0..n)
                  .flat_map(|v| next(v).map(move |w| (v, w)))
                  .collect::<Vec<_>>(),
                from().collect::<Vec<_>>(),
                got,
                want
              ));
            }
          }
          st.traces += 2;
        }
        st.states_extra += 1;
      }
      Ok(())
    },
  )
}

/// Long paths, wide levels and infinite graphs with finite reach.
fn long_search(max: u64) -> Family {
  Family::new(
    "long searches",
    max,
    format!("paths, trees and grids of up to {} levels", max),
    |u, st| {
      let n = u;
      let path = breadth_first_search(vec![0], |x| {
        if *x < n {
          vec![x + 1]
        } else {
          vec![]
        }
      });
      let ring = breadth_first_search(vec![0], |x| vec![(x + 1) % (n + 1)]);
      let all: BTreeSet<u64> = (0..=n).collect();
      if path != all || ring != all {
        return Err(format!("path of {}: {:?}, ring: {:?}", n, path, ring));
      }
      let k = n.min(9);
      let grid = breadth_first_search(vec![(0, 0)], |(x, y)| {
        let mut v = vec![];
        if *x < k {
          v.push((x + 1, *y));
        }
        if *y < k {
          v.push((*x, y + 1));
        }
        v
      });
      if grid.len() as u64 != (k + 1) * (k + 1) {
        return Err(format!("grid of {}: {}", k, grid.len()));
      }
      st.traces += 3;
      st.states_extra += n + 1;
      Ok(())
    },
  )
}

// ------------------------------------------------------------ fixed points

/// All functions on a domain of n values.
fn functions(n: u64) -> Family {
  Family::new(
    format!("functions on {}", n),
    n.pow(n as u32 - 1),
    format!(
      "every function on {} values, from every value whose iteration ends",
      n
    ),
    move |u, st| {
      for first in 0..n {
        let mut x = u;
        let f: Vec<u64> = std::iter::once(first)
          .chain((1..n).map(|_| {
            let v = x % n;
            x /= n;
            v
          }))
          .collect();
        for start in 0..n {
          let mut at = start;
          let mut steps = 0;
          while f[at as usize] != at && steps <= n {
            at = f[at as usize];
            steps += 1;
          }
          if f[at as usize] != at {
            st.outcome("no fixed point is reached");
            continue;
          }
          let got = guard(|| fixed_point(start, |v| f[*v as usize]))
            .map_err(|p| format!("fixed_point panics: {}", p))?;
          if got != at {
            return Err(format!(
              "{:?} from {}: {}, expected {}",
              f, start, got, at
            ));
          }
          st.outcome("a fixed point is reached");
          st.traces += 1;
          st.transitions += steps + 1;
        }
        st.states_extra += 1;
      }
      Ok(())
    },
  )
}

/// A problem: for each pair of keys a function on the values, or nothing.
struct Problem {
  /// (from, to, table)
  edges: Vec<(u8, u8, Vec<u8>)>,
  join: fn(u8, u8) -> u8,
  reversed: bool,
}

impl FixedPointProcessor<u8, u8> for Problem {
  fn next(&self, key: &u8, value: &u8) -> Vec<(u8, u8)> {
    let mut v: Vec<(u8, u8)> = self
      .edges
      .iter()
      .filter(|e| e.0 == *key)
      .map(|e| (e.1, e.2[*value as usize]))
      .collect();
    if self.reversed {
      v.reverse();
      // Saying a thing twice changes nothing.
      let w = v.clone();
      v.extend(w);
    }
    v
  }
  fn merge(&self, target: &mut u8, other: u8) -> WasChanged {
    let n = (self.join)(*target, other);
    let c = n != *target;
    *target = n;
    WasChanged::from_changed(c)
  }
}

fn or(a: u8, b: u8) -> u8 {
  a | b
}

/// The least map above the initial one that is closed: all rounds over all
/// edges until nothing changes.
fn least(
  p: &Problem,
  init: &BTreeMap<u8, u8>,
  steps: &mut u64,
) -> BTreeMap<u8, u8> {
  let mut m = init.clone();
  loop {
    let mut n = m.clone();
    for (a, b, t) in &p.edges {
      if let Some(v) = m.get(a) {
        let x = t[*v as usize];
        let e = n.entry(*b).or_insert(x);
        *e = (p.join)(*e, x);
        *steps += 1;
      }
    }
    if n == m {
      return m;
    }
    m = n;
  }
}

/// All problems with the given keys and edge functions, all initial maps.
fn problems(
  name: &str,
  keys: u8,
  values: u8,
  join: fn(u8, u8) -> u8,
  tables: Vec<Vec<u8>>,
) -> Family {
  // Option 0 of an edge is its absence.
  let k = tables.len() as u64 + 1;
  let e = (keys as u32).pow(2);
  let inner = e / 2;
  let inits = (values as u64 + 1).pow(keys as u32);
  Family::new(
    name,
    k.pow(e - inner),
    format!(
      "every problem on {} keys and {} values with edges out of {} functions, \
       every initial map",
      keys,
      values,
      tables.len()
    ),
    move |u, st| {
      for x in 0..k.pow(inner) {
        let mut code = u * k.pow(inner) + x;
        let mut edges = Vec::new();
        for a in 0..keys {
          for b in 0..keys {
            let o = code % k;
            code /= k;
            if o > 0 {
              edges.push((a, b, tables[o as usize - 1].clone()));
            }
          }
        }
        let mut p = Problem {
          edges,
          join,
          reversed: false,
        };
        for i in 0..inits {
          let mut c = i;
          let mut init = BTreeMap::new();
          for key in 0..keys {
            let v = c % (values as u64 + 1);
            c /= values as u64 + 1;
            if v > 0 {
              init.insert(key, v as u8 - 1);
            }
          }
          let want = least(&p, &init, &mut st.transitions);
          for reversed in [false, true] {
            p.reversed = reversed;
            let mut got = init.clone();
            guard(|| apply_fixed_point(&p, &mut got))
              .map_err(|e| format!("apply_fixed_point panics: {}", e))?;
            if got != want {
              return Err(format!(
                "edges (from, to, function as a table) {:?}\ninitial {:?}\n\
                 got {:?}, least solution {:?}",
                p.edges, init, got, want
              ));
            }
            st.traces += 1;
          }
          st.states_extra += 1;
        }
      }
      Ok(())
    },
  )
}

/// The monotone functions on a lattice of bits or on a chain.
fn monotone(values: u8, le: fn(u8, u8) -> bool) -> Vec<Vec<u8>> {
  let mut out = Vec::new();
  for code in 0..(values as u64).pow(values as u32) {
    let mut c = code;
    let t: Vec<u8> = (0..values)
      .map(|_| {
        let v = (c % values as u64) as u8;
        c /= values as u64;
        v
      })
      .collect();
    let ok = (0..values).all(|a| {
      (0..values).all(|b| !le(a, b) || le(t[a as usize], t[b as usize]))
    });
    if ok {
      out.push(t);
    }
  }
  out
}

fn subset(a: u8, b: u8) -> bool {
  a & b == a
}

fn below(a: u8, b: u8) -> bool {
  a <= b
}

/// Solutions that take many rounds, on keys made on the way.
fn long_problems(max: u64) -> Family {
  struct Count(u64);
  impl FixedPointProcessor<u64, u64> for Count {
    fn next(&self, k: &u64, v: &u64) -> Vec<(u64, u64)> {
      if *k < self.0 {
        vec![
          (k + 1, v + 1),
          (*k, (*v).min(self.0)),
          (0, (v + 1).min(self.0)),
        ]
      } else {
        vec![(0, (*v + 1).min(self.0))]
      }
    }
    fn merge(&self, t: &mut u64, o: u64) -> WasChanged {
      let c = o > *t;
      if c {
        *t = o;
      }
      WasChanged::from_changed(c)
    }
  }
  Family::new(
    "long problems",
    max,
    format!("chains of up to {} keys that feed back to the first", max),
    |n, st| {
      let mut m: BTreeMap<u64, u64> = [(0, 0)].into();
      guard(|| apply_fixed_point(&Count(n), &mut m))
        .map_err(|e| format!("apply_fixed_point panics: {}", e))?;
      // Key 0 rises to the limit, and each key is one above the one before.
      let want: BTreeMap<u64, u64> = (0..=n).map(|k| (k, n + k)).collect();
      if m != want {
        return Err(format!("chain of {}: {:?}, expected {:?}", n, m, want));
      }
      let f = fixed_point(0, |x| if *x < n { x + 1 } else { *x });
      if f != n {
        return Err(format!("counting to {} gives {}", n, f));
      }
      st.traces += 2;
      st.states_extra += 1;
      Ok(())
    },
  )
}

// ------------------------------------------------------------ changes

fn changes(max: u64) -> Family {
  use WasChanged::{Changed, Unchanged};
  Family::new(
    "changes",
    max + 1,
    format!(
      "every sequence of up to {} reports, every number of rounds up to 300",
      max
    ),
    |n, st| {
      let w = |b: bool| if b { Changed } else { Unchanged };
      for x in 0..1u64 << n {
        let mut seen = Vec::new();
        let r = change_iter(0..n, |i| {
          seen.push(i);
          w(x >> i & 1 == 1)
        });
        if r != w(x != 0) || seen != (0..n).collect::<Vec<_>>() {
          return Err(format!(
            "change_iter over {} items with reports {:b}: {:?}, processed {:?}",
            n, x, r, seen
          ));
        }
        let mut m = Unchanged;
        let mut j = Unchanged;
        for i in 0..n {
          m.merge(w(x >> i & 1 == 1));
          j = j.join(w(x >> i & 1 == 1));
        }
        if m != r || j != r {
          return Err(format!("joining {:b}: {:?} and {:?}", x, m, j));
        }
        st.traces += 3;
        st.states_extra += 1;
        st.transitions += n;
      }
      for k in 0..=if n == 0 { 300 } else { 3 } {
        let mut calls = 0;
        change_loop(|| {
          calls += 1;
          if calls > k + 5 {
            return Unchanged;
          }
          w(calls <= k)
        });
        if calls != k + 1 {
          return Err(format!(
            "change_loop runs {} times when {} rounds report a change",
            calls, k
          ));
        }
        st.traces += 1;
      }
      for a in [false, true] {
        if WasChanged::from_changed(a) != w(a) {
          return Err(format!("from_changed({})", a));
        }
      }
      Ok(())
    },
  )
}

// ------------------------------------------------- other types, large sizes

/// Items of an order that has nothing to do with their numbers.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Scrambled(u64);
impl Scrambled {
  fn rank(&self) -> u64 {
    self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15)
  }
}
impl Ord for Scrambled {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    self.rank().cmp(&o.rank())
  }
}
impl PartialOrd for Scrambled {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}

/// Claims a size for an iterator.
struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    self.0.next()
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    (self.1, self.2)
  }
}

/// Searches of a shape over items of some type.
fn shapes<T: Ord + Clone + std::fmt::Debug>(
  what: &str,
  n: u64,
  make: fn(u64) -> T,
  number: fn(&T) -> u64,
  st: &mut Stats,
) -> Verdict {
  // Name, initial items, successors.
  let shapes: Vec<(&str, Vec<u64>, Box<dyn Fn(u64) -> Vec<u64>>)> = vec![
    ("nothing to begin with", vec![], Box::new(|x| vec![x + 1])),
    ("all to begin with", (0..n).collect(), Box::new(|_| vec![])),
    (
      "a path",
      vec![0],
      Box::new(move |x| (x + 1..n.min(x + 2)).collect()),
    ),
    (
      "a path down",
      vec![n],
      Box::new(|x| (x.max(1) - 1..x).collect()),
    ),
    (
      "a star",
      vec![0],
      Box::new(move |x| if x == 0 { (1..n).collect() } else { vec![0] }),
    ),
    (
      "a tree",
      vec![1],
      Box::new(move |x| {
        vec![2 * x, 2 * x + 1]
          .into_iter()
          .filter(|y| *y < n)
          .collect()
      }),
    ),
    (
      "a ring with chords",
      vec![n / 2, n / 2],
      Box::new(move |x| vec![(x + 1) % (n + 1), x, (x + n / 3) % (n + 1)]),
    ),
    (
      "two parts",
      vec![0],
      Box::new(move |x| if x + 2 < n { vec![x + 2] } else { vec![] }),
    ),
    (
      "a funnel",
      (0..n).rev().collect(),
      Box::new(move |x| vec![x / 2, x / 2]),
    ),
  ];
  for (name, init, next) in &shapes {
    // A plain worklist.
    let mut want: BTreeSet<u64> = init.iter().copied().collect();
    let mut todo: Vec<u64> = want.iter().copied().collect();
    let limit = 4 * n + 8;
    while let Some(x) = todo.pop() {
      if want.len() as u64 > limit {
        return Err(format!("the shape {} has no end", name));
      }
      for y in next(x) {
        if want.insert(y) {
          todo.push(y);
        }
      }
      st.transitions += 1;
    }
    let len = init.len();
    for (a, b) in [(0, None), (len, Some(len)), (0, Some(len + 3))] {
      let got = guard(|| {
        breadth_first_search(Hint(init.iter().map(|x| make(*x)), a, b), |x| {
          let v: Vec<T> = next(number(x)).into_iter().map(make).collect();
          let l = v.len();
          let (a, b) = if b.is_none() { (0, None) } else { (l, Some(l)) };
          Hint(v.into_iter(), a, b)
        })
      })
      .map_err(|p| format!("{} over {} of {}: panics: {}", name, n, what, p))?;
      let got: BTreeSet<u64> = got.iter().map(number).collect();
      if got != want {
        return Err(format!(
          "{} over {} of {}: {} found, {} expected",
          name,
          n,
          what,
          got.len(),
          want.len()
        ));
      }
      st.traces += 1;
    }
    st.states_extra += 1;
  }
  Ok(())
}

/// Sets of reachable vertices as values, many results of one step.
struct Reach {
  n: u64,
  step: u64,
  back: bool,
}
impl FixedPointProcessor<Scrambled, BTreeSet<u64>> for Reach {
  fn next(
    &self,
    k: &Scrambled,
    v: &BTreeSet<u64>,
  ) -> Vec<(Scrambled, BTreeSet<u64>)> {
    let mut w = v.clone();
    w.insert(k.0);
    let mut out = Vec::new();
    let t = k.0 + self.step;
    if t < self.n {
      out.push((Scrambled(t), w.clone()));
    }
    if self.back && k.0 >= 1 {
      out.push((Scrambled(k.0 - 1), w.clone()));
    }
    out.push((k.clone(), BTreeSet::new()));
    out
  }
  fn merge(&self, t: &mut BTreeSet<u64>, o: BTreeSet<u64>) -> WasChanged {
    let l = t.len();
    t.extend(o);
    WasChanged::from_changed(t.len() != l)
  }
}

/// Values that say nothing: only the keys matter.
struct Keys(u64);
impl FixedPointProcessor<String, ()> for Keys {
  fn next(&self, k: &String, _: &()) -> Vec<(String, ())> {
    if (k.len() as u64) < self.0 {
      vec![(format!("{}a", k), ()), (String::new(), ())]
    } else {
      vec![]
    }
  }
  fn merge(&self, _: &mut (), _: ()) -> WasChanged {
    WasChanged::Unchanged
  }
}

/// A value that can neither be copied nor ordered.
#[derive(PartialEq, Eq, Debug)]
struct Bare(Vec<u64>);

fn large(max: usize) -> Family {
  let ns = edges(max);
  Family::new(
    "large",
    ns.len() as u64,
    format!(
      "searches of 9 shapes over 4 types of items, propagation of sets and of \
       keys only, fixed points of bare values; sizes up to {}",
      max
    ),
    move |u, st| {
      let n = ns[u as usize] as u64;
      shapes("numbers", n, |x| x, |x| *x, st)?;
      shapes("scrambled", n, Scrambled, |x| x.0, st)?;
      shapes(
        "reversed",
        n,
        std::cmp::Reverse,
        |x: &std::cmp::Reverse<u64>| x.0,
        st,
      )?;
      shapes(
        "texts",
        n,
        |x| x.to_string(),
        |x: &String| x.parse().unwrap_or(u64::MAX),
        st,
      )?;
      let one = breadth_first_search(vec![(); n as usize], |_| Some(()));
      if one.len() as u64 != n.min(1) {
        return Err(format!("{} times (): {} found", n, one.len()));
      }
      // Propagation.
      let m = n.min(130);
      for (step, back) in [(1, false), (1, true), (2, true), (3, false)] {
        let p = Reach { n: m, step, back };
        for init in [vec![0], vec![m], vec![0, m / 2], vec![]] {
          let mut got: BTreeMap<Scrambled, BTreeSet<u64>> = init
            .iter()
            .map(|k| (Scrambled(*k), [1000 + *k].into()))
            .collect();
          // From every key that is there already, on to which it leads.
          let reach = |from: u64| {
            let mut seen = BTreeSet::from([from]);
            let mut todo = vec![from];
            while let Some(x) = todo.pop() {
              let mut v = vec![];
              if x + step < m {
                v.push(x + step);
              }
              if back && x >= 1 {
                v.push(x - 1);
              }
              for y in v {
                if seen.insert(y) {
                  todo.push(y);
                }
              }
            }
            seen
          };
          // The vertex y holds the marks of the initial vertices that reach it
          // and every vertex before it on a way of one step or more.
          let mut want: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
          let reaches: BTreeMap<u64, BTreeSet<u64>> =
            (0..=m).map(|x| (x, reach(x))).collect();
          for i in &init {
            for x in &reaches[i] {
              want.entry(*x).or_default().insert(1000 + *i);
              let mut after = BTreeSet::new();
              if x + step < m {
                after.extend(&reaches[&(x + step)]);
              }
              if back && *x >= 1 {
                after.extend(&reaches[&(x - 1)]);
              }
              for y in after {
                want.entry(y).or_default().insert(*x);
              }
            }
          }
          guard(|| apply_fixed_point(&p, &mut got))
            .map_err(|e| format!("apply_fixed_point panics: {}", e))?;
          let got: BTreeMap<u64, BTreeSet<u64>> =
            got.into_iter().map(|(k, v)| (k.0, v)).collect();
          if got != want {
            return Err(format!(
              "{} keys, steps of {}, back {}, from {:?}: {:?}, expected {:?}",
              m, step, back, init, got, want
            ));
          }
          st.traces += 1;
        }
      }
      let mut got: BTreeMap<String, ()> = [("aa".to_string(), ())].into();
      guard(|| apply_fixed_point(&Keys(n), &mut got))
        .map_err(|e| format!("apply_fixed_point panics: {}", e))?;
      let lens: BTreeSet<u64> = got.keys().map(|k| k.len() as u64).collect();
      let want: BTreeSet<u64> = if n <= 2 {
        [2].into()
      } else {
        (0..=n).collect()
      };
      if lens != want {
        return Err(format!("keys only, up to {}: lengths {:?}", n, lens));
      }
      let f = fixed_point(Bare(vec![]), |b| {
        let mut v = b.0.clone();
        if (v.len() as u64) < n {
          v.push(n);
        }
        Bare(v)
      });
      if f != Bare(vec![n; n as usize]) {
        return Err(format!("a fixed point of {}: {:?}", n, f));
      }
      // Reports by iterators of every sort.
      for at in [0, n / 2, n.max(1) - 1, n] {
        for (a, b) in [(0, None), (n as usize, Some(n as usize))] {
          let mut seen = 0;
          let r = change_iter(Hint(0..n, a, b), |i| {
            seen += 1;
            WasChanged::from_changed(i == at)
          });
          if seen != n || (r == WasChanged::Changed) != (at < n) {
            return Err(format!("change_iter over {}, change at {}", n, at));
          }
        }
        let mut calls = 0;
        change_loop(|| {
          calls += 1;
          WasChanged::from_changed(calls <= at)
        });
        if calls != at + 1 {
          return Err(format!("change_loop with {} changes: {}", at, calls));
        }
      }
      st.traces += 14;
      Ok(())
    },
  )
}

/// The least distance of each key.
struct Distance(u64, u64);
impl FixedPointProcessor<u64, u64> for Distance {
  fn next(&self, k: &u64, v: &u64) -> Vec<(u64, u64)> {
    match k + self.1 {
      t if t < self.0 => vec![(t, v + 1), (0, v + 1)],
      _ => vec![(0, v + 1)],
    }
  }
  fn merge(&self, t: &mut u64, o: u64) -> WasChanged {
    let c = o < *t;
    if c {
      *t = o;
    }
    WasChanged::from_changed(c)
  }
}

fn huge() -> Family {
  let ns: Vec<u64> = [4096, 16384, 32768, 65536]
    .iter()
    .flat_map(|n| [n - 1, *n, n + 1])
    .collect();
  Family::new(
    "huge",
    ns.len() as u64,
    format!(
      "paths, rings and crowds of {:?} items, chains and crowds of as many keys, \
       as many applications, reports and rounds",
      ns
    ),
    move |u, st| {
      let n = ns[u as usize];
      let all: BTreeSet<u64> = (0..n).collect();
      let found = vec![
        ("a path", breadth_first_search(vec![0], |x| x + 1..n.min(x + 2))),
        ("a ring", breadth_first_search(vec![n / 2], |x| vec![(x + 1) % n, *x])),
        ("a crowd", breadth_first_search(0..n, |_| None)),
        (
          "a star",
          breadth_first_search(vec![0], |x| match x {
            0 => 1..n,
            _ => 0..1,
          }),
        ),
      ];
      for (name, got) in found {
        if got != all {
          return Err(format!("{} of {} items: {} found", name, n, got.len()));
        }
        beat();
        st.traces += 1;
      }
      for (step, init) in [(1, vec![0]), (2, vec![0, 1]), (n, (0..n).collect())] {
        let mut m: BTreeMap<u64, u64> = init.iter().map(|k| (*k, 0)).collect();
        guard(|| apply_fixed_point(&Distance(n, step), &mut m))
          .map_err(|e| format!("apply_fixed_point panics: {}", e))?;
        let want: BTreeMap<u64, u64> = (0..n).map(|k| (k, k / step)).collect();
        if m != want {
          return Err(format!(
            "distances of {} keys by steps of {}: {} keys, the first wrong at {:?}",
            n,
            step,
            m.len(),
            m.iter().zip(&want).find(|(a, b)| a != b)
          ));
        }
        beat();
        st.traces += 1;
      }
      let f = fixed_point(0, |x| if *x < n { x + 1 } else { *x });
      if f != n {
        return Err(format!("counting to {} gives {}", n, f));
      }
      for at in [0, 1, n - 1, n] {
        let mut seen = 0;
        let r = change_iter(0..n, |i| {
          seen += 1;
          WasChanged::from_changed(i == at)
        });
        if seen != n || (r == WasChanged::Changed) != (at < n) {
          return Err(format!("change_iter over {}, change at {}", n, at));
        }
        let mut calls = 0;
        change_loop(|| {
          calls += 1;
          WasChanged::from_changed(calls <= at)
        });
        if calls != at + 1 {
          return Err(format!("change_loop with {} changes: {}", at, calls));
        }
        st.traces += 2;
      }
      st.states_extra += 8 * n;
      Ok(())
    },
  )
}

pub fn p23(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let bits = monotone(4, subset);
  // Identity, constants, adding and dropping a bit, exchanging bits.
  let few: Vec<Vec<u8>> = vec![
    vec![0, 1, 2, 3],
    vec![1, 1, 1, 1],
    vec![2, 3, 2, 3],
    vec![0, 2, 1, 3],
    vec![0, 0, 2, 2],
  ];
  // Identity, one more, the bottom.
  let chain: Vec<Vec<u8>> =
    vec![vec![0, 1, 2, 3], vec![1, 2, 3, 3], vec![0, 0, 0, 0]];
  let mut f = vec![
    changes(if deep { 18 } else { 12 }),
    long_search(300),
    huge(),
    large(if deep { 2049 } else { 257 }),
    long_problems(if deep { 300 } else { 100 }),
  ];
  for n in 1..=if deep { 5 } else { 4 } {
    f.push(graphs(n));
  }
  for n in 1..=if deep { 7 } else { 6 } {
    f.push(functions(n));
  }
  f.push(problems("one key, bits", 1, 4, or, bits.clone()));
  f.push(problems(
    "one key, chain",
    1,
    5,
    u8::max,
    monotone(5, below),
  ));
  f.push(problems("two keys, few functions", 2, 4, or, few.clone()));
  f.push(problems("two keys, chain", 2, 4, u8::max, chain.clone()));
  f.push(problems("three keys, marks", 3, 2, or, vec![vec![0, 1]]));
  f.push(problems(
    "three keys, copies",
    3,
    2,
    or,
    vec![vec![0, 1], vec![1, 1]],
  ));
  if deep {
    f.push(problems("two keys, all functions", 2, 4, or, bits));
    f.push(problems(
      "two keys, chain functions",
      2,
      4,
      u8::max,
      monotone(4, below),
    ));
    f.push(problems(
      "three keys, few functions",
      3,
      4,
      or,
      few[..3].to_vec(),
    ));
    f.push(problems("three keys, chain", 3, 4, u8::max, chain));
    f.push(problems("four keys, copies", 4, 2, or, vec![vec![1, 1]]));
  }
  Property {
    id: "P23",
    families: f,
    assumptions: vec![
      "propagation functions are monotone and merging is the join of a lattice"
        .into(),
    ],
    explanation: "states: graphs, functions, propagation problems with initial \
      maps; transitions: steps of the reference closure; every result is compared \
      with the closure computed by plain rounds"
      .into(),
  }
}
