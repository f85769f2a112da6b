//! P24: set-valued maps.

use crate::engine::*;
use crate::hist::*;
use bongo::utils::{merge_value_pairs, take_only, CollectMap, WasChanged};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Op {
  Insert(u8, u8),
  Bulk(u8, Vec<u8>),
  Copy(u8, u8),
}

type Model = BTreeMap<u8, BTreeSet<u8>>;

struct W {
  keys: u8,
  values: u8,
  bulk: Vec<Vec<u8>>,
  m: Model,
  r: CollectMap<u8, u8>,
}

fn seqs(values: u8, max: usize) -> Vec<Vec<u8>> {
  let mut out: Vec<Vec<u8>> = vec![vec![]];
  let mut from = 0;
  for _ in 0..max {
    let to = out.len();
    for i in from..to {
      for v in 0..values {
        let mut s = out[i].clone();
        s.push(v);
        out.push(s);
      }
    }
    from = to;
  }
  out
}

impl World for W {
  /// Keys, values, length of bulk insertions, seed.
  type Cfg = (u8, u8, usize, Option<Model>);
  type Op = Op;

  fn new(c: &Self::Cfg) -> Self {
    let (r, m) = match &c.3 {
      None => (CollectMap::new(), Model::new()),
      Some(s) if s.is_empty() => (CollectMap::default(), Model::new()),
      Some(s) => (
        CollectMap::from_seed(s.clone()),
        s.iter()
          .filter(|x| !x.1.is_empty())
          .map(|(k, v)| (*k, v.clone()))
          .collect(),
      ),
    };
    W {
      keys: c.0,
      values: c.1,
      bulk: seqs(c.1, c.2),
      m,
      r,
    }
  }

  fn ops(&self) -> Vec<Op> {
    let mut v = Vec::new();
    for k in 0..self.keys {
      for x in 0..self.values {
        v.push(Op::Insert(k, x));
      }
      for s in &self.bulk {
        v.push(Op::Bulk(k, s.clone()));
      }
      for o in 0..self.keys {
        v.push(Op::Copy(k, o));
      }
    }
    v
  }

  fn apply(&mut self, op: &Op) -> Verdict {
    let (got, k, add) = match op {
      Op::Insert(k, v) => (self.r.insert(*k, *v), *k, vec![*v]),
      Op::Bulk(k, s) => {
        let r = if s.len() % 2 == 0 {
          self.r.insert_iter(*k, s.clone())
        } else {
          // An iterator that does not know its length.
          let mut i = 0;
          self.r.insert_iter(
            *k,
            std::iter::from_fn(|| {
              i += 1;
              s.get(i - 1).copied()
            }),
          )
        };
        (r, *k, s.clone())
      }
      Op::Copy(k, o) => (
        self.r.insert_from_key_set(*k, *o),
        *k,
        self.m.get(o).into_iter().flatten().copied().collect(),
      ),
    };
    let mut want = false;
    for v in add {
      want |= self.m.entry(k).or_default().insert(v);
    }
    if (got == WasChanged::Changed) != want {
      return Err(format!("reports {:?}", got));
    }
    Ok(())
  }

  fn check(&mut self) -> Verdict {
    for k in 0..self.keys + 1 {
      let got = self.r.get(&k).cloned().unwrap_or_default();
      let want = self.m.get(&k).cloned().unwrap_or_default();
      if got != want {
        return Err(format!("key {}: {:?}, expected {:?}", k, got, want));
      }
    }
    let mut last = None;
    let mut seen = Model::new();
    for (k, v) in self.r.iter() {
      if last >= Some(*k) {
        return Err(format!("iteration shows key {} after {:?}", k, last));
      }
      last = Some(*k);
      if !v.is_empty() {
        seen.insert(*k, v.clone());
      }
    }
    if seen != self.m {
      return Err(format!("iteration: {:?}, expected {:?}", seen, self.m));
    }
    // The history is run afresh each time: the map may be taken apart.
    let mut inner = std::mem::take(&mut self.r).into_inner();
    inner.retain(|_, v| !v.is_empty());
    if inner != self.m {
      return Err(format!("into_inner: {:?}, expected {:?}", inner, self.m));
    }
    self.r = CollectMap::from_seed(inner);
    Ok(())
  }

  fn key(&self) -> u64 {
    hash(&self.m)
  }
}

fn pairs(keys: u8, values: u8, len: u32) -> Family {
  let k = (keys * values) as u64;
  Family::new(
    format!("pairs of {}", len),
    k.pow(len),
    format!(
      "every sequence of {} pairs of {} keys and {} values",
      len, keys, values
    ),
    move |u, st| {
      let mut x = u;
      let s: Vec<(u8, u8)> = (0..len)
        .map(|_| {
          let c = (x % k) as u8;
          x /= k;
          (c / values, c % values)
        })
        .collect();
      let mut want = Model::new();
      for (k, v) in &s {
        want.entry(*k).or_default().insert(*v);
      }
      let got = guard(|| merge_value_pairs(s.clone()))
        .map_err(|p| format!("merge_value_pairs panics: {}", p))?;
      if got != want {
        return Err(format!("grouping {:?}: {:?}", s, got));
      }
      let got = guard(|| take_only(s.clone().into_iter()))
        .map_err(|p| format!("take_only panics: {}", p))?;
      if got != if s.len() == 1 { Some(s[0]) } else { None } {
        return Err(format!("the only item of {:?}: {:?}", s, got));
      }
      let mut it = s.iter();
      let got = take_only(std::iter::from_fn(|| it.next()));
      if got != if s.len() == 1 { Some(&s[0]) } else { None } {
        return Err(format!("the only item of {:?}: {:?}", s, got));
      }
      st.traces += 3;
      st.states_extra += 1;
      st.transitions += len as u64;
      Ok(())
    },
  )
}

/// Many keys and values.
fn large(max: u64) -> Family {
  Family::new(
    "large",
    max,
    format!(
      "up to {} keys and values, inserted singly, in bulk and by copies",
      max
    ),
    |n, st| {
      let n = n as u32 + 1;
      let mut r: CollectMap<u32, u32> = CollectMap::new();
      let mut m: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
      let mut apply = |k: u32, add: Vec<u32>, got: WasChanged, what: &str| {
        let mut want = false;
        for v in add {
          want |= m.entry(k).or_default().insert(v);
        }
        st.transitions += 1;
        if (got == WasChanged::Changed) != want {
          return Err(format!("{} of {} reports {:?}", what, n, got));
        }
        Ok(m.clone())
      };
      let mut last = BTreeMap::new();
      for i in 0..n {
        let (k, v) = (i * 7 % n, i * 5 % n);
        let g = r.insert(k, v);
        last = apply(k, vec![v], g, "insert")?;
        let b: Vec<u32> = (0..i % 9).map(|x| x * 3 % n).collect();
        let g = r.insert_iter(v, b.clone());
        last = apply(v, b, g, "insert_iter")?;
        let src = last.get(&v).into_iter().flatten().copied().collect();
        let g = r.insert_from_key_set(k, v);
        last = apply(k, src, g, "insert_from_key_set")?;
      }
      let mut got = r.into_inner();
      got.retain(|_, v| !v.is_empty());
      last.retain(|_, v| !v.is_empty());
      if got != last {
        return Err(format!("contents after {} rounds", n));
      }
      st.traces += 1;
      st.states_extra += 1;
      Ok(())
    },
  )
}

/// Sets and maps of very many, of which one is new, or none.
fn huge() -> Family {
  let ns: Vec<u32> = [4096, 16384, 32768, 65536]
    .iter()
    .flat_map(|n| [n - 1, *n, n + 1])
    .collect();
  Family::new(
    "huge",
    ns.len() as u64,
    format!(
      "{:?} values of one key, keys of one value, values inserted at once or \
       copied with none, the first, a middle or the last of them new, pairs to \
       group and items of which one is to be the only one",
      ns
    ),
    move |u, st| {
      let n = ns[u as usize];
      let all: BTreeSet<u32> = (0..n).collect();
      let news = [None, Some(0), Some(n / 2), Some(n - 2), Some(n - 1)];
      let report = |what: &str, new: Option<u32>, got: WasChanged, want: bool| {
        if (got == WasChanged::Changed) != want {
          return Err(format!(
            "{} of {} values, of which {:?} is new, reports {:?}",
            what, n, new, got
          ));
        }
        Ok(())
      };
      for rev in [false, true] {
        let turn = |i: u32| if rev { n - 1 - i } else { i };
        let mut one: CollectMap<u32, u32> = CollectMap::new();
        let mut many: CollectMap<u32, u32> = CollectMap::new();
        for again in [false, true] {
          for i in 0..n {
            report("an insertion", Some(i), one.insert(7, turn(i)), !again)?;
            report("an insertion", Some(i), many.insert(turn(i), 7), !again)?;
            st.transitions += 2;
          }
        }
        if one.get(&7) != Some(&all) || one.get(&8).is_some() {
          return Err(format!("{} values of one key", n));
        }
        for i in 0..=n {
          let got = many.get(&i).map(|s| s.iter().copied().collect::<Vec<_>>());
          if got != if i < n { Some(vec![7]) } else { None } {
            return Err(format!("{} keys of one value, at {}: {:?}", n, i, got));
          }
        }
        if many.iter().count() != n as usize || many.into_inner().len() != n as usize {
          return Err(format!("{} keys", n));
        }
        beat();
        for new in news {
          let but: BTreeSet<u32> =
            all.iter().copied().filter(|v| Some(*v) != new).collect();
          let mut m = CollectMap::from_seed([(1, but.clone()), (2, all.clone())].into());
          let got = m.insert_iter(1, (0..n).map(turn));
          report("inserting at once", new, got, new.is_some())?;
          let mut c = CollectMap::from_seed([(1, but), (2, all.clone())].into());
          let got = c.insert_from_key_set(1, 2);
          report("a copy", new, got, new.is_some())?;
          for m in [m, c] {
            if m.get(&1) != Some(&all) || m.get(&2) != Some(&all) {
              return Err(format!("{} values, {:?} new", n, new));
            }
          }
          st.transitions += 2;
          st.traces += 2;
          beat();
        }
        let mut m: CollectMap<u32, u32> = CollectMap::new();
        report("inserting at once", None, m.insert_iter(1, (0..n).map(turn)), true)?;
        report("a copy", None, m.insert_from_key_set(2, 1), true)?;
        if m.get(&1) != Some(&all) || m.get(&2) != Some(&all) {
          return Err(format!("{} values of a new key", n));
        }
        let g = merge_value_pairs((0..n).map(turn).map(|i| (i, i)));
        let h = merge_value_pairs((0..n).map(turn).map(|i| (3, i)));
        if g.len() != n as usize
          || !g.iter().all(|(k, v)| v.len() == 1 && v.contains(k))
          || h.len() != 1
          || h.get(&3) != Some(&all)
        {
          return Err(format!("grouping {} pairs", n));
        }
      }
      if take_only(0..n).is_some() {
        return Err(format!("the only of {} items", n));
      }
      st.traces += 3;
      st.states_extra += n as u64;
      Ok(())
    },
  )
}

// ------------------------------------------------- other keys and values

/// Values of some sort by number, in which equal numbers make equal values.
trait Sort: Ord + Clone + 'static {
  const NAME: &'static str;
  /// How many there are.
  const COUNT: usize;
  fn make(i: usize) -> Self;
  /// The number it was made from, up to equality.
  fn number(&self) -> usize;
}

impl Sort for () {
  const NAME: &'static str = "()";
  const COUNT: usize = 1;
  fn make(_: usize) {}
  fn number(&self) -> usize {
    0
  }
}

impl Sort for String {
  const NAME: &'static str = "String";
  const COUNT: usize = usize::MAX;
  fn make(i: usize) -> Self {
    "a".repeat(i % 7) + &i.to_string()
  }
  fn number(&self) -> usize {
    self.trim_start_matches('a').parse().unwrap_or(usize::MAX)
  }
}

impl Sort for std::cmp::Reverse<u32> {
  const NAME: &'static str = "Reverse<u32>";
  const COUNT: usize = usize::MAX;
  fn make(i: usize) -> Self {
    std::cmp::Reverse(i as u32)
  }
  fn number(&self) -> usize {
    self.0 as usize
  }
}

impl Sort for Option<Box<i64>> {
  const NAME: &'static str = "Option<Box<i64>>";
  const COUNT: usize = usize::MAX;
  fn make(i: usize) -> Self {
    match i {
      0 => None,
      1 => Some(Box::new(i64::min_value())),
      2 => Some(Box::new(i64::max_value())),
      i => Some(Box::new(-(i as i64))),
    }
  }
  fn number(&self) -> usize {
    match self {
      None => 0,
      Some(b) if **b == i64::min_value() => 1,
      Some(b) if **b == i64::max_value() => 2,
      Some(b) => -**b as usize,
    }
  }
}

/// Equal when the first parts are.
#[derive(Clone, Debug)]
struct Loose(u16, usize);
impl PartialEq for Loose {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl Eq for Loose {}
impl Ord for Loose {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    self.0.cmp(&o.0)
  }
}
impl PartialOrd for Loose {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Sort for Loose {
  const NAME: &'static str = "a type whose equality ignores a part";
  const COUNT: usize = 60000;
  fn make(i: usize) -> Self {
    use std::sync::atomic::*;
    static N: AtomicUsize = AtomicUsize::new(0);
    Loose(i as u16, N.fetch_add(1, Ordering::SeqCst))
  }
  fn number(&self) -> usize {
    self.0 as usize
  }
}

impl Sort for [u64; 40] {
  const NAME: &'static str = "[u64; 40]";
  const COUNT: usize = usize::MAX;
  fn make(i: usize) -> Self {
    let mut a = [0; 40];
    a[39] = i as u64;
    a
  }
  fn number(&self) -> usize {
    self[39] as usize
  }
}

/// Yields the items and claims a size.
struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    self.0.next()
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    (self.1, self.2)
  }
}

type Sets = BTreeMap<usize, BTreeSet<usize>>;

fn contents<K: Sort, V: Sort>(m: &BTreeMap<K, BTreeSet<V>>) -> Sets {
  m.iter()
    .filter(|x| !x.1.is_empty())
    .map(|(k, v)| (k.number(), v.iter().map(V::number).collect()))
    .collect()
}

/// Puts `n` values under each of `n` keys in several ways.
fn sorts<K: Sort, V: Sort>(n: usize, st: &mut Stats) -> Verdict {
  let here = |e: String| {
    format!("keys {}, values {}, {} of each: {}", K::NAME, V::NAME, n, e)
  };
  let (ks, vs) = (n.min(K::COUNT), n.min(V::COUNT));
  // Few keys with many values, and many keys with few.
  for (ks, vs) in [(ks.min(3), vs), (ks, vs.min(3))] {
    let mut r: CollectMap<K, V> = CollectMap::new();
    let mut m = Sets::new();
    let changed = |r: WasChanged| r == WasChanged::Changed;
    for k in 0..ks {
      // Out of order, with repetitions, in bulk with a size of each sort.
      let seq: Vec<usize> =
        (0..vs).map(|i| (i * 7 + k) % vs).chain(0..vs / 2).collect();
      let len = seq.len();
      let it = seq.iter().map(|i| V::make(*i));
      let (got, want) = match k % 4 {
        0 => {
          let mut got = false;
          let mut want = false;
          for i in &seq {
            got = changed(r.insert(K::make(k), V::make(*i)));
            want = m.entry(k).or_default().insert(*i);
            if got != want {
              return Err(here(format!("insert reports {}", got)));
            }
          }
          (got, want)
        }
        c => {
          let got = changed(match c {
            1 => r.insert_iter(K::make(k), Hint(it, 0, None)),
            2 => r.insert_iter(K::make(k), Hint(it, len, Some(len))),
            _ => r.insert_iter(K::make(k), Hint(it, 0, Some(len + 9))),
          });
          let mut want = false;
          for i in &seq {
            want |= m.entry(k).or_default().insert(*i);
          }
          (got, want)
        }
      };
      if got != want {
        return Err(here(format!("key {}: reports {}", k, got)));
      }
      // Again: nothing new; then onto a key of its own, twice.
      if changed(r.insert_iter(K::make(k), seq.iter().map(|i| V::make(*i)))) {
        return Err(here(format!("key {}: the same again is a change", k)));
      }
      for o in [k / 2, k, ks - 1] {
        let add = m.get(&k).cloned().unwrap_or_default();
        let got = changed(r.insert_from_key_set(K::make(o), K::make(k)));
        let e = m.entry(o).or_default();
        let mut want = false;
        for v in add {
          want |= e.insert(v);
        }
        if got != want {
          return Err(here(format!("copy of {} to {}: reports {}", k, o, got)));
        }
      }
      st.transitions += len as u64 + 4;
    }
    m.retain(|_, v| !v.is_empty());
    for k in 0..ks {
      let got: BTreeSet<usize> = r
        .get(&K::make(k))
        .into_iter()
        .flatten()
        .map(V::number)
        .collect();
      if got != m.get(&k).cloned().unwrap_or_default() {
        return Err(here(format!("key {} holds {} values", k, got.len())));
      }
    }
    let got = contents(&r.into_inner());
    if got != m {
      return Err(here("the contents differ".into()));
    }
    // The same by grouping pairs, from a seed.
    let pairs: Vec<(usize, usize)> = m
      .iter()
      .flat_map(|(k, v)| v.iter().map(move |v| (*k, *v)))
      .collect();
    for rev in [false, true] {
      let mut it: Vec<(K, V)> = pairs
        .iter()
        .map(|(k, v)| (K::make(*k), V::make(*v)))
        .collect();
      if rev {
        it.reverse();
      }
      let twice = it.clone();
      let g = merge_value_pairs(Hint(it.into_iter().chain(twice), 0, None));
      if contents(&g) != m {
        return Err(here(format!("grouping {} pairs", pairs.len())));
      }
      let c = CollectMap::from_seed(g);
      if contents(&c.into_inner()) != m {
        return Err(here("a map from a seed".into()));
      }
    }
    // The only item.
    let only = |len: usize, a: usize, b: Option<usize>| {
      take_only(Hint((0..len).map(V::make), a, b)).map(|v| v.number())
    };
    let want = if vs == 1 { Some(0) } else { None };
    for (a, b) in [
      (0, None),
      (vs, Some(vs)),
      (0, Some(vs + 1)),
      (vs.min(1), None),
    ] {
      if only(vs, a, b) != want {
        return Err(here(format!("the only item of {}", vs)));
      }
    }
    st.traces += 8;
    st.states_extra += 1;
  }
  Ok(())
}

fn sorts_family(max: usize) -> Family {
  let ns = edges(max);
  let n = ns.len() as u64;
  Family::new(
    "sorts",
    n * 6,
    format!(
      "6 sorts of keys by 6 of values (of no size, large, reversed, with a loose \
       equality), up to {} of them, iterators with every sort of size hint",
      max
    ),
    move |u, st| {
      let n = ns[(u / 6) as usize];
      macro_rules! rows {
        ($k:ty) => {{
          sorts::<$k, ()>(n, st)?;
          sorts::<$k, String>(n, st)?;
          sorts::<$k, std::cmp::Reverse<u32>>(n, st)?;
          sorts::<$k, Option<Box<i64>>>(n, st)?;
          sorts::<$k, Loose>(n, st)?;
          sorts::<$k, [u64; 40]>(n, st)
        }};
      }
      match u % 6 {
        0 => rows!(()),
        1 => rows!(String),
        2 => rows!(std::cmp::Reverse<u32>),
        3 => rows!(Option<Box<i64>>),
        4 => rows!(Loose),
        _ => rows!([u64; 40]),
      }
    },
  )
}

pub fn p24(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let set = |v: &[u8]| v.iter().copied().collect::<BTreeSet<u8>>();
  let seeds: Vec<Option<Model>> = vec![
    None,
    Some(Model::new()),
    Some([(0, set(&[0])), (1, set(&[]))].into()),
    Some([(0, set(&[0, 1])), (2, set(&[1]))].into()),
  ];
  let cfgs = |k, v, b| -> Vec<<W as World>::Cfg> {
    seeds.iter().map(|s| (k, v, b, s.clone())).collect()
  };
  let mut f = vec![
    sorts_family(if deep { 1025 } else { 257 }),
    large(if deep { 300 } else { 120 }),
    huge(),
    histories::<W>(
      "three keys",
      cfgs(3, 2, 2),
      3,
      "maps of 3 keys and 2 values, bulk insertions of up to 2, from 4 seeds",
    ),
    histories::<W>(
      "bulk",
      cfgs(2, 3, 3),
      2,
      "maps of 2 keys and 3 values, bulk insertions of up to 3, from 4 seeds",
    ),
    histories::<W>(
      "two keys",
      cfgs(2, 2, 1),
      5,
      "maps of 2 keys and 2 values, bulk insertions of up to 1, from 4 seeds",
    ),
  ];
  for n in 0..=if deep { 7 } else { 5 } {
    f.push(pairs(3, 2, n));
  }
  if deep {
    f.push(histories::<W>(
      "three keys-deep",
      cfgs(3, 2, 2),
      4,
      "maps of 3 keys and 2 values, bulk insertions of up to 2, from 4 seeds",
    ));
    f.push(histories::<W>(
      "bulk-deep",
      cfgs(2, 3, 3),
      3,
      "maps of 2 keys and 3 values, bulk insertions of up to 3, from 4 seeds",
    ));
    f.push(histories::<W>(
      "two keys-deep",
      cfgs(2, 2, 1),
      6,
      "maps of 2 keys and 2 values, bulk insertions of up to 1, from 4 seeds",
    ));
  }
  Property {
    id: "P24",
    families: f,
    assumptions: vec![],
    explanation: "states: contents of the map, and sequences of pairs; transitions: \
      insertions; after every history the map is read by key, by iteration and by \
      taking it apart"
      .into(),
  }
}
