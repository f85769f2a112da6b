//! P22: maps keyed by type and value.

use crate::engine::*;
use crate::hist::*;
use bongo::utils::type_map::{TypeKey, TypeMap};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

macro_rules! key {
  ($name:ident, $inner:ty, $value:ty) => {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    struct $name($inner);
    impl TypeKey for $name {
      type ValueType = $value;
    }
  };
}

key!(A, u8, u16);
// The same shape and value type as A.
key!(B, u8, u16);
key!(S, String, String);
key!(U, (), Vec<u16>);
key!(P, (u8, String), Rc<u16>);

/// A key type of descending order.
#[derive(Clone, PartialEq, Eq, Debug)]
struct R(u8);
impl Ord for R {
  fn cmp(&self, o: &Self) -> Ordering {
    o.0.cmp(&self.0)
  }
}
impl PartialOrd for R {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl TypeKey for R {
  type ValueType = (u16, u16);
}

/// A key of the model: number of the type, value.
type K = (u8, u8);

const TYPES: u8 = 6;

fn insert(m: &mut TypeMap, k: K, v: u16) {
  match k.0 {
    0 => m.insert(A(k.1), v),
    1 => m.insert(B(k.1), v),
    2 => m.insert(S(k.1.to_string()), v.to_string()),
    3 => m.insert(U(()), vec![v; 3]),
    4 => m.insert(R(k.1), (v, v + 1)),
    _ => m.insert(P((k.1, "x".repeat(k.1 as usize))), Rc::new(v)),
  }
}

fn get(m: &TypeMap, k: K) -> Result<Option<u16>, String> {
  let bad = || Err("a value of another shape".to_string());
  Ok(match k.0 {
    0 => m.get(&A(k.1)).copied(),
    1 => m.get(&B(k.1)).copied(),
    2 => m
      .get(&S(k.1.to_string()))
      .map(|s| s.parse().unwrap_or(9999)),
    3 => match m.get(&U(())) {
      None => None,
      Some(v) if v.len() == 3 && v[0] == v[1] && v[1] == v[2] => Some(v[0]),
      Some(_) => return bad(),
    },
    4 => match m.get(&R(k.1)) {
      None => None,
      Some((a, b)) if a + 1 == *b => Some(*a),
      Some(_) => return bad(),
    },
    _ => m.get(&P((k.1, "x".repeat(k.1 as usize)))).map(|r| **r),
  })
}

/// Sets the value of a key that is there; whether it was.
fn set(m: &mut TypeMap, k: K, v: u16) -> bool {
  match k.0 {
    0 => m.get_mut(&A(k.1)).map(|x| *x = v).is_some(),
    1 => m.get_mut(&B(k.1)).map(|x| *x = v).is_some(),
    2 => m
      .get_mut(&S(k.1.to_string()))
      .map(|x| *x = v.to_string())
      .is_some(),
    3 => m.get_mut(&U(())).map(|x| *x = vec![v; 3]).is_some(),
    4 => m.get_mut(&R(k.1)).map(|x| *x = (v, v + 1)).is_some(),
    _ => m
      .get_mut(&P((k.1, "x".repeat(k.1 as usize))))
      .map(|x| *x = Rc::new(v))
      .is_some(),
  }
}

#[derive(Clone, Debug)]
enum Op {
  Insert(usize, K, u16),
  Set(usize, K, u16),
  /// Merges the other map into this one.
  Merge(usize),
  /// Merges a map of its own making with the entries given.
  MergeNew(usize, Vec<(K, u16)>),
  Fresh(usize),
}

struct W {
  keys: Vec<K>,
  real: [TypeMap; 2],
  model: [BTreeMap<K, u16>; 2],
}

impl World for W {
  type Cfg = Vec<K>;
  type Op = Op;

  fn new(c: &Vec<K>) -> Self {
    W {
      keys: c.clone(),
      real: [TypeMap::new(), TypeMap::new()],
      model: Default::default(),
    }
  }

  fn ops(&self) -> Vec<Op> {
    let mut v = Vec::new();
    for m in 0..2 {
      for k in &self.keys {
        for x in 0..2 {
          v.push(Op::Insert(m, *k, x + 10 * m as u16));
        }
        v.push(Op::Set(m, *k, 7));
      }
      v.push(Op::Merge(m));
    }
    let all = self.keys.iter().map(|k| (*k, 5)).collect();
    v.push(Op::MergeNew(0, all));
    v.push(Op::Fresh(0));
    v
  }

  fn apply(&mut self, op: &Op) -> Verdict {
    match op {
      Op::Insert(m, k, v) => {
        insert(&mut self.real[*m], *k, *v);
        self.model[*m].insert(*k, *v);
      }
      Op::Set(m, k, v) => {
        let got = set(&mut self.real[*m], *k, *v);
        let want = self.model[*m].get_mut(k).map(|x| *x = *v).is_some();
        if got != want {
          return Err(format!("get_mut finds {:?}: {}", k, got));
        }
      }
      Op::Merge(m) => {
        let (a, b) = self.real.split_at_mut(1);
        let (mut x, mut y) = (&mut a[0], &mut b[0]);
        if *m == 1 {
          std::mem::swap(&mut x, &mut y);
        }
        x.merge(y);
        let o = std::mem::take(&mut self.model[1 - m]);
        self.model[*m].extend(o);
      }
      Op::MergeNew(m, es) => {
        let mut o = TypeMap::new();
        for (k, v) in es {
          insert(&mut o, *k, *v);
        }
        self.real[*m].merge(&mut o);
        self.model[*m].extend(es.iter().copied());
        for (k, _) in es {
          if get(&o, *k)?.is_some() {
            return Err(format!("a merged map still holds {:?}", k));
          }
        }
      }
      Op::Fresh(m) => {
        self.real[*m] = TypeMap::new();
        self.model[*m].clear();
      }
    }
    Ok(())
  }

  fn check(&mut self) -> Verdict {
    // Keys in play, and keys of the same values but other types.
    for m in 0..2 {
      for t in 0..TYPES {
        for v in 0..3 {
          if t == 3 && v > 0 {
            continue;
          }
          let got = get(&self.real[m], (t, v))?;
          let want = self.model[m].get(&(t, v)).copied();
          if got != want {
            return Err(format!(
              "map {} at {:?}: {:?}, expected {:?}",
              m,
              (t, v),
              got,
              want
            ));
          }
        }
      }
    }
    Ok(())
  }

  fn key(&self) -> u64 {
    hash(&(&self.keys, &self.model))
  }
}

/// Many keys of every type, inserted in several orders, split over two maps.
fn many(max: u64) -> Family {
  Family::new(
    "many keys",
    max,
    format!(
      "1 to {} keys of each of {} types in two maps that overlap, merged",
      max, TYPES
    ),
    |u, st| {
      let n = u as usize + 1;
      for order in 0..3 {
        for overlap in [0, n / 2, n] {
          let mut keys: Vec<K> = (0..TYPES)
            .flat_map(|t| (0..n).map(move |v| (t, v as u8)))
            .filter(|k| k.0 != 3 || k.1 == 0)
            .collect();
          match order {
            0 => {}
            1 => keys.reverse(),
            _ => keys.sort_by_key(|k| (k.1.wrapping_mul(37), k.0)),
          }
          let (mut a, mut b) = (TypeMap::new(), TypeMap::new());
          let mut want = BTreeMap::new();
          for k in &keys {
            if (k.1 as usize) < n / 2 + overlap / 2 {
              insert(&mut a, *k, 1);
              want.insert(*k, 1);
            }
          }
          for k in &keys {
            if (k.1 as usize) >= n / 2 - overlap / 2 {
              insert(&mut b, *k, 2);
              want.insert(*k, 2);
            }
          }
          a.merge(&mut b);
          for k in &keys {
            if get(&a, *k)? != want.get(k).copied() {
              return Err(format!(
                "{} keys of each type, {:?} is {:?}",
                n,
                k,
                get(&a, *k)?
              ));
            }
            if get(&b, *k)?.is_some() {
              return Err(format!("the merged map still holds {:?}", k));
            }
            if set(&mut a, *k, 3) != want.contains_key(k) {
              return Err(format!("get_mut of {:?}", k));
            }
          }
          for k in &keys {
            let w = want.get(k).map(|_| 3);
            if get(&a, *k)? != w {
              return Err(format!("{:?} after updates", k));
            }
            st.transitions += 3;
          }
          st.traces += 1;
          st.states_extra += 1;
        }
      }
      Ok(())
    },
  )
}

/// Key types of every sort, behind one interface: keys and values by number.
trait Kind: Send + Sync {
  fn name(&self) -> &'static str;
  /// How many keys of the type there are, up to what is asked for.
  fn keys(&self, want: usize) -> usize;
  fn put(&self, m: &mut TypeMap, k: usize, v: u16);
  /// The number of the value held, `Err` when the value is damaged.
  fn get(&self, m: &TypeMap, k: usize) -> Result<Option<u16>, String>;
  fn set(&self, m: &mut TypeMap, k: usize, v: u16) -> bool;
}

struct Of<T: TypeKey> {
  name: &'static str,
  key: fn(usize) -> T,
  /// The number of keys there are.
  count: usize,
  value: fn(u16) -> T::ValueType,
  read: fn(&T::ValueType) -> Option<u16>,
}

impl<T: TypeKey> Kind for Of<T> {
  fn name(&self) -> &'static str {
    self.name
  }
  fn keys(&self, want: usize) -> usize {
    want.min(self.count)
  }
  fn put(&self, m: &mut TypeMap, k: usize, v: u16) {
    m.insert((self.key)(k), (self.value)(v));
  }
  fn get(&self, m: &TypeMap, k: usize) -> Result<Option<u16>, String> {
    match m.get(&(self.key)(k)) {
      None => Ok(None),
      Some(v) => (self.read)(v).map(Some).ok_or_else(|| {
        format!("a damaged value under key {} of {}", k, self.name)
      }),
    }
  }
  fn set(&self, m: &mut TypeMap, k: usize, v: u16) -> bool {
    m.get_mut(&(self.key)(k))
      .map(|x| *x = (self.value)(v))
      .is_some()
  }
}

/// A generic key: its type differs by its parameters only.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct G<T, const N: usize>(T);
impl<T: Ord + 'static, const N: usize> TypeKey for G<T, N> {
  type ValueType = u16;
}

/// A key that says nothing but its type.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Unit;
impl TypeKey for Unit {
  type ValueType = u16;
}

/// As large as keys get.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(64))]
struct Big([u64; 64]);
impl TypeKey for Big {
  type ValueType = [u64; 300];
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
enum Sum {
  None,
  Num(i64),
  Text(&'static str),
  More(Box<Sum>),
}
impl TypeKey for Sum {
  type ValueType = Option<Box<u16>>;
}

/// Equality ignores a part of the key.
struct Loose(u8, usize);
impl PartialEq for Loose {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl Eq for Loose {}
impl Ord for Loose {
  fn cmp(&self, o: &Self) -> Ordering {
    self.0.cmp(&o.0)
  }
}
impl PartialOrd for Loose {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl TypeKey for Loose {
  type ValueType = Box<dyn std::any::Any>;
}

/// A map as the value of a map.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Nest(u8);
impl TypeKey for Nest {
  type ValueType = TypeMap;
}

/// A value of no size, and one that is its own key.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Empty(u16);
impl TypeKey for Empty {
  type ValueType = ();
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct Own(u16);
impl TypeKey for Own {
  type ValueType = Own;
}

fn id(v: u16) -> u16 {
  v
}
fn same(v: &u16) -> Option<u16> {
  Some(*v)
}

/// Three types of the same name, in different blocks.
fn namesakes() -> Vec<Box<dyn Kind>> {
  fn one() -> Box<dyn Kind> {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct Key(u16);
    impl TypeKey for Key {
      type ValueType = u16;
    }
    Box::new(Of::<Key> {
      name: "Key 1",
      key: |k| Key(k as u16),
      count: 9999,
      value: id,
      read: same,
    })
  }
  let two: Box<dyn Kind> = {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct Key(u16);
    impl TypeKey for Key {
      type ValueType = u16;
    }
    Box::new(Of::<Key> {
      name: "Key 2",
      key: |k| Key(k as u16),
      count: 9999,
      value: id,
      read: same,
    })
  };
  let three: Box<dyn Kind> = {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    struct Key(u16);
    impl TypeKey for Key {
      type ValueType = String;
    }
    Box::new(Of::<Key> {
      name: "Key 3",
      key: |k| Key(k as u16),
      count: 9999,
      value: |v| v.to_string(),
      read: |v| v.parse().ok(),
    })
  };
  vec![one(), two, three]
}

fn zoo() -> Vec<Box<dyn Kind>> {
  let mut v = namesakes();
  v.push(Box::new(Of::<Unit> {
    name: "Unit",
    key: |_| Unit,
    count: 1,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<u8, 0>> {
    name: "G<u8, 0>",
    key: |k| G(k as u8),
    count: 256,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<u8, 1>> {
    name: "G<u8, 1>",
    key: |k| G(k as u8),
    count: 256,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<(), 0>> {
    name: "G<(), 0>",
    key: |_| G(()),
    count: 1,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<(), 1>> {
    name: "G<(), 1>",
    key: |_| G(()),
    count: 1,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<i64, 0>> {
    name: "G<i64, 0>",
    key: |k| {
      G(match k {
        0 => i64::min_value(),
        1 => i64::max_value(),
        k => 1 - k as i64,
      })
    },
    count: 9999,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<&'static str, 0>> {
    name: "G<&str, 0>",
    key: |k| G(["", "a", "aa", "b", "\u{0}", "\u{e9}", "A"][k]),
    count: 7,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<String, 0>> {
    name: "G<String, 0>",
    key: |k| G("a".repeat(k)),
    count: 9999,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<Option<Vec<bool>>, 0>> {
    name: "G<Option<Vec<bool>>, 0>",
    key: |k| {
      G(if k == 0 {
        None
      } else {
        Some((1..k).map(|i| i + 1 < k).collect())
      })
    },
    count: 9999,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<G<u8, 0>, 0>> {
    name: "G<G<u8, 0>, 0>",
    key: |k| G(G(k as u8)),
    count: 256,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<std::any::TypeId, 0>> {
    name: "G<TypeId, 0>",
    key: |k| {
      use std::any::TypeId;
      G([
        TypeId::of::<u8>(),
        TypeId::of::<Unit>(),
        TypeId::of::<G<TypeId, 0>>(),
      ][k])
    },
    count: 3,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<G<std::cmp::Reverse<u16>, 0>> {
    name: "G<Reverse<u16>, 0>",
    key: |k| G(std::cmp::Reverse(k as u16)),
    count: 9999,
    value: id,
    read: same,
  }));
  v.push(Box::new(Of::<Big> {
    name: "Big",
    key: |k| {
      let mut b = [7; 64];
      b[63] = k as u64;
      Big(b)
    },
    count: 9999,
    value: |v| [v as u64; 300],
    read: |v| {
      if v.iter().all(|x| *x == v[0]) {
        Some(v[0] as u16)
      } else {
        None
      }
    },
  }));
  v.push(Box::new(Of::<Sum> {
    name: "Sum",
    key: |k| match k {
      0 => Sum::None,
      1 => Sum::Num(0),
      2 => Sum::Text(""),
      3 => Sum::More(Box::new(Sum::None)),
      4 => Sum::Num(-1),
      5 => Sum::Text("None"),
      _ => Sum::More(Box::new(Sum::Num(0))),
    },
    count: 7,
    value: |v| if v == 0 { None } else { Some(Box::new(v)) },
    read: |v| Some(v.as_ref().map_or(0, |v| **v)),
  }));
  v.push(Box::new(Of::<Loose> {
    name: "Loose",
    // No two keys are alike in every part.
    key: |k| {
      use std::sync::atomic::*;
      static N: AtomicUsize = AtomicUsize::new(0);
      Loose(k as u8, N.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
    },
    count: 256,
    value: |v| Box::new(v),
    read: |v| v.downcast_ref().copied(),
  }));
  v.push(Box::new(Of::<Nest> {
    name: "Nest",
    key: |k| Nest(k as u8),
    count: 256,
    value: |v| {
      let mut m = TypeMap::new();
      m.insert(A(0), v);
      m
    },
    read: |m| m.get(&A(0)).copied(),
  }));
  v.push(Box::new(Of::<Own> {
    name: "Own",
    key: |k| Own(k as u16),
    count: 9999,
    value: Own,
    read: |v| Some(v.0),
  }));
  v
}

/// Puts keys of the kinds into two maps, by turns or kind by kind, and merges.
fn kinds(
  ks: &[&dyn Kind],
  n: usize,
  turns: bool,
  split: usize,
  st: &mut Stats,
) -> Verdict {
  let mut keys: Vec<(usize, usize)> = Vec::new();
  for (i, k) in ks.iter().enumerate() {
    keys.extend((0..k.keys(n)).map(|j| (i, j)));
  }
  if turns {
    keys.sort_by_key(|(i, j)| (*j, std::cmp::Reverse(*i)));
  }
  let mut maps = [TypeMap::new(), TypeMap::new()];
  let mut want = [BTreeMap::new(), BTreeMap::new()];
  let look = |maps: &[TypeMap; 2],
              want: &[BTreeMap<(usize, usize), u16>; 2]| {
    for m in 0..2 {
      for (i, j) in &keys {
        let got = ks[*i].get(&maps[m], *j)?;
        let w = want[m].get(&(*i, *j)).copied();
        if got != w {
          return Err(format!(
            "map {} at key {} of {}: {:?}, expected {:?}",
            m,
            j,
            ks[*i].name(),
            got,
            w
          ));
        }
      }
    }
    Ok(())
  };
  let often = keys.len() <= 8;
  for (x, (i, j)) in keys.iter().enumerate() {
    // Into the first map, the second, or both.
    for m in 0..2 {
      if (x + split) % 3 == m {
        continue;
      }
      let v = (x * 2 + m + 1 + (x >> 14) * 7) as u16;
      if ks[*i].set(&mut maps[m], *j, 9) {
        return Err(format!("get_mut finds key {} of {}", j, ks[*i].name()));
      }
      ks[*i].put(&mut maps[m], *j, v);
      want[m].insert((*i, *j), v);
      st.transitions += 1;
    }
    if often {
      look(&maps, &want)?;
    }
  }
  look(&maps, &want)?;
  let [a, b] = &mut maps;
  a.merge(b);
  let o = std::mem::take(&mut want[1]);
  want[0].extend(o);
  look(&maps, &want)?;
  // Of maps that are empty.
  let [a, b] = &mut maps;
  a.merge(b);
  look(&maps, &want)?;
  for (x, (i, j)) in keys.iter().enumerate() {
    let v = (x + 5) as u16;
    if x % 2 == 0 {
      if !ks[*i].set(&mut maps[0], *j, v) {
        return Err(format!("get_mut misses key {} of {}", j, ks[*i].name()));
      }
    } else {
      ks[*i].put(&mut maps[0], *j, v);
    }
    want[0].insert((*i, *j), v);
    if often {
      look(&maps, &want)?;
    }
  }
  let [a, b] = &mut maps;
  b.merge(a);
  want.swap(0, 1);
  look(&maps, &want)?;
  st.transitions += keys.len() as u64;
  st.traces += 1;
  st.states_extra += 1;
  Ok(())
}

/// Maps of more keys than a word of 16 bits can count.
fn huge() -> Family {
  Family::new(
    "huge",
    9,
    "65535, 65536 and 65537 keys of one type, of another that differs by a \
     number, and of both, put into two maps, merged, updated and merged back",
    |u, st| {
      macro_rules! wide {
        ($n:expr, $s:expr) => {
          &Of::<G<u32, $n>> {
            name: $s,
            key: |k| G(k as u32),
            count: usize::MAX,
            value: id,
            read: same,
          }
        };
      }
      let (a, b): (&dyn Kind, &dyn Kind) =
        (wide!(0, "G<u32, 0>"), wide!(1, "G<u32, 1>"));
      let ks = [vec![a], vec![b], vec![a, b]];
      kinds(&ks[u as usize / 3], 65535 + u as usize % 3, u % 2 == 0, 2, st)
    },
  )
}

fn kinds_families(max: usize) -> Vec<Family> {
  let n = zoo().len();
  let ns = edges(max);
  vec![
    Family::new(
      "kinds",
      (n * n) as u64,
      format!(
        "all pairs of {} key types (same names, generic, of no size, large,          reversed or partial equality), 0 to 3 keys each, put into two maps in          two orders and three ways, merged, updated and merged back; looked up          after each step",
        n
      ),
      move |u, st| {
        let z = zoo();
        let (a, b) = (&z[u as usize / n], &z[u as usize % n]);
        let ks: Vec<&dyn Kind> = if std::ptr::eq(a, b) { vec![&**a] } else { vec![&**a, &**b] };
        for keys in 0..4 {
          for turns in [false, true] {
            for split in 0..3 {
              kinds(&ks, keys, turns, split, st)?;
            }
          }
        }
        // Values of no size.
        let mut m = TypeMap::new();
        m.insert(Empty(u as u16), ());
        if m.get(&Empty(u as u16)).is_none() || m.get_mut(&Empty(u as u16 + 1)).is_some() {
          return Err("a value of no size".into());
        }
        Ok(())
      },
    ),
    Family::new(
      "all kinds",
      ns.len() as u64,
      format!("all {} key types at once, with up to {} keys each", n, max),
      move |u, st| {
        let z = zoo();
        let ks: Vec<&dyn Kind> = z.iter().map(|k| &**k).collect();
        for turns in [false, true] {
          for split in 0..3 {
            kinds(&ks, ns[u as usize], turns, split, st)?;
          }
        }
        Ok(())
      },
    ),
  ]
}

pub fn p22(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let sets: Vec<Vec<K>> = vec![
    vec![(0, 0), (0, 1), (1, 0), (3, 0)],
    vec![(0, 0), (2, 0), (2, 1), (4, 0)],
    vec![(1, 1), (4, 0), (4, 1), (5, 1)],
    vec![(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0)],
  ];
  let mut f = vec![
    many(if deep { 200 } else { 80 }),
    histories::<W>(
      "histories",
      sets.clone(),
      3,
      "two maps, keys (type, value) of each of the sets",
    ),
    histories::<W>(
      "longer",
      sets[..3].to_vec(),
      4,
      "two maps, keys (type, value) of each of the sets",
    ),
  ];
  f.push(huge());
  f.extend(kinds_families(if deep { 1025 } else { 129 }));
  if deep {
    f.push(histories::<W>(
      "longest",
      sets[..3].iter().map(|s| s[..3].to_vec()).collect(),
      5,
      "two maps, three keys (type, value)",
    ));
    f.push(histories::<W>(
      "all types",
      sets[3..].to_vec(),
      4,
      "two maps",
    ));
  }
  Property {
    id: "P22",
    families: f,
    assumptions: vec![
      "six key types in histories, and a zoo of further ones, stand for all"
        .into(),
    ],
    explanation: "states: contents of the two maps; transitions: operations; \
      after every history every key in play, and the same values under every \
      other key type, are looked up in both maps"
      .into(),
  }
}
