//! P26: maps that merge.

use crate::engine::*;
use crate::hist::*;
use bongo::utils::mergeables::{
  Mergable, MergableMap, Value, ValueCow, ValueRef,
};
use bongo::utils::WasChanged;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;

trait Val: Mergable + Clone + PartialEq + Debug + std::hash::Hash + Send + Sync + 'static {
  fn make(v: u8) -> Self;
}

fn flag(changed: bool) -> WasChanged {
  if changed {
    WasChanged::Changed
  } else {
    WasChanged::Unchanged
  }
}

/// Shows the order of merges; what it reports does not depend on whether it
/// changed.
#[derive(Clone, PartialEq, Debug, Hash)]
struct List(Vec<u8>);

impl Mergable for List {
  fn merge(&mut self, o: &Self) -> WasChanged {
    self.0.extend(&o.0);
    flag(o.0.last().map_or(false, |v| v % 2 == 0))
  }
}
impl Val for List {
  fn make(v: u8) -> Self {
    List(vec![v])
  }
}

#[derive(Clone, PartialEq, Debug, Hash)]
struct Max(u8);

impl Mergable for Max {
  fn merge(&mut self, o: &Self) -> WasChanged {
    let c = o.0 > self.0;
    self.0 = self.0.max(o.0);
    flag(c)
  }
}
impl Val for Max {
  fn make(v: u8) -> Self {
    Max(v)
  }
}

/// A set; value 0 is the empty one, so a merge with it changes nothing.
#[derive(Clone, PartialEq, Debug, Hash)]
struct Set(std::collections::BTreeSet<u8>);

impl Mergable for Set {
  fn merge(&mut self, o: &Self) -> WasChanged {
    let n = self.0.len();
    self.0.extend(&o.0);
    flag(self.0.len() != n)
  }
}
impl Val for Set {
  fn make(v: u8) -> Self {
    Set((0..v).collect())
  }
}

/// Without data; every merge reports a change.
#[derive(Clone, PartialEq, Debug, Hash)]
struct Always;

impl Mergable for Always {
  fn merge(&mut self, _: &Self) -> WasChanged {
    WasChanged::Changed
  }
}
impl Val for Always {
  fn make(_: u8) -> Self {
    Always
  }
}

/// Without data; no merge reports a change.
#[derive(Clone, PartialEq, Debug, Hash)]
struct Never;

impl Mergable for Never {
  fn merge(&mut self, _: &Self) -> WasChanged {
    WasChanged::Unchanged
  }
}
impl Val for Never {
  fn make(_: u8) -> Self {
    Never
  }
}

/// A sum: merging equal values changes them.  Reports the change of the
/// lowest bit only.  Large and with a default among its values.
#[derive(Clone, PartialEq, Debug, Hash, Default)]
struct Sum([u64; 9]);

impl Mergable for Sum {
  fn merge(&mut self, o: &Self) -> WasChanged {
    for (a, b) in self.0.iter_mut().zip(&o.0) {
      *a = a.wrapping_mul(3).wrapping_add(*b);
    }
    flag(o.0[8] % 2 == 1)
  }
}
impl Val for Sum {
  fn make(v: u8) -> Self {
    Sum([v as u64; 9])
  }
}

/// An optional value: the first one that is there stays.
#[derive(Clone, PartialEq, Debug, Hash)]
struct First(Option<Box<u8>>);

impl Mergable for First {
  fn merge(&mut self, o: &Self) -> WasChanged {
    if self.0.is_none() && o.0.is_some() {
      self.0 = o.0.clone();
      return WasChanged::Changed;
    }
    WasChanged::Unchanged
  }
}
impl Val for First {
  fn make(v: u8) -> Self {
    First(v.checked_sub(1).map(Box::new))
  }
}

/// Many keys, in several orders, each inserted three times by any two ways.
fn sizes(list: Vec<usize>) -> Family {
  Family::new(
    "sizes",
    list.len() as u64,
    format!("maps of {:?} keys, every two ways of insertion, three orders", list),
    move |u, st| {
      let n = list[u as usize];
      let order = |o: usize, i: usize| match o {
        0 => i,
        1 => n - 1 - i,
        _ => (i * 7919) % n,
      };
      for (o, a) in (0..3).flat_map(|o| HOWS.iter().map(move |a| (o, a))) {
        for b in HOWS {
          // Large maps are filled in one order and way, or another.
          if n > 4096 && (o == 1 || a != b) {
            continue;
          }
          let mut m: MergableMap<String, List> = MergableMap::new();
          let mut model: BTreeMap<String, List> = BTreeMap::new();
          for (r, how) in [a, b, a].iter().enumerate() {
            for i in 0..n {
              let k = order(o, i);
              let key = format!("key {}", k);
              let v = List(vec![r as u8, (k % 251) as u8]);
              let val = Value::verif_new(key.clone(), v.clone());
              let got = match how {
                Insert => m.insert(val),
                CowValue => m.insert_cow(val),
                CowOwned => m.insert_cow(ValueCow::Owned(val)),
                CowRefValue => m.insert_cow(&val),
                CowRef => m.insert_cow(ValueRef::from(&val)),
                CowBorrowed => m.insert_cow(ValueCow::Borrowed((&val).into())),
              };
              let want = match model.get_mut(&key) {
                Some(x) => x.merge(&v),
                None => {
                  model.insert(key.clone(), v);
                  WasChanged::Changed
                }
              };
              if got != want {
                return Err(format!(
                  "{} keys, {:?} then {:?}: inserting {:?} reports {:?}, expected {:?}",
                  n, a, b, key, got, want
                ));
              }
              st.transitions += 1;
            }
          }
          for i in 0..=n {
            let k = format!("key {}", i);
            let got = m.get_entry(&k).map(|r| (r.key().clone(), r.value().clone()));
            let want = model.get(&k).map(|v| (k.clone(), v.clone()));
            if got != want {
              return Err(format!("{} keys: {:?}, expected {:?}", n, got, want));
            }
          }
          st.traces += 1;
          st.states_extra += 3 * n as u64;
        }
      }
      Ok(())
    },
  )
}

/// A key of descending order that owns memory.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Key(String);

impl Ord for Key {
  fn cmp(&self, o: &Self) -> Ordering {
    o.0.cmp(&self.0)
  }
}
impl PartialOrd for Key {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}

fn key(k: u8) -> Key {
  Key(k.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
  Insert,
  CowValue,
  CowOwned,
  CowRefValue,
  CowRef,
  CowBorrowed,
}
use How::*;

const HOWS: &[How] =
  &[Insert, CowValue, CowOwned, CowRefValue, CowRef, CowBorrowed];

#[derive(Clone, Copy, Debug)]
enum Op {
  /// Map, key, value.
  Put(How, usize, u8, u8),
  /// A value changed through `value_mut` first.
  Changed(usize, u8, u8, u8),
  /// The entry of one map into the other, or a copy of it into itself.
  Move(How, usize, usize, u8),
}

#[derive(Clone, Debug)]
struct Cfg {
  maps: usize,
  keys: u8,
  vals: u8,
  hows: &'static [How],
}

struct W<V: Val> {
  cfg: Cfg,
  maps: Vec<MergableMap<Key, V>>,
  model: Vec<BTreeMap<u8, V>>,
  kind: PhantomData<V>,
}

type Cow<'a, V> = ValueCow<'a, Key, V>;

/// All views of a value agree.
fn views<V: Val>(c: &Cow<'_, V>, k: &Key, v: &V) -> Verdict {
  let r = c.as_ref();
  let r2 = r;
  #[allow(clippy::clone_on_copy)]
  let r3 = r2.clone();
  let o = c.to_owned();
  let t = r3.to_value();
  let i = c.clone().into_owned();
  let ks = [r.key(), r3.key(), c.key(), o.key(), t.key(), i.key()];
  let vs = [r.value(), r3.value(), c.value(), o.value(), t.value(), i.value()];
  if ks.iter().any(|x| *x != k) || vs.iter().any(|x| *x != v) {
    return Err(format!(
      "views of {:?} with {:?}: keys {:?}, values {:?}",
      k, v, ks, vs
    ));
  }
  Ok(())
}

/// Inserts what is shown by a reference.
fn put<'a, V: Val>(
  m: &mut MergableMap<Key, V>,
  how: How,
  r: ValueRef<'a, Key, V>,
) -> Result<WasChanged, String> {
  let (k, v) = (r.key().clone(), r.value().clone());
  views(&ValueCow::Borrowed(r), &k, &v)?;
  let owned = r.to_value();
  views(&ValueCow::Owned(owned.clone()), &k, &v)?;
  views(&ValueCow::from(&owned), &k, &v)?;
  views(&ValueCow::from(ValueRef::from(&owned)), &k, &v)?;
  let w = match how {
    Insert => m.insert(owned.clone()),
    CowValue => m.insert_cow(owned.clone()),
    CowOwned => m.insert_cow(ValueCow::Owned(owned.clone())),
    CowRefValue => m.insert_cow(&owned),
    CowRef => m.insert_cow(r),
    CowBorrowed => m.insert_cow(ValueCow::Borrowed(r)),
  };
  if (owned.key(), owned.value()) != (&k, &v) || (r.key(), r.value()) != (&k, &v)
  {
    return Err(format!("the borrowed value of {:?} became {:?}", k, r.value()));
  }
  Ok(w)
}

impl<V: Val> W<V> {
  fn expect(&mut self, m: usize, k: u8, v: V, got: WasChanged) -> Verdict {
    let want = match self.model[m].get_mut(&k) {
      Some(x) => x.merge(&v) == WasChanged::Changed,
      None => {
        self.model[m].insert(k, v);
        true
      }
    };
    if (got == WasChanged::Changed) != want {
      return Err(format!("reported change: {}, expected {}", got == WasChanged::Changed, want));
    }
    Ok(())
  }
}

impl<V: Val> World for W<V> {
  type Cfg = Cfg;
  type Op = Op;
  fn new(cfg: &Cfg) -> Self {
    W {
      cfg: cfg.clone(),
      maps: (0..cfg.maps)
        .map(|i| if i == 0 { MergableMap::new() } else { MergableMap::default() })
        .collect(),
      model: vec![BTreeMap::new(); cfg.maps],
      kind: PhantomData,
    }
  }
  fn ops(&self) -> Vec<Op> {
    let mut v = Vec::new();
    for m in 0..self.cfg.maps {
      for k in 0..self.cfg.keys {
        for x in 0..self.cfg.vals {
          v.extend(self.cfg.hows.iter().map(|h| Op::Put(*h, m, k, x)));
        }
        v.push(Op::Changed(m, k, 0, 1));
        for n in 0..self.cfg.maps {
          if self.model[n].contains_key(&k) {
            v.extend(self.cfg.hows.iter().map(|h| Op::Move(*h, n, m, k)));
          }
        }
      }
    }
    v
  }
  fn apply(&mut self, op: &Op) -> Verdict {
    match *op {
      Op::Put(how, m, k, v) => {
        let val = Value::verif_new(key(k), V::make(v));
        let w = put(&mut self.maps[m], how, (&val).into())?;
        self.expect(m, k, V::make(v), w)
      }
      Op::Changed(m, k, a, b) => {
        let mut val = Value::verif_new(key(k), V::make(a));
        let kept = val.clone();
        *val.value_mut() = V::make(b);
        if *kept.value() != V::make(a) || *val.value() != V::make(b) {
          return Err("changing a value".into());
        }
        let w = put(&mut self.maps[m], CowValue, (&val).into())?;
        self.expect(m, k, V::make(b), w)
      }
      Op::Move(how, from, to, k) => {
        let v = self.model[from][&k].clone();
        let w = if from == to {
          let own = match self.maps[from].get_entry(&key(k)) {
            Some(r) => r.to_value(),
            None => return Err(format!("no entry of {}", k)),
          };
          put(&mut self.maps[to], how, (&own).into())?
        } else {
          let (a, b) = self.maps.split_at_mut(from.max(to));
          let (src, dst) =
            if from < to { (&a[from], &mut b[0]) } else { (&b[0], &mut a[to]) };
          match src.get_entry(&key(k)) {
            Some(r) => put(dst, how, r)?,
            None => return Err(format!("no entry of {}", k)),
          }
        };
        self.expect(to, k, v, w)
      }
    }
  }
  fn check(&mut self) -> Verdict {
    for (i, (m, w)) in self.maps.iter().zip(&self.model).enumerate() {
      for k in 0..=self.cfg.keys {
        let got = m.get_entry(&key(k)).map(|r| (r.key().clone(), r.value().clone()));
        let want = w.get(&k).map(|v| (key(k), v.clone()));
        if got != want {
          return Err(format!(
            "map {}, key {}: {:?}, expected {:?}",
            i, k, got, want
          ));
        }
      }
    }
    Ok(())
  }
  fn key(&self) -> u64 {
    hash(&self.model)
  }
}

fn fam<V: Val>(name: &str, cfg: &Cfg, depth: usize) -> Family {
  histories::<W<V>>(
    name,
    vec![cfg.clone()],
    depth,
    format!(
      "{} maps, {} keys, {} values, {} ways of insertion",
      cfg.maps,
      cfg.keys,
      cfg.vals,
      cfg.hows.len()
    ),
  )
}

pub fn p26(tier: Tier) -> Property {
  let wide = Cfg { maps: 2, keys: 2, vals: 3, hows: HOWS };
  let few = Cfg { maps: 2, keys: 2, vals: 2, hows: &[Insert, CowOwned, CowRef] };
  let one = Cfg { maps: 1, keys: 3, vals: 3, hows: &[Insert, CowRef] };
  let mut f = Vec::new();
  let mut add = |s: &str, c: &Cfg, d| {
    f.push(fam::<List>(&format!("list{}", s), c, d));
    f.push(fam::<Max>(&format!("max{}", s), c, d));
    f.push(fam::<Set>(&format!("set{}", s), c, d));
    f.push(fam::<Sum>(&format!("sum{}", s), c, d));
    f.push(fam::<First>(&format!("first{}", s), c, d));
    f.push(fam::<Always>(&format!("always{}", s), c, d));
    f.push(fam::<Never>(&format!("never{}", s), c, d));
  };
  add("", &wide, 2);
  add(", few ways", &few, 3);
  add(", one map", &one, 4);
  let deep = tier == Tier::Thorough;
  if deep {
    add("-deep", &wide, 3);
    add(", few ways-deep", &few, 4);
    add(", one map-deep", &one, 5);
  }
  f.push(sizes(edges_and(if deep { 2048 } else { 256 }, 65536)));
  Property {
    id: "P26",
    families: f,
    assumptions: vec![
      "entries are made through a guarded constructor; nothing public makes a \
       first one"
        .into(),
      "of two equal keys, either may be the one that stays".into(),
    ],
    explanation: "Every history of insertions by every form of value, also of \
      entries of another map, is run on real maps next to a model that merges \
      in order; after each insertion the reported change, every lookup, every \
      view of the inserted value and the borrowed original are compared."
      .into(),
  }
}
