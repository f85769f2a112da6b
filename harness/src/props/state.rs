//! P15: positioned productions and their sets.

use crate::cfg::*;
use crate::engine::*;
use crate::laws::laws;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::{Elem, Grammar, ProdElement};
use bongo::state::{ProdState, ProdStateSet};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

type PS<'a, T, NT, AK, AV> = ProdState<'a, T, NT, AK, AV>;
type Set<'a, T, NT, AK, AV> = ProdStateSet<'a, T, NT, AK, AV>;
/// (head, production, dot)
type Item = (u16, usize, usize);

fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Verdict {
  if got != want {
    return Err(format!("{}: {:?}, expected {:?}", what, got, want));
  }
  Ok(())
}

struct Ctx<'g, T, NT, AK, AV> {
  g: &'g Gram,
  items: Vec<Item>,
  states: Vec<PS<'g, T, NT, AK, AV>>,
  /// Where each production has its elements.
  at: BTreeMap<usize, (u16, usize)>,
  index: BTreeMap<Item, usize>,
}

fn elem_of<T: Sort, NT: Sort>(s: Sym) -> Elem<T, NT> {
  match s {
    Sym::T(t) => Elem::Term(T::make(t as u16)),
    Sym::N(n) => Elem::NonTerm(NT::make(n as u16)),
  }
}

fn prod_elem_of<T: Sort, NT: Sort>(
  e: &(Option<u16>, Sym),
) -> (Option<String>, Elem<T, NT>) {
  (e.0.map(elem_name), elem_of(e.1))
}

fn show_pe<T: Sort, NT: Sort>(
  e: &ProdElement<T, NT>,
) -> (Option<String>, Elem<T, NT>) {
  (e.id().map(|n| n.str().to_string()), e.elem().clone())
}

impl<'g, T: Sort, NT: Sort, AK: Sort, AV: Sort> Ctx<'g, T, NT, AK, AV> {
  fn mprod(&self, i: Item) -> &'g MProd {
    &self.g.rule(i.0).unwrap()[i.1]
  }

  fn new(
    g: &'g Gram,
    real: &'g Grammar<T, NT, AK, AV>,
  ) -> Result<Self, String> {
    let mut at = BTreeMap::new();
    let mut items = Vec::new();
    let mut states = Vec::new();
    for (h, ps) in &g.rules {
      for (k, p) in ps.iter().enumerate() {
        let prod = real
          .get_rule(&NT::make(*h as u16))
          .prods()
          .nth(k)
          .ok_or("a production is missing")?;
        at.insert(prod.prod_elements() as *const _ as usize, (*h, k));
        let mut s = ProdState::from_start(prod);
        for d in 0..=p.elems.len() {
          items.push((*h, k, d));
          states.push(s.clone());
          match s.next_elem_state() {
            Some((_, n)) => {
              if d == p.elems.len() {
                return Err(format!("{:?} advances past the end", (h, k, d)));
              }
              s = n;
            }
            None => {
              if d < p.elems.len() {
                return Err(format!("{:?} does not advance", (h, k, d)));
              }
            }
          }
        }
      }
    }
    let index = items.iter().copied().zip(0..).collect();
    Ok(Ctx { g, items, states, at, index })
  }

  /// Which item a state denotes, by what it shows rather than by equality.
  fn item_of(&self, s: &PS<'g, T, NT, AK, AV>) -> Result<Item, String> {
    let h = s.prod().head().number() as u16;
    // Told apart by where they are, as the action keys may be alike.
    let (_, k) = *self
      .at
      .get(&(s.prod().prod_elements() as *const _ as usize))
      .filter(|p| p.0 == h)
      .ok_or("a state of no production")?;
    let mut rest = 0;
    let mut c = s.clone();
    while let Some((_, n)) = c.next_elem_state() {
      c = n;
      rest += 1;
    }
    Ok((h, k, self.mprod((h, k, 0)).elems.len() - rest))
  }

  fn state(&self, i: Item) -> PS<'g, T, NT, AK, AV> {
    self.states[self.index[&i]].clone()
  }

  fn members(
    &self,
    it: impl Iterator<Item = PS<'g, T, NT, AK, AV>>,
    what: &str,
  ) -> Result<BTreeSet<Item>, String> {
    let mut out = BTreeSet::new();
    for s in it {
      let i = self.item_of(&s)?;
      if !out.insert(i) {
        return Err(format!("{} lists {:?} twice", what, i));
      }
    }
    Ok(out)
  }

  fn check_state(&self, i: Item, s: &PS<'g, T, NT, AK, AV>, alphabet: &[Sym]) -> Verdict {
    let p = self.mprod(i);
    let rest: Vec<Elem<T, NT>> =
      p.elems[i.2..].iter().map(|e| elem_of(e.1)).collect();
    eq("item", self.item_of(s)?, i)?;
    eq("action key", s.action_key().number(), p.ak)?;
    eq("production key", s.prod().action_key().number(), p.ak)?;
    eq("head", s.prod().head().number() as u16, i.0)?;
    eq("is_complete", s.is_complete(), rest.is_empty())?;
    eq("next_elem", s.next_elem(), rest.first())?;
    for o in 0..rest.len() + 3 {
      eq("offset_elem", s.offset_elem(o), rest.get(o))?;
      eq(
        "offset_prod_elem",
        s.offset_prod_elem(o).map(show_pe),
        p.elems.get(i.2 + o).map(prod_elem_of),
      )?;
    }
    for o in [1 << 16, usize::MAX >> 1, usize::MAX - i.2, usize::MAX] {
      eq("offset_elem, far behind", s.offset_elem(o), None)?;
      let far = s.offset_prod_elem(o).map(show_pe);
      eq("offset_prod_elem, far behind", far, None)?;
    }
    eq(
      "next_prod_elem",
      s.next_prod_elem().map(show_pe),
      p.elems.get(i.2).map(prod_elem_of),
    )?;
    let next = s.next_elem_state();
    match (&next, p.elems.get(i.2)) {
      (None, None) => {}
      (Some((e, n)), Some(m)) => {
        eq("element passed", show_pe(e), prod_elem_of(m))?;
        eq("next item", self.item_of(n)?, (i.0, i.1, i.2 + 1))?;
      }
      _ => return Err(format!("{:?} advances: {}", i, next.is_some())),
    }
    for a in alphabet {
      let got = s.advance_if(&elem_of(*a));
      let want = match p.elems.get(i.2) {
        Some((_, x)) if x == a => Some((i.0, i.1, i.2 + 1)),
        _ => None,
      };
      let got = match got {
        None => None,
        Some(n) => Some(self.item_of(&n)?),
      };
      eq("advance_if", got, want)?;
    }
    Ok(())
  }

  /// Everything a set shows, against the set of items it should hold.
  fn check_set(&self, set: &Set<'g, T, NT, AK, AV>, want: &BTreeSet<Item>) -> Verdict {
    let wc: BTreeSet<Item> = want
      .iter()
      .filter(|i| self.mprod(**i).elems.len() == i.2)
      .copied()
      .collect();
    eq(
      "complete members",
      self.members(set.complete(), "complete")?,
      wc,
    )?;
    let mut groups: BTreeMap<(Option<String>, Elem<T, NT>), BTreeSet<Item>> =
      BTreeMap::new();
    for i in want {
      if let Some(e) = self.mprod(*i).elems.get(i.2) {
        groups
          .entry(prod_elem_of(e))
          .or_default()
          .insert((i.0, i.1, i.2 + 1));
      }
    }
    let mut seen = BTreeSet::new();
    for (e, s) in set.nexts() {
      let e = show_pe(e);
      if !seen.insert(e.clone()) {
        return Err(format!("nexts lists {:?} twice", e));
      }
      let w = match groups.get(&e) {
        Some(w) => w,
        None => return Err(format!("nexts lists {:?}", e)),
      };
      // The group is a set: compare it with the set of the expected members,
      // and read it back once more through what it shows.
      let ws: Set<'g, T, NT, AK, AV> = w.iter().map(|i| self.state(*i)).collect();
      if s != ws {
        return Err(format!("the group of {:?} is not {:?}", e, w));
      }
      let c = self.members(s.complete(), "complete of a group")?;
      let wc: BTreeSet<Item> = w
        .iter()
        .filter(|i| self.mprod(**i).elems.len() == i.2)
        .copied()
        .collect();
      eq("complete members of a group", c, wc)?;
      let inner: usize = s.nexts().map(|_| 1).sum();
      let wi: BTreeSet<_> = w
        .iter()
        .filter_map(|i| self.mprod(*i).elems.get(i.2))
        .map(prod_elem_of::<T, NT>)
        .collect();
      eq("number of nexts of a group", inner, wi.len())?;
    }
    eq("number of groups", seen.len(), groups.len())
  }
}

/// Whole item sets up to the given number of items are taken as sets of all
/// subsets; beyond that, subsets of at most two items.
const FULL: usize = 7;

fn check(g0: &Gram, st: &mut Stats) -> Verdict {
  for v in [0, 1, 2, 5, 6] {
    check_named(&g0.with_names(v), st)?;
  }
  check_named(&g0.keys_shared(), st)
}

fn large(g: &Gram, st: &mut Stats) -> Verdict {
  check_named(&g.with_names(1), st)?;
  check_named(&g.keys_shared(), st)?;
  check_named(&g.keys_per_head().with_names(4), st)
}

fn over<T: Sort, NT: Sort, AK: Sort, AV: Sort>(g: &Gram, st: &mut Stats) -> Verdict {
  check_as::<T, NT, AK, AV>(g, st)?;
  check_as::<T, NT, AK, AV>(&g.with_names(1), st)?;
  check_as::<T, NT, AK, AV>(&g.with_names(6), st)
}

fn check_named(g: &Gram, st: &mut Stats) -> Verdict {
  check_as::<Tm, Nt, Ak, Av>(g, st)
}

fn check_as<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  let real = built_as::<T, NT, AK, AV>(g)?;
  let ctx = |e: String| format!("grammar: {}\n{}", g.show(), e);
  guard(|| check_inner(g, &real, st))
    .map_err(|p| ctx(format!("panics: {}", p)))?
    .map_err(ctx)
}

fn check_inner<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  real: &Grammar<T, NT, AK, AV>,
  st: &mut Stats,
) -> Verdict {
  let c = Ctx::new(g, real)?;
  let mut alphabet: Vec<Sym> = g.terms().into_iter().map(Sym::T).collect();
  if T::COUNT > 255 {
    alphabet.push(Sym::T(77));
  }
  alphabet.extend(g.rules.iter().map(|r| Sym::N(r.0)));
  alphabet.push(Sym::N(77));
  // A number that is used by both kinds must not mix them up.
  if T::COUNT > 255 {
    alphabet.push(Sym::T(g.start));
  }
  // For many symbols, the first, the middle and the last ones.
  let k = alphabet.len();
  let mut at = 0..k;
  alphabet.retain(|_| {
    let i = at.next().unwrap();
    k < 40 || i < 4 || i + 4 > k || (k / 2..k / 2 + 3).contains(&i)
  });
  st.states_extra += 1;
  st.traces += 1;
  // The same items, reached twice, in another order.
  let mut hs: Vec<(Item, PS<T, NT, AK, AV>)> = Vec::new();
  for (i, s) in c.items.iter().zip(&c.states) {
    c.check_state(*i, s, &alphabet)?;
    hs.push((*i, s.clone()));
    st.transitions += 1;
  }
  let again = Ctx::new(g, real)?;
  hs.extend(again.items.iter().copied().zip(again.states).rev());
  if hs.len() <= 40 {
    laws("positioned productions", &hs)?;
  }
  // Sets.
  let n = c.items.len();
  let subsets: Vec<Vec<usize>> = if n <= FULL {
    (0..1usize << n)
      .map(|m| (0..n).filter(|i| m & (1 << i) != 0).collect())
      .collect()
  } else if n > 60 {
    let at = [0, 1, n / 2, n - 2, n - 1];
    let mut v = vec![vec![], (0..n).collect(), vec![0, n - 1]];
    v.extend(at.iter().map(|i| vec![*i]));
    v.push((0..n).step_by(2).collect());
    v.push((n / 2..n).collect());
    v
  } else {
    let mut v = vec![vec![]];
    for a in 0..n.min(16) {
      v.push(vec![a]);
      for b in a + 1..n.min(16) {
        v.push(vec![a, b]);
      }
    }
    v.push((0..n).collect());
    v
  };
  let mut sets: Vec<(BTreeSet<Item>, Set<T, NT, AK, AV>)> = Vec::new();
  for sub in &subsets {
    let want: BTreeSet<Item> = sub.iter().map(|i| c.items[*i]).collect();
    let a: Set<T, NT, AK, AV> = sub.iter().map(|i| c.states[*i].clone()).collect();
    let mut b: Set<T, NT, AK, AV> = ProdStateSet::new_empty();
    for i in sub.iter().rev().chain(sub.iter()) {
      b.add(c.states[*i].clone());
    }
    c.check_set(&a, &want)?;
    c.check_set(&b, &want)?;
    st.traces += 2;
    st.transitions += sub.len() as u64;
    if a != b || a.cmp(&b) != std::cmp::Ordering::Equal || a != a.clone() {
      return Err(format!("sets of {:?} added in two orders differ", want));
    }
    // The LR(0) step.
    let step = |s: &PS<'_, T, NT, AK, AV>| {
      match s.next_elem() {
        Some(Elem::NonTerm(nt)) => real
          .get_rule(nt)
          .prods()
          .map(ProdState::from_start)
          .collect::<Vec<_>>(),
        _ => vec![],
      }
    };
    let mut closed = a.clone();
    closed.take_closure(|s| step(s).into_iter());
    let mut w = want.clone();
    loop {
      let mut add = BTreeSet::new();
      for i in &w {
        if let Some((_, Sym::N(m))) = c.mprod(*i).elems.get(i.2) {
          add.extend((0..g.rule(*m).unwrap().len()).map(|k| (*m, k, 0)));
        }
      }
      let before = w.len();
      w.extend(add);
      if w.len() == before {
        break;
      }
    }
    compare_closed(&c, &closed, &w, "closure")?;
    c.check_set(&a, &want)?;
    if sets.len() < 40 {
      sets.push((want, a));
      // A closed set has the history of a closure behind it.
      sets.push((w, closed));
    }
  }
  laws("sets", &sets)?;
  st.outcome(format!("{} items", n.min(12)));
  st.sample(|| format!("{}: {} item sets", g.show(), subsets.len()));
  Ok(())
}

fn compare_closed<'g, T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  c: &Ctx<'g, T, NT, AK, AV>,
  closed: &Set<'g, T, NT, AK, AV>,
  want: &BTreeSet<Item>,
  what: &str,
) -> Verdict {
  c.check_set(closed, want).map_err(|e| format!("{}: {}", what, e))?;
  // Members that are neither complete nor distinguishable by what follows
  // show in equality.
  let ws: Set<T, NT, AK, AV> = want.iter().map(|i| c.state(*i)).collect();
  if *closed != ws {
    return Err(format!("{}: not the set {:?}", what, want));
  }
  Ok(())
}

/// Every relation on the items as the step of the closure.
fn relations(gs: &'static [&'static str]) -> Family {
  let per: Vec<(Gram, usize)> = gs
    .iter()
    .map(|s| {
      let g = gram(s);
      let n = g.prods().map(|(_, p)| p.elems.len() + 1).sum();
      (g, n)
    })
    .collect();
  // One unit: a grammar and the images of the first item.
  let mut units = Vec::new();
  for (gi, (_, n)) in per.iter().enumerate() {
    for hi in 0..1u64 << n {
      units.push((gi, hi));
    }
  }
  Family::new(
    "step relations",
    units.len() as u64,
    format!("every step relation on the items of each of {:?}, from every set", gs),
    move |u, st| {
      let (gi, first) = units[u as usize];
      let (g, n) = &per[gi];
      let real = built(g)?;
      let c = Ctx::new(g, &real)?;
      for rest in 0..1u64 << (n * (n - 1)) {
        let rel = first | rest << n;
        st.states_extra += 1;
        for m in 0..1usize << n {
          let mut set: Set<Tm, Nt, Ak, Av> = (0..*n)
            .filter(|i| m & (1 << i) != 0)
            .map(|i| c.states[i].clone())
            .collect();
          let r = guard(|| {
            set.take_closure(|s| {
              let i = c.item_of(s).unwrap();
              let k = c.items.iter().position(|x| *x == i).unwrap();
              (0..*n)
                .filter(|j| rel & (1 << (k * n + j)) != 0)
                .map(|j| c.states[j].clone())
                .collect::<Vec<_>>()
                .into_iter()
            });
            set
          });
          let mut w = m;
          loop {
            let mut x = w;
            for k in 0..*n {
              if w & (1 << k) != 0 {
                x |= ((rel >> (k * n)) & ((1 << n) - 1)) as usize;
              }
            }
            if x == w {
              break;
            }
            w = x;
            st.transitions += 1;
          }
          let want: BTreeSet<Item> = (0..*n)
            .filter(|i| w & (1 << i) != 0)
            .map(|i| c.items[i])
            .collect();
          let what = || {
            format!("grammar {}, from {:b} by step {:b}", g.show(), m, rel)
          };
          let set =
            r.map_err(|p| format!("{}: the closure panics: {}", what(), p))?;
          let ws: Set<Tm, Nt, Ak, Av> = want.iter().map(|i| c.state(*i)).collect();
          if set != ws {
            return Err(format!("{}: not the set {:?}", what(), want));
          }
          st.traces += 1;
        }
      }
      Ok(())
    },
  )
}

/// Every partial function on the items as the step of the closure.
fn functions(gs: &'static [&'static str]) -> Family {
  let per: Vec<(Gram, usize)> = gs
    .iter()
    .map(|s| {
      let g = gram(s);
      let n = g.prods().map(|(_, p)| p.elems.len() + 1).sum();
      (g, n)
    })
    .collect();
  // One unit: a grammar and the images of the first two items.
  let mut units = Vec::new();
  for (gi, (_, n)) in per.iter().enumerate() {
    units.extend((0..(n + 1) * (n + 1)).map(|k| (gi, k)));
  }
  Family::new(
    "step functions",
    units.len() as u64,
    format!(
      "every step to at most one item, listed twice, on the items of each of \
       {:?}, from each item, each item and the last, and all of them",
      gs
    ),
    move |u, st| {
      let (gi, first) = units[u as usize];
      let (g, n) = &per[gi];
      let n = *n;
      let real = built(g)?;
      let c = Ctx::new(g, &real)?;
      let mut starts: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
      starts.extend((0..n - 1).map(|i| vec![i, n - 1]));
      starts.push((0..n).collect());
      for rest in 0..(n + 1).pow(n as u32 - 2) {
        let mut f = vec![first % (n + 1), first / (n + 1)];
        let mut k = rest;
        for _ in 2..n {
          f.push(k % (n + 1));
          k /= n + 1;
        }
        st.states_extra += 1;
        for s in &starts {
          let mut set: Set<Tm, Nt, Ak, Av> =
            s.iter().map(|i| c.states[*i].clone()).collect();
          let r = guard(|| {
            set.take_closure(|s| {
              let to = f[c.index[&c.item_of(s).unwrap()]];
              let to = if to == n { None } else { Some(c.states[to].clone()) };
              to.clone().into_iter().chain(to)
            });
            set
          });
          let what = || format!("grammar {}, from {:?} by step {:?}", g.show(), s, f);
          let set = r.map_err(|p| format!("{}: the closure panics: {}", what(), p))?;
          let mut w: BTreeSet<usize> = BTreeSet::new();
          for i in s {
            let mut i = *i;
            while i < n && w.insert(i) {
              i = f[i];
              st.transitions += 1;
            }
          }
          let ws: Set<Tm, Nt, Ak, Av> =
            w.iter().map(|i| c.states[*i].clone()).collect();
          if set != ws {
            return Err(format!("{}: not the set {:?}", what(), w));
          }
          st.traces += 1;
        }
      }
      Ok(())
    },
  )
}

/// Closures of many rounds: every item of the grammar has to be reached.
fn far(max: usize) -> Family {
  let ns = edges(max);
  Family::new(
    "far closures",
    ns.len() as u64 * 4,
    format!(
      "chains of up to {} nonterminals named up and down, closed from the first; \
       a production of as many elements, closed under going on by one and under \
       going back by one; sizes around the powers of two",
      max
    ),
    move |u, st| {
      let n = ns[u as usize / 4].max(1);
      let kind = u % 4;
      let name = |i: usize| if kind == 1 { n - i } else { i };
      let g: Grammar<char, usize, u8, ()> =
        bongo::grammar::build(name(0), |gb: &mut bongo::grammar::GrammarBuilder<_, _, _, _>| {
          for i in 0..if kind < 2 { n } else { 1 } {
            gb.add_rule(name(i), |rb| {
              rb.add_prod(0, (), |pb| {
                if kind >= 2 {
                  for _ in 0..n {
                    pb.add_term('a');
                  }
                } else if i + 1 < n {
                  pb.add_nonterm(name(i + 1));
                } else {
                  pb.add_term('a');
                }
              });
            });
          }
        })
        .map_err(|e| format!("not built: {:?}", e))?;
      let starts = |nt: &usize| -> Vec<_> {
        g.get_rule(nt).prods().map(ProdState::from_start).collect()
      };
      // All items, in the order in which they are reached.
      let mut items = if kind < 2 {
        (0..n).flat_map(|i| starts(&name(i))).collect::<Vec<_>>()
      } else {
        let mut v = starts(&0);
        while let Some((_, next)) = v.last().unwrap().next_elem_state() {
          v.push(next);
        }
        v
      };
      if items.len() != if kind < 2 { n } else { n + 1 } {
        return Err(format!("{} items of {}, kind {}", items.len(), n, kind));
      }
      if kind == 3 {
        items.reverse();
      }
      let all: Set<_, _, _, _> = items.iter().cloned().collect();
      let at: BTreeMap<_, usize> =
        items.iter().enumerate().map(|(i, x)| (x.clone(), i)).collect();
      let mut calls = 0u64;
      let mut set: Set<_, _, _, _> = ProdStateSet::new_empty();
      set.add(items[0].clone());
      let r = guard(|| {
        set.take_closure(|s| {
          calls += 1;
          beat();
          let next = match kind {
            0 | 1 => s
              .next_elem()
              .and_then(Elem::as_nonterm)
              .map_or(vec![], |nt| starts(nt)),
            2 => s.next_elem_state().into_iter().map(|x| x.1).collect(),
            _ => at.get(s).and_then(|i| items.get(i + 1)).cloned().into_iter().collect(),
          };
          next.into_iter()
        });
      });
      r.map_err(|p| format!("{} items, kind {}: panics: {}", n, kind, p))?;
      if set != all {
        let got: usize = set.nexts().map(|x| x.1.nexts().count() + 1).sum();
        return Err(format!(
          "{} items, kind {}: the closure is not all of them (about {})",
          items.len(),
          kind,
          got
        ));
      }
      st.traces += 1;
      st.states_extra += items.len() as u64;
      st.transitions += calls;
      Ok(())
    },
  )
}

pub fn p15(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x));
  }
  for (_, g, _) in shapes(false) {
    cl.push(g);
  }
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, false);
  let mut f = vec![
    list_family("curated", cl, check),
    sized_family(if deep { 257 } else { 130 }, large),
    far(if deep { 4096 } else { 1024 }),
    relations(&["S:a|b", "S:abc", "S:|a|", "S:Sa|"]),
    functions(if deep {
      &["S:abcd", "S:a|bc", "S:ab|S|", "S:abcde", "S:abcdef"]
    } else {
      &["S:abcd", "S:a|bc", "S:ab|S|", "S:abcde"]
    }),
    space_family(s("1nt2t", 2, &[(1, 2, 2)]), false, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)]), true, check),
  ];
  f.extend(type_families(classics(), deep, typed!(over)));
  f.push(space_family(s("1nt2t-deep", 2, &[(1, 2, 3)]), false, check));
  f.push(space_family(s("1nt1t-3", 1, &[(1, 3, 2)]), false, check));
  if deep {
    f.push(space_family(
      s("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)]),
      false,
      check,
    ));
    f.push(space_family(
      s("3nt1t", 1, &[(1, 1, 2), (1, 2, 1), (1, 1, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("2nt1t-deep", 1, &[(1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 2, 1), (1, 1, 1)]),
      false,
      check,
    ));
  }
  Property {
    id: "P15",
    families: f,
    assumptions: vec![
      "groups are by element and element name".into(),
      "all subsets of the items up to 7 items, otherwise subsets of at most two \
       of the first 16 and the whole"
        .into(),
    ],
    explanation: "states: (grammar, element naming), and step relations; every \
      positioned production and every set in bounds is built from the real types \
      and compared with sets of (head, production, position) triples; \
      transitions: items and closure steps"
      .into(),
  }
}
