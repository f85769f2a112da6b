//! P08: LR(1) closures, shifts and reductions.

use crate::cfg::*;
use crate::engine::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::Grammar;
use bongo::grammar::passes::PassContext;
use bongo::parsers::lalr::verif::State;
use bongo::state::ProdState;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// (head, production number, dot).
type Item = (u16, usize, usize);
/// Items with their lookaheads; items without any are left out.
type Items = BTreeMap<Item, BTreeSet<u16>>;

/// A terminal that is not part of the grammar, if the type has one left.
fn end_of<T: Sort>(g: &Gram) -> u16 {
  let used = g.terms();
  (0..T::COUNT.min(10000)).rev().find(|t| !used.contains(t)).unwrap_or(0)
}

struct Model<'g> {
  g: &'g Gram,
  firsts: BTreeMap<u16, BTreeSet<u16>>,
  eps: BTreeMap<u16, u32>,
}

impl<'g> Model<'g> {
  fn prod(&self, i: Item) -> &'g MProd {
    &self.g.rule(i.0).unwrap()[i.1]
  }

  fn closure(&self, seed: &Items, st: &mut Stats) -> Items {
    // One (item, lookahead) pair at a time.
    let mut todo: Vec<(Item, u16)> = Vec::new();
    for (i, la) in seed {
      todo.extend(la.iter().map(|l| (*i, *l)));
    }
    let mut out: Items = BTreeMap::new();
    while let Some((i, l)) = todo.pop() {
      if !out.entry(i).or_default().insert(l) {
        continue;
      }
      st.transitions += 1;
      let p = self.prod(i);
      if let Some((_, Sym::N(b))) = p.elems.get(i.2) {
        let (mut la, nullable) = first_of_seq(
          self.g,
          p.elems[i.2 + 1..].iter().map(|e| e.1),
          &self.firsts,
          &self.eps,
        );
        if nullable {
          la.insert(l);
        }
        for k in 0..self.g.rule(*b).unwrap().len() {
          todo.extend(la.iter().map(|x| ((*b, k, 0), *x)));
        }
      }
    }
    out
  }

  fn shifts(&self, s: &Items, st: &mut Stats) -> BTreeMap<u16, Items> {
    let mut kernels: BTreeMap<u16, Items> = BTreeMap::new();
    for (i, la) in s {
      if let Some((_, Sym::T(t))) = self.prod(*i).elems.get(i.2) {
        kernels
          .entry(*t)
          .or_default()
          .insert((i.0, i.1, i.2 + 1), la.clone());
      }
    }
    kernels
      .into_iter()
      .map(|(t, k)| (t, self.closure(&k, st)))
      .collect()
  }

  fn reducible(&self, s: &Items) -> BTreeSet<u16> {
    s.keys()
      .filter(|i| self.prod(**i).elems.len() == i.2)
      .map(|i| self.prod(*i).ak)
      .collect()
  }
}

fn read_items<T: Sort, NT: Sort, AK: Key, AV>(
  g: &Gram,
  real: &Grammar<T, NT, AK, AV>,
  s: &State<T, NT, AK, AV>,
) -> Result<Items, String> {
  let mut out = Items::new();
  for (ps, la) in s.items() {
    let head = ps.prod().head().number() as u16;
    if g.rule(head).is_none() {
      return Err("an item of no rule".into());
    }
    // Told apart by where they are, as the action keys may be alike.
    let at = ps.prod().prod_elements() as *const _;
    let ix = real
      .get_rule(&NT::make(head as u16))
      .prods()
      .position(|p| std::ptr::eq(p.prod_elements(), at))
      .ok_or_else(|| "an item of no production".to_string())?;
    let mut rest = 0;
    let mut cur = ps.clone();
    while let Some((_, n)) = cur.next_elem_state() {
      cur = n;
      rest += 1;
    }
    let item = (head, ix, ps.prod().num_elements() - rest);
    if la.is_empty() {
      continue;
    }
    if out.insert(item, la.iter().map(|t| t.number() as u16).collect()).is_some() {
      return Err(format!("the item {:?} occurs twice", item));
    }
  }
  Ok(out)
}

fn show(g: &Gram, s: &Items) -> String {
  let mut o = String::new();
  for (i, la) in s {
    let p = &g.rule(i.0).unwrap()[i.1];
    o.push_str(&format!("\n  N{} ->", i.0));
    for (k, (_, e)) in p.elems.iter().enumerate() {
      if k == i.2 {
        o.push_str(" .");
      }
      o.push_str(&match e {
        Sym::T(t) => format!(" t{}", t),
        Sym::N(n) => format!(" N{}", n),
      });
    }
    if i.2 == p.elems.len() {
      o.push_str(" .");
    }
    o.push_str(&format!("   lookahead {:?}", la));
  }
  if o.is_empty() {
    o.push_str(" (none)");
  }
  o
}

/// Explores everything reachable from the seed by shifts.
fn explore<T: Sort, NT: Sort, AK: Key, AV>(
  key: &dyn Fn(&AK) -> u16,
  g: &Gram,
  m: &Model,
  pc: &PassContext<T, NT, AK, AV>,
  real: &Grammar<T, NT, AK, AV>,
  seed: &Items,
  st: &mut Stats,
) -> Verdict {
  let mut real_seed = Vec::new();
  for (i, la) in seed {
    let p = real.get_rule(&NT::make(i.0 as u16)).prods().nth(i.1).unwrap();
    let mut ps = ProdState::from_start(p);
    for _ in 0..i.2 {
      ps = ps.next_elem_state().ok_or("an element is missing")?.1;
    }
    real_seed.push((ps, la.iter().map(|t| T::make(*t as u16)).collect::<BTreeSet<_>>()));
  }
  // The order of the seed items must not matter.
  real_seed.reverse();
  let ctx = || format!("grammar: {}\nseed:{}", g.show(), show(g, seed));
  let start = guard(|| State::closure(pc, real_seed))
    .map_err(|p| format!("{}\nthe closure panics: {}", ctx(), p))?
    .map_err(|e| format!("{}\nthe closure fails: {}", ctx(), e))?;
  let mut todo = VecDeque::new();
  let mut seen = BTreeSet::new();
  todo.push_back((start, m.closure(seed, st), Vec::<u16>::new()));
  while let Some((r, want, path)) = todo.pop_front() {
    let ctx = || format!("{}\nafter shifting {:?}", ctx(), path);
    let got = read_items(g, real, &r).map_err(|e| format!("{}: {}", ctx(), e))?;
    st.traces += 1;
    if got != want {
      return Err(format!(
        "{}: items{}\nexpected:{}",
        ctx(),
        show(g, &got),
        show(g, &want)
      ));
    }
    let red: BTreeSet<u16> = guard(|| r.reducible())
      .map_err(|p| format!("{}: reducing panics: {}", ctx(), p))?
      .iter()
      .map(key)
      .collect();
    let wred = m.reducible(&want);
    if red != wred {
      return Err(format!(
        "{}: reducible actions {:?}, expected {:?}\nitems:{}",
        ctx(),
        red,
        wred,
        show(g, &want)
      ));
    }
    if !seen.insert(want.clone()) || path.len() >= 4 {
      continue;
    }
    st.states_extra += 1;
    let shifts = guard(|| r.shifts(pc))
      .map_err(|p| format!("{}: shifting panics: {}", ctx(), p))?
      .map_err(|e| format!("{}: shifting fails: {}", ctx(), e))?;
    let wshifts = m.shifts(&want, st);
    let mut shifts: Vec<(u16, State<T, NT, AK, AV>)> = shifts
      .into_iter()
      .map(|(t, s)| (t.number() as u16, s))
      .collect();
    shifts.sort_by_key(|s| s.0);
    let a: Vec<u16> = shifts.iter().map(|s| s.0).collect();
    let b: Vec<u16> = wshifts.keys().copied().collect();
    if a != b {
      return Err(format!(
        "{}: shiftable terminals {:?}, expected {:?}\nitems:{}",
        ctx(),
        a,
        b,
        show(g, &want)
      ));
    }
    st.outcome(format!("{} items, {} shifts", want.len().min(8), b.len()));
    for ((t, rs), (_, ws)) in shifts.into_iter().zip(wshifts) {
      let mut path = path.clone();
      path.push(t);
      todo.push_back((rs, ws, path));
    }
  }
  Ok(())
}

/// Which seeds are used.
#[derive(Clone, Copy, PartialEq)]
pub enum Seeds {
  /// Only the first item of the start.
  Start,
  /// Items at the edges of the first and last productions.
  Edges,
  Single,
  Pairs,
}

fn check<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
  seeds: Seeds,
) -> Verdict {
  if empty_derivations(g).values().any(|c| *c > 1) {
    st.filtered += 1;
    return Ok(());
  }
  check_of(&built_as::<T, NT, AK, AV>(g)?, &|k: &AK| k.number(), g, st, seeds)
}

/// The states of a grammar that the model one describes, with the numbers of
/// its keys.
pub fn check_of<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
  key: &dyn Fn(&AK) -> u16,
  g: &Gram,
  st: &mut Stats,
  seeds: Seeds,
) -> Verdict {
  let eps = empty_derivations(g);
  let m = Model {
    g,
    firsts: first_sets(g),
    eps,
  };
  let pc = PassContext::new(real);
  let end = end_of::<T>(g);
  let mut items: Vec<Item> = Vec::new();
  let edge = |i: usize, n: usize| {
    seeds != Seeds::Edges || i < 1 || i + 1 >= n || i == n / 2
  };
  for (r, (h, ps)) in g.rules.iter().enumerate() {
    for (k, p) in ps.iter().enumerate() {
      let n = p.elems.len() + 1;
      if edge(r, g.rules.len()) && edge(k, ps.len()) {
        items.extend((0..n).filter(|d| edge(*d, n)).map(|d| (*h, k, d)));
      }
    }
  }
  if seeds == Seeds::Start {
    items.retain(|i| i.0 == g.start && i.2 == 0);
  }
  let mut las: Vec<Vec<u16>> = vec![vec![end], vec![0], vec![0, end]];
  if seeds == Seeds::Edges {
    las = vec![vec![end], (0..T::COUNT.min(300)).collect()];
  }
  explore(key, g, &m, &pc, real, &Items::new(), st)?;
  for (n, i) in items.iter().enumerate() {
    for la in &las {
      let seed: Items =
        [(*i, la.iter().copied().collect())].into_iter().collect();
      explore(key, g, &m, &pc, real, &seed, st)?;
    }
    if seeds == Seeds::Pairs {
      for j in &items[n + 1..] {
        for (a, b) in [(end, end), (end, 0), (0, end)] {
          let seed: Items = [(*i, [a].into()), (*j, [b].into())].into();
          explore(key, g, &m, &pc, real, &seed, st)?;
        }
      }
    }
  }
  st.sample(|| {
    let seed: Items = [((g.start, 0, 0), [end].into())].into();
    let c = m.closure(&seed, &mut Stats::default());
    format!("{} closure of the first start item:{}", g.show(), show(g, &c))
  });
  Ok(())
}

fn single(g: &Gram, st: &mut Stats) -> Verdict {
  check::<Tm, Nt, Ak, Av>(g, st, Seeds::Single)
}

fn pairs(g: &Gram, st: &mut Stats) -> Verdict {
  check::<Tm, Nt, Ak, Av>(g, st, Seeds::Pairs)
}

fn at_edges(g: &Gram, st: &mut Stats) -> Verdict {
  check::<Tm, Nt, Ak, Av>(g, st, Seeds::Edges)
}

fn over<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  check::<T, NT, AK, AV>(g, st, Seeds::Single)
}

pub fn p08(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x).keys_per_head());
  }
  for (_, g, _) in shapes(false) {
    cl.push(g);
  }
  let mut f = vec![list_family("curated", cl, pairs)];
  f.push(sized_family(if deep { 257 } else { 130 }, at_edges));
  f.extend(type_families(classics(), deep, typed!(over)));
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, false);
  f.push(space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, pairs));
  f.push(space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 2)]), true, pairs));
  f.push(space_family(s("2nt2t", 2, &[(1, 2, 2), (1, 2, 2)]), false, single));
  f.push(space_family(
    s("3nt1t", 1, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
    false,
    single,
  ));
  f.push(space_family(
    s("3nt2t-suffix", 2, &[(1, 1, 3), (1, 2, 1), (1, 2, 1)]),
    true,
    single,
  ));
  if deep {
    f.push(space_family(
      s("2nt2t-pairs", 2, &[(1, 2, 2), (1, 2, 2)]),
      true,
      pairs,
    ));
    f.push(space_family(
      s("2nt1t-rhs3", 1, &[(1, 2, 3), (1, 2, 3)]),
      false,
      single,
    ));
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 1, 2), (1, 2, 2)]),
      true,
      single,
    ));
    f.push(space_family(
      s("3nt2t-suffix4", 2, &[(1, 1, 4), (1, 2, 1), (1, 2, 1)]),
      false,
      single,
    ));
    f.push(space_family(
      s("4nt1t", 1, &[(1, 1, 2), (1, 1, 2), (1, 1, 2), (1, 1, 2)]),
      true,
      single,
    ));
  }
  Property {
    id: "P08",
    families: f,
    assumptions: vec![
      "grammars without nullable ambiguity; sequences include sentential forms"
        .into(),
      "an item without lookaheads counts as absent".into(),
      "states reached by at most four shifts from each seed".into(),
    ],
    explanation: "for every grammar and every seed (each single item with three \
      lookahead sets, and each pair of items where stated) the real closure is \
      compared with a pairwise (item, lookahead) closure, and so is every state \
      reached by shifts, with its shiftable terminals and reducible actions; \
      states: distinct model states per seed; transitions: (item, lookahead) \
      steps of the model"
      .into(),
  }
}
