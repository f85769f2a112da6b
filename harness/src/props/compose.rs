//! P30: transformations and analyses work on the grammars that the
//! transformations give, and parses of those are parses of the original.

use super::analysis::{firsts_of, follows_of, nullable_of};
use super::lr::{check_of, Seeds};
use crate::cfg::*;
use crate::engine::*;
use crate::forest::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::transform::nonnull::{transform_to_nonnull, ActionKey};
use bongo::grammar::{Elem, Grammar};
use bongo::parsers::earley::parse;
use bongo::parsers::tree::TreeOwner;
use bongo::parsers::Token;
use bongo::start_grammar::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

// ------------------------------------------- symbols of wrapped grammars

impl<T: Sort> Sort for StreamTerminal<T> {
  const COUNT: u16 = T::COUNT.saturating_add(1);
  fn make(i: u16) -> Self {
    match i.checked_sub(1) {
      None => StreamTerminal::EndOfStream,
      Some(i) => StreamTerminal::Term(T::make(i)),
    }
  }
  fn number(&self) -> u16 {
    match self {
      StreamTerminal::EndOfStream => 0,
      StreamTerminal::Term(t) => t.number() + 1,
    }
  }
}

impl<T: Sort> Sort for StartNonTerminal<T> {
  const COUNT: u16 = T::COUNT.saturating_add(1);
  fn make(i: u16) -> Self {
    match i.checked_sub(1) {
      None => StartNonTerminal::Start,
      Some(i) => StartNonTerminal::NTerm(T::make(i)),
    }
  }
  fn number(&self) -> u16 {
    match self {
      StartNonTerminal::Start => 0,
      StartNonTerminal::NTerm(t) => t.number() + 1,
    }
  }
}

// ---------------------------------------------------- reading a grammar

/// A grammar as it shows itself: keys by their place in `keys`.
struct Mirror<AK> {
  gram: Gram,
  keys: Vec<AK>,
}

fn mirror<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
) -> Result<Mirror<AK>, String> {
  static NAMES: OnceLock<HashMap<String, u16>> = OnceLock::new();
  let names = NAMES.get_or_init(|| {
    (0..=2000).chain(30000..30010).rev().map(|n| (elem_name(n), n)).collect()
  });
  let all: Vec<AK> = real.prods().map(|p| p.action_key().clone()).collect();
  let keys: BTreeSet<AK> = all.iter().cloned().collect();
  if keys.len() != all.len() {
    return Err(format!("two productions have the same action key: {:?}", all));
  }
  let keys: Vec<AK> = keys.into_iter().collect();
  let mut rules = Vec::new();
  for rule in real.rules() {
    let mut ps = Vec::new();
    for p in rule.prods() {
      let mut elems = Vec::new();
      for e in p.prod_elements() {
        let name = match e.id() {
          None => None,
          Some(n) => Some(
            *names.get(&n.str().to_string()).ok_or("an element has a new name")?,
          ),
        };
        elems.push((
          name,
          match e.elem() {
            Elem::Term(t) => Sym::T(t.number() as u16),
            Elem::NonTerm(n) => Sym::N(n.number() as u16),
          },
        ));
      }
      ps.push(MProd {
        elems,
        ak: keys.binary_search(p.action_key()).unwrap() as u16,
        av: 0,
      });
    }
    rules.push((rule.head().number() as u16, ps));
  }
  Ok(Mirror {
    gram: Gram {
      start: real.start_nt().number() as u16,
      rules,
    },
    keys,
  })
}

// ------------------------------------------------------- going back

/// How to go back from a grammar to the one it was made from.
#[derive(Clone)]
enum Back {
  /// It is that grammar wrapped; the keys, where there is one.
  Wrapped(Vec<Option<u16>>),
  /// That grammar, which is given, without the empty sequence; for each key
  /// the one it comes from, and for each element of its production whether it
  /// is still there.
  NonNull(Gram, Vec<(u16, Vec<bool>)>),
}

/// Only the states that can be reached.
fn trim(ta: Ta) -> Ta {
  let mut ids: BTreeMap<u32, u32> = BTreeMap::new();
  let mut order: Vec<u32> = ta.root.into_iter().collect();
  ids.extend(ta.root.map(|r| (r, 0)));
  let mut alts = Vec::new();
  while let Some(q) = order.get(alts.len()) {
    let mut of = ta.alts[*q as usize].clone();
    for kid in of.iter_mut().flat_map(|a| &mut a.1) {
      let next = ids.len() as u32;
      let id = *ids.entry(*kid).or_insert(next);
      if id == next {
        order.push(*kid);
      }
      *kid = id;
    }
    alts.push(of);
  }
  Ta {
    alts,
    root: ta.root.map(|_| 0),
  }
}

/// The parse of the grammar it was made from.
fn undo(back: &Back, ta: &Ta) -> Result<Ta, String> {
  let mut out = Ta {
    alts: Vec::new(),
    root: ta.root,
  };
  match back {
    Back::Wrapped(keys) => {
      let mut tops = Vec::new();
      for (i, alts) in ta.alts.iter().enumerate() {
        let mut v = Vec::new();
        for (l, kids) in alts {
          match l {
            // The end of the stream has no place in the other one.
            Label::Leaf(0, _) => {}
            Label::Leaf(t, x) => v.push((Label::Leaf(t - 1, *x), vec![])),
            Label::Branch(k) => match keys.get(*k as usize) {
              None => return Err(format!("a branch with the key {}", k)),
              Some(Some(k)) => v.push((Label::Branch(*k), kids.clone())),
              Some(None) => {
                let end = kids.get(1).map(|e| &ta.alts[*e as usize][..]);
                let ends = matches!(end, Some([(Label::Leaf(0, _), _)]));
                if ta.root != Some(i as u32) || kids.len() != 2 || !ends {
                  return Err(format!("a branch of the start rule: {:?}", kids));
                }
                tops.push(kids[0]);
              }
            },
          }
        }
        out.alts.push(v);
      }
      if let Some(r) = ta.root {
        if tops.len() != ta.alts[r as usize].len() {
          return Err("the root is not of the start rule".into());
        }
        let all: Vec<_> =
          tops.iter().flat_map(|t| out.alts[*t as usize].clone()).collect();
        out.root = Some(out.alts.len() as u32);
        out.alts.push(all);
      }
    }
    Back::NonNull(g, keys) => {
      let eps = empty_derivations(g);
      // A state for the empty derivation of each nullable nonterminal.
      let n = ta.alts.len() as u32;
      let at: BTreeMap<u16, u32> = eps
        .iter()
        .filter(|(_, c)| **c > 0)
        .enumerate()
        .map(|(i, (m, _))| (*m, n + i as u32))
        .collect();
      for alts in &ta.alts {
        let mut v = Vec::new();
        for (l, kids) in alts {
          let k = match l {
            Label::Leaf(..) => {
              v.push((l.clone(), kids.clone()));
              continue;
            }
            Label::Branch(k) => *k,
          };
          let (k, there) =
            keys.get(k as usize).ok_or(format!("a branch with the key {}", k))?;
          let p = g.prods().find(|p| p.1.ak == *k).unwrap().1;
          let mut kids = kids.iter();
          let mut all = Vec::new();
          for (s, there) in p.syms().zip(there) {
            match (there, s) {
              (true, _) => all.push(*kids.next().ok_or("a child is missing")?),
              (false, Sym::N(m)) => all.push(at[&m]),
              (false, Sym::T(_)) => unreachable!(),
            }
          }
          if kids.next().is_some() {
            return Err("there are too many children".into());
          }
          v.push((Label::Branch(*k), all));
        }
        out.alts.push(v);
      }
      for m in at.keys() {
        let empty = |p: &&MProd| {
          p.syms().all(|s| matches!(s, Sym::N(x) if at.contains_key(&x)))
        };
        let p = g.rule(*m).unwrap().iter().find(empty).unwrap();
        let kids = p
          .syms()
          .map(|s| match s {
            Sym::N(x) => at[&x],
            Sym::T(_) => unreachable!(),
          })
          .collect();
        out.alts.push(vec![(Label::Branch(p.ak), kids)]);
      }
    }
  }
  Ok(trim(out))
}

/// The input of the original that this one stands for, if it stands for one.
fn original(chain: &[Back], input: &[u16], values: &[u16]) -> Option<(Vec<u16>, Vec<u16>)> {
  let mut s: Vec<(u16, u16)> =
    input.iter().copied().zip(values.iter().copied()).collect();
  for b in chain.iter().rev() {
    match b {
      Back::Wrapped(_) => {
        let (last, _) = s.pop()?;
        if last != 0 || s.iter().any(|t| t.0 == 0) {
          return None;
        }
        s.iter_mut().for_each(|t| t.0 -= 1);
      }
      Back::NonNull(..) => {
        if s.is_empty() {
          return None;
        }
      }
    }
  }
  Some(s.into_iter().unzip())
}

/// Of which production of `g` this one is what is left over: its key, and what
/// is still there.
fn left_of(
  g: &Gram,
  eps: &BTreeMap<u16, u32>,
  head: u16,
  p: &MProd,
) -> Result<(u16, Vec<bool>), String> {
  let mut found = Vec::new();
  for o in g.rule(head).into_iter().flatten() {
    // All ways of finding the elements among those of the other one.
    let mut ways: Vec<(usize, Vec<bool>)> = vec![(0, vec![])];
    for e in &o.elems {
      let mut next = Vec::new();
      for (at, there) in ways {
        let with = |x: bool| there.iter().copied().chain(Some(x)).collect();
        if p.elems.get(at) == Some(e) {
          next.push((at + 1, with(true)));
        }
        if matches!(e.1, Sym::N(m) if eps[&m] > 0) {
          next.push((at, with(false)));
        }
      }
      ways = next;
    }
    ways.retain(|w| w.0 == p.elems.len());
    found.extend(ways.into_iter().map(|w| (o.ak, w.1)));
  }
  match found.len() {
    1 => Ok(found.pop().unwrap()),
    n => Err(format!(
      "a production of N{} with the elements {:?} can come from {} productions",
      head, p.elems, n
    )),
  }
}

// ------------------------------------------------------------ checking

/// What is the same in all of a chain.
struct Base {
  gram: Gram,
  deep: bool,
  /// Whether every element has a name of its own.  Otherwise parses are not
  /// taken back, but compared with the derivations of the grammar parsed with.
  named: bool,
}

struct Chain {
  name: String,
  backs: Vec<Back>,
}

impl Chain {
  fn then(&self, what: &str, b: Back) -> Chain {
    let mut backs = self.backs.clone();
    backs.push(b);
    Chain {
      name: format!("{}, {}", self.name, what),
      backs,
    }
  }
}

type Wrapped<T, NT, AK, AV> = StartGrammar<T, NT, AK, AV>;

/// Everything about one grammar of a chain, which is given wrapped too.
fn look<T: Sort, NT: Sort, AK: Key, AV: Clone + 'static>(
  real: &Grammar<T, NT, AK, AV>,
  m: &Mirror<AK>,
  wrapped: &Wrapped<T, NT, AK, AV>,
  base: &Base,
  chain: &Chain,
  st: &mut Stats,
) -> Verdict {
  let ctx = |e: String| {
    format!("original: {}\n{}\n{}", base.gram.show(), chain.name, e)
  };
  let g = &m.gram;
  let eps = empty_derivations(g);
  if let Some(Back::NonNull(..)) = chain.backs.last() {
    if let Some((n, _)) = eps.iter().find(|e| *e.1 > 0) {
      return Err(ctx(format!("{}: N{} is empty", g.show(), n)));
    }
  }
  nullable_of(real, g, st).map_err(ctx)?;
  if eps.values().all(|c| *c <= 1) {
    firsts_of(real, g, st).map_err(ctx)?;
    follows_of(real, g, st).map_err(ctx)?;
    let key = |k: &AK| {
      m.keys.binary_search(k).map_or(u16::MAX, |i| i as u16)
    };
    check_of(real, &key, g, st, Seeds::Start).map_err(ctx)?;
  }
  // Inputs of this grammar, and those that stand for ones of the original.
  let few: Vec<u16> = g.terms().into_iter().take(3).collect();
  let mut inputs = strings(&few, if base.deep { 4 } else { 3 });
  let terms: Vec<u16> = base.gram.terms().into_iter().take(2).collect();
  for s in strings(&terms, if base.deep { 5 } else { 4 }) {
    let mut s = s;
    for b in &chain.backs {
      if let Back::Wrapped(_) = b {
        s.iter_mut().for_each(|t| *t += 1);
        s.push(0);
      }
    }
    inputs.push(s);
  }
  inputs.sort();
  inputs.dedup();
  for s in &inputs {
    let values: Vec<u16> = (0..s.len() as u16).map(|i| 100 + i).collect();
    parses(m, wrapped, base, chain, s, &values, st).map_err(|e| {
      ctx(format!("{}\ninput {:?}: {}", g.show(), s, e))
    })?;
  }
  Ok(())
}

const INCL: usize = 100_000;

fn parses<T: Sort, NT: Sort, AK: Key, AV>(
  m: &Mirror<AK>,
  wrapped: &Wrapped<T, NT, AK, AV>,
  base: &Base,
  chain: &Chain,
  s: &[u16],
  values: &[u16],
  st: &mut Stats,
) -> Verdict {
  let mut cost = Cost::default();
  let mut want = original(&chain.backs, s, values)
    .map(|(s, v)| derivations(&base.gram, &s, &v, &mut cost))
    .filter(|d| d.root.is_some());
  if !base.named && want.is_some() {
    want = Some(derivations(&m.gram, s, values, &mut cost));
  }
  st.transitions += cost.0;
  st.states_extra += 1;
  st.traces += 1;
  let store: TreeOwner<T, AK, Av2> = TreeOwner::new();
  let tokens = s
    .iter()
    .zip(values)
    .map(|(t, v)| Token::new(T::make(*t as u16), Av2(*v)))
    .collect();
  let got = guard(|| {
    parse(wrapped, &store.handle(), tokens).map(|n| {
      read_forest_with(&n, &|k: &T, v: &Av2| (k.number() as u16, v.0), &|k: &AK| {
        m.keys.binary_search(k).map_or(u16::MAX, |i| i as u16)
      })
    })
  })
  .map_err(|p| format!("panic: {}", p))?;
  let (got, want) = match (got, want) {
    (None, None) => {
      st.outcome("not in the language");
      return Ok(());
    }
    (Some(a), Some(b)) => (a, b),
    (a, b) => {
      return Err(format!(
        "parsed: {}, stands for an input that the original derives: {}",
        a.is_some(),
        b.is_some()
      ))
    }
  };
  let mut back = got.clone();
  for b in chain.backs.iter().rev().filter(|_| base.named) {
    back = undo(b, &back)
      .map_err(|e| format!("the forest {} cannot be: {}", got.show(), e))?;
  }
  for (a, b, what) in [
    (&back, &want, "stands for no derivation"),
    (&want, &back, "is missing"),
  ] {
    let mut c = InclCost::default();
    let r = included(a, b, INCL, &mut c);
    st.states_extra += c.states;
    st.transitions += c.transitions;
    match r {
      Incl::Yes => {}
      Incl::Capped => {
        st.capped += 1;
        st.outcome("cut by the state cap");
        return Ok(());
      }
      Incl::No(t) => {
        return Err(format!(
          "the tree {} {}\nforest: {}\nderivations: {}",
          t,
          what,
          got.show(),
          want.show()
        ))
      }
    }
  }
  let many = want.alts.iter().any(|a| a.len() > 1);
  st.outcome(if many { "ambiguous" } else { "unambiguous" });
  Ok(())
}

/// Whether the start derives nothing but the empty sequence.
fn start_is_empty(g: &Gram) -> bool {
  let mut d = BTreeSet::new();
  loop {
    let n = d.len();
    for (h, ps) in &g.rules {
      let in_d = |s: Sym| matches!(s, Sym::N(m) if d.contains(&m));
      if ps.iter().all(|p| p.syms().all(in_d)) {
        d.insert(*h);
      }
    }
    if d.len() == n {
      return d.contains(&g.start);
    }
  }
}

fn wrap<T: Sort, NT: Sort, AK: Key, AV: Clone>(
  real: &Grammar<T, NT, AK, AV>,
) -> Result<Wrapped<T, NT, AK, AV>, String> {
  guard(|| wrap_grammar_with_start(real.clone()))
    .map_err(|p| format!("wrapping panics: {}", p))?
    .map_err(|e| format!("wrapping fails: {:?}", e))
}

fn wrapped_from<AK: Key>(
  m: &Mirror<AK>,
  w: &Mirror<StartActionKey<AK>>,
) -> Result<Back, String> {
  let mut keys = Vec::new();
  for k in &w.keys {
    keys.push(match k.as_base() {
      None => None,
      Some(k) => Some(
        m.keys.binary_search(k).map_err(|_| format!("a new key {:?}", k))? as u16,
      ),
    });
  }
  Ok(Back::Wrapped(keys))
}

fn nonnull_from<AK: Key>(
  m: &Mirror<AK>,
  e: &Mirror<ActionKey<AK>>,
) -> Result<Back, String> {
  let eps = empty_derivations(&m.gram);
  let mut keys = vec![(0, vec![]); e.keys.len()];
  for (h, p) in e.gram.prods() {
    keys[p.ak as usize] = left_of(&m.gram, &eps, h, p)?;
  }
  Ok(Back::NonNull(m.gram.clone(), keys))
}

/// A grammar of the chain, and the ones made from it.
macro_rules! level {
  ($name:ident, $next:ident) => {
    fn $name<T: Sort, NT: Sort, AK: Key, AV: Clone + 'static>(
      real: Grammar<T, NT, AK, AV>,
      m: Mirror<AK>,
      base: &Base,
      chain: Chain,
      st: &mut Stats,
    ) -> Verdict {
      let ctx = |e: String| {
        format!("original: {}\n{}, then: {}", base.gram.show(), chain.name, e)
      };
      let w = wrap(&real).map_err(ctx)?;
      look(&real, &m, &w, base, &chain, st)?;
      let mw = mirror(&w).map_err(ctx)?;
      let back = wrapped_from(&m, &mw).map_err(ctx)?;
      $next(w, mw, base, chain.then("wrapped", back), st)?;
      let e = guard(|| transform_to_nonnull(&real))
        .map_err(|p| ctx(format!("null elimination panics: {}", p)))?;
      let eps = empty_derivations(&m.gram);
      let choices = |p: &MProd| {
        p.syms().filter(|s| matches!(s, Sym::N(n) if eps[n] > 0)).count()
      };
      if eps.values().any(|c| *c > 1) {
        if e.is_ok() {
          return Err(ctx("null elimination succeeds".into()));
        }
        st.outcome("nullable ambiguity");
        return Ok(());
      }
      // Nothing is asked of what derives the empty sequence only, and the
      // result is large if there is much to leave out.
      if start_is_empty(&m.gram) || m.gram.prods().any(|p| choices(p.1) > 5) {
        return Ok(());
      }
      let e = e.map_err(|e| ctx(format!("null elimination fails: {}", e)))?;
      let me = mirror(&e).map_err(ctx)?;
      let back = if base.named {
        nonnull_from(&m, &me).map_err(ctx)?
      } else {
        Back::NonNull(m.gram.clone(), vec![])
      };
      $next(e, me, base, chain.then("without empty derivations", back), st)
    }
  };
}

fn last<T: Sort, NT: Sort, AK: Key, AV: Clone + 'static>(
  real: Grammar<T, NT, AK, AV>,
  m: Mirror<AK>,
  base: &Base,
  chain: Chain,
  st: &mut Stats,
) -> Verdict {
  let w = wrap(&real)?;
  look(&real, &m, &w, base, &chain, st)
}

level!(second, last);
level!(first, second);

/// The grammar with no two elements of the same name, if there are as many
/// names.
fn all_named(g: &Gram) -> Option<Gram> {
  let mut g = g.clone();
  let mut n = 0u16;
  for (_, ps) in &mut g.rules {
    for p in ps {
      for e in &mut p.elems {
        if n == 2000 {
          return None;
        }
        e.0 = Some(n);
        n += 1;
      }
    }
  }
  Some(g)
}

fn chains(g: &Gram, deep: bool, short: bool, st: &mut Stats) -> Verdict {
  match all_named(g) {
    Some(g) => chains_of(&g, true, deep, short, st)?,
    None => st.filtered += 1,
  }
  for names in [0, 2] {
    chains_of(&g.with_names(names), false, false, short, st)?;
  }
  Ok(())
}

fn chains_of(
  g: &Gram,
  named: bool,
  deep: bool,
  short: bool,
  st: &mut Stats,
) -> Verdict {
  let real = built_as::<Tm, Nt, Ak, Av>(g)?;
  let m = mirror(&real).map_err(|e| format!("{}: {}", g.show(), e))?;
  let base = Base {
    gram: m.gram.clone(),
    deep,
    named,
  };
  let chain = Chain {
    name: "as it is".into(),
    backs: vec![],
  };
  st.sample(|| g.show());
  if short {
    second(real, m, &base, chain, st)
  } else {
    first(real, m, &base, chain, st)
  }
}

fn check(g: &Gram, st: &mut Stats) -> Verdict {
  chains(g, false, false, st)
}

fn short(g: &Gram, st: &mut Stats) -> Verdict {
  chains(g, false, true, st)
}

fn longer(g: &Gram, st: &mut Stats) -> Verdict {
  chains(g, true, false, st)
}

/// Grammars of all shapes up to a size, and of those that cost little up to a
/// larger one.
fn sizes(max: usize, large: usize) -> Vec<Gram> {
  let costs = ["one optional part", "a chain", "a ring", "optional parts"];
  let mut v = Vec::new();
  for n in edges(large).into_iter().rev() {
    for (name, g) in sized(n) {
      let max = if name == costs[0] { 9 } else { max };
      if n <= max || !costs.iter().any(|c| name.starts_with(c)) {
        v.push(g);
      }
    }
  }
  v
}

pub fn p30(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x));
  }
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, false);
  let mut f = vec![
    list_family("curated", cl, if deep { longer } else { check }),
    space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)]), true, check),
    space_family(s("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)]), false, check),
    space_family(
      s("3nt1t", 1, &[(1, 1, 2), (1, 2, 1), (1, 2, 1)]),
      false,
      short,
    ),
    list_family("sizes", sizes(17, if deep { 513 } else { 257 }), short),
  ];
  if deep {
    f.push(space_family(s("1nt2t-long", 2, &[(1, 3, 3)]), false, longer));
    f.push(space_family(
      s("2nt2t-deep", 2, &[(1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("2nt2t-renamed", 2, &[(1, 2, 2), (1, 2, 1)]),
      true,
      longer,
    ));
    f.push(space_family(
      s("2nt1t-deep", 1, &[(1, 2, 3), (1, 2, 2)]),
      true,
      check,
    ));
    f.push(space_family(
      s("3nt1t-long", 1, &[(1, 1, 3), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
  }
  Property {
    id: "P30",
    families: f,
    assumptions: vec![
      "productions of a null-eliminated grammar are traced to the ones they \
       come from by the names of their elements, so forests are taken back \
       where every element has a name of its own; otherwise they are compared \
       with the derivations of the grammar parsed with; productions have \
       different keys"
        .into(),
      "null elimination is applied where the start derives more than the empty \
       sequence, no nonterminal is empty in two ways, and a production has at \
       most five nullable elements"
        .into(),
    ],
    explanation: "states: (grammar of a chain, input) pairs, states of the \
      shift graphs and of the inclusion checks; each grammar of a chain is \
      analysed by the real passes, which are compared with the model's analyses \
      of the grammar as it shows itself, and parsed with by the real parser; \
      the forest, taken back through the chain, is compared with all \
      derivations of the original as a tree automaton in both directions"
      .into(),
  }
}
