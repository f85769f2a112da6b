//! P05 nullable, P06 FIRST, P07 FOLLOW.

use crate::cfg::*;
use crate::engine::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::PassContext;
use bongo::grammar::{Elem, Grammar, ProdKey};
use bongo::utils::{Name, TreeNode, TreeValue, Void};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Grammars with an additional rule that nothing mentions.
fn with_spare_rule(g: &Gram) -> Vec<Gram> {
  let k = g.rules.len() as u16;
  let mut v = Vec::new();
  for body in [vec![vec![Sym::N(0)]], vec![vec![], vec![Sym::T(0)]]] {
    let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = g
      .rules
      .iter()
      .map(|(h, ps)| (*h, ps.iter().map(|p| p.syms().collect()).collect()))
      .collect();
    rules.push((k, body));
    v.push(Gram::simple(g.start, rules));
  }
  v
}

pub fn families(tier: Tier, check: Check, typed: [Check; TYPES as usize]) -> Vec<Family> {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x).keys_per_head());
    cl.extend(with_spare_rule(&g));
  }
  for (_, g, _) in shapes(false) {
    cl.push(g.clone());
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x));
  }
  // Chains of nullable nonterminals of every length, in both orders, with an
  // optional terminal at the end of one of them.
  for len in 1..=12u16 {
    for rev in [false, true] {
      for with_t in 0..=len {
        let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = Vec::new();
        for i in 0..len {
          let mut ps = if i + 1 < len {
            vec![vec![Sym::N(i + 1), Sym::N(i + 1)]]
          } else {
            vec![vec![]]
          };
          if i == with_t {
            ps.push(vec![Sym::T(0), Sym::N(0)]);
          }
          rules.push((i, ps));
        }
        if len > 8 && with_t % 4 != 0 {
          continue;
        }
        let g = Gram::simple(0, rules);
        cl.push(if rev { g.rename_nts(|x| len - 1 - x) } else { g });
      }
    }
  }
  let mut f = type_families(cl.clone(), deep, typed);
  f.push(sized_family(if deep { 1025 } else { 513 }, check));
  f.push(list_family("curated", cl, check));
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, false);
  f.push(space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check));
  f.push(space_family(s("2nt2t", 2, &[(1, 2, 2), (1, 2, 2)]), false, check));
  f.push(space_family(s("2nt2t", 2, &[(1, 2, 2), (1, 2, 2)]), true, check));
  f.push(space_family(
    s("3nt1t", 1, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
    false,
    check,
  ));
  f.push(space_family(
    s("3nt2t-suffix", 2, &[(1, 1, 3), (1, 2, 1), (1, 2, 1)]),
    true,
    check,
  ));
  f.push(space_family(
    s("1nt2t-3prods", 2, &[(1, 3, 3)]),
    false,
    check,
  ));
  f.push(space_family(
    s("2nt1t-rhs3", 1, &[(1, 2, 3), (1, 2, 3)]),
    false,
    check,
  ));
  for rev in [false, true] {
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 1, 2), (1, 2, 2)]),
      rev,
      check,
    ));
    f.push(space_family(
      s("3nt2t-suffix4", 2, &[(1, 1, 4), (1, 2, 1), (1, 2, 1)]),
      rev,
      check,
    ));
    f.push(space_family(
      s("4nt1t", 1, &[(1, 1, 2), (1, 1, 2), (1, 1, 2), (1, 1, 2)]),
      rev,
      check,
    ));
  }
  f.push(space_family(
    s("2nt2t-3prods", 2, &[(1, 3, 2), (1, 2, 2)]),
    false,
    check,
  ));
  f.push(space_family(
    s("4nt1t-eps", 1, &[(1, 1, 3), (1, 2, 1), (1, 2, 1), (1, 2, 1)]),
    false,
    check,
  ));
  if deep {
    f.push(space_family(
      s("3nt2t", 2, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
    f.push(space_family(
      s("2nt2t-rhs3", 2, &[(1, 2, 3), (1, 2, 2)]),
      true,
      check,
    ));
    f.push(space_family(
      s("3nt1t-rhs3", 1, &[(1, 1, 3), (1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("4nt1t-deep", 1, &[(1, 2, 2), (1, 1, 2), (1, 1, 2), (1, 2, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("5nt1t", 1, &[(1, 1, 3), (1, 2, 1), (1, 2, 1), (1, 1, 1), (1, 1, 1)]),
      false,
      check,
    ));
  }
  f
}

// ------------------------------------------------------------------ P05

/// The one empty derivation of a nullable nonterminal, as a tree over the
/// keys of the real grammar.
fn expected_action<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  eps: &BTreeMap<u16, u32>,
  nt: u16,
) -> TreeNode<ProdKey<NT, AK>, Void> {
  let (ix, p) = g
    .rule(nt)
    .unwrap()
    .iter()
    .enumerate()
    .find(|(_, p)| {
      p.syms().all(|s| match s {
        Sym::T(_) => false,
        Sym::N(n) => eps[&n] > 0,
      })
    })
    .unwrap();
  let rule = real.get_rule(&NT::make(nt as u16));
  let prod = rule.prods().nth(ix).unwrap();
  let mut params = BTreeMap::new();
  for (name, s) in &p.elems {
    if let (Some(name), Sym::N(n)) = (name, s) {
      params.insert(
        Name::new(&elem_name(*name)),
        TreeValue::Node(Box::new(expected_action(real, g, eps, *n))),
      );
    }
  }
  TreeNode::new(prod.prod_key(), params)
}

fn check_nullable(g0: &Gram, st: &mut Stats) -> Verdict {
  nullable::<Tm, Nt, Ak, Av>(g0, st)
}

fn nullable<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g0: &Gram,
  st: &mut Stats,
) -> Verdict {
  // Naming matters only where something can be empty.
  let eps = empty_derivations(g0);
  let any = eps.values().any(|c| *c > 0);
  for variant in 0..if any { 6 } else { 2 } {
    let g = g0.with_names(variant);
    nullable_of(&built_as::<T, NT, AK, AV>(&g)?, &g, st)?;
  }
  st.sample(|| format!("{} nullable: {:?}", g0.show(), eps));
  Ok(())
}

/// The nullable analysis of a grammar that the model one describes.
pub fn nullable_of<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  let eps = empty_derivations(g);
  let any = eps.values().any(|c| *c > 0);
  let ctx = || format!("grammar: {}", g.show());
  st.states_extra += 1;
  st.transitions += eps.len() as u64;
  let ambiguous = eps.values().any(|c| *c > 1);
  let pc = PassContext::new(real);
  let res = guard(|| pc.get_pass::<Nullable<NT, AK>>())
    .map_err(|p| format!("{}\nthe nullable pass panics: {}", ctx(), p))?;
  st.traces += 1;
  let n = match (ambiguous, res) {
    (true, Err(_)) => {
      st.outcome("ambiguous");
      return Ok(());
    }
    (false, Ok(n)) => n,
    (a, r) => {
      return Err(format!(
        "{}\nsome nonterminal is empty in two ways: {}, the analysis succeeds: {}",
        ctx(),
        a,
        r.is_ok()
      ))
    }
  };
  st.outcome(if any { "some nullable" } else { "none nullable" });
  let want: BTreeSet<NT> = eps
    .iter()
    .filter(|(_, c)| **c > 0)
    .map(|(n, _)| NT::make(*n as u16))
    .collect();
  if n.get_nullable_set() != want
    || n.get_nullable_info().get_nullable_set() != want
  {
    return Err(format!(
      "{}\nnullable set {:?}, expected {:?}",
      ctx(),
      n.get_nullable_set(),
      want
    ));
  }
  for nt in g.asked() {
    let w = want.contains(&NT::make(nt as u16));
    if n.is_nullable(&NT::make(nt as u16)) != w
      || n.get_nullable_info().is_nullable(&NT::make(nt as u16)) != w
    {
      return Err(format!("{}\nis_nullable(N{}) is not {}", ctx(), nt, w));
    }
    let got = n.get_nullable_info().get_nullable_action(&NT::make(nt as u16));
    let exp = if w {
      Some(expected_action(real, g, &eps, nt))
    } else {
      None
    };
    if got != exp.as_ref() {
      return Err(format!(
        "{}\nempty derivation of N{}: {:?}\nexpected: {:?}",
        ctx(),
        nt,
        got,
        exp
      ));
    }
  }
  for prod in real.prods() {
    let w = prod.elements().all(|e| match e {
      Elem::Term(_) => false,
      Elem::NonTerm(n) => want.contains(n),
    });
    if n.is_prod_nullable(&prod) != w
      || n.get_nullable_info().is_prod_nullable(&prod) != w
    {
      return Err(format!("{}\nis_prod_nullable({:?}) is not {}", ctx(), prod, w));
    }
  }
  Ok(())
}

pub fn p05(tier: Tier) -> Property {
  Property {
    id: "P05",
    families: families(tier, check_nullable, typed!(nullable)),
    assumptions: vec![
      "two elements of one production never carry the same name".into(),
      "grammars outside the listed spaces are not explored".into(),
    ],
    explanation: "states: (grammar, naming) pairs; each is analysed by the real \
      pass and compared with a count of empty derivations by bounded height; \
      transitions: nonterminals counted"
      .into(),
  }
}

// ------------------------------------------------------------------ P06

fn ambiguous(g: &Gram) -> bool {
  empty_derivations(g).values().any(|c| *c > 1)
}

fn check_firsts(g: &Gram, st: &mut Stats) -> Verdict {
  firsts::<Tm, Nt, Ak, Av>(g, st)
}

fn firsts<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  if ambiguous(g) {
    st.filtered += 1;
    return Ok(());
  }
  firsts_of(&built_as::<T, NT, AK, AV>(g)?, g, st)
}

pub fn firsts_of<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  let ctx = || format!("grammar: {}", g.show());
  let pc = PassContext::new(real);
  let res = guard(|| pc.get_pass::<Firsts<T, NT>>())
    .map_err(|p| format!("{}\nthe first pass panics: {}", ctx(), p))?;
  st.traces += 1;
  st.states_extra += 1;
  let f = res.map_err(|e| format!("{}\nthe first pass fails: {:?}", ctx(), e))?;
  let want = first_sets(g);
  for nt in g.asked() {
    let w: BTreeSet<T> = want
      .get(&nt)
      .into_iter()
      .flatten()
      .map(|t| T::make(*t as u16))
      .collect();
    st.transitions += w.len() as u64;
    let got = f.get(&NT::make(nt as u16)).cloned().unwrap_or_default();
    if got != w {
      return Err(format!(
        "{}\nFIRST(N{}) = {:?}, expected {:?}",
        ctx(),
        nt,
        got,
        w
      ));
    }
  }
  st.outcome(format!(
    "{} terminals in all",
    want.values().map(|s| s.len()).sum::<usize>().min(9)
  ));
  st.sample(|| format!("{} FIRST: {:?}", g.show(), want));
  if st.traces % 64 == 0 {
    cross_check(g);
  }
  Ok(())
}

/// The oracles against an independent enumeration of sentential forms.
fn cross_check(g: &Gram) {
  let firsts = first_sets(g);
  for (nt, _) in &g.rules {
    let forms = sentential_forms(g, vec![Sym::N(*nt)], 5, 60);
    for f in forms {
      if let Some(Sym::T(t)) = f.first() {
        if !firsts[nt].contains(t) {
          oracle_broken(format!("FIRST {} N{} t{}", g.show(), nt, t));
        }
      }
    }
  }
  let follows = follow_sets(g);
  for f in sentential_forms(g, vec![Sym::N(g.start)], 5, 100) {
    for w in f.windows(2) {
      if let (Sym::N(n), Sym::T(t)) = (w[0], w[1]) {
        if !follows[&n].contains(&t) {
          oracle_broken(format!("FOLLOW {} N{} t{}", g.show(), n, t));
        }
      }
    }
  }
}

pub fn p06(tier: Tier) -> Property {
  Property {
    id: "P06",
    families: families(tier, check_firsts, typed!(firsts)),
    assumptions: vec![
      "sequences include sentential forms, so nonterminals without a terminal \
       string still have first sets"
        .into(),
      "grammars outside the listed spaces are not explored".into(),
    ],
    explanation: "states: grammars without nullable ambiguity, each analysed by \
      the real pass and compared with a reachability search over leftmost \
      symbols; every 64th grammar also checks that oracle against enumerated \
      sentential forms; transitions: (nonterminal, terminal) facts"
      .into(),
  }
}

// ------------------------------------------------------------------ P07

#[cfg(feature = "m_follows")]
fn check_follows(g: &Gram, st: &mut Stats) -> Verdict {
  follows::<Tm, Nt, Ak, Av>(g, st)
}

#[cfg(feature = "m_follows")]
fn follows<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  if ambiguous(g) {
    st.filtered += 1;
    return Ok(());
  }
  follows_of(&built_as::<T, NT, AK, AV>(g)?, g, st)
}

#[cfg(feature = "m_follows")]
pub fn follows_of<T: Sort, NT: Sort, AK: Key, AV>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  use bongo::grammar::passes::follows::Follows;
  // FOLLOW is about what the start derives.
  let reach = g.reachable();
  let ctx = || format!("grammar: {}", g.show());
  let pc = PassContext::new(real);
  let res = guard(|| pc.get_pass::<Follows<T, NT>>())
    .map_err(|p| format!("{}\nthe follow pass panics: {}", ctx(), p))?;
  st.traces += 1;
  st.states_extra += 1;
  let f = res.map_err(|e| format!("{}\nthe follow pass fails: {:?}", ctx(), e))?;
  if g.rules.iter().any(|(h, _)| !reach.contains(h)) {
    // A rule that nothing mentions takes no part in what the start derives,
    // but the text of the analysis does not promise to leave it out.
    st.outcome("has an unmentioned rule: only that the pass ends");
    return Ok(());
  }
  let want = follow_sets(g);
  for nt in g.asked() {
    let w: BTreeSet<T> = want
      .get(&nt)
      .into_iter()
      .flatten()
      .map(|t| T::make(*t as u16))
      .collect();
    st.transitions += w.len() as u64;
    let got = f.verif_get(&NT::make(nt as u16)).cloned().unwrap_or_default();
    if got != w {
      return Err(format!(
        "{}\nFOLLOW(N{}) = {:?}, expected {:?}",
        ctx(),
        nt,
        got,
        w
      ));
    }
  }
  st.outcome(format!(
    "{} terminals in all",
    want.values().map(|s| s.len()).sum::<usize>().min(9)
  ));
  st.sample(|| format!("{} FOLLOW: {:?}", g.show(), want));
  if st.traces % 64 == 0 {
    cross_check(g);
  }
  Ok(())
}

#[cfg(feature = "m_follows")]
pub fn p07(tier: Tier) -> Property {
  let mut f = families(tier, check_follows, typed!(follows));
  // Long nullable tails.
  f.push(space_family(
    Space::new("3nt1t-tail", 1, &[(1, 1, 4), (1, 2, 1), (1, 2, 1)], false),
    false,
    check_follows,
  ));
  Property {
    id: "P07",
    families: f,
    assumptions: vec![
      "sequences include sentential forms".into(),
      "grammars outside the listed spaces are not explored".into(),
    ],
    explanation: "states: grammars without nullable ambiguity, each analysed by \
      the real pass and compared with a backward search over the productions; \
      every 64th grammar also checks that oracle against enumerated sentential \
      forms; transitions: (nonterminal, terminal) facts"
      .into(),
  }
}
