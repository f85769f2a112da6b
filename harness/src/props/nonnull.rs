//! P12: null elimination.

use crate::cfg::*;
use crate::engine::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::transform::nonnull::{transform_to_nonnull, NonNullGrammar};
use bongo::grammar::{Elem, Grammar, ProdKey};
use bongo::utils::{Name, TreeNode, TreeValue, Void};
use std::collections::{BTreeMap, BTreeSet};

type Action<NT, AK> = TreeNode<ProdKey<NT, AK>, Void>;

/// A production of the result, as far as it can be observed.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct VProd {
  /// Debug texts of the original action key and value.
  ak: String,
  av: String,
  elems: Vec<(Option<String>, Sym)>,
  /// Debug text of the empty derivations of absent named elements.
  args: String,
}

/// Nonterminals that derive nothing but the empty sequence.
fn always_empty(g: &Gram) -> BTreeSet<u16> {
  let mut d = BTreeSet::new();
  loop {
    let n = d.len();
    for (h, ps) in &g.rules {
      let all = |p: &MProd| {
        p.syms().all(|s| match s {
          Sym::T(_) => false,
          Sym::N(m) => d.contains(&m),
        })
      };
      if ps.iter().all(all) {
        d.insert(*h);
      }
    }
    if d.len() == n {
      return d;
    }
  }
}

fn empty_action<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  eps: &BTreeMap<u16, u32>,
  nt: u16,
) -> Action<NT, AK> {
  let (ix, p) = g
    .rule(nt)
    .unwrap()
    .iter()
    .enumerate()
    .find(|(_, p)| {
      p.syms().all(|s| match s {
        Sym::T(_) => false,
        Sym::N(n) => eps[&n] > 0,
      })
    })
    .unwrap();
  let prod = real.get_rule(&NT::make(nt as u16)).prods().nth(ix).unwrap();
  let mut params = BTreeMap::new();
  for (name, s) in &p.elems {
    if let (Some(name), Sym::N(n)) = (name, s) {
      params.insert(
        Name::new(&elem_name(*name)),
        TreeValue::Node(Box::new(empty_action(real, g, eps, *n))),
      );
    }
  }
  TreeNode::new(prod.prod_key(), params)
}

/// The productions the definition asks for, per head.
fn expected<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  real: &Grammar<T, NT, AK, AV>,
  g: &Gram,
  eps: &BTreeMap<u16, u32>,
  d: &BTreeSet<u16>,
) -> BTreeMap<u16, Vec<VProd>> {
  let mut out: BTreeMap<u16, Vec<VProd>> = BTreeMap::new();
  for (h, ps) in &g.rules {
    if d.contains(h) {
      continue;
    }
    let mut v = Vec::new();
    let rule = real.get_rule(&NT::make(*h as u16));
    for (p, rp) in ps.iter().zip(rule.prods()) {
      let choosable: Vec<usize> = (0..p.elems.len())
        .filter(|i| match p.elems[*i].1 {
          Sym::N(n) => eps[&n] > 0 && !d.contains(&n),
          _ => false,
        })
        .collect();
      for mask in 0..1u32 << choosable.len() {
        let mut elems = Vec::new();
        let mut args: BTreeMap<Name, Action<NT, AK>> = BTreeMap::new();
        for (i, (name, s)) in p.elems.iter().enumerate() {
          let absent = match s {
            Sym::N(n) if d.contains(n) => Some(*n),
            Sym::N(n) => choosable
              .iter()
              .position(|c| *c == i)
              .filter(|k| mask & (1 << k) != 0)
              .map(|_| *n),
            _ => None,
          };
          match absent {
            None => elems.push((name.map(elem_name), *s)),
            Some(n) => {
              if let Some(name) = name {
                args.insert(
                  Name::new(&elem_name(*name)),
                  empty_action(real, g, eps, n),
                );
              }
            }
          }
        }
        if !elems.is_empty() {
          v.push(VProd {
            ak: format!("{:?}", rp.action_key()),
            av: format!("{:?}", rp.action_value()),
            elems,
            args: format!("{:?}", args),
          });
        }
      }
    }
    v.sort();
    out.insert(*h, v);
  }
  out
}

/// The values of the fields of a struct in its debug text.
fn fields(text: &str) -> Vec<String> {
  let inner = match (text.find('{'), text.rfind('}')) {
    (Some(a), Some(b)) if a < b => &text[a + 1..b],
    _ => return vec![text.to_string()],
  };
  let mut out = vec![String::new()];
  let mut depth = 0;
  let mut quoted = false;
  let mut value = false;
  for c in inner.chars() {
    match c {
      '"' => quoted = !quoted,
      '{' | '[' | '(' if !quoted => depth += 1,
      '}' | ']' | ')' if !quoted => depth -= 1,
      _ => {}
    }
    if depth == 0 && !quoted && c == ',' {
      out.push(String::new());
      value = false;
    } else if depth == 0 && !quoted && c == ':' && !value {
      value = true;
      out.last_mut().unwrap().clear();
    } else {
      out.last_mut().unwrap().push(c);
    }
  }
  out
    .into_iter()
    .map(|s| s.trim().to_string())
    .filter(|s| !s.is_empty())
    .collect()
}

/// The field with one of these texts.
fn one_of(text: &str, known: &BTreeSet<String>) -> Option<String> {
  fields(text).into_iter().find(|f| known.contains(f))
}

fn read<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  real: &Grammar<T, NT, AK, AV>,
  r: &NonNullGrammar<T, NT, AK, AV>,
) -> Result<BTreeMap<u16, Vec<VProd>>, String> {
  let texts = |f: &dyn Fn(bongo::grammar::Prod<T, NT, AK, AV>) -> String| {
    real.prods().map(f).collect::<BTreeSet<String>>()
  };
  let aks = texts(&|p| format!("{:?}", p.action_key()));
  let avs = texts(&|p| format!("{:?}", p.action_value()));
  let mut out = BTreeMap::new();
  for rule in r.rules() {
    let mut v = Vec::new();
    let mut keys = BTreeSet::new();
    for p in rule.prods() {
      if !keys.insert(p.action_key().clone()) {
        return Err(format!(
          "two productions of {:?} have the action key {:?}",
          rule.head(),
          p.action_key()
        ));
      }
      let kt = format!("{:?}", p.action_key());
      let vt = format!("{:?}", p.action_value());
      let ak =
        one_of(&kt, &aks).ok_or(format!("no original action key in {}", kt))?;
      let av = one_of(&vt, &avs)
        .ok_or(format!("no original action value in {}", vt))?;
      let args = fields(&vt)
        .into_iter()
        .find(|f| f.starts_with('{'))
        .ok_or(format!("no empty derivations in {}", vt))?;
      v.push(VProd {
        ak,
        av,
        elems: p
          .prod_elements()
          .iter()
          .map(|e| {
            (
              e.id().map(|n| n.str().to_string()),
              match e.elem() {
                Elem::Term(t) => Sym::T(t.number() as u16),
                Elem::NonTerm(n) => Sym::N(n.number() as u16),
              },
            )
          })
          .collect(),
        args,
      });
    }
    v.sort();
    out.insert(rule.head().number() as u16, v);
  }
  Ok(out)
}

/// Number of derivation trees of an input, or None when there are infinitely
/// or too many.
fn count_trees(g: &Gram, s: &[u16], st: &mut Stats) -> Option<usize> {
  let vals: Vec<u16> = (0..s.len() as u16).collect();
  let mut o = TreeOracle::new(g, s, &vals, 200);
  let mut ts = crate::cfg::Trees::default();
  let full = o.full_height();
  let a = o.trees(&mut ts, g.start, 0, s.len(), full);
  let b = o.trees(&mut ts, g.start, 0, s.len(), full + g.rules.len());
  st.transitions += o.cost.0;
  match (a, b) {
    (Ok(a), Ok(b)) if a.len() == b.len() => Some(a.len()),
    _ => None,
  }
}

/// Whether the productions of each head have different action keys.
fn keyed(g: &Gram) -> bool {
  g.rules.iter().all(|(_, ps)| {
    ps.iter().map(|p| p.ak).collect::<BTreeSet<_>>().len() == ps.len()
  })
}

fn check_one<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  semantic: bool,
  st: &mut Stats,
) -> Verdict {
  let eps = empty_derivations(g);
  let d = always_empty(g);
  // The result has up to so many productions for each one.
  let choices = |p: &MProd| {
    p.syms().filter(|s| matches!(s, Sym::N(n) if eps[n] > 0 && !d.contains(n))).count()
  };
  if eps.values().any(|c| *c > 1)
    || d.contains(&g.start)
    || !keyed(g)
    || g.prods().any(|(_, p)| choices(p) > 14)
  {
    st.filtered += 1;
    return Ok(());
  }
  let ctx = || format!("grammar: {}", g.show());
  let real = built_as::<T, NT, AK, AV>(g)?;
  let res = guard(|| transform_to_nonnull(&real))
    .map_err(|p| format!("{}\nnull elimination panics: {}", ctx(), p))?
    .map_err(|e| format!("{}\nnull elimination fails: {}", ctx(), e))?;
  st.states_extra += 1;
  st.traces += 1;
  let got = read(&real, &res).map_err(|e| format!("{}\n{}", ctx(), e))?;
  let want = expected(&real, g, &eps, &d);
  st.transitions += want.values().map(|v| v.len() as u64).sum::<u64>();
  if res.start_nt().number() != g.start as u16 {
    return Err(format!("{}\nstart {:?}", ctx(), res.start_nt()));
  }
  if got != want {
    let show = |m: &BTreeMap<u16, Vec<VProd>>| {
      let mut o = String::new();
      for (h, v) in m {
        for p in v {
          o.push_str(&format!("\n  N{} -> {:?}", h, p));
        }
      }
      o
    };
    return Err(format!(
      "{}\nresult:{}\nexpected:{}",
      ctx(),
      show(&got),
      show(&want)
    ));
  }
  st.outcome(format!(
    "{} nullable, {} always empty, {} productions",
    eps.values().filter(|c| **c > 0).count(),
    d.len(),
    want.values().map(|v| v.len()).sum::<usize>().min(20)
  ));
  if semantic {
    // What the result generates, from what it shows.
    let mut k = 0;
    let rg = Gram {
      start: g.start,
      rules: got
        .iter()
        .map(|(h, v)| {
          (
            *h,
            v.iter()
              .map(|p| {
                k += 1;
                MProd {
                  elems: p.elems.iter().map(|e| (None, e.1)).collect(),
                  ak: k,
                  av: 0,
                }
              })
              .collect(),
          )
        })
        .collect(),
    };
    let mut cost = Cost(0);
    let terms: Vec<u16> = g.terms().into_iter().take(2).collect();
    for s in strings(&terms, 3) {
      let a = !s.is_empty() && in_language(g, &s, &mut cost);
      let b = in_language(&rg, &s, &mut cost);
      if a != b {
        return Err(format!(
          "{}\n{:?} is a nonempty sentence: {}, generated by the result: {}",
          ctx(),
          s,
          a,
          b
        ));
      }
      if a {
        // The enumeration identifies trees by action keys.
        let mut ug = g.clone();
        let mut k = 0;
        for (_, ps) in &mut ug.rules {
          for p in ps {
            k += 1;
            p.ak = k;
          }
        }
        match (count_trees(&ug, &s, st), count_trees(&rg, &s, st)) {
          (Some(x), Some(y)) if x != y => {
            return Err(format!(
              "{}\n{:?} has {} derivations, in the result {}",
              ctx(),
              s,
              x,
              y
            ));
          }
          (Some(x), Some(_)) => {
            st.outcome(format!("{} derivations of a sentence", x.min(6)))
          }
          _ => st.outcome("infinitely or too many derivations"),
        }
      }
    }
    st.transitions += cost.0;
  }
  st.sample(|| format!("{} gives {:?}", g.show(), want));
  Ok(())
}

fn one(g: &Gram, semantic: bool, st: &mut Stats) -> Verdict {
  check_one::<Tm, Nt, Ak, Av>(g, semantic, st)
}

fn check(g0: &Gram, st: &mut Stats) -> Verdict {
  one(g0, true, st)?;
  for v in 1..6 {
    one(&g0.with_names(v), false, st)?;
  }
  one(&g0.keys_per_head().with_names(1), false, st)
}

fn large(g0: &Gram, st: &mut Stats) -> Verdict {
  one(g0, false, st)?;
  one(&g0.with_names(1), false, st)?;
  one(&g0.keys_per_head().with_names(4), false, st)
}

fn over<T: Sort, NT: Sort, AK: Sort, AV: Sort>(g: &Gram, st: &mut Stats) -> Verdict {
  check_one::<T, NT, AK, AV>(g, false, st)?;
  check_one::<T, NT, AK, AV>(&g.with_names(1), false, st)?;
  check_one::<T, NT, AK, AV>(&g.with_names(5), false, st)
}

/// Productions with many parts that may be absent.
fn variants(max: usize) -> Vec<Gram> {
  let mut v = Vec::new();
  for n in 7..=max {
    for layout in 0..4 {
      let mut body = Vec::new();
      for i in 0..n {
        body.push(Sym::N(match layout {
          0 => 1,
          1 => 1 + (i % 2) as u16,
          _ => 1 + i as u16,
        }));
        match layout {
          2 if i % 3 == 0 => body.push(Sym::T(1)),
          3 if i + 1 == n => body.extend([Sym::T(1), Sym::N(1)]),
          _ => {}
        }
      }
      let last = if layout < 2 { 2 } else { n as u16 };
      let mut rules = vec![(0, vec![body, vec![Sym::T(2), Sym::N(2)]])];
      rules.extend((1..=last).map(|i| (i, vec![vec![], vec![Sym::T(0)]])));
      let g = Gram::simple(0, rules);
      v.push(g.with_names(1));
      v.push(g);
    }
  }
  v.reverse();
  v
}

fn plain(g: &Gram, st: &mut Stats) -> Verdict {
  one(g, false, st)
}

pub fn p12(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x));
  }
  for (_, g, _) in shapes(false) {
    // The number of productions of the result is exponential in this.
    let n = |p: &MProd| p.syms().filter(|s| matches!(s, Sym::N(_))).count();
    if g.prods().all(|(_, p)| n(p) <= 8) {
      cl.push(g);
    }
  }
  let named = cl.clone();
  // Long productions of nullable, always empty and other nonterminals.
  for n in 1..=6usize {
    for kinds in 0..3usize.pow(n as u32) {
      let mut body = Vec::new();
      let mut k = kinds;
      for _ in 0..n {
        body.push(Sym::N(1 + (k % 3) as u16));
        k /= 3;
      }
      let rules = vec![
        (0, vec![body, vec![Sym::T(0), Sym::N(1), Sym::N(2), Sym::N(3)]]),
        (1, vec![vec![], vec![Sym::T(0)]]),
        (2, vec![vec![]]),
        (3, vec![vec![Sym::T(1)]]),
      ];
      cl.push(Gram::simple(0, rules));
    }
  }
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, false);
  let mut f = vec![
    list_family("curated", cl, check),
    sized_family(if deep { 513 } else { 257 }, large),
    list_family("variants", variants(if deep { 14 } else { 12 }), plain),
    space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check),
    space_family(s("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)]), true, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 2)]), false, check),
    space_family(
      s("3nt1t", 1, &[(1, 1, 2), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ),
  ];
  f.extend(type_families(named, deep, typed!(over)));
  if deep {
    f.push(space_family(
      s("2nt2t-deep", 2, &[(1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(s("2nt1t-3", 1, &[(1, 2, 3), (1, 2, 2)]), true, check));
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("3nt1t-long", 1, &[(1, 1, 4), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
    f.push(space_family(s("2nt1t-rhs3", 1, &[(1, 2, 3), (1, 2, 3)]), false, check));
    f.push(space_family(s("2nt1t-3prods", 1, &[(1, 3, 2), (1, 2, 2)]), true, check));
    f.push(space_family(s("1nt2t-3prods", 2, &[(1, 3, 3)]), false, check));
    f.push(space_family(
      s("3nt2t", 2, &[(1, 2, 2), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
    f.push(space_family(
      s("4nt1t", 1, &[(1, 1, 2), (1, 1, 2), (1, 1, 2), (1, 1, 1)]),
      true,
      check,
    ));
  }
  Property {
    id: "P12",
    families: f,
    assumptions: vec![
      "two elements of one production never carry the same name".into(),
      "nothing is required where the start nonterminal derives only the empty \
       sequence, or of grammars with nullable ambiguity"
        .into(),
      "original keys, values and empty derivations are read from debug texts"
        .into(),
    ],
    explanation: "states: (grammar, element naming); the real result is compared \
      production by production with the definition, and, unnamed, its language \
      and numbers of derivation trees with those of the original on all inputs \
      up to length 3; transitions: productions, recogniser and enumeration steps"
      .into(),
  }
}
