//! P11: start-wrapping.

use crate::cfg::*;
use crate::engine::*;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::{Elem, Grammar};
use bongo::start_grammar::*;

/// What a grammar shows, with everything mapped to text.
#[derive(PartialEq, Eq, Debug, Clone)]
struct View {
  start: String,
  rules: Vec<(String, Vec<VProd>)>,
}

#[derive(PartialEq, Eq, Debug, Clone)]
struct VProd {
  ak: String,
  av: String,
  elems: Vec<(Option<String>, Elem<String, String>)>,
}

fn view<T, NT, AK, AV>(
  g: &Grammar<T, NT, AK, AV>,
  ft: &dyn Fn(&T) -> String,
  fnt: &dyn Fn(&NT) -> String,
  fk: &dyn Fn(&AK) -> String,
  fv: &dyn Fn(&AV) -> String,
) -> View
where
  NT: Ord + Clone,
  AK: Ord + Clone,
{
  let mut v = View {
    start: fnt(g.start_nt()),
    rules: g
      .rules()
      .map(|r| {
        (
          fnt(r.head()),
          r.prods()
            .map(|p| VProd {
              ak: fk(p.action_key()),
              av: fv(p.action_value()),
              elems: p
                .prod_elements()
                .iter()
                .map(|e| {
                  (
                    e.id().map(|n| n.str().to_string()),
                    match e.elem() {
                      Elem::Term(t) => Elem::Term(ft(t)),
                      Elem::NonTerm(n) => Elem::NonTerm(fnt(n)),
                    },
                  )
                })
                .collect(),
            })
            .collect(),
        )
      })
      .collect(),
  };
  // The order of the rules is not part of it.
  v.rules.sort_by(|a, b| a.0.cmp(&b.0));
  v
}

/// The text forms of the wrapper types.
fn wt<T>(f: &dyn Fn(&T) -> String, t: &StreamTerminal<T>) -> String {
  match t {
    StreamTerminal::EndOfStream => "EOS".into(),
    StreamTerminal::Term(t) => format!("T({})", f(t)),
  }
}
fn wn<T>(f: &dyn Fn(&T) -> String, t: &StartNonTerminal<T>) -> String {
  match t {
    StartNonTerminal::Start => "START".into(),
    StartNonTerminal::NTerm(t) => format!("N({})", f(t)),
  }
}
fn wk<T>(f: &dyn Fn(&T) -> String, t: &StartActionKey<T>) -> String {
  match t {
    StartActionKey::Start => "KSTART".into(),
    StartActionKey::ActionKey(t) => format!("K({})", f(t)),
  }
}
fn wv<T>(f: &dyn Fn(&T) -> String, t: &StartActionValue<T>) -> String {
  match t {
    StartActionValue::Start => "VSTART".into(),
    StartActionValue::ActionValue(t) => format!("V({})", f(t)),
  }
}

/// What the wrapped grammar must show.
fn wrapped_view(v: &View) -> View {
  let mut rules = vec![(
    "START".to_string(),
    vec![VProd {
      ak: "KSTART".into(),
      av: "VSTART".into(),
      elems: vec![
        (
          Some("start".into()),
          Elem::NonTerm(format!("N({})", v.start)),
        ),
        (None, Elem::Term("EOS".into())),
      ],
    }],
  )];
  for (h, ps) in &v.rules {
    rules.push((
      format!("N({})", h),
      ps.iter()
        .map(|p| VProd {
          ak: format!("K({})", p.ak),
          av: format!("V({})", p.av),
          elems: p
            .elems
            .iter()
            .map(|(n, e)| {
              (
                n.clone(),
                match e {
                  Elem::Term(t) => Elem::Term(format!("T({})", t)),
                  Elem::NonTerm(t) => Elem::NonTerm(format!("N({})", t)),
                },
              )
            })
            .collect(),
        })
        .collect(),
    ));
  }
  rules.sort_by(|a, b| a.0.cmp(&b.0));
  View {
    start: "START".into(),
    rules,
  }
}

/// A model grammar from a view, to decide languages independently.
fn to_gram(v: &View, terms: &mut Vec<String>) -> Gram {
  let heads: Vec<&String> = v.rules.iter().map(|r| &r.0).collect();
  let n = |s: &String| heads.iter().position(|h| *h == s).unwrap() as u16;
  let mut rules = Vec::new();
  for (h, ps) in &v.rules {
    let mut out = Vec::new();
    for p in ps {
      let mut body = Vec::new();
      for (_, e) in &p.elems {
        body.push(match e {
          Elem::NonTerm(x) => Sym::N(n(x)),
          Elem::Term(t) => {
            let i = terms.iter().position(|x| x == t).unwrap_or_else(|| {
              terms.push(t.clone());
              terms.len() - 1
            });
            Sym::T(i as u16)
          }
        });
      }
      out.push(body);
    }
    rules.push((n(h), out));
  }
  Gram::simple(n(&v.start), rules)
}

fn one(g: &Gram, st: &mut Stats) -> Verdict {
  check_one::<Tm, Nt, Ak, Av>(g, true, st)
}

fn check(g0: &Gram, st: &mut Stats) -> Verdict {
  for variant in [0, 1, 2, 4, 5] {
    one(&g0.with_names(variant), st)?;
  }
  one(&g0.keys_shared().with_names(6), st)?;
  one(&g0.keys_per_head().with_names(3), st)
}

fn large(g: &Gram, st: &mut Stats) -> Verdict {
  check_one::<Tm, Nt, Ak, Av>(&g.with_names(1), false, st)?;
  check_one::<Tm, Nt, Ak, Av>(&g.keys_shared(), false, st)?;
  check_one::<Tm, Nt, Ak, Av>(&g.keys_per_head().with_names(2), false, st)
}

fn over<T: Sort, NT: Sort, AK: Sort, AV: Sort>(g: &Gram, st: &mut Stats) -> Verdict {
  check_one::<T, NT, AK, AV>(g, false, st)?;
  check_one::<T, NT, AK, AV>(&g.with_names(1), false, st)
}

fn check_one<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  semantic: bool,
  st: &mut Stats,
) -> Verdict {
  let ctx = || format!("grammar: {}", g.show());
  let real = built_as::<T, NT, AK, AV>(g)?;
  let dt = |t: &T| format!("t{}", t.number());
  let dn = |t: &NT| format!("n{}", t.number());
  let dk = |t: &AK| format!("k{}", t.number());
  let dv = |t: &AV| format!("v{}", t.number());
  let base = view(&real, &dt, &dn, &dk, &dv);
  let w1 = guard(|| wrap_grammar_with_start(real.clone()))
    .map_err(|p| format!("{}\nwrapping panics: {}", ctx(), p))?
    .map_err(|e| format!("{}\nwrapping fails: {:?}", ctx(), e))?;
  st.states_extra += 1;
  st.traces += 1;
  st.transitions += g.rules.len() as u64;
  let v1 = view(
    &w1,
    &|t| wt(&dt, t),
    &|t| wn(&dn, t),
    &|t| wk(&dk, t),
    &|t| wv(&dv, t),
  );
  let want1 = wrapped_view(&base);
  let diff = |got: &View, want: &View, what: &str| {
    format!("{}\n{}: {:?}\nexpected: {:?}", ctx(), what, got, want)
  };
  if v1 != want1 {
    return Err(diff(&v1, &want1, "wrapped"));
  }
  // The shorthands.
  let sp = guard(|| {
    let r = w1.start_rule();
    let p = w1.start_prod();
    (
      r.head().clone(),
      r.prods().count(),
      p.head().clone(),
      p.num_elements(),
      p.action_key().clone(),
    )
  })
  .map_err(|p| format!("{}\nthe start rule panics: {}", ctx(), p))?;
  if sp
    != (
      StartNonTerminal::Start,
      1,
      StartNonTerminal::Start,
      2,
      StartActionKey::Start,
    )
  {
    return Err(format!("{}\nstart rule and production: {:?}", ctx(), sp));
  }
  for p in w1.prods() {
    let base = p.action_key().as_base();
    let is_start = *p.head() == StartNonTerminal::Start;
    if base.is_none() != is_start {
      return Err(format!("{}\nas_base of {:?} is {:?}", ctx(), p, base));
    }
    for e in p.elements() {
      if let Elem::Term(t) = e {
        let eos = is_start;
        let own = match t {
          StreamTerminal::Term(x) => t.has_kind(x),
          StreamTerminal::EndOfStream => !t.has_kind(&T::make(0)),
        };
        if t.is_eos() != eos || !own {
          return Err(format!("{}\nkind of {:?} is wrong", ctx(), t));
        }
      }
    }
  }
  // Wrapping is defined for every grammar, so also for a wrapped one.
  let w2 = guard(|| wrap_grammar_with_start(w1.clone()))
    .map_err(|p| format!("{}\nwrapping twice panics: {}", ctx(), p))?
    .map_err(|e| format!("{}\nwrapping twice fails: {:?}", ctx(), e))?;
  let v2 = view(
    &w2,
    &|t| wt(&|t| wt(&dt, t), t),
    &|t| wn(&|t| wn(&dn, t), t),
    &|t| wk(&|t| wk(&dk, t), t),
    &|t| wv(&|t| wv(&dv, t), t),
  );
  let want2 = wrapped_view(&want1);
  if v2 != want2 {
    return Err(diff(&v2, &want2, "wrapped twice"));
  }
  // The original is unchanged.
  let again = view(&real, &dt, &dn, &dk, &dv);
  if again != base {
    return Err(diff(&again, &base, "the original, after wrapping"));
  }
  // Languages, from what the wrapped grammar shows.
  if semantic && g.rules.len() <= 3 && g.terms().len() <= 2 {
    let mut terms = vec!["T(t0)".to_string(), "T(t1)".into(), "EOS".into()];
    let wg = to_gram(&v1, &mut terms);
    let mut cost = Cost(0);
    for s in strings(&[0, 1], 3) {
      let mut e = s.clone();
      e.push(2);
      let a = in_language(g, &s, &mut cost);
      let b = in_language(&wg, &e, &mut cost);
      let bare = in_language(&wg, &s, &mut cost);
      if a != b || bare {
        return Err(format!(
          "{}\n{:?}: in the language {}, with end of stream in the wrapped \
           one {}, without it {}",
          ctx(),
          s,
          a,
          b,
          bare
        ));
      }
      st.outcome(if a { "sentence" } else { "not a sentence" });
    }
    st.transitions += cost.0;
  }
  st.sample(|| format!("{:?}", v1));
  Ok(())
}

pub fn p11(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x).keys_per_head());
    // A rule that nothing mentions is kept too.
    let mut h = g.clone();
    h.rules.push((
      k,
      vec![MProd {
        elems: vec![(Some(7), Sym::N(0)), (None, Sym::T(0))],
        ak: 900,
        av: 901,
      }],
    ));
    cl.push(h);
  }
  for (_, g, _) in shapes(false) {
    cl.push(g);
  }
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, true);
  let mut f = vec![
    list_family("curated", cl, check),
    sized_family(if deep { 513 } else { 257 }, large),
    space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)]), true, check),
    space_family(
      s("3nt1t", 1, &[(1, 1, 2), (1, 2, 1), (1, 1, 1)]),
      false,
      check,
    ),
  ];
  f.extend(type_families(classics(), deep, typed!(over)));
  f.push(space_family(
    s("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)]),
    false,
    check,
  ));
  if deep {
    f.push(space_family(
      s("3nt1t-deep", 1, &[(1, 2, 2), (1, 2, 1), (1, 1, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("2nt1t-deep", 1, &[(1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("1nt2t-3prods", 2, &[(1, 3, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("4nt1t", 1, &[(1, 1, 2), (1, 1, 1), (1, 1, 1), (1, 1, 1)]),
      true,
      check,
    ));
    f.push(space_family(s("2nt2t-deep", 2, &[(1, 2, 2), (1, 2, 2)]), false, check));
    f.push(space_family(s("2nt1t-rhs3", 1, &[(1, 2, 3), (1, 2, 2)]), true, check));
    f.push(space_family(s("1nt2t-rhs3", 2, &[(1, 3, 3)]), false, check));
  }
  Property {
    id: "P11",
    families: f,
    assumptions: vec![
      "what a grammar shows is read through its accessors (P10)".into(),
    ],
    explanation: "states: (grammar, element naming); each is wrapped once and \
      twice, read back through the accessors and compared with the definition; \
      languages are compared by the model recogniser on all inputs up to length \
      3; transitions: rules wrapped and recogniser steps"
      .into(),
  }
}
