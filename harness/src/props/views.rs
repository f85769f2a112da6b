//! P10: a built grammar shows exactly what was given to the builder.

use crate::cfg::*;
use crate::engine::*;
use crate::laws::laws;
use crate::sorts::*;
use crate::spaces::*;
use bongo::grammar::{build, Elem, Grammar, Prod, ProdElement, Rule};
use bongo::utils::Name;
use std::fmt::Debug;

// ------------------------------------------------- ways to use the builder

pub const METHODS: usize = 4;

fn build_by<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  method: usize,
) -> Result<Grammar<T, NT, AK, AV>, String> {
  let tm = |t: u16| T::make(t as u16);
  let nt = |n: u16| NT::make(n as u16);
  let (ak, av) = (AK::make, |v: u16| AV::make(v % AV::COUNT));
  let r = guard(|| match method {
    0 => to_bongo_with(g, &tm, &nt, &ak, &av),
    1 => build(nt(g.start), |b| {
      for (h, ps) in &g.rules {
        b.add_rule(nt(*h), |rb| {
          for p in ps {
            rb.add_prod(ak(p.ak), av(p.av), |pb| {
              for (n, s) in &p.elems {
                match (n, s) {
                  (None, Sym::T(t)) => pb.add_term(tm(*t)),
                  (None, Sym::N(t)) => pb.add_nonterm(nt(*t)),
                  (Some(n), Sym::T(t)) => {
                    pb.add_named_term(Name::new(&elem_name(*n)), tm(*t))
                  }
                  (Some(n), Sym::N(t)) => {
                    pb.add_named_nonterm(Name::new(&elem_name(*n)), nt(*t))
                  }
                };
              }
            });
          }
        });
      }
    }),
    // By reference, names as text, rules added in reverse order.
    2 => build(&nt(g.start), |b| {
      for (h, ps) in g.rules.iter().rev() {
        b.add_rule(&nt(*h), |rb| {
          for p in ps {
            rb.add_prod(&ak(p.ak), &av(p.av), |pb| {
              for (n, s) in &p.elems {
                match (n, s) {
                  (None, Sym::T(t)) => pb.add_term(&tm(*t)),
                  (None, Sym::N(t)) => pb.add_nonterm(&nt(*t)),
                  (Some(n), Sym::T(t)) => {
                    pb.add_named_term(elem_name(*n).as_str(), &tm(*t))
                  }
                  (Some(n), Sym::N(t)) => {
                    pb.add_named_nonterm(elem_name(*n).as_str(), &nt(*t))
                  }
                };
              }
            });
          }
        });
      }
    }),
    // Alternating forms for alternating productions, names by reference.
    _ => build(nt(g.start), |b| {
      for (h, ps) in &g.rules {
        b.add_rule(&nt(*h), |rb| {
          for (i, p) in ps.iter().enumerate() {
            if i % 2 == 1 {
              rb.add_prod(ak(p.ak), &av(p.av), |pb| {
                for (n, s) in &p.elems {
                  let n = n.map(|n| Name::new(&elem_name(n)));
                  match (&n, s) {
                    (None, Sym::T(t)) => pb.add_term(&tm(*t)),
                    (None, Sym::N(t)) => pb.add_nonterm(nt(*t)),
                    (Some(n), Sym::T(t)) => pb.add_named_term(n, tm(*t)),
                    (Some(n), Sym::N(t)) => pb.add_named_nonterm(n, &nt(*t)),
                  };
                }
              });
            } else {
              let elems: Vec<ProdElement<T, NT>> = p
                .elems
                .iter()
                .map(|(n, s)| {
                  let e = match s {
                    Sym::T(t) => Elem::Term(tm(*t)),
                    Sym::N(t) => Elem::NonTerm(nt(*t)),
                  };
                  match n {
                    None if i % 4 == 0 => ProdElement::new_empty(e),
                    None => ProdElement::from(e),
                    Some(n) => {
                      ProdElement::new_with_name(Name::new(&elem_name(*n)), e)
                    }
                  }
                })
                .collect();
              rb.add_prod_with_elems(&ak(p.ak), av(p.av), &elems);
            }
          }
        });
      }
    }),
  });
  r.map_err(|p| format!("building panics: {}", p))?
    .map_err(|e| format!("building fails: {:?}", e))
}

// ------------------------------------------------------------ reading

fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Verdict {
  if got != want {
    return Err(format!("{}: {:?}, expected {:?}", what, got, want));
  }
  Ok(())
}

type P<'a, T, NT, AK, AV> = Prod<'a, T, NT, AK, AV>;
type R<'a, T, NT, AK, AV> = Rule<'a, T, NT, AK, AV>;

fn elem_of<T: Sort, NT: Sort>(s: Sym) -> Elem<T, NT> {
  match s {
    Sym::T(t) => Elem::Term(T::make(t as u16)),
    Sym::N(n) => Elem::NonTerm(NT::make(n as u16)),
  }
}

fn check_prod<T: Sort, NT: Sort, AK: Sort, AV: Sort>(p: &P<T, NT, AK, AV>, head: u16, m: &MProd, st: &mut Stats) -> Verdict {
  let n = m.elems.len();
  st.transitions += 1;
  eq("head", p.head().number() as u16, head)?;
  eq("action key", p.action_key().number(), m.ak)?;
  eq("action value", p.action_value().number(), m.av % AV::COUNT)?;
  eq("number of elements", p.num_elements(), n)?;
  let key = p.prod_key();
  eq("head of the key", key.head().number() as u16, head)?;
  eq("action of the key", key.action_key().number(), m.ak)?;
  let pe: Vec<(Option<String>, Elem<T, NT>)> = p
    .prod_elements()
    .iter()
    .map(|e| (e.id().map(|n| n.str().to_string()), e.elem().clone()))
    .collect();
  let want: Vec<(Option<String>, Elem<T, NT>)> = m
    .elems
    .iter()
    .map(|(n, s)| (n.map(elem_name), elem_of(*s)))
    .collect();
  eq("elements with names", &pe, &want)?;
  let es: Vec<Elem<T, NT>> = p.elements().cloned().collect();
  let wes: Vec<Elem<T, NT>> = m.syms().map(elem_of).collect();
  eq("elements", &es, &wes)?;
  let it = p.elements();
  let _ = it.clone().count();
  eq("elements, read twice", it.count(), n)?;
  eq("first element", p.first_elem(), wes.first())?;
  for i in 0..n + 2 {
    eq("element_at", p.element_at(i), wes.get(i))?;
    let at = p.prod_element_at(i);
    eq(
      "prod_element_at",
      at.map(|e| (e.id().map(|n| n.str().to_string()), e.elem().clone())),
      want.get(i).cloned(),
    )?;
  }
  for (e, s) in p.elements().zip(m.syms()) {
    let (t, k) = match s {
      Sym::T(t) => (Some(T::make(t as u16)), None),
      Sym::N(k) => (None, Some(NT::make(k as u16))),
    };
    eq("as_term", e.as_term(), t.as_ref())?;
    eq("as_nonterm", e.as_nonterm(), k.as_ref())?;
    let r = e.as_ref();
    eq("as_ref as_term", r.as_term().map(|x| (*x).clone()), t)?;
    eq("as_ref as_nonterm", r.as_nonterm().map(|x| (*x).clone()), k)?;
  }
  if !plain::<T, NT>() {
    return Ok(());
  }
  debug_tokens(&format!("{:?}", p), &prod_tokens(head, m), false)?;
  debug_tokens(&format!("{:#?}", p), &prod_tokens(head, m), false)
}

/// Whether the debug texts show numbers that can be found.
fn plain<T: 'static, NT: 'static>() -> bool {
  use std::any::TypeId;
  TypeId::of::<(T, NT)>() == TypeId::of::<(Tm, Nt)>()
}

/// The markers a debug text shows, in order: names, terminals, nonterminals.
fn prod_tokens(head: u16, m: &MProd) -> Vec<String> {
  let mut v = vec![format!("Nt{}", head)];
  for (n, s) in &m.elems {
    if let Some(n) = n {
      v.push(elem_name(*n));
    }
    v.push(match s {
      Sym::T(t) => format!("Tm{}", t),
      Sym::N(n) => format!("Nt{}", n),
    });
  }
  v
}

fn debug_tokens(text: &str, want: &[String], tail: bool) -> Verdict {
  let plain = |w: &String| {
    let c: Vec<char> = w.chars().collect();
    c.len() > 1 && c[1..].iter().all(|c| c.is_ascii_alphanumeric()) && "fTN".contains(c[0])
  };
  if !want.iter().all(plain) {
    // Odd names cannot be told apart from the text around them.
    return Ok(());
  }
  let mut got = Vec::new();
  let b: Vec<char> = text.chars().filter(|c| !c.is_whitespace()).collect();
  let mut i = 0;
  let num = |mut j: usize| {
    let mut s = String::new();
    while j < b.len() && b[j].is_ascii_digit() {
      s.push(b[j]);
      j += 1;
    }
    s
  };
  while i < b.len() {
    let at = |p: &str| b[i..].iter().take(p.len()).copied().eq(p.chars());
    if at("Tm(") || at("Nt(") {
      got.push(format!("{}{}{}", b[i], b[i + 1], num(i + 3)));
      i += 3;
    } else if at("f")
      && (i == 0 || !b[i - 1].is_alphanumeric())
      && !num(i + 1).is_empty()
    {
      got.push(format!("f{}", num(i + 1)));
    }
    i += 1;
  }
  let ok = if tail {
    got.len() >= want.len() && got[got.len() - want.len()..] == *want
  } else {
    got == want
  };
  if !ok {
    return Err(format!("debug text {:?} shows {:?}, expected {:?}", text, got, want));
  }
  Ok(())
}

fn check_rule<T: Sort, NT: Sort, AK: Sort, AV: Sort>(r: &R<T, NT, AK, AV>, head: u16, ps: &[MProd], st: &mut Stats) -> Verdict {
  eq("head of the rule", r.head().number() as u16, head)?;
  let got: Vec<P<T, NT, AK, AV>> = r.prods().collect();
  eq("number of productions", got.len(), ps.len())?;
  for (p, m) in got.iter().zip(ps) {
    check_prod(p, head, m, st)?;
  }
  if !plain::<T, NT>() {
    return Ok(());
  }
  let mut want = vec![format!("Nt{}", head)];
  for m in ps {
    want.extend(prod_tokens(head, m));
  }
  debug_tokens(&format!("{:?}", r), &want, false)
}

fn check_grammar<T: Sort, NT: Sort, AK: Sort, AV: Sort>(g: &Gram, real: &Grammar<T, NT, AK, AV>, st: &mut Stats) -> Verdict {
  eq("start", real.start_nt().number() as u16, g.start)?;
  let mut sorted = g.rules.clone();
  sorted.sort_by_key(|r| r.0);
  // Rules.
  let mut rs: Vec<R<T, NT, AK, AV>> = real.rules().collect();
  rs.sort_by_key(|r| r.head().number() as u16);
  eq("number of rules", rs.len(), sorted.len())?;
  for (r, (h, ps)) in rs.iter().zip(&sorted) {
    check_rule(r, *h, ps, st)?;
  }
  // By key.
  let set = real.rule_set();
  let mut heads: Vec<u16> = set.keys().map(|k| k.number() as u16).collect();
  heads.sort();
  eq("keys of the rule set", heads, sorted.iter().map(|r| r.0).collect())?;
  for (h, ps) in &sorted {
    let r = set.get(&NT::make(*h as u16)).ok_or("a rule is not found by its head")?;
    check_rule(r, *h, ps, st)?;
  }
  let max = sorted.iter().map(|r| r.0).max().unwrap();
  for n in 0..=max.saturating_add(1) {
    match (real.try_get_rule(&NT::make(n as u16)), g.rule(n)) {
      (None, None) => {}
      (Some(r), Some(ps)) => {
        check_rule(&r, n, ps, st)?;
        check_rule(&real.get_rule(&NT::make(n as u16)), n, ps, st)?;
      }
      (a, b) => {
        return Err(format!(
          "looking up N{} finds {:?}, expected {:?}",
          n, a, b
        ))
      }
    }
  }
  // All productions.
  let mut all: Vec<P<T, NT, AK, AV>> = real.prods().collect();
  let ids = |n: usize| {
    sorted
      .iter()
      .flat_map(|(h, ps)| (0..ps.len()).map(move |i| (*h, i)))
      .nth(n)
      .unwrap()
  };
  all.sort_by_key(|p| p.head().number() as u16);
  let total: usize = sorted.iter().map(|r| r.1.len()).sum();
  eq("number of productions", all.len(), total)?;
  for (n, p) in all.iter().enumerate() {
    let (h, i) = ids(n);
    check_prod(p, h, &g.rule(h).unwrap()[i], st)?;
  }
  // Identity.
  let mut hs: Vec<((u16, usize), P<T, NT, AK, AV>)> = Vec::new();
  let mut hr: Vec<(u16, R<T, NT, AK, AV>)> = Vec::new();
  for (n, p) in all.iter().enumerate() {
    hs.push((ids(n), *p));
  }
  for (h, _) in &sorted {
    for r in [real.get_rule(&NT::make(*h as u16)), set[&NT::make(*h as u16)]] {
      hr.push((*h, r));
      hs.extend(r.prods().enumerate().map(|(i, p)| ((*h, i), p.clone())));
    }
  }
  hr.extend(rs.iter().map(|r| (r.head().number() as u16, *r)));
  laws("production handles", &hs)?;
  laws("rule handles", &hr)?;
  // Debug text of the whole.
  if !plain::<T, NT>() {
    return Ok(());
  }
  let mut want = Vec::new();
  for (h, ps) in &sorted {
    want.push(format!("Nt{}", h));
    for m in ps {
      want.extend(prod_tokens(*h, m));
    }
  }
  debug_tokens(&format!("{:?}", real), &want, true)
}

fn check_one<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
  m: usize,
  st: &mut Stats,
) -> Verdict {
  let ctx =
    |e: String| format!("grammar: {}\nbuilt by method {}\n{}", g.show(), m, e);
  let real = build_by::<T, NT, AK, AV>(g, m).map_err(ctx)?;
  st.states_extra += 1;
  st.traces += 1;
  guard(|| check_grammar(g, &real, st))
    .map_err(|p| ctx(format!("reading panics: {}", p)))?
    .map_err(ctx)?;
  let c = guard(|| real.clone()).map_err(ctx)?;
  drop(real);
  guard(|| check_grammar(g, &c, st))
    .map_err(|p| ctx(format!("reading a clone panics: {}", p)))?
    .map_err(|e| ctx(format!("clone: {}", e)))
}

fn check(g0: &Gram, st: &mut Stats) -> Verdict {
  for variant in 0..7 {
    let g = g0.with_names(variant);
    let g = match variant {
      3 => g.keys_per_head(),
      6 => g.keys_shared(),
      _ => g,
    };
    for m in 0..METHODS {
      check_one::<Tm, Nt, Ak, Av>(&g, m, st)?;
    }
  }
  st.outcome(format!("{} productions", g0.prods().count()));
  st.sample(|| g0.with_names(2).show());
  Ok(())
}

fn large(g: &Gram, st: &mut Stats) -> Verdict {
  check_one::<Tm, Nt, Ak, Av>(&g.with_names(1), 0, st)?;
  check_one::<Tm, Nt, Ak, Av>(&g.keys_per_head().with_names(2), 1, st)?;
  check_one::<Tm, Nt, Ak, Av>(&g.keys_shared(), 2, st)?;
  check_one::<Tm, Nt, Ak, Av>(&g.with_names(4), 3, st)
}

fn over<T: Sort, NT: Sort, AK: Sort, AV: Sort>(g: &Gram, st: &mut Stats) -> Verdict {
  for m in 0..METHODS {
    check_one::<T, NT, AK, AV>(&g.with_names(m), m, st)?;
  }
  Ok(())
}

/// Zero-sized keys, values and terminals must not confuse identities.
fn unit_types() -> Family {
  Family::new("unit types", 24, "rules of 1 to 24 equal productions over zero-sized types", |u, st| {
    let n = u as usize + 1;
    let g: Grammar<(), (), (), ()> = build((), |b| {
      b.add_rule((), |rb| {
        for i in 0..n {
          let elems = vec![ProdElement::new_empty(Elem::Term(())); i % 3];
          rb.add_prod_with_elems((), (), elems);
        }
      });
    })
    .map_err(|_| "building fails".to_string())?;
    st.states_extra += 1;
    let ps: Vec<(usize, Prod<(), (), (), ()>)> = g.prods().enumerate().collect();
    eq("number of productions", ps.len(), n)?;
    for (i, p) in &ps {
      eq("number of elements", p.num_elements(), i % 3)?;
    }
    let mut hs = ps.clone();
    hs.extend(g.get_rule(&()).prods().enumerate());
    laws("production handles", &hs)
  })
}

pub fn p10(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for g in classics() {
    let k = g.rules.len() as u16;
    cl.push(g.rename_nts(|x| k - 1 - x).keys_per_head());
    let mut h = g.rename_nts(|x| 2 * x + 1);
    h.rules.push((
      0,
      vec![MProd {
        elems: vec![(Some(7), Sym::N(1)), (None, Sym::T(0))],
        ak: 900,
        av: 901,
      }],
    ));
    cl.push(h);
  }
  for (_, g, _) in shapes(false) {
    cl.push(g);
  }
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, true);
  let mut f = vec![
    unit_types(),
    list_family("curated", cl, check),
    sized_family(if deep { 513 } else { 257 }, large),
    space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)]), true, check),
  ];
  f.extend(type_families(classics(), deep, typed!(over)));
  f.push(space_family(s("1nt1t-3prods", 1, &[(1, 3, 2)]), false, check));
  if deep {
    f.push(space_family(
      s("2nt1t-deep", 1, &[(1, 2, 2), (1, 2, 2)]),
      false,
      check,
    ));
    f.push(space_family(
      s("4nt1t", 1, &[(1, 1, 2), (1, 1, 1), (1, 1, 1), (1, 1, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)]),
      true,
      check,
    ));
    f.push(space_family(
      s("3nt1t", 1, &[(1, 2, 1), (1, 2, 1), (1, 2, 1)]),
      false,
      check,
    ));
  }
  Property {
    id: "P10",
    families: f,
    assumptions: vec![
      "handles of different grammars are not compared".into(),
      "at most one rule per head".into(),
    ],
    explanation: "states: (grammar, element naming, way of using the builder), each \
      built and read back through every accessor, also from a clone; every pair \
      of handles obtained by three routes is compared for the order laws; \
      transitions: productions read"
      .into(),
  }
}
