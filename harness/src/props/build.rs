//! P09: grammar building accepts exactly well-formed grammars.

use crate::cfg::*;
use crate::engine::*;
use crate::sorts::*;
use bongo::grammar::GrammarErrors;
use std::collections::{BTreeMap, BTreeSet};

/// Per nonterminal: absent, or a list of right-hand sides.
type Choice = Option<Vec<Vec<Sym>>>;

fn rhs(nts: u16, with_term: bool, max_len: usize) -> Vec<Vec<Sym>> {
  let mut syms: Vec<Sym> = (0..nts).map(Sym::N).collect();
  if with_term {
    syms.push(Sym::T(0));
  }
  let mut res: Vec<Vec<Sym>> = vec![vec![]];
  let mut last = res.clone();
  for _ in 0..max_len {
    let mut next = Vec::new();
    for s in &last {
      for a in &syms {
        let mut s = s.clone();
        s.push(*a);
        next.push(s);
      }
    }
    res.extend(next.iter().cloned());
    last = next;
  }
  res
}

fn choices(nts: u16, max_len: usize, max_prods: usize) -> Vec<Choice> {
  let r = rhs(nts, true, max_len);
  let mut v: Vec<Choice> = vec![None, Some(vec![])];
  let mut last: Vec<Vec<usize>> = vec![vec![]];
  for _ in 0..max_prods {
    let mut next = Vec::new();
    for s in &last {
      for x in s.last().copied().unwrap_or(0)..r.len() {
        let mut s = s.clone();
        s.push(x);
        next.push(s);
      }
    }
    v.extend(
      next
        .iter()
        .map(|s| Some(s.iter().map(|i| r[*i].clone()).collect())),
    );
    last = next;
  }
  v
}

#[derive(PartialEq, Eq, Debug, Default)]
struct Errors {
  without_rules: BTreeSet<u16>,
  without_prods: BTreeSet<u16>,
  unreachable: BTreeSet<u16>,
}

fn expected(g: &Gram) -> Errors {
  let mentioned = g.mentioned();
  let reach = g.reachable();
  let mut need = mentioned.clone();
  need.insert(g.start);
  Errors {
    without_rules: need.into_iter().filter(|n| g.rule(*n).is_none()).collect(),
    without_prods: g
      .rules
      .iter()
      .filter(|(_, ps)| ps.is_empty())
      .map(|(h, _)| *h)
      .collect(),
    unreachable: mentioned
      .into_iter()
      .filter(|n| !reach.contains(n))
      .collect(),
  }
}

/// The sets of nonterminals in a debug text, each with the word before it.
fn sets(text: &str) -> Vec<(String, BTreeSet<u16>)> {
  let mut out = Vec::new();
  let mut rest = text;
  // The outermost brace belongs to the struct.
  if let Some(i) = rest.find('{') {
    rest = &rest[i + 1..];
  }
  while let Some(i) = rest.find(|c| c == '{' || c == '[') {
    let label: String = rest[..i]
      .trim_end_matches(|c: char| c.is_whitespace() || c == ':')
      .chars()
      .rev()
      .take_while(|c| c.is_alphanumeric() || *c == '_')
      .collect::<Vec<_>>()
      .into_iter()
      .rev()
      .collect();
    let j = match rest[i..].find(|c| c == '}' || c == ']') {
      Some(j) => i + j,
      None => break,
    };
    let set = rest[i + 1..j]
      .split(|c: char| !c.is_ascii_digit())
      .filter(|w| !w.is_empty())
      .map(|w| w.parse().unwrap())
      .collect();
    out.push((label, set));
    rest = &rest[j + 1..];
  }
  out
}

fn check_errors<NT: Shown>(e: &GrammarErrors<NT>, want: &Errors) -> Verdict {
  let digits = |s: &BTreeSet<u16>| s.iter().map(|n| NT::digits(*n)).collect();
  let named: [(&str, BTreeSet<u16>); 3] = [
    ("nonterms_without_rules", digits(&want.without_rules)),
    ("rules_without_prods", digits(&want.without_prods)),
    ("unreachable_nonterms", digits(&want.unreachable)),
  ];
  check_sets(&format!("{:?}", e), named)
}

fn check_sets(text: &str, named: [(&str, BTreeSet<u16>); 3]) -> Verdict {
  let got = sets(text);
  if named.iter().all(|(n, _)| got.iter().any(|(l, _)| l == n)) {
    for (n, w) in &named {
      let g = &got.iter().find(|(l, _)| l == n).unwrap().1;
      if g != w {
        return Err(format!("{} is {:?}, expected {:?}", n, g, w));
      }
    }
    return Ok(());
  }
  // Other labels: the same three sets, however they are called.
  let mut a: Vec<_> = got.iter().map(|(_, s)| s).collect();
  let mut b: Vec<_> = named.iter().map(|(_, s)| s).collect();
  a.sort();
  b.sort();
  if a != b {
    return Err(format!("the error is {}, expected {:?}", text, named));
  }
  Ok(())
}

/// The nonterminal of a number, and the digits in its debug text. Those of the
/// error are only looked at if they tell the nonterminals apart.
trait Shown: Sort {
  const READ: bool = true;
  fn nt(n: u16) -> Self {
    Self::make(n as u16)
  }
  fn digits(n: u16) -> u16 {
    n as u16
  }
}
impl Shown for Nt {}
impl Shown for Rev {}
impl Shown for Loose {}
impl Shown for String {
  fn digits(n: u16) -> u16 {
    64999 - n as u16
  }
  fn nt(n: u16) -> Self {
    Self::make(n as u16 + 1)
  }
}
impl Shown for Big {
  const READ: bool = false;
}
/// Only for grammars that mention one nonterminal.
impl Shown for () {
  const READ: bool = false;
}

fn check(g: &Gram, st: &mut Stats) -> Verdict {
  check_as::<Tm, Nt, Ak, Av>(g, st)
}

fn check_as<T: Sort, NT: Shown, AK: Sort, AV: Sort>(
  g: &Gram,
  st: &mut Stats,
) -> Verdict {
  let want = expected(g);
  let ok = want == Errors::default();
  st.states_extra += 1;
  st.transitions += g.rules.iter().map(|r| r.1.len() as u64).sum::<u64>();
  st.traces += 1;
  let ctx = || format!("start N{}, rules: {}", g.start, show(g));
  let build = || {
    to_bongo_with(
      g,
      &|t| T::make(t as u16 % T::COUNT),
      &|n| NT::nt(n),
      &|k| AK::make(k % AK::COUNT),
      &|v| AV::make(v % AV::COUNT),
    )
  };
  match guard(build) {
    Err(p) => Err(format!("{}\nbuilding panics: {}", ctx(), p)),
    Ok(Ok(real)) => {
      if !ok {
        return Err(format!("{}\nbuilding succeeds, expected {:?}", ctx(), want));
      }
      let n = real.rules().count();
      if n != g.rules.len() {
        return Err(format!("{}\nthe grammar has {} rules", ctx(), n));
      }
      st.outcome("accepted");
      Ok(())
    }
    Ok(Err(e)) => {
      if ok {
        return Err(format!("{}\nbuilding fails: {:?}", ctx(), e));
      }
      if NT::READ {
        check_errors(&e, &want).map_err(|m| format!("{}\n{}", ctx(), m))?;
      }
      st.outcome(format!(
        "rejected:{}{}{}",
        if want.without_rules.is_empty() { "" } else { " no rule" },
        if want.without_prods.is_empty() { "" } else { " no production" },
        if want.unreachable.is_empty() { "" } else { " unreachable" },
      ));
      st.sample(|| format!("{} {:?}", ctx(), want));
      Ok(())
    }
  }
}

/// The grammar over other types, and over types of no size if there is only one
/// nonterminal.
fn check_types(g: &Gram, st: &mut Stats) -> Verdict {
  check_as::<String, String, String, String>(g, st)?;
  check_as::<(), Rev, (), ()>(g, st)?;
  check_as::<Loose, Loose, Loose, Loose>(g, st)?;
  check_as::<bool, Big, Big, ()>(g, st)?;
  let mut nts = g.mentioned();
  nts.insert(g.start);
  nts.extend(g.rules.iter().map(|r| r.0));
  if nts.len() == 1 {
    check_as::<Rev, (), bool, Loose>(g, st)?;
    check_as::<(), (), (), ()>(g, st)?;
  }
  Ok(())
}

/// Grammars of many sizes, whole and with a rule absent, empty, cut short or
/// put twice as far away.
fn sizes(max: usize) -> Family {
  let ns: Vec<usize> = edges(max).into_iter().rev().collect();
  Family::new(
    "sizes",
    ns.len() as u64,
    format!(
      "productions of many elements, many productions, chains, rings and many \
       parts, of sizes around the powers of two up to {}; whole, and with the \
       first, second, middle or last rules absent, empty, or cut off, an island, \
       a nonterminal without rule or another start added; over several types",
      max
    ),
    move |u, st| {
      let n = ns[u as usize];
      for (name, g) in sized(n) {
        let ctx = |e| format!("{} of size {}\n{}", name, n, e);
        for (k, f) in faults(&g).iter().enumerate() {
          check(f, st).map_err(ctx)?;
          if k % 3 == n % 3 {
            check_types(f, st).map_err(ctx)?;
          }
        }
      }
      Ok(())
    },
  )
}

/// More nonterminals than fit a byte.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Number(u16);

/// Heads, and the nonterminals of each production.
type Heads = Vec<(u16, Vec<Vec<u16>>)>;

fn check_heads(g: &Heads, start: u16, st: &mut Stats) -> Result<(), String> {
  let heads: BTreeSet<u16> = g.iter().map(|r| r.0).collect();
  let mentioned: BTreeSet<u16> =
    g.iter().flat_map(|r| r.1.iter().flatten().copied()).collect();
  let mut need = mentioned.clone();
  need.insert(start);
  let mut reach = BTreeSet::from([start]);
  let mut todo = vec![start];
  let of: BTreeMap<u16, &Vec<Vec<u16>>> = g.iter().map(|r| (r.0, &r.1)).collect();
  while let Some(x) = todo.pop() {
    for y in of.get(&x).into_iter().flat_map(|p| p.iter().flatten()) {
      if reach.insert(*y) {
        todo.push(*y);
      }
    }
  }
  let want = [
    ("nonterms_without_rules", need.difference(&heads).copied().collect()),
    (
      "rules_without_prods",
      g.iter().filter(|r| r.1.is_empty()).map(|r| r.0).collect(),
    ),
    ("unreachable_nonterms", mentioned.difference(&reach).copied().collect()),
  ];
  let want: [(&str, BTreeSet<u16>); 3] = want;
  st.states_extra += 1;
  st.transitions += g.len() as u64;
  st.traces += 1;
  let real: Result<bongo::grammar::Grammar<(), Number, Number, ()>, _> = guard(|| {
    bongo::grammar::build(Number(start), |gb| {
      for (h, prods) in g {
        gb.add_rule(Number(*h), |rb| {
          for (k, p) in prods.iter().enumerate() {
            rb.add_prod(Number(k as u16), (), |pb| {
              for n in p {
                pb.add_nonterm(Number(*n));
              }
            });
          }
        });
      }
    })
  })
  .map_err(|p| format!("building panics: {}", p))?;
  match real {
    Ok(r) => {
      if want.iter().any(|w| !w.1.is_empty()) {
        return Err(format!("building succeeds, expected {:?}", want));
      }
      if r.rules().count() != g.len() {
        return Err(format!("the grammar has {} rules", r.rules().count()));
      }
      Ok(())
    }
    Err(e) => {
      if want.iter().all(|w| w.1.is_empty()) {
        return Err(format!("building fails: {:?}", e));
      }
      check_sets(&format!("{:?}", e), want)
    }
  }
}

fn huge(max: usize) -> Family {
  let ns: Vec<usize> = edges(max).into_iter().rev().filter(|n| *n > 2).collect();
  Family::new(
    "huge",
    ns.len() as u64 * 5,
    format!(
      "chains up and down, stars, long productions and rings of {:?} rules; \
       whole, and with one, every second or every rule but the first absent, \
       without production or out of reach",
      ns
    ),
    move |u, st| {
      let n = ns[u as usize / 5] as u16;
      let g: Heads = match u % 5 {
        0 => (0..n).map(|i| (i, vec![(i + 1..n.min(i + 2)).collect()])).collect(),
        1 => (0..n)
          .rev()
          .map(|i| (i, vec![(i.max(1) - 1..i).collect(), vec![]]))
          .collect(),
        2 => (0..n)
          .map(|i| match i {
            0 => (0, (1..n).map(|j| vec![j]).collect()),
            _ => (i, vec![vec![]]),
          })
          .collect(),
        3 => (0..n)
          .map(|i| match i {
            0 => (0, vec![(1..n).collect()]),
            _ => (i, vec![vec![0]]),
          })
          .collect(),
        _ => (0..n).map(|i| (i, vec![vec![i], vec![(i + 1) % n, (i + n / 2) % n]])).collect(),
      };
      let first = g[0].0;
      let mut check = |g: &Heads, what: &str| {
        beat();
        check_heads(g, first, st)
          .map_err(|e| format!("shape {} of {} rules, {}\n{}", u % 5, n, what, e))
      };
      check(&g, "whole")?;
      let sets: Vec<(&str, Box<dyn Fn(usize) -> bool>)> = vec![
        ("the second", Box::new(|i| i == 1)),
        ("a middle one", Box::new(move |i| i == n as usize / 2)),
        ("the last", Box::new(move |i| i == n as usize - 1)),
        ("every second", Box::new(|i| i % 2 == 1)),
        ("all but the first", Box::new(|i| i > 0)),
        ("all but the first two", Box::new(|i| i > 1)),
      ];
      for (what, f) in &sets {
        let without = |keep: bool| {
          let mut g = g.clone();
          for (i, r) in g.iter_mut().enumerate() {
            if f(i) == keep {
              r.1.clear();
            }
          }
          g
        };
        check(&without(true), &format!("{} without production", what))?;
        let mut absent = g.clone();
        let mut i = 0;
        absent.retain(|_| {
          i += 1;
          !f(i - 1)
        });
        check(&absent, &format!("{} absent", what))?;
        // Rules that nothing mentions, with and without productions.
        let mut more = g.clone();
        more.extend((0..n).filter(|i| f(*i as usize)).map(|i| {
          (n + i, if i % 3 == 0 { vec![] } else { vec![vec![n + i, first]] })
        }));
        check(&more, &format!("{} more", what))?;
      }
      Ok(())
    },
  )
}

fn faults(g: &Gram) -> Vec<Gram> {
  let mut v = vec![g.clone()];
  let n = g.rules.len();
  let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
  at.retain(|i| *i < n);
  at.sort();
  at.dedup();
  for i in at {
    let mut f = g.clone();
    f.rules.remove(i);
    v.push(f);
    let mut f = g.clone();
    f.rules[i].1.clear();
    v.push(f);
    let mut f = g.clone();
    for p in &mut f.rules[i].1 {
      p.elems.retain(|e| matches!(e.1, Sym::T(_)));
    }
    v.push(f);
    let mut f = g.clone();
    f.start = g.rules[i].0;
    v.push(f);
    // A nonterminal that has no rule, last in the last production.
    let mut f = g.clone();
    if let Some(p) = f.rules[i].1.last_mut() {
      p.elems.push((None, Sym::N(5000)));
    }
    v.push(f);
  }
  for (at, own) in [(0, true), (n, true), (0, false), (n, false)] {
    let mut f = g.clone();
    let mention = if own { 5001 } else { f.rules[0].0 };
    let p = MProd { elems: vec![(None, Sym::N(mention))], ak: 9000, av: 9000 };
    f.rules.insert(at, (5001, vec![p]));
    v.push(f);
  }
  v
}

fn show(g: &Gram) -> String {
  if g.rules.is_empty() {
    "none".into()
  } else {
    g.show()
  }
}

/// All grammars made of one choice per nonterminal, for each start, with the
/// rules added in both orders.
fn family(name: &str, spec: &[(usize, usize)], starts: &[u16]) -> Family {
  family_of(name, spec, starts, check)
}

fn family_of(
  name: &str,
  spec: &[(usize, usize)],
  starts: &[u16],
  check: fn(&Gram, &mut Stats) -> Verdict,
) -> Family {
  let nts = spec.len() as u16;
  let ch: Vec<Vec<Choice>> = spec
    .iter()
    .map(|(len, prods)| choices(nts, *len, *prods))
    .collect();
  let total: u64 = ch.iter().map(|c| c.len() as u64).product();
  const CHUNK: u64 = 512;
  let starts = starts.to_vec();
  let note = format!(
    "{} nonterminals, 1 terminal; per nonterminal no rule, or a rule with \
     productions up to (length, count) {:?}; starts {:?}; rules added in both \
     orders; {} grammars per start",
    nts, spec, starts, total
  );
  Family::new(name, (total + CHUNK - 1) / CHUNK, note, move |u, st| {
    for mut ix in u * CHUNK..((u + 1) * CHUNK).min(total) {
      let mut rules = Vec::new();
      for (n, c) in ch.iter().enumerate() {
        let k = &c[(ix % c.len() as u64) as usize];
        ix /= c.len() as u64;
        if let Some(ps) = k {
          rules.push((n as u16, ps.clone()));
        }
      }
      for s in &starts {
        let g = Gram::simple(*s, rules.clone());
        check(&g, st)?;
        if g.rules.len() > 1 {
          let mut r = rules.clone();
          r.reverse();
          check(&Gram::simple(*s, r), st)?;
        }
      }
    }
    Ok(())
  })
}

/// Long chains and rings, in every order of numbering, with each link in turn
/// missing, empty or cut off.
fn chains() -> Family {
  let mut gs = Vec::new();
  for len in 2..=9u16 {
    for rev in [false, true] {
      for fault in 0..=2 * len {
        for ring in [false, true] {
          let mut rules = Vec::new();
          for i in 0..len {
            let mut ps = vec![vec![Sym::T(0)]];
            if i + 1 < len {
              ps.push(vec![Sym::T(0), Sym::N(i + 1)]);
            } else if ring {
              ps.push(vec![Sym::N(0)]);
            }
            if fault < len && i == fault {
              continue;
            }
            if fault >= len && i + len == fault {
              ps.clear();
            }
            rules.push((i, ps));
          }
          let g = Gram::simple(0, rules);
          gs.push(if rev { g.rename_nts(|x| len - 1 - x) } else { g });
        }
      }
    }
  }
  Family::new(
    "chains",
    gs.len() as u64,
    "chains and rings of 2 to 9 rules with each rule in turn absent or empty",
    move |u, st| check(&gs[u as usize], st),
  )
}

pub fn p09(tier: Tier) -> Property {
  let mut f = vec![
    chains(),
    sizes(if tier == Tier::Thorough { 513 } else { 257 }),
    huge(if tier == Tier::Thorough { 8192 } else { 2048 }),
    family_of("types-1nt", &[(2, 2)], &[0, 1], check_types),
    family_of("types-2nt", &[(2, 1), (2, 1)], &[0, 1, 2], check_types),
    family("1nt", &[(3, 2)], &[0, 1]),
    family("2nt", &[(2, 2), (2, 2)], &[0, 1, 2]),
    family("3nt", &[(2, 2), (1, 2), (1, 2)], &[0, 2]),
    family("3nt-mid", &[(1, 2), (1, 2), (1, 2)], &[0, 1, 2, 3]),
    family("4nt", &[(1, 2), (1, 1), (1, 1), (1, 1)], &[0, 3]),
  ];
  f.push(family("4nt-deep", &[(1, 2), (1, 2), (1, 2), (1, 2)], &[0, 1, 3]));
  let five = [(1, 2), (1, 1), (1, 1), (1, 1), (1, 1)];
  f.push(family("5nt", &five, &[0, 2, 4]));
  if tier == Tier::Thorough {
    f.push(family("3nt-deep", &[(2, 2), (2, 2), (1, 2)], &[0, 1, 2]));
    f.push(family("3nt-rhs3", &[(3, 1), (3, 1), (3, 1)], &[0, 1, 2]));
    f.push(family("4nt-rhs2", &[(2, 1), (2, 1), (2, 1), (2, 1)], &[0, 1, 3]));
    f.push(family("6nt", &[(1, 1); 6], &[0, 2, 5]));
    f.push(family("2nt-deep", &[(3, 2), (2, 2)], &[0, 1, 2]));
    f.push(family("2nt-3prods", &[(2, 3), (2, 3)], &[0, 1, 2]));
  }
  Property {
    id: "P09",
    families: f,
    assumptions: vec![
      "at most one rule per head".into(),
      "the contents of the error are read from its debug text".into(),
    ],
    explanation: "states: builder histories, well-formed or not, each run through \
      the real builder under a panic guard and compared with the definition of \
      well-formedness; transitions: productions added"
      .into(),
  }
}
