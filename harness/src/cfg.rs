//! The reference model of grammars: plain data, naive exact oracles.

use bongo::grammar::{build, Elem, Grammar, GrammarErrors, ProdElement};
use bongo::utils::Name;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Tm(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Nt(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Ak(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Av(pub u16);

pub use crate::engine::oracle_broken;
pub type G = Grammar<Tm, Nt, Ak, Av>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Sym {
  T(u16),
  N(u16),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct MProd {
  /// Elements with an optional name number.
  pub elems: Vec<(Option<u16>, Sym)>,
  pub ak: u16,
  pub av: u16,
}

impl MProd {
  pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
    self.elems.iter().map(|e| e.1)
  }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Gram {
  pub start: u16,
  pub rules: Vec<(u16, Vec<MProd>)>,
}

/// Names that code could take for something else; numbered from 30000.
const ODD_NAMES: [&str; 6] = ["", "start", " ", "F0", "é<x>:", "0"];

pub fn elem_name(n: u16) -> String {
  match n.checked_sub(30000) {
    Some(i) if (i as usize) < ODD_NAMES.len() => ODD_NAMES[i as usize].to_string(),
    _ => format!("f{}", n),
  }
}

impl Gram {
  /// Unnamed elements, action keys unique in the grammar.
  pub fn simple(start: u16, rules: Vec<(u16, Vec<Vec<Sym>>)>) -> Gram {
    let mut k = 0;
    Gram {
      start,
      rules: rules
        .into_iter()
        .map(|(h, ps)| {
          (
            h,
            ps.into_iter()
              .map(|p| {
                k += 1;
                MProd {
                  elems: p.into_iter().map(|s| (None, s)).collect(),
                  ak: k,
                  av: 100 + k,
                }
              })
              .collect(),
          )
        })
        .collect(),
    }
  }

  pub fn rule(&self, nt: u16) -> Option<&Vec<MProd>> {
    self.rules.iter().find(|r| r.0 == nt).map(|r| &r.1)
  }

  pub fn prods(&self) -> impl Iterator<Item = (u16, &MProd)> {
    self.rules.iter().flat_map(|(h, ps)| ps.iter().map(move |p| (*h, p)))
  }

  /// Nonterminals to ask about: all with a rule, and two without if there are
  /// any left.
  pub fn asked(&self) -> std::ops::RangeInclusive<u16> {
    0..=self.rules.iter().map(|r| r.0.saturating_add(2)).max().unwrap_or(0)
  }

  pub fn mentioned(&self) -> BTreeSet<u16> {
    self
      .prods()
      .flat_map(|(_, p)| p.syms())
      .filter_map(|s| match s {
        Sym::N(n) => Some(n),
        _ => None,
      })
      .collect()
  }

  pub fn terms(&self) -> BTreeSet<u16> {
    self
      .prods()
      .flat_map(|(_, p)| p.syms())
      .filter_map(|s| match s {
        Sym::T(n) => Some(n),
        _ => None,
      })
      .collect()
  }

  /// Nonterminals reachable from the start (including it), through the rules
  /// that exist.
  pub fn reachable(&self) -> BTreeSet<u16> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![self.start];
    while let Some(n) = todo.pop() {
      if seen.insert(n) {
        if let Some(ps) = self.rule(n) {
          for p in ps {
            for s in p.syms() {
              if let Sym::N(m) = s {
                todo.push(m);
              }
            }
          }
        }
      }
    }
    seen
  }

  /// All rules present, nonempty and reachable.
  pub fn well_formed(&self) -> bool {
    let r = self.reachable();
    self.rules.iter().all(|(h, ps)| r.contains(h) && !ps.is_empty())
      && r.iter().all(|n| self.rule(*n).is_some())
  }

  pub fn rename_nts(&self, f: impl Fn(u16) -> u16) -> Gram {
    let mut g = self.clone();
    g.start = f(g.start);
    for (h, ps) in &mut g.rules {
      *h = f(*h);
      for p in ps {
        for e in &mut p.elems {
          if let Sym::N(n) = &mut e.1 {
            *n = f(*n);
          }
        }
      }
    }
    g
  }

  /// Action keys unique only among the productions of one head.
  pub fn keys_per_head(&self) -> Gram {
    let mut g = self.clone();
    for (_, ps) in &mut g.rules {
      for (i, p) in ps.iter_mut().enumerate() {
        p.ak = i as u16;
      }
    }
    g
  }

  /// Action keys shared by every second production of a head.
  pub fn keys_shared(&self) -> Gram {
    let mut g = self.clone();
    for (_, ps) in &mut g.rules {
      for (i, p) in ps.iter_mut().enumerate() {
        p.ak = i as u16 % 2;
      }
    }
    g
  }

  /// Gives every element a name.
  pub fn named(&self) -> Gram {
    let mut g = self.clone();
    for (_, ps) in &mut g.rules {
      for p in ps {
        for (i, e) in p.elems.iter_mut().enumerate() {
          e.0 = Some(i as u16);
        }
      }
    }
    g
  }

  /// Ways of naming elements: 0 none, 1 all, 2 every second one starting with
  /// the first, 3 all with names in descending order, 4 every second one
  /// starting with the second, 5 all with odd names first, 6 all with the same
  /// name.
  pub fn with_names(&self, variant: usize) -> Gram {
    let mut g = self.clone();
    for (_, ps) in &mut g.rules {
      for p in ps {
        for (i, e) in p.elems.iter_mut().enumerate() {
          e.0 = match variant {
            0 => None,
            1 => Some(i as u16),
            2 if i % 2 == 0 => Some(i as u16),
            3 if i > 200 => Some(20000 - i as u16),
            3 => Some(200 - i as u16),
            4 if i % 2 == 1 => Some(i as u16),
            5 if i < ODD_NAMES.len() => Some(30000 + i as u16),
            5 => Some(i as u16),
            6 => Some(0),
            _ => None,
          };
        }
      }
    }
    g
  }

  pub fn show(&self) -> String {
    let mut s = format!("start N{};", self.start);
    for (h, ps) in &self.rules {
      write!(s, " N{} ->", h).unwrap();
      for (i, p) in ps.iter().enumerate() {
        if i > 0 {
          s.push_str(" |");
        }
        write!(s, " [k{}]", p.ak).unwrap();
        if p.elems.is_empty() {
          s.push_str(" ε");
        }
        for (n, e) in &p.elems {
          s.push(' ');
          if let Some(n) = n {
            write!(s, "{}:", elem_name(*n)).unwrap();
          }
          match e {
            Sym::T(t) => write!(s, "t{}", t).unwrap(),
            Sym::N(n) => write!(s, "N{}", n).unwrap(),
          }
        }
      }
      s.push(';');
    }
    s
  }
}

/// Builds the bongo grammar, with arbitrary symbol types.
pub fn to_bongo_with<T, NT, AK, AV>(
  g: &Gram,
  ft: &dyn Fn(u16) -> T,
  fn_: &dyn Fn(u16) -> NT,
  fk: &dyn Fn(u16) -> AK,
  fv: &dyn Fn(u16) -> AV,
) -> Result<Grammar<T, NT, AK, AV>, GrammarErrors<NT>>
where
  NT: Ord + Clone,
  AK: Ord + Clone,
{
  build(fn_(g.start), |b| {
    for (h, ps) in &g.rules {
      b.add_rule(fn_(*h), |rb| {
        for p in ps {
          let elems: Vec<ProdElement<T, NT>> = p
            .elems
            .iter()
            .map(|(n, s)| {
              ProdElement::new(
                n.map(|n| Name::new(&elem_name(n))),
                match s {
                  Sym::T(t) => Elem::Term(ft(*t)),
                  Sym::N(n) => Elem::NonTerm(fn_(*n)),
                },
              )
            })
            .collect();
          rb.add_prod_with_elems(fk(p.ak), fv(p.av), elems);
        }
      });
    }
  })
}

pub fn to_bongo(g: &Gram) -> Result<G, GrammarErrors<Nt>> {
  to_bongo_with(g, &Tm, &Nt, &Ak, &Av)
}

// ------------------------------------------------------------ oracles

/// Number of rule applications made by the oracles, the transitions of the
/// reference model.
#[derive(Default)]
pub struct Cost(pub u64);

/// Which spans of `input` each nonterminal derives, as a naive least fixed
/// point.
pub struct Spans {
  n: usize,
  nts: BTreeMap<u16, usize>,
  tab: Vec<bool>,
}

impl Spans {
  pub fn new(g: &Gram, input: &[u16], cost: &mut Cost) -> Spans {
    let n = input.len();
    let nts: BTreeMap<u16, usize> =
      g.rules.iter().enumerate().map(|(i, r)| (r.0, i)).collect();
    let w = n + 1;
    let mut s = Spans {
      n,
      tab: vec![false; nts.len() * w * w],
      nts,
    };
    loop {
      let mut changed = false;
      for (h, p) in g.prods() {
        for i in 0..=n {
          // Positions reachable after each element, starting at i.
          let mut cur = vec![false; w];
          cur[i] = true;
          for sym in p.syms() {
            let mut nxt = vec![false; w];
            for k in i..=n {
              if !cur[k] {
                continue;
              }
              match sym {
                Sym::T(t) => {
                  if k < n && input[k] == t {
                    nxt[k + 1] = true;
                  }
                }
                Sym::N(m) => {
                  for j in k..=n {
                    if s.get(m, k, j) {
                      nxt[j] = true;
                    }
                  }
                }
              }
            }
            cur = nxt;
          }
          for j in i..=n {
            if cur[j] && !s.get(h, i, j) {
              s.set(h, i, j);
              cost.0 += 1;
              changed = true;
            }
          }
        }
      }
      if !changed {
        return s;
      }
    }
  }
  fn idx(&self, nt: u16, i: usize, j: usize) -> Option<usize> {
    let w = self.n + 1;
    self.nts.get(&nt).map(|k| (k * w + i) * w + j)
  }
  pub fn get(&self, nt: u16, i: usize, j: usize) -> bool {
    self.idx(nt, i, j).map_or(false, |x| self.tab[x])
  }
  fn set(&mut self, nt: u16, i: usize, j: usize) {
    let x = self.idx(nt, i, j).unwrap();
    self.tab[x] = true;
  }
}

pub fn in_language(g: &Gram, input: &[u16], cost: &mut Cost) -> bool {
  Spans::new(g, input, cost).get(g.start, 0, input.len())
}

/// Interned derivation trees.
#[derive(Default)]
pub struct Trees {
  ids: HashMap<TreeKey, u32>,
  keys: Vec<TreeKey>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TreeKey {
  Leaf(u16, u16),
  Branch(u16, Vec<u32>),
}

impl Trees {
  pub fn id(&mut self, k: TreeKey) -> u32 {
    if let Some(i) = self.ids.get(&k) {
      return *i;
    }
    let i = self.keys.len() as u32;
    self.keys.push(k.clone());
    self.ids.insert(k, i);
    i
  }
  pub fn key(&self, i: u32) -> &TreeKey {
    &self.keys[i as usize]
  }
  pub fn show(&self, i: u32) -> String {
    match self.key(i) {
      TreeKey::Leaf(k, v) => format!("t{}#{}", k, v),
      TreeKey::Branch(a, c) => format!(
        "k{}({})",
        a,
        c.iter().map(|c| self.show(*c)).collect::<Vec<_>>().join(" ")
      ),
    }
  }
}

pub struct Overflow;

/// The derivation trees of (nonterminal, span) up to a height, enumerated
/// naively.  Height of a leaf is 0.
pub struct TreeOracle<'g> {
  g: &'g Gram,
  input: Vec<u16>,
  values: Vec<u16>,
  spans: Spans,
  memo: HashMap<(u16, usize, usize, usize), std::rc::Rc<Vec<u32>>>,
  cap: usize,
  pub cost: Cost,
}

impl<'g> TreeOracle<'g> {
  pub fn new(g: &'g Gram, input: &[u16], values: &[u16], cap: usize) -> Self {
    let mut cost = Cost::default();
    let spans = Spans::new(g, input, &mut cost);
    TreeOracle {
      g,
      input: input.to_vec(),
      values: values.to_vec(),
      spans,
      memo: HashMap::new(),
      cap,
      cost,
    }
  }

  pub fn accepts(&self) -> bool {
    self.spans.get(self.g.start, 0, self.input.len())
  }

  /// A height no acyclic derivation exceeds.
  pub fn full_height(&self) -> usize {
    self.g.rules.len() * (self.input.len() + 1)
  }

  pub fn trees(
    &mut self,
    ts: &mut Trees,
    nt: u16,
    i: usize,
    j: usize,
    h: usize,
  ) -> Result<std::rc::Rc<Vec<u32>>, Overflow> {
    if h == 0 || !self.spans.get(nt, i, j) {
      return Ok(std::rc::Rc::new(vec![]));
    }
    if let Some(r) = self.memo.get(&(nt, i, j, h)) {
      return Ok(r.clone());
    }
    let mut res: BTreeSet<u32> = BTreeSet::new();
    let g = self.g;
    if let Some(ps) = g.rule(nt) {
      for p in ps {
        let syms: Vec<Sym> = p.syms().collect();
        let mut partial: Vec<(usize, Vec<u32>)> = vec![(i, vec![])];
        for (x, sym) in syms.iter().enumerate() {
          let mut next = vec![];
          for (k, kids) in &partial {
            match sym {
              Sym::T(t) => {
                if *k < j && self.input[*k] == *t {
                  let mut kids = kids.clone();
                  kids.push(ts.id(TreeKey::Leaf(*t, self.values[*k])));
                  next.push((k + 1, kids));
                }
              }
              Sym::N(m) => {
                let last = x + 1 == syms.len();
                for e in if last { j..=j } else { *k..=j } {
                  let sub = self.trees(ts, *m, *k, e, h - 1)?;
                  for s in sub.iter() {
                    let mut kids = kids.clone();
                    kids.push(*s);
                    next.push((e, kids));
                    self.cost.0 += 1;
                  }
                  if next.len() > self.cap * 4 {
                    return Err(Overflow);
                  }
                }
              }
            }
          }
          partial = next;
        }
        for (k, kids) in partial {
          if k == j {
            res.insert(ts.id(TreeKey::Branch(p.ak, kids)));
            self.cost.0 += 1;
          }
        }
      }
    }
    if res.len() > self.cap {
      return Err(Overflow);
    }
    let r = std::rc::Rc::new(res.into_iter().collect::<Vec<_>>());
    self.memo.insert((nt, i, j, h), r.clone());
    Ok(r)
  }

  /// The largest height (up to the full one) at which the enumeration stays
  /// below the cap, the trees at that height, and whether it is the full one.
  pub fn root_trees(
    &mut self,
    ts: &mut Trees,
  ) -> (usize, std::rc::Rc<Vec<u32>>, bool) {
    let full = self.full_height();
    let mut best = (0, std::rc::Rc::new(vec![]));
    let n = self.input.len();
    for h in 1..=full {
      match self.trees(ts, self.g.start, 0, n, h) {
        Ok(r) => best = (h, r),
        Err(Overflow) => return (best.0, best.1, false),
      }
    }
    (best.0, best.1, true)
  }
}

/// All strings over `alpha` of length at most `max`, shortest first.
pub fn strings(alpha: &[u16], max: usize) -> Vec<Vec<u16>> {
  let mut res: Vec<Vec<u16>> = vec![vec![]];
  let mut last = res.clone();
  for _ in 0..max {
    let mut next = Vec::new();
    for s in &last {
      for a in alpha {
        let mut s = s.clone();
        s.push(*a);
        next.push(s);
      }
    }
    res.extend(next.iter().cloned());
    last = next;
  }
  res
}

// ---------------------------------------------------- analysis oracles

/// Number of empty derivations of each nonterminal, saturated at 2, counting
/// trees of bounded height (enough: a second tree, if any, exists below twice
/// the number of nonterminals plus one).
pub fn empty_derivations(g: &Gram) -> BTreeMap<u16, u32> {
  let mut cnt: BTreeMap<u16, u32> = g.rules.iter().map(|r| (r.0, 0)).collect();
  for _ in 0..(2 * g.rules.len() + 2) {
    let mut next = BTreeMap::new();
    for (h, ps) in &g.rules {
      let mut c = 0u32;
      for p in ps {
        let mut m = 1u32;
        for s in p.syms() {
          m = match s {
            Sym::T(_) => 0,
            Sym::N(n) => (m * cnt.get(&n).copied().unwrap_or(0)).min(2),
          };
        }
        c = (c + m).min(2);
      }
      next.insert(*h, c);
    }
    cnt = next;
  }
  cnt
}

/// FIRST by a relation closure: A reaches symbol X if X occurs in a production
/// of A after nullable symbols only.
pub fn first_sets(g: &Gram) -> BTreeMap<u16, BTreeSet<u16>> {
  let eps = empty_derivations(g);
  let mut res = BTreeMap::new();
  for (h, _) in &g.rules {
    let mut seen = BTreeSet::new();
    let mut todo = vec![*h];
    let mut out = BTreeSet::new();
    while let Some(n) = todo.pop() {
      if !seen.insert(n) {
        continue;
      }
      for p in g.rule(n).into_iter().flatten() {
        for s in p.syms() {
          match s {
            Sym::T(t) => {
              out.insert(t);
              break;
            }
            Sym::N(m) => {
              todo.push(m);
              if eps.get(&m).copied().unwrap_or(0) == 0 {
                break;
              }
            }
          }
        }
      }
    }
    res.insert(*h, out);
  }
  res
}

/// FIRST of a sequence, and whether the sequence is nullable.
pub fn first_of_seq(
  g: &Gram,
  seq: impl Iterator<Item = Sym>,
  firsts: &BTreeMap<u16, BTreeSet<u16>>,
  eps: &BTreeMap<u16, u32>,
) -> (BTreeSet<u16>, bool) {
  let _ = g;
  let mut out = BTreeSet::new();
  for s in seq {
    match s {
      Sym::T(t) => {
        out.insert(t);
        return (out, false);
      }
      Sym::N(m) => {
        out.extend(firsts.get(&m).into_iter().flatten().copied());
        if eps.get(&m).copied().unwrap_or(0) == 0 {
          return (out, false);
        }
      }
    }
  }
  (out, true)
}

/// FOLLOW by search backwards: what can stand after an occurrence of A is
/// FIRST of the rest of the production, and, when the rest is nullable, what
/// can stand after the head.
pub fn follow_sets(g: &Gram) -> BTreeMap<u16, BTreeSet<u16>> {
  let eps = empty_derivations(g);
  let firsts = first_sets(g);
  let mut res = BTreeMap::new();
  for (a, _) in &g.rules {
    let mut seen = BTreeSet::new();
    let mut todo = vec![*a];
    let mut out = BTreeSet::new();
    while let Some(n) = todo.pop() {
      if !seen.insert(n) {
        continue;
      }
      for (h, p) in g.prods() {
        for i in 0..p.elems.len() {
          if p.elems[i].1 == Sym::N(n) {
            let (f, nullable) = first_of_seq(
              g,
              p.elems[i + 1..].iter().map(|e| e.1),
              &firsts,
              &eps,
            );
            out.extend(f);
            if nullable {
              todo.push(h);
            }
          }
        }
      }
    }
    res.insert(*a, out);
  }
  res
}

/// Sentential forms reachable from the start by any rewriting, up to a length
/// and count: an independent under-approximation used to cross-check the two
/// oracles above.
pub fn sentential_forms(
  g: &Gram,
  from: Vec<Sym>,
  max_len: usize,
  max_count: usize,
) -> BTreeSet<Vec<Sym>> {
  let mut seen = BTreeSet::new();
  let mut todo = std::collections::VecDeque::new();
  seen.insert(from.clone());
  todo.push_back(from);
  while let Some(f) = todo.pop_front() {
    for i in 0..f.len() {
      if let Sym::N(n) = f[i] {
        for p in g.rule(n).into_iter().flatten() {
          let mut nf: Vec<Sym> = f[..i].to_vec();
          nf.extend(p.syms());
          nf.extend_from_slice(&f[i + 1..]);
          if nf.len() <= max_len && seen.len() < max_count && !seen.contains(&nf)
          {
            seen.insert(nf.clone());
            todo.push_back(nf);
          }
        }
      }
    }
  }
  seen
}
