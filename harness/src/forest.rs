//! Tree languages: reading parse forests, and deciding inclusion of tree
//! languages by an explicit subset construction, so that the comparison of a
//! forest with the set of derivations holds for trees of every height.

use crate::cfg::*;
use bongo::parsers::tree::{Node, NodeContent};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Label {
  Leaf(u16, u16),
  Branch(u16),
}

impl Label {
  fn show(&self) -> String {
    match self {
      Label::Leaf(k, v) => format!("t{}#{}", k, v),
      Label::Branch(a) => format!("k{}", a),
    }
  }
}

/// A nondeterministic tree automaton / and-or graph.  State `s` accepts the
/// tree `label(t1..tn)` when one of its alternatives has that label and child
/// states accepting `t1..tn`.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Ta {
  pub alts: Vec<Vec<(Label, Vec<u32>)>>,
  pub root: Option<u32>,
}

impl Ta {
  pub fn show(&self) -> String {
    let mut s = format!("root={:?}", self.root);
    for (i, a) in self.alts.iter().enumerate() {
      if i == 2000 {
        s.push_str(&format!("\n    ... {} in all", self.alts.len()));
        break;
      }
      s.push_str(&format!("\n    {}:", i));
      for (j, (l, c)) in a.iter().enumerate() {
        s.push_str(if j > 0 { " | " } else { " " });
        s.push_str(&l.show());
        s.push_str(&format!("{:?}", c));
      }
    }
    s
  }
  pub fn size(&self) -> usize {
    self.alts.iter().map(|a| a.len()).sum()
  }
}

/// Reads the graph reachable from a node through the public interface.
/// Also checks that no structural anomaly can be read (a branch of another
/// store, say).
pub fn read_forest(
  root: &Node<'_, Tm, Ak, Av2>,
) -> Ta {
  read_forest_with(root, &|k, v| (k.0, v.0), &|a| a.0)
}

/// The same over any types, by the numbers of their values.
pub fn read_forest_with<T, AK, V>(
  root: &Node<'_, T, AK, V>,
  leaf: &dyn Fn(&T, &V) -> (u16, u16),
  branch: &dyn Fn(&AK) -> u16,
) -> Ta
where
  T: Ord + Clone,
  AK: Ord + Clone,
  V: Ord + Clone,
{
  let mut ids: BTreeMap<Node<'_, T, AK, V>, u32> = BTreeMap::new();
  let mut todo = vec![root.clone()];
  let mut ta = Ta::default();
  ids.insert(root.clone(), 0);
  ta.alts.push(vec![]);
  ta.root = Some(0);
  while let Some(n) = todo.pop() {
    let me = ids[&n] as usize;
    let mut out = Vec::new();
    for alt in n.alts() {
      match alt.content() {
        NodeContent::Leaf(l) => {
          let (k, v) = leaf(&l.kind(), &l.value());
          out.push((Label::Leaf(k, v), vec![]))
        }
        NodeContent::Branch(b) => {
          let mut kids = Vec::new();
          for c in b.nodes() {
            let id = match ids.get(&c) {
              Some(i) => *i,
              None => {
                let i = ta.alts.len() as u32;
                ta.alts.push(vec![]);
                ids.insert(c.clone(), i);
                todo.push(c.clone());
                i
              }
            };
            kids.push(id);
          }
          out.push((Label::Branch(branch(&b.action())), kids));
        }
      }
    }
    ta.alts[me] = out;
  }
  ta
}

/// Token values.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Av2(pub u16);

/// The automaton of all derivations of `input` from the start symbol:
/// states are (nonterminal, span) and token positions.
pub fn derivations(
  g: &Gram,
  input: &[u16],
  values: &[u16],
  cost: &mut Cost,
) -> Ta {
  let spans = Spans::new(g, input, cost);
  let n = input.len();
  let mut ta = Ta::default();
  if !spans.get(g.start, 0, n) {
    return ta;
  }
  #[derive(Clone, Copy, PartialEq, Eq, Hash)]
  enum Q {
    N(u16, usize, usize),
    T(usize),
  }
  let mut ids: HashMap<Q, u32> = HashMap::new();
  let mut todo: Vec<Q> = Vec::new();
  fn id(
    q: Q,
    ids: &mut HashMap<Q, u32>,
    ta: &mut Ta,
    todo: &mut Vec<Q>,
  ) -> u32 {
    if let Some(i) = ids.get(&q) {
      return *i;
    }
    let i = ta.alts.len() as u32;
    ta.alts.push(vec![]);
    ids.insert(q, i);
    todo.push(q);
    i
  }
  ta.root = Some(id(Q::N(g.start, 0, n), &mut ids, &mut ta, &mut todo));
  while let Some(q) = todo.pop() {
    let me = ids[&q] as usize;
    match q {
      Q::T(p) => {
        ta.alts[me] = vec![(Label::Leaf(input[p], values[p]), vec![])];
      }
      Q::N(nt, i, j) => {
        let mut out = Vec::new();
        for p in g.rule(nt).into_iter().flatten() {
          let syms: Vec<Sym> = p.syms().collect();
          let mut partial: Vec<(usize, Vec<Q>)> = vec![(i, vec![])];
          for (x, sym) in syms.iter().enumerate() {
            let last = x + 1 == syms.len();
            let mut next = vec![];
            for (k, kids) in partial {
              match sym {
                Sym::T(t) => {
                  if k < j && input[k] == *t && (!last || k + 1 == j) {
                    let mut kids = kids;
                    kids.push(Q::T(k));
                    next.push((k + 1, kids));
                  }
                }
                Sym::N(m) => {
                  for e in if last { j..=j } else { k..=j } {
                    if spans.get(*m, k, e) {
                      let mut kids = kids.clone();
                      kids.push(Q::N(*m, k, e));
                      next.push((e, kids));
                    }
                  }
                }
              }
            }
            partial = next;
          }
          for (k, kids) in partial {
            if k == j {
              let kids = kids
                .into_iter()
                .map(|q| id(q, &mut ids, &mut ta, &mut todo))
                .collect();
              cost.0 += 1;
              out.push((Label::Branch(p.ak), kids));
            }
          }
        }
        ta.alts[me] = out;
      }
    }
  }
  ta
}

pub enum Incl {
  Yes,
  /// A tree of the first language that is not in the second.
  No(String),
  /// The state cap was reached before a difference was found.
  Capped,
}

#[derive(Default)]
pub struct InclCost {
  pub states: u64,
  pub transitions: u64,
}

/// Decides whether every tree accepted by the root of `a` is accepted by the
/// root of `b`.  Explores all pairs (q, S): a state q of `a` together with the
/// set S of *all* states of `b` accepting some tree accepted at q.
pub fn included(a: &Ta, b: &Ta, cap: usize, cost: &mut InclCost) -> Incl {
  let aroot = match a.root {
    None => return Incl::Yes,
    Some(r) => r,
  };
  // Alternatives of b by label, arity and first child.
  type Key<'a> = (&'a Label, usize, Option<u32>);
  let mut by: HashMap<Key, Vec<(u32, &Vec<u32>)>> = HashMap::new();
  for (s, alts) in b.alts.iter().enumerate() {
    for (l, kids) in alts {
      let key = (l, kids.len(), kids.first().copied());
      by.entry(key).or_default().push((s as u32, kids));
    }
  }
  // Pairs found: per state of a, list of (S, how it was built).
  type How = (Label, Vec<(u32, usize)>);
  let mut found: Vec<Vec<(BTreeSet<u32>, How)>> = vec![vec![]; a.alts.len()];
  let mut seen: Vec<HashSet<Vec<u32>>> = vec![HashSet::new(); a.alts.len()];
  // Who uses a state as a child.
  let mut users: Vec<BTreeSet<(u32, usize)>> =
    vec![BTreeSet::new(); a.alts.len()];
  for (s, alts) in a.alts.iter().enumerate() {
    for (x, (_, kids)) in alts.iter().enumerate() {
      for k in kids {
        users[*k as usize].insert((s as u32, x));
      }
    }
  }
  let mut work: std::collections::VecDeque<(u32, usize, Option<(u32, usize)>)> =
    Default::default();
  for (s, alts) in a.alts.iter().enumerate() {
    for (x, (_, kids)) in alts.iter().enumerate() {
      if kids.is_empty() {
        work.push_back((s as u32, x, None));
      }
    }
  }
  let mut total = 0usize;
  fn tree(
    found: &Vec<Vec<(BTreeSet<u32>, How)>>,
    s: u32,
    i: usize,
    depth: usize,
  ) -> String {
    let (_, (l, kids)) = &found[s as usize][i];
    match l {
      Label::Leaf(..) => l.show(),
      _ if depth > 300 => "...".into(),
      _ => format!(
        "{}({})",
        l.show(),
        kids
          .iter()
          .map(|(s, i)| tree(found, *s, *i, depth + 1))
          .collect::<Vec<_>>()
          .join(" ")
      ),
    }
  }
  while let Some((s, x, newest)) = work.pop_front() {
    let (label, kids) = &a.alts[s as usize][x];
    // All combinations of known pairs for the children that use the newest
    // pair at least once (or the single empty combination).
    let mut combos: Vec<(Vec<(u32, usize)>, bool)> = vec![(vec![], false)];
    for k in kids {
      let mut next = vec![];
      let limit = match newest {
        Some((ns, ni)) if ns == *k => ni + 1,
        _ => found[*k as usize].len(),
      };
      for (c, used) in &combos {
        for i in 0..limit.min(found[*k as usize].len()) {
          let mut c = c.clone();
          c.push((*k, i));
          next.push((c, *used || newest == Some((*k, i))));
        }
      }
      combos = next;
      if combos.len() > cap {
        return Incl::Capped;
      }
    }
    for (c, used) in combos {
      if newest.is_some() && !used {
        continue;
      }
      cost.transitions += 1;
      let mut set = BTreeSet::new();
      let firsts: Vec<Option<u32>> = match c.first() {
        None => vec![None],
        Some((k, i)) => found[*k as usize][*i].0.iter().map(|q| Some(*q)).collect(),
      };
      for first in firsts {
        for (bs, bk) in by.get(&(label, kids.len(), first)).into_iter().flatten() {
          if bk
            .iter()
            .zip(&c)
            .all(|(bk, (k, i))| found[*k as usize][*i].0.contains(bk))
          {
            set.insert(*bs);
          }
        }
      }
      let key: Vec<u32> = set.iter().copied().collect();
      if !seen[s as usize].insert(key) {
        continue;
      }
      cost.states += 1;
      total += 1;
      let bad = s == aroot && !b.root.map_or(false, |r| set.contains(&r));
      let i = found[s as usize].len();
      found[s as usize].push((set, (label.clone(), c)));
      if bad {
        return Incl::No(tree(&found, s, i, 0));
      }
      if total > cap {
        return Incl::Capped;
      }
      for (us, ux) in &users[s as usize] {
        work.push_back((*us, *ux, Some((s, i))));
      }
    }
  }
  Incl::Yes
}

/// The number of distinct trees accepted at the root if finitely many and at
/// most `cap`, counted on the subset construction of the automaton itself
/// would be exact; here by enumeration up to the given height.
pub fn enumerate_trees(
  ta: &Ta,
  height: usize,
  cap: usize,
  ts: &mut Trees,
) -> Result<BTreeSet<u32>, Overflow> {
  let mut cur: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); ta.alts.len()];
  for _ in 0..height {
    let mut next = vec![BTreeSet::new(); ta.alts.len()];
    for (s, alts) in ta.alts.iter().enumerate() {
      for (l, kids) in alts {
        match l {
          Label::Leaf(k, v) => {
            next[s].insert(ts.id(TreeKey::Leaf(*k, *v)));
          }
          Label::Branch(a) => {
            let mut combos: Vec<Vec<u32>> = vec![vec![]];
            for k in kids {
              let mut n = vec![];
              for c in &combos {
                for t in &cur[*k as usize] {
                  let mut c = c.clone();
                  c.push(*t);
                  n.push(c);
                }
              }
              combos = n;
              if combos.len() > cap {
                return Err(Overflow);
              }
            }
            for c in combos {
              next[s].insert(ts.id(TreeKey::Branch(*a, c)));
            }
          }
        }
        if next[s].len() > cap {
          return Err(Overflow);
        }
      }
    }
    let same = next == cur;
    cur = next;
    if same {
      break;
    }
  }
  Ok(match ta.root {
    Some(r) => cur[r as usize].clone(),
    None => BTreeSet::new(),
  })
}
