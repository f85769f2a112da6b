//! P18: the DOT rendering of a node against its reachable graph.

use crate::dotgraph::{canonical, Graph};
use crate::engine::*;
use bongo::parsers::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

/// Kinds, actions and values whose printed forms need care.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct X(u8);

const TEXTS: &[&str] = &[
  "0", "1", "a", "b c", "\"", "\\", "\\\"", "x\ny", "\u{e9}", "<b>", "{}", "",
  "->", "n0", "\\n", "[label]", "\t", "a;b", "'", "\u{1F600}",
];

/// The listed texts, then ever longer ones.
fn text(i: u8) -> String {
  match TEXTS.get(i as usize) {
    Some(t) => t.to_string(),
    None => {
      let n = long_texts()[i as usize - TEXTS.len()];
      (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
    }
  }
}

fn long_texts() -> &'static [usize] {
  static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
  L.get_or_init(|| edges_and(4096, 65536).into_iter().filter(|n| *n > 1).collect())
}

impl fmt::Debug for X {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str(&text(self.0))
  }
}

type N<'a> = Node<'a, X, X, X>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Alt {
  Leaf(u8, u8),
  Branch(u8, Vec<usize>),
}

fn label(a: &Alt) -> String {
  match a {
    Alt::Leaf(k, v) => {
      format!("{}({})", text(*k), text(*v))
    }
    Alt::Branch(a, _) => text(*a),
  }
}

/// Nodes with their alternatives: the content of a store.
type Content = Vec<Vec<Alt>>;

/// The graph to be shown, with the nodes and alternatives of the model.
struct Want {
  nodes: Vec<usize>,
  alts: Vec<Alt>,
}

fn reach(c: &Content, root: usize) -> Want {
  let mut nodes = vec![root];
  let mut alts: Vec<Alt> = Vec::new();
  let mut i = 0;
  while i < nodes.len() {
    for a in &c[nodes[i]] {
      if !alts.contains(a) {
        alts.push(a.clone());
        if let Alt::Branch(_, k) = a {
          for n in k {
            if !nodes.contains(n) {
              nodes.push(*n);
            }
          }
        }
      }
    }
    i += 1;
  }
  nodes.sort();
  Want { nodes, alts }
}

/// Label, children and parents of an alternative, by node.
type AltShape = (String, Vec<usize>, Vec<usize>);

/// Compares the text with the reachable part of the content, up to names of
/// vertices.
fn compare(text: &str, c: &Content, root: usize) -> Verdict {
  let g = Graph::parse(text)?;
  let w = reach(c, root);
  let bad = |e: &str| {
    Err(format!("rendering node {} of {:?}: {} in\n{}", root, c, e, text))
  };
  // Alternatives are the vertices that differ in shape from nodes.  Which of
  // the two shapes is that of nodes shows in the number of vertices.
  let mut shapes: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
  for (i, v) in g.vertices.iter().enumerate() {
    shapes.entry(&v.1).or_default().push(i);
  }
  if g.vertices.len() != w.nodes.len() + w.alts.len() {
    return bad(&format!(
      "{} vertices instead of {} nodes and {} alternatives",
      g.vertices.len(),
      w.nodes.len(),
      w.alts.len()
    ));
  }
  let nodes: Vec<usize> = shapes.get("point").cloned().unwrap_or_default();
  if nodes.len() != w.nodes.len() {
    return bad("wrong number of nodes");
  }
  let is_node = |v: usize| nodes.contains(&v);
  let at = |v: usize| nodes.iter().position(|n| *n == v).unwrap();
  let mut shown: BTreeMap<usize, AltShape> = BTreeMap::new();
  for (i, v) in g.vertices.iter().enumerate() {
    if is_node(i) {
      if !v.2.is_empty() {
        return bad("a node with a label");
      }
    } else {
      shown.insert(i, (v.2.clone(), vec![], vec![]));
    }
  }
  for (a, b) in &g.edges {
    match (is_node(*a), is_node(*b)) {
      (true, false) => shown.get_mut(b).unwrap().2.push(at(*a)),
      (false, true) => shown.get_mut(a).unwrap().1.push(at(*b)),
      _ => return bad("an edge between two vertices of a sort"),
    }
  }
  let mut want: Vec<AltShape> = w
    .alts
    .iter()
    .map(|a| {
      let kids = match a {
        Alt::Leaf(..) => vec![],
        Alt::Branch(_, k) => k.clone(),
      };
      let pos = |n: usize| w.nodes.iter().position(|x| *x == n).unwrap();
      let parents = (0..w.nodes.len())
        .filter(|n| c[w.nodes[*n]].contains(a))
        .collect();
      let mut k: Vec<usize> = kids.into_iter().map(pos).collect();
      k.sort();
      (label(a), k, parents)
    })
    .collect();
  want.sort();
  let want2 = want.clone();
  // The nodes carry no names: try every correspondence, the expected first.
  let n = nodes.len();
  let matches = |perm: &[usize]| {
    let mut got: Vec<AltShape> = shown
      .values()
      .map(|(l, k, p)| {
        let mut k: Vec<usize> = k.iter().map(|x| perm[*x]).collect();
        let mut p: Vec<usize> = p.iter().map(|x| perm[*x]).collect();
        k.sort();
        p.sort();
        (l.clone(), k, p)
      })
      .collect();
    got.sort();
    got == want
  };
  let mut perm: Vec<usize> = (0..n).collect();
  if matches(&perm) {
    return Ok(());
  }
  if n <= 6 {
    fn all(
      k: usize,
      p: &mut Vec<usize>,
      f: &dyn Fn(&[usize]) -> bool,
    ) -> bool {
      if k == p.len() {
        return f(p);
      }
      for i in k..p.len() {
        p.swap(k, i);
        if all(k + 1, p, f) {
          return true;
        }
        p.swap(k, i);
      }
      false
    }
    if all(0, &mut perm, &matches) {
      return Ok(());
    }
  } else {
    // Too many correspondences: compare colours refined along the edges.
    let vs: Vec<(String, String)> =
      g.vertices.iter().map(|v| (v.1.clone(), v.2.clone())).collect();
    let shape = |v: &usize| g.vertices[*v].1.clone();
    let alt_shape = shown.keys().next().map(shape).unwrap_or_default();
    let mut ws: Vec<(String, String)> =
      vec![("point".to_string(), String::new()); n];
    let mut es = Vec::new();
    for (l, k, p) in want2 {
      let v = ws.len();
      ws.push((alt_shape.clone(), l));
      es.extend(k.into_iter().map(|k| (v, k)));
      es.extend(p.into_iter().map(|p| (p, v)));
    }
    if canonical(&vs, &g.edges, 12) == canonical(&ws, &es, 12) {
      return Ok(());
    }
  }
  bad("labels or edges differ")
}

/// Builds the content in a store and renders every node.
fn check(c: &Content, rev: bool, st: &mut Stats) -> Verdict {
  let o = TreeOwner::new();
  let h = o.handle();
  let nodes: Vec<N> = c.iter().map(|_| h.make_node()).collect();
  let make = |i: usize, a: &Alt| {
    let x = match a {
      Alt::Leaf(k, v) => h.make_leaf_alt(X(*k), X(*v)),
      Alt::Branch(x, k) => h.make_branch_alt(
        X(*x),
        k.iter().map(|n| nodes[*n].clone()).collect::<Vec<_>>(),
      ),
    };
    nodes[i].add_alt(&x);
  };
  let order: Vec<usize> = if rev {
    (0..c.len()).rev().collect()
  } else {
    (0..c.len()).collect()
  };
  for i in order {
    if rev {
      c[i].iter().rev().for_each(|a| make(i, a));
    } else {
      c[i].iter().for_each(|a| make(i, a));
    }
  }
  for (i, n) in nodes.iter().enumerate() {
    let s = guard(|| n.to_dot())
      .map_err(|p| format!("rendering node {} of {:?} panics: {}", i, c, p))?;
    compare(&s, c, i)?;
    st.traces += 1;
    if i == 0 {
      st.outcome(format!("{} vertices", reach(c, i).alts.len() + reach(c, i).nodes.len()));
    }
  }
  // Rendering changes nothing.
  for (i, n) in nodes.iter().enumerate() {
    if n.alts().count() != c[i].len() {
      return Err(format!("rendering changes node {} of {:?}", i, c));
    }
  }
  st.transitions += c.iter().map(|a| a.len() as u64).sum::<u64>();
  st.states_extra += 1;
  Ok(())
}

fn seqs(nodes: usize, max: usize) -> Vec<Vec<usize>> {
  let mut out: Vec<Vec<usize>> = vec![vec![]];
  let mut from = 0;
  for _ in 0..max {
    let to = out.len();
    for i in from..to {
      for n in 0..nodes {
        let mut s = out[i].clone();
        s.push(n);
        out.push(s);
      }
    }
    from = to;
  }
  out
}

/// All sets of at most `max` alternatives of the pool.
fn subsets(pool: &[Alt], max: usize) -> Vec<Vec<Alt>> {
  fn go(pool: &[Alt], max: usize, cur: &mut Vec<Alt>, out: &mut Vec<Vec<Alt>>) {
    out.push(cur.clone());
    if cur.len() == max {
      return;
    }
    for i in 0..pool.len() {
      cur.push(pool[i].clone());
      go(&pool[i + 1..], max, cur, out);
      cur.pop();
    }
  }
  let mut out = Vec::new();
  go(pool, max, &mut vec![], &mut out);
  out
}

fn space(
  name: &str,
  nodes: usize,
  kids: usize,
  actions: u8,
  leaves: &[(u8, u8)],
  alts: usize,
) -> Family {
  let mut pool: Vec<Alt> =
    leaves.iter().map(|(k, v)| Alt::Leaf(*k, *v)).collect();
  for a in 0..actions {
    for s in seqs(nodes, kids) {
      pool.push(Alt::Branch(a, s));
    }
  }
  let sets = subsets(&pool, alts);
  let k = sets.len();
  let rest = k.pow(nodes as u32 - 1);
  // One unit: the alternatives of the first node.
  Family::new(
    name,
    k as u64,
    format!(
      "every store of {} nodes with up to {} alternatives each out of {} \
       (leaves {:?}, {} actions, up to {} children), every node of it",
      nodes,
      alts,
      pool.len(),
      leaves,
      actions,
      kids
    ),
    move |u, st| {
      for r in 0..rest {
        let mut c = vec![sets[u as usize].clone()];
        let mut x = r;
        for _ in 1..nodes {
          c.push(sets[x % k].clone());
          x /= k;
        }
        check(&c, r % 2 == 1, st)?;
      }
      Ok(())
    },
  )
}

/// Every pair of texts as kind and value, and every text as action.
fn labels() -> Family {
  let n = TEXTS.len() as u64;
  Family::new(
    "labels",
    n,
    "every text of a list with quotes, escapes, line ends, empty and non-ASCII \
     ones as kind, value and action",
    move |u, st| {
      for v in 0..n {
        let (u, v) = (u as u8, v as u8);
        let c = vec![
          vec![Alt::Leaf(u, v), Alt::Leaf(v, u), Alt::Branch(u, vec![1, 0])],
          vec![Alt::Branch(v, vec![]), Alt::Leaf(u, u)],
        ];
        let mut c: Content = c;
        for a in &mut c {
          a.sort();
          a.dedup();
        }
        check(&c, false, st)?;
        check(&c, true, st)?;
      }
      Ok(())
    },
  )
}

/// Long texts as kind, value and action, and node numbers of several digits.
fn long_labels() -> Family {
  let n = long_texts().len() as u64;
  Family::new(
    "long labels",
    n,
    format!("texts of {:?} characters as kind, value and action", long_texts()),
    move |u, st| {
      let u = TEXTS.len() as u8 + u as u8;
      for v in [0, 9, u, TEXTS.len() as u8] {
        let mut c: Content = vec![
          vec![Alt::Leaf(u, v), Alt::Leaf(v, u), Alt::Branch(u, vec![1, 0])],
          vec![Alt::Branch(v, vec![]), Alt::Leaf(u, u)],
        ];
        for a in &mut c {
          a.sort();
          a.dedup();
        }
        check(&c, false, st)?;
      }
      Ok(())
    },
  )
}

/// Graphs of growing size: chains, rings, combs, wide nodes and branches.
fn large(sizes: Vec<usize>) -> Family {
  Family::new(
    "large",
    sizes.len() as u64,
    format!("chains, rings, fans and shared children of {:?} nodes", sizes),
    move |u, st| {
      let n = sizes[u as usize];
      let mut cs: Vec<Content> = Vec::new();
      let chain = |last: Vec<Alt>| -> Content {
        let mut c: Content =
          (0..n - 1).map(|i| vec![Alt::Branch(0, vec![i + 1])]).collect();
        c.push(last);
        c
      };
      cs.push(chain(vec![Alt::Leaf(0, 0)]));
      cs.push(chain(vec![Alt::Branch(0, vec![0])]));
      cs.push(chain(vec![Alt::Branch(1, vec![n / 2, 0])]));
      // One branch of all nodes, and one branch for each node.
      let mut fan = vec![vec![]; n];
      fan[0] = vec![Alt::Branch(0, (0..n).collect())];
      for (i, f) in fan.iter_mut().enumerate().skip(1) {
        f.push(Alt::Leaf((i % 20) as u8, (i / 20 % 20) as u8));
      }
      cs.push(fan);
      let mut many = vec![vec![]; n];
      many[0] = (0..n).map(|i| Alt::Branch((i % 3) as u8, vec![i])).collect();
      many[n - 1].push(Alt::Leaf(0, 0));
      cs.push(many);
      cs.push(vec![vec![Alt::Branch(2, vec![0; n])]]);
      for mut c in cs {
        for a in &mut c {
          a.sort();
          a.dedup();
        }
        check_root(&c, st)?;
      }
      Ok(())
    },
  )
}

/// As `check`, for the nodes at the ends only.
fn check_root(c: &Content, st: &mut Stats) -> Verdict {
  let o = TreeOwner::new();
  let h = o.handle();
  let nodes: Vec<N> = c.iter().map(|_| h.make_node()).collect();
  for (i, alts) in c.iter().enumerate() {
    for a in alts {
      let x = match a {
        Alt::Leaf(k, v) => h.make_leaf_alt(X(*k), X(*v)),
        Alt::Branch(x, k) => h.make_branch_alt(
          X(*x),
          k.iter().map(|n| nodes[*n].clone()).collect::<Vec<_>>(),
        ),
      };
      nodes[i].add_alt(&x);
    }
  }
  let ends: BTreeSet<usize> = [0, c.len() / 2, c.len() - 1].into();
  for i in ends {
    let s = guard(|| nodes[i].to_dot())
      .map_err(|p| format!("rendering node {} of {:?} panics: {}", i, c, p))?;
    compare(&s, c, i)?;
    st.traces += 1;
  }
  st.states_extra += 1;
  Ok(())
}

/// Growing stores: after every addition every node is rendered again, while
/// unrelated nodes and a second store grow too.
fn growing() -> Family {
  let pool: Vec<(usize, Alt)> = {
    let mut v = Vec::new();
    for n in 0..3 {
      v.push((n, Alt::Leaf(0, 0)));
      v.push((n, Alt::Branch(0, vec![(n + 1) % 3])));
      v.push((n, Alt::Branch(1, vec![n, (n + 2) % 3])));
    }
    v
  };
  let k = pool.len();
  Family::new(
    "growing",
    (k * k) as u64,
    "every sequence of four additions to a store of three nodes, rendering \
     every node after each, with copies of nodes and a second store alongside",
    move |u, st| {
      let u = u as usize;
      for r in 0..k * k {
        let o = TreeOwner::new();
        let p = TreeOwner::new();
        let h = o.handle();
        let other = p.handle();
        let nodes: Vec<N> = (0..3).map(|_| h.make_node()).collect();
        let mut c: Content = vec![vec![]; 3];
        for s in [u % k, u / k, r % k, r / k] {
          let (n, a) = &pool[s];
          let x = match a {
            Alt::Leaf(k, v) => h.make_leaf_alt(X(*k), X(*v)),
            Alt::Branch(x, k) => h.make_branch_alt(
              X(*x),
              k.iter().map(|n| nodes[*n].clone()).collect::<Vec<_>>(),
            ),
          };
          nodes[*n].add_alt(&x);
          if !c[*n].contains(a) {
            c[*n].push(a.clone());
          }
          if s % 4 == 3 {
            nodes[(n + 1) % 3].add_all(&nodes[*n]);
            for a in c[*n].clone() {
              if !c[(n + 1) % 3].contains(&a) {
                c[(n + 1) % 3].push(a);
              }
            }
          }
          let f = other.make_leaf_node(X(2), X(2));
          other.make_branch_node(X(2), vec![f.clone(), f]);
          for (i, n) in nodes.iter().enumerate() {
            let t = guard(|| n.to_dot())
              .map_err(|p| format!("rendering {:?} panics: {}", c, p))?;
            compare(&t, &c, i)?;
            st.traces += 1;
          }
          st.transitions += 1;
        }
        st.states_extra += 1;
      }
      Ok(())
    },
  )
}

pub fn p18(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let l2: &[(u8, u8)] = &[(0, 0), (0, 1)];
  let l1: &[(u8, u8)] = &[(0, 0)];
  let mut f = vec![
    labels(),
    long_labels(),
    large(if deep {
      (1..=200).chain([255, 256, 257, 511, 512, 513, 1025, 2047, 2048, 2049]).collect()
    } else {
      (1..=80).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1025]).collect()
    }),
    growing(),
    space("one node", 1, 3, 2, l2, 5),
    space("two nodes", 2, 2, 1, l2, 3),
    space("three nodes", 3, 1, 1, l1, 3),
  ];
  if deep {
    f.push(space("two nodes, two actions", 2, 2, 2, l2, 3));
    f.push(space("three nodes, pairs", 3, 2, 1, l1, 2));
    f.push(space("four nodes", 4, 1, 1, l1, 2));
  }
  Property {
    id: "P18",
    families: f,
    assumptions: vec![
      "a child that occurs twice in a branch is shown with two edges".into(),
      "up to six nodes are matched by every correspondence, more by number or by \
       colours refined along the edges".into(),
    ],
    explanation: "states: contents of a store; every node of each is rendered, \
      the text is parsed as DOT and compared with the reachable graph up to the \
      names of vertices; transitions: additions"
      .into(),
  }
}
