//! P16: the tree store against nodes holding sets of distinct alternatives.

use crate::cfg::Av;
use crate::engine::*;
use crate::laws::laws;
use crate::sorts::*;
use bongo::parsers::tree::*;
use bongo::utils::WasChanged;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type Owner = TreeOwner<u8, u8, u8>;
type N<'a> = Node<'a, u8, u8, u8>;
type A<'a> = Alternative<'a, u8, u8, u8>;

/// The same, over other types.
type HOf<'a, T, AK, V> = TreeHandle<'a, T, AK, V>;
type NOf<'a, T, AK, V> = Node<'a, T, AK, V>;
type AOf<'a, T, AK, V> = Alternative<'a, T, AK, V>;

/// (store, number of the node in the store)
type NodeId = (usize, usize);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Content {
  Leaf(u8, u8),
  Branch(u8, Vec<NodeId>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Op {
  MakeNode(usize),
  LeafAlt(usize, u8, u8),
  LeafNode(usize, u8, u8),
  BranchAlt(usize, u8, Vec<NodeId>),
  BranchNode(usize, u8, Vec<NodeId>),
  /// The children come from an iterator that does this before each child.
  LazyAlt(u8, Vec<Lazy>),
  LazyNode(u8, Vec<Lazy>),
  /// The alternative is of the given store.
  AddAlt(NodeId, usize, Content),
  AddAll(NodeId, NodeId),
  /// Adds the alternatives of the second node to the first one by one.
  CopyByAlts(NodeId, NodeId),
  /// Adds a leaf to every child of the node.
  Spread(NodeId),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Lazy {
  FreshNode,
  FreshLeaf(u8, u8),
  /// Adds a leaf to the node and yields it.
  AddLeaf(NodeId, u8, u8),
  /// Makes a branch of the same action with the node as its only child, and
  /// yields the node.
  Nested(NodeId),
  /// Reads the alternatives of the node and yields it.
  Read(NodeId),
  /// Copies the alternatives of one node to another and yields it.
  Copy(NodeId, NodeId),
}

/// The model of two stores.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
struct Model {
  nodes: [Vec<BTreeSet<Content>>; 2],
  /// Alternatives made so far, in the order made.
  alts: [Vec<Content>; 2],
}

impl Model {
  fn fresh(&mut self, s: usize) -> NodeId {
    self.nodes[s].push(BTreeSet::new());
    (s, self.nodes[s].len() - 1)
  }
  fn alt(&mut self, s: usize, c: &Content) {
    if !self.alts[s].contains(c) {
      self.alts[s].push(c.clone());
    }
  }
  fn add(&mut self, n: NodeId, c: &Content) -> bool {
    self.nodes[n.0][n.1].insert(c.clone())
  }
}

/// The real stores with the handles taken so far.
struct World<'a, T, AK, V> {
  h: [HOf<'a, T, AK, V>; 2],
  m: Model,
  nodes: [Vec<NOf<'a, T, AK, V>>; 2],
  /// Every alternative handle with the store and content it should have.
  alts: Vec<((usize, Content), AOf<'a, T, AK, V>)>,
}

fn bool_of(w: WasChanged) -> bool {
  w == WasChanged::Changed
}

impl<'a, T: Sort, AK: Sort, V: Sort> World<'a, T, AK, V> {
  fn new(h: [HOf<'a, T, AK, V>; 2]) -> Self {
    World {
      h,
      m: Model::default(),
      nodes: Default::default(),
      alts: Vec::new(),
    }
  }

  fn node(&self, n: NodeId) -> NOf<'a, T, AK, V> {
    self.nodes[n.0][n.1].clone()
  }

  fn find(&self, s: usize, c: &Content) -> AOf<'a, T, AK, V> {
    let k = (s, c.clone());
    if let Some(x) = self.alts.iter().find(|x| x.0 == k) {
      return x.1.clone();
    }
    // Made inside an iterator: a node has it.
    let at = |n: &BTreeSet<Content>| n.contains(c);
    let i = self.m.nodes[s].iter().position(at).unwrap();
    self.nodes[s][i]
      .alts()
      .find(|a| self.content(s, a).as_ref() == Ok(c))
      .unwrap()
  }

  fn push_node(&mut self, s: usize, n: NOf<'a, T, AK, V>) {
    self.nodes[s].push(n);
  }

  fn push_alt(&mut self, s: usize, c: Content, a: AOf<'a, T, AK, V>) {
    self.m.alt(s, &c);
    self.alts.push(((s, c), a));
  }

  /// Children as an iterator that works on the store.
  fn lazy(
    &mut self,
    h: &'a HOf<'a, T, AK, V>,
    action: u8,
    lz: &[Lazy],
    node: bool,
  ) -> Result<(), String> {
    let act = |a: u8| AK::make(a as u16);
    let before = self.nodes[0].len();
    let mut made: Vec<NOf<'a, T, AK, V>> = Vec::new();
    let mut alts: Vec<(Content, AOf<'a, T, AK, V>)> = Vec::new();
    let mut kids: Vec<NodeId> = Vec::new();
    let mut bad: Option<String> = None;
    // The node of make_branch_node may be created before or after the
    // children; either way it is a node of its own.
    let mut m = self.m.clone();
    let (nodes, madep, altsp, kidsp, badp) =
      (&self.nodes[0], &mut made, &mut alts, &mut kids, &mut bad);
    let iter = lz.iter().map(|l| {
      let mut expect = |what: &str, got: bool, want: bool| {
        if got != want {
          *badp = Some(format!("{} reports changed: {}", what, got));
        }
      };
      match l {
        Lazy::FreshNode => {
          let n = h.make_node();
          kidsp.push(m.fresh(0));
          madep.push(n.clone());
          n
        }
        Lazy::FreshLeaf(k, v) => {
          let n = h.make_leaf_node(T::make(*k as u16), V::make(*v as u16));
          let id = m.fresh(0);
          m.alt(0, &Content::Leaf(*k, *v));
          m.add(id, &Content::Leaf(*k, *v));
          kidsp.push(id);
          madep.push(n.clone());
          n
        }
        Lazy::AddLeaf(n, k, v) => {
          let c = Content::Leaf(*k, *v);
          let a = h.make_leaf_alt(T::make(*k as u16), V::make(*v as u16));
          m.alt(0, &c);
          let r = nodes[n.1].add_alt(&a);
          expect("add_alt", bool_of(r), m.add(*n, &c));
          altsp.push((c, a));
          kidsp.push(*n);
          nodes[n.1].clone()
        }
        Lazy::Nested(n) => {
          let c = Content::Branch(action, vec![*n]);
          let a = h.make_branch_alt(act(action), vec![nodes[n.1].clone()]);
          m.alt(0, &c);
          altsp.push((c, a));
          kidsp.push(*n);
          nodes[n.1].clone()
        }
        Lazy::Read(n) => {
          let got = nodes[n.1].alts().count();
          if got != m.nodes[0][n.1].len() {
            *badp = Some(format!("{:?} shows {} alternatives", n, got));
          }
          kidsp.push(*n);
          nodes[n.1].clone()
        }
        Lazy::Copy(a, b) => {
          let r = nodes[a.1].add_all(&nodes[b.1]);
          let add = m.nodes[0][b.1].clone();
          let mut ch = false;
          for c in &add {
            ch |= m.add(*a, c);
          }
          expect("add_all", bool_of(r), ch);
          kidsp.push(*a);
          nodes[a.1].clone()
        }
      }
    });
    if node {
      let n = h.make_branch_node(act(action), iter);
      let c = Content::Branch(action, kids);
      let id = m.fresh(0);
      m.alt(0, &c);
      m.add(id, &c);
      made.push(n);
    } else {
      let a = h.make_branch_alt(act(action), iter);
      let c = Content::Branch(action, kids);
      m.alt(0, &c);
      alts.push((c, a));
    }
    self.m = m;
    for n in made {
      self.push_node(0, n);
    }
    for (c, a) in alts {
      self.push_alt(0, c, a);
    }
    debug_assert!(self.nodes[0].len() >= before);
    match bad {
      Some(b) => Err(b),
      None => Ok(()),
    }
  }

  /// Applies one operation to the stores and to the model.
  fn apply(&mut self, h: &'a [HOf<'a, T, AK, V>; 2], op: &Op) -> Result<(), String> {
    let act = |a: u8| AK::make(a as u16);
    let kids = |w: &Self, v: &Vec<NodeId>| {
      v.iter().map(|n| w.node(*n)).collect::<Vec<_>>()
    };
    let mixes = |s: usize, v: &Vec<NodeId>| v.iter().any(|n| n.0 != s);
    let refused = |r: Result<(), String>| match r {
      Ok(()) => Err("mixing two stores is not refused".to_string()),
      Err(_) => Ok(()),
    };
    match op {
      Op::MakeNode(s) => {
        let n = h[*s].make_node();
        self.m.fresh(*s);
        self.push_node(*s, n);
      }
      Op::LeafAlt(s, k, v) => {
        let a = h[*s].make_leaf_alt(T::make(*k as u16), V::make(*v as u16));
        self.push_alt(*s, Content::Leaf(*k, *v), a);
      }
      Op::LeafNode(s, k, v) => {
        let n = h[*s].make_leaf_node(T::make(*k as u16), V::make(*v as u16));
        let id = self.m.fresh(*s);
        let c = Content::Leaf(*k, *v);
        self.m.alt(*s, &c);
        self.m.add(id, &c);
        let a = n.alts().next().ok_or("a leaf node shows no alternative")?;
        self.push_alt(*s, c, a);
        self.push_node(*s, n);
      }
      Op::BranchAlt(s, a, v) => {
        let k = kids(self, v);
        if mixes(*s, v) {
          return refused(guard(|| {
            h[*s].make_branch_alt(act(*a), k);
          }));
        }
        let x = h[*s].make_branch_alt(act(*a), k);
        self.push_alt(*s, Content::Branch(*a, v.clone()), x);
      }
      Op::BranchNode(s, a, v) => {
        let k = kids(self, v);
        if mixes(*s, v) {
          return refused(guard(|| {
            h[*s].make_branch_node(act(*a), k);
          }));
        }
        let n = h[*s].make_branch_node(act(*a), k);
        let id = self.m.fresh(*s);
        let c = Content::Branch(*a, v.clone());
        self.m.alt(*s, &c);
        self.m.add(id, &c);
        let x = n.alts().next().ok_or("a branch node shows no alternative")?;
        self.push_alt(*s, c, x);
        self.push_node(*s, n);
      }
      Op::LazyAlt(a, l) => self.lazy(&h[0], *a, l, false)?,
      Op::LazyNode(a, l) => self.lazy(&h[0], *a, l, true)?,
      Op::AddAlt(n, s, c) => {
        let s = *s;
        let node = self.node(*n);
        let alt = self.find(s, c);
        if s != n.0 {
          return refused(guard(|| {
            node.add_alt(&alt);
          }));
        }
        let got = bool_of(node.add_alt(&alt));
        let want = self.m.add(*n, c);
        if got != want {
          return Err(format!("add_alt reports changed: {}", got));
        }
      }
      Op::CopyByAlts(n, o) => {
        // Read while it is written, and possibly the same node.
        let (a, b) = (self.node(*n), self.node(*o));
        let mut got = false;
        for alt in b.alts() {
          got |= bool_of(a.add_alt(&alt));
        }
        let mut want = false;
        for c in self.m.nodes[o.0][o.1].clone() {
          want |= self.m.add(*n, &c);
        }
        if got != want {
          return Err(format!("add_alt of all alternatives reports changed: {}", got));
        }
      }
      Op::Spread(n) => {
        let leaf = h[n.0].make_leaf_alt(T::make(0), V::make(0));
        let mut to = BTreeSet::new();
        for alt in self.node(*n).alts() {
          if let NodeContent::Branch(b) = alt.content() {
            for kid in b.nodes() {
              to.insert(self.node_id(&kid)?);
              kid.add_alt(&leaf);
            }
          }
        }
        let c = Content::Leaf(0, 0);
        let mut want = BTreeSet::new();
        for x in self.m.nodes[n.0][n.1].clone() {
          if let Content::Branch(_, ids) = x {
            want.extend(ids);
          }
        }
        for id in &want {
          self.m.add(*id, &c);
        }
        self.push_alt(n.0, c, leaf);
        if to != want {
          return Err(format!("the children of {:?} are {:?}", n, to));
        }
      }
      Op::AddAll(n, o) => {
        let (a, b) = (self.node(*n), self.node(*o));
        if n.0 != o.0 {
          return refused(guard(|| {
            a.add_all(&b);
          }));
        }
        let got = bool_of(a.add_all(&b));
        let add = self.m.nodes[o.0][o.1].clone();
        let mut want = false;
        for c in &add {
          want |= self.m.add(*n, c);
        }
        if got != want {
          return Err(format!("add_all reports changed: {}", got));
        }
      }
    }
    Ok(())
  }

  fn content(&self, s: usize, a: &AOf<'a, T, AK, V>) -> Result<Content, String> {
    let own = |h: HOf<'a, T, AK, V>| {
      if h.is_same(&self.h[s]) && h == self.h[s] && !h.is_same(&self.h[1 - s]) {
        Ok(())
      } else {
        Err("a handle of another store".to_string())
      }
    };
    own(a.handle())?;
    Ok(match a.content() {
      NodeContent::Leaf(l) => {
        own(l.handle())?;
        Content::Leaf(l.kind().number() as u8, l.value().number() as u8)
      }
      NodeContent::Branch(b) => {
        own(b.handle())?;
        let mut v = Vec::new();
        for n in b.nodes() {
          v.push(self.node_id(&n)?);
        }
        Content::Branch(b.action().number() as u8, v)
      }
    })
  }

  fn node_id(&self, n: &NOf<'a, T, AK, V>) -> Result<NodeId, String> {
    let mut found = None;
    for s in 0..2 {
      for (i, x) in self.nodes[s].iter().enumerate() {
        if x == n {
          if found.is_some() {
            return Err("a node equals two created nodes".to_string());
          }
          found = Some((s, i));
        }
      }
    }
    found.ok_or_else(|| "a node that was never created".to_string())
  }

  /// Everything visible, against the model.
  fn check(&self, full: bool) -> Verdict {
    if full {
      let hs: Vec<(usize, HOf<'a, T, AK, V>)> = [0, 1, 0, 1]
        .iter()
        .map(|s| (*s, self.h[*s].clone()))
        .chain(self.nodes[0].iter().take(2).map(|n| (0, n.handle())))
        .collect();
      laws("handles", &hs)?;
    }
    let mut nh: Vec<(NodeId, NOf<'a, T, AK, V>)> = Vec::new();
    let mut ah = self.alts.clone();
    for s in 0..2 {
      for (i, n) in self.nodes[s].iter().enumerate() {
        nh.push(((s, i), n.clone()));
        if !n.handle().is_same(&self.h[s]) {
          return Err(format!("node {:?} has another store", (s, i)));
        }
        let mut got = BTreeSet::new();
        for a in n.alts() {
          let c = self.content(s, &a)?;
          if let NodeContent::Branch(b) = a.content() {
            if let Content::Branch(_, ids) = &c {
              for (id, k) in ids.iter().zip(b.nodes()) {
                if full && nh.len() < 16 {
                  nh.push((*id, k));
                }
              }
            }
          }
          if full && ah.len() < 16 {
            ah.push(((s, c.clone()), a));
          }
          if !got.insert(c.clone()) {
            return Err(format!("node {:?} lists {:?} twice", (s, i), c));
          }
        }
        if got != self.m.nodes[s][i] {
          return Err(format!(
            "node {:?} holds {:?}, expected {:?}",
            (s, i),
            got,
            self.m.nodes[s][i]
          ));
        }
      }
    }
    for ((s, c), a) in &self.alts {
      let got = self.content(*s, a)?;
      if got != *c {
        return Err(format!("alternative {:?} reads as {:?}", c, got));
      }
    }
    if full {
      laws("nodes", &nh)?;
      laws("alternatives", &ah)?;
      let mut leaves = Vec::new();
      let mut branches = Vec::new();
      let mut both = Vec::new();
      for (id, a) in &ah {
        match a.content() {
          NodeContent::Leaf(l) => leaves.push((id.clone(), l)),
          NodeContent::Branch(b) => branches.push((id.clone(), b)),
        }
        both.push((id.clone(), a.content()));
      }
      laws("leaves", &leaves)?;
      laws("branches", &branches)?;
      laws("contents", &both)?;
    }
    Ok(())
  }
}

#[derive(Clone, Copy)]
struct Bounds {
  depth: usize,
  nodes: usize,
  kids: usize,
  actions: u8,
  leaves: &'static [(u8, u8)],
  /// Reading a node while others, or the same, are written.
  walks: bool,
  lazy: bool,
  cross: bool,
}

/// Every operation possible in a state of the model.
fn ops(m: &Model, b: &Bounds) -> Vec<Op> {
  let mut v = Vec::new();
  let nodes: Vec<NodeId> = (0..m.nodes[0].len()).map(|i| (0, i)).collect();
  let room = nodes.len() < b.nodes;
  if room {
    v.push(Op::MakeNode(0));
    for (k, x) in b.leaves {
      v.push(Op::LeafNode(0, *k, *x));
    }
  }
  for (k, x) in b.leaves {
    v.push(Op::LeafAlt(0, *k, *x));
  }
  let mut seqs: Vec<Vec<NodeId>> = vec![vec![]];
  let mut from = 0;
  for _ in 0..b.kids {
    let to = seqs.len();
    for i in from..to {
      for n in &nodes {
        let mut s = seqs[i].clone();
        s.push(*n);
        seqs.push(s);
      }
    }
    from = to;
  }
  for s in &seqs {
    for a in 0..b.actions {
      v.push(Op::BranchAlt(0, a, s.clone()));
    }
    if room {
      v.push(Op::BranchNode(0, 0, s.clone()));
    }
  }
  for n in &nodes {
    for c in &m.alts[0] {
      v.push(Op::AddAlt(*n, 0, c.clone()));
    }
    for o in &nodes {
      v.push(Op::AddAll(*n, *o));
    }
  }
  if b.walks {
    for n in &nodes {
      v.push(Op::Spread(*n));
      v.extend(nodes.iter().map(|o| Op::CopyByAlts(*n, *o)));
    }
  }
  if b.lazy {
    if room {
      v.push(Op::LazyAlt(0, vec![Lazy::FreshNode]));
      v.push(Op::LazyAlt(0, vec![Lazy::FreshLeaf(0, 0)]));
      v.push(Op::LazyNode(0, vec![Lazy::FreshLeaf(0, 1), Lazy::FreshNode]));
    }
    for n in &nodes {
      v.push(Op::LazyAlt(0, vec![Lazy::AddLeaf(*n, 0, 0)]));
      v.push(Op::LazyAlt(0, vec![Lazy::Nested(*n)]));
      v.push(Op::LazyAlt(1, vec![Lazy::Read(*n), Lazy::Nested(*n)]));
      if room {
        v.push(Op::LazyNode(0, vec![Lazy::Nested(*n)]));
        v.push(Op::LazyNode(0, vec![Lazy::AddLeaf(*n, 0, 1), Lazy::Read(*n)]));
        v.push(Op::LazyAlt(0, vec![Lazy::Read(*n), Lazy::FreshNode]));
      }
      for o in &nodes {
        if o != n {
          v.push(Op::LazyAlt(0, vec![Lazy::Copy(*n, *o)]));
        }
      }
    }
  }
  if b.cross {
    if m.nodes[1].is_empty() {
      v.push(Op::LeafNode(1, 0, 0));
      v.push(Op::BranchNode(1, 0, vec![]));
    } else {
      let f = (1, 0);
      v.push(Op::BranchAlt(0, 0, vec![f]));
      v.push(Op::BranchNode(0, 0, vec![f]));
      v.push(Op::AddAll(f, f));
      v.push(Op::BranchAlt(1, 0, vec![f]));
      if m.nodes[1].len() < 2 {
        v.push(Op::BranchNode(1, 0, vec![f]));
      }
      if let Some(n) = nodes.first() {
        v.push(Op::AddAll(*n, f));
        v.push(Op::AddAll(f, *n));
        v.push(Op::BranchAlt(0, 0, vec![*n, f]));
        v.push(Op::BranchAlt(1, 0, vec![f, *n]));
        for c in &m.alts[1] {
          v.push(Op::AddAlt(*n, 1, c.clone()));
        }
        if let Some(c) = m.alts[0].first() {
          v.push(Op::AddAlt(f, 0, c.clone()));
        }
      }
    }
  }
  v
}

/// Replays a history; the last operation and the state after it are checked.
fn replay<T: Sort, AK: Sort, V: Sort>(
  hist: &[Op],
  full: bool,
) -> Result<Model, String> {
  let (a, b) = (TreeOwner::<T, AK, V>::new(), TreeOwner::default());
  let h = [a.handle(), b.handle()];
  let mut w = World::new(h.clone());
  for op in hist {
    w.apply(&h, op)?;
  }
  w.check(full)?;
  Ok(w.m)
}

fn step<T: Sort, AK: Sort, V: Sort>(
  hist: &[Op],
  full: bool,
) -> Result<Model, String> {
  guard(|| replay::<T, AK, V>(hist, full))
    .map_err(|p| format!("panics: {}", p))
    .and_then(|r| r)
    .map_err(|e| {
      let mut s = String::from("history:\n");
      for o in hist {
        s += &format!("  {:?}\n", o);
      }
      s + &e
    })
}

fn dfs<T: Sort, AK: Sort, V: Sort>(
  hist: &mut Vec<Op>,
  b: &Bounds,
  st: &mut Stats,
) -> Verdict {
  let m = step::<T, AK, V>(hist, true)?;
  st.traces += 1;
  st.transitions += 1;
  st.state(&m);
  if hist.len() == b.depth {
    st.sample(|| format!("{:?}", hist));
    return Ok(());
  }
  for op in ops(&m, b) {
    hist.push(op);
    dfs::<T, AK, V>(hist, b, st)?;
    hist.pop();
  }
  Ok(())
}

fn histories(name: &str, b: Bounds) -> Family {
  histories_of::<Av, Av, Av>(name, "", b)
}

fn histories_of<T: Sort, AK: Sort, V: Sort>(
  name: &str,
  note: &str,
  b: Bounds,
) -> Family {
  // One unit: a first operation and every 32nd second one.  Nothing runs
  // before the exploration does.
  const SPLIT: usize = 32;
  let first = ops(&Model::default(), &b);
  Family::new(
    name,
    (first.len() * SPLIT) as u64,
    format!(
      "every history of up to {} operations on up to {} nodes, branches of up \
       to {} children, leaves {:?}{}{}{}{}",
      b.depth,
      b.nodes,
      b.kids,
      b.leaves,
      if b.walks { ", nodes read while they are written" } else { "" },
      if b.lazy { ", children from iterators that use the store" } else { "" },
      if b.cross { ", a second store mixed in" } else { "" },
      note
    ),
    move |u, st| {
      let a = first[u as usize / SPLIT].clone();
      let m = step::<T, AK, V>(&[a.clone()], true)?;
      for c in ops(&m, &b).into_iter().skip(u as usize % SPLIT).step_by(SPLIT) {
        dfs::<T, AK, V>(&mut vec![a.clone(), c], &b, st)?;
      }
      Ok(())
    },
  )
}

/// The histories over stores of other types.
fn typed_histories(depth: usize) -> Vec<Family> {
  const L: &[(u8, u8)] = &[(0, 0), (0, 1), (1, 0)];
  let b = Bounds {
    depth,
    nodes: 2,
    kids: 1,
    actions: 2,
    leaves: L,
    walks: true,
    lazy: false,
    cross: false,
  };
  let unit = Bounds { actions: 1, leaves: &[(0, 0)], ..b };
  vec![
    histories_of::<(), (), ()>("of no size", ", types of no size", unit),
    histories_of::<(), bool, String>(
      "values only",
      ", leaves of one kind with texts",
      Bounds { leaves: &[(0, 0), (0, 1)], ..b },
    ),
    histories_of::<String, (), ()>(
      "kinds only",
      ", leaves of one value, branches of one action",
      Bounds { leaves: &[(0, 0), (1, 0)], actions: 1, ..b },
    ),
    histories_of::<Loose, Loose, Loose>("loose", ", a loose equality", b),
    histories_of::<Rev, Big, Big>("large", ", large and reversed types", b),
  ]
}

/// Far more nodes or alternatives than fit a small number.
fn crowds(max: usize) -> Family {
  let mut ns: Vec<usize> = edges(max).into_iter().filter(|n| *n > 2).collect();
  ns.extend([max - 1, max]);
  let ns: Vec<usize> = ns.into_iter().rev().collect();
  Family::new(
    "crowds",
    ns.len() as u64 * 3,
    format!(
      "stores of nodes, nodes of leaves and branches of children, as many as \
       there are around the powers of two up to {}",
      max
    ),
    move |u, st| {
      let n = ns[u as usize / 3];
      let o = TreeOwner::<u32, u32, u32>::new();
      let h = o.handle();
      // Apart by every power of two, at both ends and in the middle.
      let mut pairs: Vec<(usize, usize)> = Vec::new();
      for from in [0, 1, n / 2, n - 1] {
        for k in 0..20 {
          for to in [from + (1 << k), from.wrapping_sub(1 << k)] {
            if to < n {
              pairs.push((from, to));
            }
          }
        }
      }
      let err = |what: &str, p: (usize, usize)| {
        Err(format!("{} of {}: {:?} are confused", what, n, p))
      };
      st.states_extra += 1;
      st.traces += 1;
      st.transitions += n as u64;
      match u % 3 {
        0 => {
          let nodes: Vec<_> = (0..n).map(|_| h.make_node()).collect();
          for (a, b) in &pairs {
            let (x, y) = (&nodes[*a], &nodes[*b]);
            if x == y || x.cmp(y) == Ordering::Equal {
              return err("nodes", (*a, *b));
            }
          }
          for (k, (a, b)) in pairs.iter().enumerate() {
            // Each is found at its own place.
            let kids = vec![nodes[*a].clone(), nodes[*b].clone()];
            let alt = h.make_branch_alt(k as u32, kids.clone());
            if bool_of(nodes[*b].add_alt(&alt)) != true {
              return err("parents", (*a, *b));
            }
            match alt.content() {
              NodeContent::Branch(x) if x.nodes().eq(kids) => {}
              _ => return err("children", (*a, *b)),
            }
          }
          for (i, x) in nodes.iter().enumerate() {
            let want = pairs.iter().filter(|p| p.1 == i).count();
            if x.alts().count() != want {
              return err("alternatives of nodes", (i, i));
            }
          }
        }
        1 => {
          let (p, q) = (h.make_node(), h.make_node());
          let make = |i: usize| h.make_leaf_alt((i / 300) as u32, (i % 300) as u32);
          for i in 0..n {
            if !bool_of(p.add_alt(&make(n - 1 - i))) {
              return err("new leaves", (i, i));
            }
          }
          for (a, b) in &pairs {
            let (x, y) = (make(*a), make(*b));
            if x == y || x != make(*a) || bool_of(p.add_alt(&x)) {
              return err("leaves", (*a, *b));
            }
          }
          if !bool_of(q.add_all(&p)) || bool_of(q.add_all(&p)) || bool_of(p.add_all(&q)) {
            return err("copies", (0, 0));
          }
          for node in [p, q] {
            let mut seen = vec![false; n];
            for a in node.alts() {
              let i = match a.content() {
                NodeContent::Leaf(l) => l.kind() as usize * 300 + *l.value() as usize,
                _ => n,
              };
              if i >= n || std::mem::replace(&mut seen[i], true) {
                return err("listed leaves", (i, i));
              }
            }
            if !seen.iter().all(|s| *s) {
              return err("missing leaves", (0, 0));
            }
          }
        }
        _ => {
          let n = n.min(5000);
          let nodes: Vec<_> = (0..3).map(|_| h.make_node()).collect();
          let list = |at: usize, len: usize| {
            (0..len).map(|i| (i % 2) ^ (i == at) as usize * 2).collect::<Vec<_>>()
          };
          let make = |l: &Vec<usize>| {
            h.make_branch_alt(1, l.iter().map(|i| nodes[*i % 3].clone()).collect::<Vec<_>>())
          };
          let base = make(&list(n, n));
          let mut at: Vec<usize> = edges(n).into_iter().filter(|i| *i < n).collect();
          at.extend([n / 2, n - 1]);
          for i in at {
            let l = list(i, n);
            let (x, y) = (make(&l), make(&l));
            if x == base || x != y || x == make(&list(i, n + 1)) {
              return err("branches with another child", (i, n));
            }
            let ok = match x.content() {
              NodeContent::Branch(b) => {
                b.nodes().eq(l.iter().map(|i| nodes[*i % 3].clone()))
              }
              _ => false,
            };
            if !ok {
              return err("children of a branch", (i, n));
            }
          }
        }
      }
      Ok(())
    },
  )
}

/// Branches with the given number of children: one differing child at every
/// position must make a different alternative.
fn wide(max: u64) -> Family {
  Family::new(
    "wide branches",
    max + 1,
    format!("branches of 0 to {} children, each child in turn another", max),
    |n, st| {
      let n = n as usize;
      let o = Owner::new();
      let h = o.handle();
      let nodes: Vec<N> = (0..3).map(|_| h.make_node()).collect();
      let mut made: Vec<(Vec<usize>, A)> = Vec::new();
      let mut lists: Vec<Vec<usize>> = vec![vec![0; n], vec![1; n]];
      for p in 0..n {
        for d in 1..3 {
          let mut l = vec![0; n];
          l[p] = d;
          lists.push(l);
        }
      }
      lists.push((0..n).map(|i| i % 3).collect());
      lists.push((0..n).map(|i| (n - i) % 3).collect());
      lists.push(vec![0; n + 1]);
      lists.sort();
      lists.dedup();
      let all = h.make_node();
      for round in 0..2 {
        for l in &lists {
          let a = h.make_branch_alt(
            7,
            l.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>(),
          );
          let c = bool_of(all.add_alt(&a));
          if c != (round == 0) {
            return Err(format!("adding a branch of {:?} changes: {}", l, c));
          }
          let back: Vec<usize> = match a.content() {
            NodeContent::Branch(b) => b
              .nodes()
              .map(|x| nodes.iter().position(|y| *y == x).unwrap_or(99))
              .collect(),
            _ => vec![98],
          };
          if back != *l {
            return Err(format!("a branch of {:?} reads as {:?}", l, back));
          }
          st.traces += 1;
          made.push((l.clone(), a));
        }
      }
      let k = lists.len();
      for i in 0..k {
        for j in [i, (i + 1) % k, (i + 7) % k] {
          let (x, y) = (&made[i].1, &made[k + j].1);
          if (x == y) != (i == j) || (x.cmp(y) == Ordering::Equal) != (i == j) {
            return Err(format!(
              "branches of {:?} and {:?} compare wrongly",
              made[i].0,
              made[k + j].0
            ));
          }
        }
      }
      if all.alts().count() != k {
        return Err(format!("{} alternatives of {}", all.alts().count(), k));
      }
      st.states_extra += k as u64;
      Ok(())
    },
  )
}

/// Copies between nodes holding every pair of subsets of the alternatives.
fn subsets(n: usize) -> Family {
  Family::new(
    "copies",
    1 << n,
    format!("add_all between nodes holding every two subsets of {} alternatives, in every direction and then back", n),
    move |x, st| {
      for y in 0..1u64 << n {
        let o = Owner::new();
        let h = o.handle();
        let third = h.make_node();
        let (p, q) = (h.make_node(), h.make_node());
        let mut alts: Vec<A> = Vec::new();
        for i in 0..n {
          alts.push(if i % 2 == 0 {
            h.make_leaf_alt(i as u8, (n - i) as u8)
          } else {
            h.make_branch_alt(i as u8, vec![p.clone(), q.clone()])
          });
        }
        // Descending, so that order of insertion and order differ.
        for i in (0..n).rev() {
          if x & (1 << i) != 0 {
            p.add_alt(&alts[i]);
          }
          if y & (1 << i) != 0 {
            q.add_alt(&alts[i]);
          }
        }
        third.add_alt(&alts[0]);
        let set = |m: &N| -> Result<u64, String> {
          let mut r = 0;
          for a in m.alts() {
            let i = alts
              .iter()
              .position(|b| *b == a)
              .ok_or("an unknown alternative")?;
            if r & (1 << i) != 0 {
              return Err("an alternative is listed twice".to_string());
            }
            r |= 1 << i;
          }
          Ok(r)
        };
        let mut want = (x, y);
        for (k, dir) in [0, 0, 1, 2, 3].iter().enumerate() {
          let (c, before) = match dir {
            0 => (p.add_all(&q), want.0),
            1 => (q.add_all(&p), want.1),
            2 => (q.add_all(&third), want.1),
            _ => (p.add_all(&p), want.0),
          };
          let after = match dir {
            0 => want.0 | want.1,
            1 => want.0 | want.1,
            2 => want.1 | 1,
            _ => want.0,
          };
          match dir {
            0 | 3 => want.0 = after,
            _ => want.1 = after,
          }
          let got = (set(&p)?, set(&q)?, set(&third)?);
          if bool_of(c) != (before != after) || got != (want.0, want.1, 1) {
            return Err(format!(
              "from {:b} and {:b}, copy {} of p+=q p+=q q+=p q+=third p+=p: \
               changed {:?}, nodes {:?}",
              x, y, k, c, got
            ));
          }
          st.transitions += 1;
        }
        st.traces += 1;
        st.states_extra += 1;
      }
      Ok(())
    },
  )
}

/// Many nodes and many leaves: identities stay apart.
fn many(max: u64) -> Family {
  Family::new(
    "many",
    max + 1,
    format!("0 to {} nodes with leaves of every kind and value below 4", max),
    |n, st| {
      let n = n as usize;
      let o = Owner::new();
      let h = o.handle();
      let mut nodes: Vec<N> = Vec::new();
      let mut want: BTreeMap<usize, BTreeSet<(u8, u8)>> = BTreeMap::new();
      for i in 0..n {
        let x = h.make_leaf_node((i % 4) as u8, (i / 4 % 4) as u8);
        want.entry(i).or_default().insert(((i % 4) as u8, (i / 4 % 4) as u8));
        for (j, y) in nodes.iter().enumerate() {
          if x == *y || x.cmp(y) == Ordering::Equal {
            return Err(format!("node {} equals node {}", i, j));
          }
        }
        nodes.push(x);
        let (a, b) = (i / 2, i / 3);
        let ch = bool_of(nodes[a].add_all(&nodes[b]));
        let add = want[&b].clone();
        let w = want.get_mut(&a).unwrap();
        let k = w.len();
        w.extend(add);
        if ch != (w.len() != k) {
          return Err(format!("copying {} to {} changes: {}", b, a, ch));
        }
        st.transitions += 2;
      }
      for (i, x) in nodes.iter().enumerate() {
        let mut got = BTreeSet::new();
        let mut k = 0;
        for a in x.alts() {
          if let NodeContent::Leaf(l) = a.content() {
            got.insert((l.kind(), *l.value()));
          }
          k += 1;
        }
        if got != want[&i] || k != got.len() {
          return Err(format!("node {} holds {:?}", i, got));
        }
      }
      st.traces += 1;
      st.states_extra += 1;
      Ok(())
    },
  )
}

/// Children lists that mix stores at any place, from nodes or from iterators
/// that have already added to the store.
fn mixing() -> Family {
  Family::new(
    "mixing",
    6,
    "children lists of up to 5 nodes of two stores, every mix, both \
     constructors, then every operation again",
    |n, st| {
      for mask in 0..1u64 << n {
        for node in [false, true] {
          for by in [0, 1] {
            type Store = TreeOwner<Av, Av, Av>;
            let (o, p) = (Store::new(), Store::new());
            let h = [o.handle(), p.handle()];
            let mut w = World::new(h.clone());
            for op in [
              Op::LeafNode(0, 0, 0),
              Op::LeafNode(1, 0, 0),
              Op::BranchNode(by, 1, vec![(by, 0)]),
            ] {
              w.apply(&h, &op)?;
            }
            let kids: Vec<NodeId> = (0..n)
              .map(|i| ((mask >> i & 1) as usize, 0))
              .collect();
            let op = if node {
              Op::BranchNode(by, 1, kids)
            } else {
              Op::BranchAlt(by, 1, kids)
            };
            let mut hist = vec![op.clone()];
            let ctx = |e: String, hist: &Vec<Op>| format!("{:?}: {}", hist, e);
            w.apply(&h, &op).map_err(|e| ctx(e, &hist))?;
            w.check(true).map_err(|e| ctx(e, &hist))?;
            for op in [
              Op::MakeNode(0),
              Op::MakeNode(1),
              Op::LeafNode(0, 1, 1),
              Op::LeafNode(1, 1, 1),
              Op::AddAll((0, 0), (1, 0)),
              Op::AddAll((1, 0), (0, 0)),
              Op::AddAll((0, 0), (0, w.m.nodes[0].len() - 1)),
              Op::AddAll((1, 0), (1, w.m.nodes[1].len() - 1)),
              op,
            ] {
              hist.push(op.clone());
              let r = guard(|| w.apply(&h, &op)).unwrap_or_else(|p| Err(p));
              r.map_err(|e| ctx(e, &hist))?;
              w.check(false).map_err(|e| ctx(e, &hist))?;
              st.transitions += 1;
            }
            st.traces += 1;
            st.states_extra += 1;
          }
        }
      }
      Ok(())
    },
  )
}

pub fn p16(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  const L: &[(u8, u8)] = &[(0, 0), (0, 1), (1, 0)];
  let base = Bounds {
    depth: 4,
    nodes: 3,
    kids: 2,
    actions: 2,
    leaves: L,
    walks: true,
    lazy: true,
    cross: true,
  };
  let mut f = vec![
    wide(if deep { 300 } else { 140 }),
    many(if deep { 400 } else { 150 }),
    subsets(if deep { 8 } else { 6 }),
    mixing(),
    crowds(70000),
    histories("histories", base),
    histories(
      "long histories",
      Bounds {
        depth: if deep { 8 } else { 6 },
        nodes: 2,
        kids: 1,
        actions: 1,
        leaves: &[(0, 0)],
        walks: false,
        lazy: false,
        cross: false,
      },
    ),
  ];
  f.extend(typed_histories(if deep { 6 } else { 5 }));
  if deep {
    f.push(histories("histories-5", Bounds { depth: 5, ..base }));
  }
  Property {
    id: "P16",
    families: f,
    assumptions: vec![
      "a second store takes part with at most two nodes".into(),
    ],
    explanation: "states: contents of the two stores; transitions: operations. \
      Every history is run on real stores; each result, every node, every \
      alternative handle and all their equalities are compared with the model"
      .into(),
  }
}
