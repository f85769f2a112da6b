//! P17: the tree store under every interleaving of a few threads.
//!
//! Each thread is a coroutine that runs the real operations of the store; the
//! store's lock (replaced through the `sync` hook) hands control back to the
//! scheduler below before it is taken.

use crate::dotgraph::{canonical, Graph};
use crate::engine::*;
use crate::sched::{self, Ctx, Policies, Policy};
use bongo::parsers::tree::*;
use bongo::utils::WasChanged;
use bongo::verif_sync::set_hook;
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Owner = TreeOwner<u8, u8, u8>;
type H = TreeHandle<'static, u8, u8, u8>;
type N = Node<'static, u8, u8, u8>;
type A = Alternative<'static, u8, u8, u8>;

// ------------------------------------------------------------ operations

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum NRef {
  /// A node that exists before the threads start.
  Shared(u8),
  /// The node this thread made last, or the first shared one.
  Own,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum ARef {
  Shared(u8),
  Own,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Op {
  MakeNode,
  LeafAlt(u8),
  LeafNode(u8),
  BranchAlt(NRef, NRef),
  BranchNode(NRef),
  /// A branch whose children come from an iterator that adds an alternative
  /// to a node before it yields it.
  LazyAdd(NRef, ARef),
  /// A branch whose child is made by the iterator.
  LazyMake(u8),
  /// A branch node whose children come from an iterator that reads and copies.
  LazyCopy(NRef, NRef),
  AddAlt(NRef, ARef),
  AddAll(NRef, NRef),
  Read(NRef),
  /// Reads a node and everything its alternatives say.
  Inspect(NRef),
  /// Adds an alternative while the alternatives of a node are being walked.
  Walk(NRef, NRef, ARef),
  Dot(NRef),
  /// Refused: the child belongs to another store.
  ForeignBranch,
  ForeignCopy,
  /// Works on the other store.
  OtherCopy,
}

/// Names of nodes in the model: shared, or made as the n-th by a thread; the
/// last number tells stores apart.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Sym {
  Shared(u8),
  Made(u8, u8),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Content {
  Leaf(u8, u8),
  Branch(u8, Vec<Sym>),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Obs {
  Done,
  Changed(bool),
  Alts(Vec<Content>),
  Graph(u64),
  Refused,
  Panicked(String),
}

/// What a thread did and saw, operation by operation, and what is left.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
struct Outcome {
  obs: Vec<Vec<Obs>>,
  nodes: BTreeMap<Sym, BTreeSet<Content>>,
}

// ------------------------------------------------------------ model

/// Atomic steps of the model.  An operation whose children iterator works on
/// the store is several of them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Atom {
  MakeNode,
  LeafAlt(u8),
  LeafNode(u8),
  BranchAlt(u8, Option<NRef>, Option<NRef>),
  BranchNode(u8, NRef),
  AddAlt(NRef, ARef),
  AddAll(NRef, NRef),
  Read(NRef),
  Dot(NRef),
  Refused,
}

fn atoms(op: Op) -> Vec<Atom> {
  match op {
    Op::MakeNode => vec![Atom::MakeNode],
    Op::LeafAlt(v) => vec![Atom::LeafAlt(v)],
    Op::LeafNode(v) => vec![Atom::LeafNode(v)],
    Op::BranchAlt(a, b) => vec![Atom::BranchAlt(0, Some(a), Some(b))],
    Op::BranchNode(a) => vec![Atom::BranchNode(1, a)],
    Op::LazyAdd(n, a) => {
      vec![Atom::AddAlt(n, a), Atom::BranchAlt(2, Some(n), None)]
    }
    Op::LazyMake(v) => {
      vec![Atom::LeafNode(v), Atom::BranchAlt(2, Some(NRef::Own), None)]
    }
    Op::LazyCopy(a, b) => {
      vec![Atom::Read(a), Atom::AddAll(a, b), Atom::BranchNode(3, a)]
    }
    Op::AddAlt(n, a) => vec![Atom::AddAlt(n, a)],
    Op::AddAll(a, b) => vec![Atom::AddAll(a, b)],
    Op::Read(n) | Op::Inspect(n) => vec![Atom::Read(n)],
    Op::Walk(n, m, a) => vec![Atom::Read(n), Atom::AddAlt(m, a)],
    Op::Dot(n) => vec![Atom::Dot(n)],
    Op::ForeignBranch | Op::ForeignCopy => vec![Atom::Refused],
    Op::OtherCopy => {
      vec![Atom::AddAll(NRef::Shared(3), NRef::Shared(2))]
    }
  }
}

const SHARED: u8 = 4;

/// The store before the threads start: node 0 holds the leaf 0, node 1 is
/// empty; nodes 2 and 3 are of another store, 2 holds a leaf.  In a crowded
/// store the nodes 0 and 1 hold that many leaves more.
#[derive(Clone)]
struct Model {
  nodes: BTreeMap<Sym, BTreeSet<Content>>,
  own_node: Vec<Option<Sym>>,
  own_alt: Vec<Option<Content>>,
  made: Vec<u8>,
}

fn shared_alt(i: u8) -> Content {
  match i {
    0 => Content::Leaf(0, 0),
    1 => Content::Leaf(0, 1),
    _ => Content::Branch(0, vec![Sym::Shared(1)]),
  }
}

impl Model {
  fn new(threads: usize, crowd: u8) -> Model {
    let mut nodes: BTreeMap<Sym, BTreeSet<Content>> =
      (0..SHARED).map(|i| (Sym::Shared(i), BTreeSet::new())).collect();
    for i in [0, 2] {
      nodes.get_mut(&Sym::Shared(i)).unwrap().insert(shared_alt(0));
    }
    for (i, n) in (0..crowd).flat_map(|i| [(i, 0), (i, 1)]) {
      nodes.get_mut(&Sym::Shared(n)).unwrap().insert(Content::Leaf(8 + n, i));
    }
    Model {
      nodes,
      own_node: vec![None; threads],
      own_alt: vec![None; threads],
      made: vec![0; threads],
    }
  }

  fn node(&self, t: usize, n: NRef) -> Sym {
    match n {
      NRef::Shared(i) => Sym::Shared(i),
      NRef::Own => self.own_node[t].unwrap_or(Sym::Shared(0)),
    }
  }

  fn alt(&self, t: usize, a: ARef) -> Content {
    match a {
      ARef::Shared(i) => shared_alt(i),
      ARef::Own => self.own_alt[t].clone().unwrap_or(shared_alt(1)),
    }
  }

  fn fresh(&mut self, t: usize) -> Sym {
    let s = Sym::Made(t as u8, self.made[t]);
    self.made[t] += 1;
    self.nodes.insert(s, BTreeSet::new());
    self.own_node[t] = Some(s);
    s
  }

  fn add(&mut self, n: Sym, c: Content) -> bool {
    self.nodes.get_mut(&n).unwrap().insert(c)
  }

  fn step(&mut self, t: usize, a: Atom) -> Obs {
    match a {
      Atom::MakeNode => {
        self.fresh(t);
        Obs::Done
      }
      Atom::LeafAlt(v) => {
        self.own_alt[t] = Some(Content::Leaf(1, v));
        Obs::Done
      }
      Atom::LeafNode(v) => {
        let n = self.fresh(t);
        self.add(n, Content::Leaf(1, v));
        Obs::Done
      }
      Atom::BranchAlt(k, a, b) => {
        let v = a.into_iter().chain(b).map(|n| self.node(t, n)).collect();
        self.own_alt[t] = Some(Content::Branch(k, v));
        Obs::Done
      }
      Atom::BranchNode(k, a) => {
        let c = Content::Branch(k, vec![self.node(t, a)]);
        let n = self.fresh(t);
        self.add(n, c);
        Obs::Done
      }
      Atom::AddAlt(n, a) => {
        let c = self.alt(t, a);
        Obs::Changed(self.add(self.node(t, n), c))
      }
      Atom::AddAll(a, b) => {
        let (a, b) = (self.node(t, a), self.node(t, b));
        let add = self.nodes[&b].clone();
        let mut ch = false;
        for c in add {
          ch |= self.add(a, c);
        }
        Obs::Changed(ch)
      }
      Atom::Read(n) => Obs::Alts(
        self.nodes[&self.node(t, n)].iter().cloned().collect(),
      ),
      Atom::Dot(n) => Obs::Graph(self.graph(self.node(t, n))),
      Atom::Refused => Obs::Refused,
    }
  }

  fn graph(&self, root: Sym) -> u64 {
    let mut vs: Vec<(String, String)> = Vec::new();
    let mut es = Vec::new();
    let mut seen: BTreeMap<Sym, usize> = BTreeMap::new();
    let mut alts: BTreeMap<Content, usize> = BTreeMap::new();
    let mut todo = vec![root];
    seen.insert(root, 0);
    vs.push(("point".into(), String::new()));
    while let Some(n) = todo.pop() {
      for c in &self.nodes[&n] {
        let from = seen[&n];
        let new = !alts.contains_key(c);
        if new {
          alts.insert(c.clone(), vs.len());
          vs.push((
            "box".into(),
            match c {
              Content::Leaf(k, v) => format!("{:?}({:?})", k, v),
              Content::Branch(k, _) => format!("{:?}", k),
            },
          ));
        }
        let a = alts[c];
        es.push((from, a));
        if let (true, Content::Branch(_, kids)) = (new, c) {
          for k in kids {
            if !seen.contains_key(k) {
              seen.insert(*k, vs.len());
              vs.push(("point".into(), String::new()));
              todo.push(*k);
            }
            es.push((a, seen[k]));
          }
        }
      }
    }
    canonical(&vs, &es, 6)
  }
}

type Program = Vec<Vec<Op>>;

/// All sequential runs of a program: each outcome with the orders, as
/// sequences of threads, one entry per atomic step, that lead to it.
fn serial(p: &Program, crowd: u8) -> HashMap<Outcome, Vec<Vec<u8>>> {
  fn go(
    p: &[Vec<Atom>],
    at: &mut Vec<usize>,
    m: &Model,
    obs: &mut Vec<Vec<Obs>>,
    order: &mut Vec<u8>,
    out: &mut HashMap<Outcome, Vec<Vec<u8>>>,
  ) {
    let mut end = true;
    for t in 0..p.len() {
      if at[t] < p[t].len() {
        end = false;
        let mut m2 = m.clone();
        let o = m2.step(t, p[t][at[t]]);
        at[t] += 1;
        obs[t].push(o);
        order.push(t as u8);
        go(p, at, &m2, obs, order, out);
        order.pop();
        obs[t].pop();
        at[t] -= 1;
      }
    }
    if end {
      let o = Outcome { obs: obs.clone(), nodes: m.nodes.clone() };
      out.entry(o).or_default().push(order.clone());
    }
  }
  let ps: Vec<Vec<Atom>> = p
    .iter()
    .map(|t| t.iter().flat_map(|o| atoms(*o)).collect())
    .collect();
  let mut out = HashMap::new();
  let n = p.len();
  go(
    &ps,
    &mut vec![0; n],
    &Model::new(n, crowd),
    &mut vec![vec![]; n],
    &mut vec![],
    &mut out,
  );
  out
}

// ------------------------------------------------------------ execution

struct Thread {
  t: usize,
  ops: Vec<Op>,
  h: &'static [H; 2],
  nodes: Vec<N>,
  alts: Vec<A>,
  made: Vec<N>,
  own_alt: Option<A>,
  /// Every alternative this thread made.
  kept: Vec<A>,
  obs: Vec<RawObs>,
  started: Vec<usize>,
  finished: Vec<usize>,
}

/// Observations that still name nodes by handle.
enum RawObs {
  Plain(Obs),
  Alts(Vec<A>),
  /// With what they said at the time.
  Inspected(Vec<(A, Said)>),
}

#[derive(PartialEq)]
enum Said {
  Leaf(u8, u8),
  Branch(u8, Vec<N>),
}

fn said(a: &A) -> Said {
  match a.content() {
    NodeContent::Leaf(l) => Said::Leaf(l.kind(), *l.value()),
    NodeContent::Branch(b) => Said::Branch(b.action(), b.nodes().collect()),
  }
}

impl Thread {
  fn node(&self, n: NRef) -> N {
    match n {
      NRef::Shared(i) => self.nodes[i as usize].clone(),
      NRef::Own => self.made.last().unwrap_or(&self.nodes[0]).clone(),
    }
  }
  fn alt(&self, a: ARef) -> A {
    match a {
      ARef::Shared(i) => self.alts[i as usize].clone(),
      ARef::Own => self.own_alt.as_ref().unwrap_or(&self.alts[1]).clone(),
    }
  }
  fn keep(&mut self, a: A) {
    self.own_alt = Some(a.clone());
    self.kept.push(a);
  }

  fn run_op(&mut self, op: Op) {
    let h = &self.h[0];
    let ch = |w| RawObs::Plain(Obs::Changed(w == WasChanged::Changed));
    let done = || RawObs::Plain(Obs::Done);
    let obs = match op {
      Op::MakeNode => {
        self.made.push(h.make_node());
        vec![done()]
      }
      Op::LeafAlt(v) => {
        let a = h.make_leaf_alt(1, v);
        self.keep(a);
        vec![done()]
      }
      Op::LeafNode(v) => {
        self.made.push(h.make_leaf_node(1, v));
        vec![done()]
      }
      Op::BranchAlt(a, b) => {
        let k = vec![self.node(a), self.node(b)];
        let a = h.make_branch_alt(0, k);
        self.keep(a);
        vec![done()]
      }
      Op::BranchNode(a) => {
        let k = vec![self.node(a)];
        self.made.push(h.make_branch_node(1, k));
        vec![done()]
      }
      Op::LazyAdd(n, a) => {
        let mut r = None;
        let (n, a) = (self.node(n), self.alt(a));
        let x = h.make_branch_alt(
          2,
          std::iter::once(()).map(|_| {
            r = Some(n.add_alt(&a));
            n.clone()
          }),
        );
        self.keep(x);
        vec![ch(r.unwrap()), done()]
      }
      Op::LazyMake(v) => {
        let mut made = None;
        let x = h.make_branch_alt(
          2,
          std::iter::once(()).map(|_| {
            let n = h.make_leaf_node(1, v);
            made = Some(n.clone());
            n
          }),
        );
        self.made.push(made.unwrap());
        self.keep(x);
        vec![done(), done()]
      }
      Op::LazyCopy(a, b) => {
        let (a, b) = (self.node(a), self.node(b));
        let mut r = None;
        let x = h.make_branch_node(
          3,
          std::iter::once(()).map(|_| {
            let alts: Vec<A> = a.alts().collect();
            r = Some((alts, a.add_all(&b)));
            a.clone()
          }),
        );
        self.made.push(x);
        let r = r.unwrap();
        vec![RawObs::Alts(r.0), ch(r.1), done()]
      }
      Op::AddAlt(n, a) => vec![ch(self.node(n).add_alt(&self.alt(a)))],
      Op::AddAll(a, b) => vec![ch(self.node(a).add_all(&self.node(b)))],
      Op::Read(n) => {
        vec![RawObs::Alts(self.node(n).alts().collect())]
      }
      Op::Inspect(n) => {
        vec![RawObs::Inspected(
          self.node(n).alts().map(|a| (a.clone(), said(&a))).collect(),
        )]
      }
      Op::Walk(n, m, a) => {
        let mut it = self.node(n).alts();
        let mut v: Vec<A> = it.next().into_iter().collect();
        let r = self.node(m).add_alt(&self.alt(a));
        v.extend(it);
        vec![RawObs::Alts(v), ch(r)]
      }
      Op::Dot(n) => {
        let s = self.node(n).to_dot();
        vec![RawObs::Plain(match Graph::parse(&s) {
          Ok(g) => {
            let vs: Vec<(String, String)> =
              g.vertices.into_iter().map(|v| (v.1, v.2)).collect();
            Obs::Graph(canonical(&vs, &g.edges, 6))
          }
          Err(e) => Obs::Panicked(e),
        })]
      }
      Op::ForeignBranch | Op::ForeignCopy => {
        let (a, f) = (self.node(NRef::Shared(0)), self.node(NRef::Shared(2)));
        let r = guard(|| {
          if op == Op::ForeignCopy {
            a.add_all(&f);
          } else {
            h.make_branch_alt(0, vec![a, f]);
          }
        });
        vec![RawObs::Plain(match r {
          Ok(()) => Obs::Done,
          Err(_) => Obs::Refused,
        })]
      }
      Op::OtherCopy => {
        let (a, b) = (self.node(NRef::Shared(3)), self.node(NRef::Shared(2)));
        vec![ch(a.add_all(&b))]
      }
    };
    self.obs.extend(obs);
  }

  fn run(&mut self, c: &Ctx) {
    for (i, op) in self.ops.clone().into_iter().enumerate() {
      if i > 0 {
        c.step();
      }
      self.started.push(c.tick());
      let r = guard(|| self.run_op(op));
      if let Err(e) = r {
        self.obs.push(RawObs::Plain(Obs::Panicked(e)));
        break;
      }
      self.finished.push(c.tick());
    }
  }
}

enum End {
  Outcome(Outcome),
  Deadlock(String),
}

struct Trace {
  /// (choice, number of choices, whether another choice is a preemption)
  choices: Vec<(usize, usize, bool)>,
  steps: Vec<u8>,
  end: End,
  seen: sched::Seen,
  acquired: u64,
  started: Vec<Vec<usize>>,
  finished: Vec<Vec<usize>>,
}

/// Runs a program under a schedule: the given choices, then the first one.
fn execute(
  p: &Program,
  crowd: u8,
  prefix: &[usize],
  policy: Policy,
) -> Result<Trace, String> {
  // The owners outlive every handle: they are released last.
  let owners: Box<[Owner; 2]> = Box::new([Owner::new(), Owner::new()]);
  let owners_ptr = Box::into_raw(owners);
  let owners: &'static [Owner; 2] = unsafe { &*owners_ptr };
  let handles = Box::into_raw(Box::new([owners[0].handle(), owners[1].handle()]));
  let h: &'static [H; 2] = unsafe { &*handles };
  let nodes: Vec<N> = vec![
    h[0].make_node(),
    h[0].make_node(),
    h[1].make_node(),
    h[1].make_node(),
  ];
  let alts: Vec<A> = vec![
    h[0].make_leaf_alt(0, 0),
    h[0].make_leaf_alt(0, 1),
    h[0].make_branch_alt(0, vec![nodes[1].clone()]),
  ];
  nodes[0].add_alt(&alts[0]);
  nodes[2].add_alt(&h[1].make_leaf_alt(0, 0));
  for i in 0..crowd {
    for n in [0, 1] {
      nodes[n as usize].add_alt(&h[0].make_leaf_alt(8 + n, i));
    }
  }

  let mut threads: Vec<Box<Thread>> = p
    .iter()
    .enumerate()
    .map(|(t, ops)| {
      Box::new(Thread {
        t,
        ops: ops.clone(),
        h,
        nodes: nodes.clone(),
        alts: alts.clone(),
        made: vec![],
        own_alt: None,
        kept: vec![],
        obs: vec![],
        started: vec![],
        finished: vec![],
      })
    })
    .collect();
  let run = {
    let bodies = threads
      .iter_mut()
      .map(|t| Box::new(move |c: &Ctx| t.run(c)) as sched::Body)
      .collect();
    sched::run(bodies, prefix, policy)
  };
  let run = match run {
    Ok(r) if r.deadlock.is_none() => r,
    r => {
      // The stuck threads are abandoned with everything they use.
      std::mem::forget(threads);
      let r = r?;
      return Ok(Trace {
        end: End::Deadlock(r.deadlock.unwrap()),
        choices: r.choices,
        steps: r.steps,
        seen: r.seen,
        acquired: r.acquired,
        started: vec![],
        finished: vec![],
      });
    }
  };
  let started = threads.iter().map(|t| t.started.clone()).collect();
  let finished = threads.iter().map(|t| t.finished.clone()).collect();
  let end = guard(|| outcome(&threads, &nodes))
    .unwrap_or_else(|e| Err(format!("reading the final state panics: {}", e)));
  drop(threads);
  drop(nodes);
  drop(alts);
  unsafe {
    drop(Box::from_raw(handles));
    drop(Box::from_raw(owners_ptr));
  }
  let end = End::Outcome(
    end.map_err(|e| format!("schedule {:?}: {}", run.steps, e))?,
  );
  Ok(Trace {
    choices: run.choices,
    steps: run.steps,
    end,
    seen: run.seen,
    acquired: run.acquired,
    started,
    finished,
  })
}

/// Reads everything back, naming nodes as the model does.
fn outcome(threads: &[Box<Thread>], shared: &[N]) -> Result<Outcome, String> {
  let mut names: Vec<(Sym, &N)> = shared
    .iter()
    .enumerate()
    .map(|(i, n)| (Sym::Shared(i as u8), n))
    .collect();
  for t in threads {
    for (i, n) in t.made.iter().enumerate() {
      names.push((Sym::Made(t.t as u8, i as u8), n));
    }
  }
  for i in 0..names.len() {
    for j in 0..i {
      if names[i].1 == names[j].1 {
        return Err(format!("{:?} and {:?} are equal", names[i].0, names[j].0));
      }
    }
  }
  let sym = |n: &N| {
    names
      .iter()
      .find(|x| x.1 == n)
      .map(|x| x.0)
      .ok_or("a node nobody made".to_string())
  };
  let mut all: Vec<(Content, A)> = Vec::new();
  let mut read = |a: &A| -> Result<Content, String> {
    let c = match a.content() {
      NodeContent::Leaf(l) => Content::Leaf(l.kind(), *l.value()),
      NodeContent::Branch(b) => Content::Branch(
        b.action(),
        b.nodes().map(|n| sym(&n)).collect::<Result<_, _>>()?,
      ),
    };
    all.push((c.clone(), a.clone()));
    Ok(c)
  };
  let mut nodes = BTreeMap::new();
  for (s, n) in &names {
    let mut set = BTreeSet::new();
    let foreign = matches!(s, Sym::Shared(2) | Sym::Shared(3));
    for a in n.alts() {
      let c = if foreign {
        match a.content() {
          NodeContent::Leaf(l) => Content::Leaf(l.kind(), *l.value()),
          _ => return Err("a branch in the other store".to_string()),
        }
      } else {
        read(&a)?
      };
      if !set.insert(c.clone()) {
        return Err(format!("{:?} holds {:?} twice", s, c));
      }
    }
    nodes.insert(*s, set);
  }
  let mut obs = Vec::new();
  for t in threads {
    for a in &t.kept {
      read(a)?;
    }
    let mut v = Vec::new();
    for o in &t.obs {
      v.push(match o {
        RawObs::Plain(o) => o.clone(),
        RawObs::Alts(a) => {
          let mut c =
            a.iter().map(&mut read).collect::<Result<Vec<_>, _>>()?;
          c.sort();
          Obs::Alts(c)
        }
        RawObs::Inspected(a) => {
          if a.iter().any(|(a, s)| said(a) != *s) {
            return Err("an alternative changed what it says".to_string());
          }
          let mut c =
            a.iter().map(|(a, _)| read(a)).collect::<Result<Vec<_>, _>>()?;
          c.sort();
          Obs::Alts(c)
        }
      });
    }
    obs.push(v);
  }
  // Equal alternatives are those that say the same.
  let mut by_content: BTreeMap<&Content, &A> = BTreeMap::new();
  for (c, a) in &all {
    let first = by_content.entry(c).or_insert(a);
    if *first != a {
      return Err(format!("two alternatives for {:?}", c));
    }
  }
  let different: BTreeSet<&A> = by_content.values().copied().collect();
  if different.len() != by_content.len() {
    return Err("one alternative for two contents".to_string());
  }
  Ok(Outcome { obs, nodes })
}

/// Whether a sequential order respects that an operation that ended before
/// another started comes first.
fn respects(order: &[u8], p: &Program, tr: &Trace) -> bool {
  // Operation number of each atomic step of each thread.
  let of: Vec<Vec<usize>> = p
    .iter()
    .map(|t| {
      t.iter()
        .enumerate()
        .flat_map(|(i, o)| vec![i; atoms(*o).len()])
        .collect()
    })
    .collect();
  let mut at = vec![0; p.len()];
  let mut seen: Vec<(usize, usize)> = Vec::new();
  for t in order {
    let t = *t as usize;
    let op = of[t][at[t]];
    at[t] += 1;
    for (u, o) in &seen {
      // (u, o) comes before (t, op): it must not have started after its end.
      if tr.started[*u][*o] > tr.finished[t][op] {
        return false;
      }
    }
    seen.push((t, op));
  }
  true
}

fn explore(p: &Program, crowd: u8, bound: usize, st: &mut Stats) -> Verdict {
  let want = serial(p, crowd);
  let mut seen: BTreeSet<&Outcome> = BTreeSet::new();
  let fail = |tr: &Trace, wf: Policy, e: String| {
    let show: Vec<String> = p
      .iter()
      .enumerate()
      .map(|(t, o)| format!("  thread {}: {:?}", t, o))
      .collect();
    format!(
      "{}\n{} more leaves in the nodes 0 and 1\nschedule (thread of each step, a step runs to the next lock or \
       operation{}): {:?}\n{}",
      show.join("\n"),
      crowd,
      wf,
      tr.steps,
      e
    )
  };
  let mut policies = Policies::default();
  while let Some(wf) = policies.next() {
    let mut prefix: Vec<usize> = Vec::new();
    loop {
      beat();
      let tr = execute(p, crowd, &prefix, wf)
        .map_err(|e| format!("program {:?}: {}", p, e))?;
      st.traces += 1;
      st.transitions += tr.steps.len() as u64;
      policies.saw(&tr.seen);
      match &tr.end {
        End::Deadlock(d) => {
          return Err(fail(&tr, wf, format!("deadlock: {}", d)))
        }
        End::Outcome(o) => match want.get_key_value(o) {
          Some((k, orders)) => {
            seen.insert(k);
            if !orders.iter().any(|x| respects(x, p, &tr)) {
              return Err(fail(
                &tr,
                wf,
                format!(
                  "the outcome needs an order that contradicts real time: {:?}",
                  o
                ),
              ));
            }
          }
          None => {
            return Err(fail(
              &tr,
              wf,
              format!("no sequential order gives this outcome: {:?}", o),
            ))
          }
        },
      }
      match sched::next(tr.choices, policies.bound(bound, tr.steps.len())) {
        Some(p) => prefix = p,
        None => break,
      }
    }
    st.states_extra += 1;
  }
  if policies.nested {
    st.outcome("lock requested while one is held");
  }
  if policies.cut {
    st.capped += 1;
    st.outcome(CUT);
  }
  if policies.tried {
    st.outcome("lock tried");
  }
  if policies.atomic {
    st.outcome("atomics: at most two switches");
  }
  st.outcome(format!("programs with {} outcomes", seen.len()));
  if seen.len() > 1 {
    st.sample(|| format!("{:?}: {} outcomes", p, seen.len()));
  }
  for o in seen {
    st.state(&(p, crowd, o));
  }
  Ok(())
}

// ------------------------------------------------------------ programs

const S0: NRef = NRef::Shared(0);
const S1: NRef = NRef::Shared(1);
const OWN: NRef = NRef::Own;

fn all_ops() -> Vec<Op> {
  vec![
    Op::AddAlt(S0, ARef::Shared(1)),
    Op::AddAlt(S1, ARef::Shared(0)),
    Op::AddAlt(S0, ARef::Shared(2)),
    Op::AddAlt(S0, ARef::Own),
    Op::AddAlt(OWN, ARef::Shared(1)),
    Op::AddAll(S0, S1),
    Op::AddAll(S1, S0),
    Op::AddAll(S0, S0),
    Op::AddAll(S0, OWN),
    Op::Read(S0),
    Op::Read(S1),
    Op::Inspect(S0),
    Op::Walk(S0, S0, ARef::Shared(1)),
    Op::Walk(S1, S0, ARef::Shared(2)),
    Op::MakeNode,
    Op::LeafAlt(0),
    Op::LeafAlt(1),
    Op::LeafNode(0),
    Op::BranchAlt(S0, S1),
    Op::BranchAlt(OWN, OWN),
    Op::BranchNode(S0),
    Op::LazyAdd(S0, ARef::Shared(1)),
    Op::LazyMake(0),
    Op::LazyCopy(S1, S0),
    Op::Dot(S0),
    Op::ForeignBranch,
    Op::ForeignCopy,
    Op::OtherCopy,
  ]
}

/// Operations that interfere with each other.
fn core_ops() -> Vec<Op> {
  vec![
    Op::AddAlt(S0, ARef::Shared(1)),
    Op::AddAlt(S0, ARef::Own),
    Op::AddAll(S0, S1),
    Op::AddAll(S1, S0),
    Op::Read(S0),
    Op::LeafAlt(0),
    Op::LeafNode(0),
    Op::LazyAdd(S0, ARef::Shared(1)),
    Op::Dot(S0),
  ]
}

/// Operations that make nodes and alternatives, which an operation that starts
/// over when another one was faster may meet many of.
fn maker_ops() -> Vec<Op> {
  vec![
    Op::MakeNode,
    Op::LeafAlt(0),
    Op::LeafAlt(1),
    Op::LeafNode(0),
    Op::BranchAlt(S0, S0),
    Op::AddAlt(S0, ARef::Own),
    Op::Read(S0),
  ]
}

/// Operations that take few locks, however much the nodes hold.
fn crowd_ops() -> Vec<Op> {
  all_ops()
    .into_iter()
    .filter(|o| {
      matches!(
        o,
        Op::AddAlt(..)
          | Op::AddAll(..)
          | Op::Read(..)
          | Op::Walk(..)
          | Op::LazyAdd(..)
          | Op::LazyCopy(..)
      )
    })
    .collect()
}

fn sequences(ops: &[Op], len: usize) -> Vec<Vec<Op>> {
  let mut out = vec![vec![]];
  for _ in 0..len {
    out = out
      .into_iter()
      .flat_map(|s: Vec<Op>| {
        ops.iter().map(move |o| {
          let mut s = s.clone();
          s.push(*o);
          s
        })
      })
      .collect();
  }
  out
}

/// All programs of the given lengths; threads are interchangeable.
fn programs(
  name: &str,
  ops: Vec<Op>,
  lens: &[usize],
  bound: usize,
  crowds: &[u8],
) -> Family {
  let crowds = crowds.to_vec();
  let n = lens.len();
  let seqs: Vec<Vec<Vec<Op>>> =
    lens.iter().map(|l| sequences(&ops, *l)).collect();
  let note = format!(
    "every program of {} threads of {:?} operations out of {}, every schedule{}{}",
    n,
    lens,
    ops.len(),
    if bound == usize::MAX {
      String::new()
    } else {
      format!(" of at most {} switches away from a runnable thread", bound)
    },
    if crowds == [0] {
      String::new()
    } else {
      format!(", two nodes with {:?} alternatives each", crowds)
    }
  );
  let lens = lens.to_vec();
  let total: u64 = seqs.iter().map(|s| s.len() as u64).product();
  // One unit: a range of programs.
  let chunk = (total / 40_000).max(1);
  Family::new(name, total.div_ceil(chunk), note, move |u, st| {
    for i in u * chunk..((u + 1) * chunk).min(total) {
      let mut k = i as usize;
      let mut p: Program = Vec::new();
      for s in &seqs {
        p.push(s[k % s.len()].clone());
        k /= s.len();
      }
      // Threads of the same length are interchangeable.
      if (1..n).any(|t| lens[t] == lens[t - 1] && p[t] < p[t - 1]) {
        continue;
      }
      for c in &crowds {
        explore(&p, *c, bound, st)?;
      }
    }
    Ok(())
  })
}

// Whether the types can be shared at all, without failing to compile.
struct Probe<T>(std::marker::PhantomData<T>);
trait No {
  const SHARED: bool = false;
}
impl<T> No for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
  const SHARED: bool = true;
}

fn shareable() -> Family {
  Family::new(
    "shareable",
    1,
    "owners, handles, nodes and alternatives can be sent to and shared by threads",
    |_, st| {
      for (what, ok) in [
        ("TreeOwner", <Probe<Owner>>::SHARED),
        ("TreeHandle", <Probe<H>>::SHARED),
        ("Node", <Probe<N>>::SHARED),
        ("Alternative", <Probe<A>>::SHARED),
        ("Leaf", <Probe<Leaf<'static, u8, u8, u8>>>::SHARED),
        ("Branch", <Probe<Branch<'static, u8, u8, u8>>>::SHARED),
      ] {
        if !ok {
          return Err(format!("{} cannot be shared between threads", what));
        }
        st.traces += 1;
      }
      Ok(())
    },
  )
}

pub fn p17(tier: Tier) -> Property {
  set_hook(sched::hook);
  let deep = tier == Tier::Thorough;
  let max = usize::MAX;
  let mut f = vec![
    shareable(),
    programs("two threads, one operation", all_ops(), &[1, 1], max, &[0]),
    programs("one and two operations", all_ops(), &[1, 2], max, &[0]),
    programs("two threads, two operations", all_ops(), &[2, 2], 2, &[0]),
    programs("three threads, one operation", core_ops(), &[1, 1, 1], max, &[0]),
    programs("one against three operations", maker_ops(), &[1, 3], max, &[0]),
    programs("one against four operations", maker_ops(), &[1, 4], max, &[0]),
    programs("four threads", maker_ops(), &[1, 1, 1, 1], 4, &[0]),
    programs(
      "two threads, crowded nodes",
      crowd_ops(),
      &[1, 1],
      max,
      &[3, 7, 8, 9, 16, 17, 33, 65, 100],
    ),
    programs(
      "two threads, crowded nodes, many locks",
      {
        let mut o = crowd_ops();
        o.extend([Op::Dot(S0), Op::Inspect(S0), Op::Inspect(S1)]);
        o
      },
      &[1, 1],
      if deep { 2 } else { 1 },
      &[9, 33],
    ),
  ];
  if deep {
    f.push(programs("two threads, more switches", all_ops(), &[2, 2], 3, &[0]));
    f.push(programs("three threads", all_ops(), &[1, 1, 1], 4, &[0]));
    f.push(programs("one and three operations", core_ops(), &[1, 3], max, &[0]));
    f.push(programs("two threads, three operations", core_ops(), &[3, 3], 2, &[0]));
  }
  Property {
    id: "P17",
    families: f,
    assumptions: vec![
      "the store synchronises through its reader-writer lock only: threads are \
       switched before a lock is taken and between operations"
        .into(),
    ],
    explanation: "the real operations run as coroutines under a scheduler that \
      decides every lock acquisition; all schedules are enumerated by \
      re-execution. traces: schedules run; transitions: scheduling steps; \
      states: (program, outcome) pairs and programs. The oracle is the set of \
      outcomes of all sequential orders"
      .into(),
  }
}
