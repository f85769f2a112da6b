//! P29: parses that run at the same time on one tree store, under every
//! schedule with few switches.

use super::parse::*;
use crate::cfg::*;
use crate::dotgraph::{canonical, Graph};
use crate::engine::*;
use crate::forest::*;
use crate::sched::{self, Body, Ctx, Policies, Policy};
use crate::spaces::*;
use bongo::parsers::tree::Node;
use bongo::verif_sync::set_hook;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

type N<'a> = Node<'a, Tm, Ak, Av2>;

/// A parse: which grammar, which input, which values.
type Step = (usize, Vec<u16>, usize);

/// What a thread does.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Act {
  /// A parse of the menu.
  Parse(usize),
  /// The same on a store that nobody else uses.
  Apart(usize),
  /// Walks over the result of the n-th parse done before.
  Look(usize),
  /// Renders it.
  Draw(usize),
}

/// Parses done before the threads start, and what each thread does in turn.
#[derive(Clone, Debug)]
struct Program {
  before: Vec<usize>,
  threads: Vec<Vec<Act>>,
}

struct World {
  gs: Vec<Gram>,
  sgs: Vec<SG>,
  menu: Arc<Vec<Step>>,
  alone: HashMap<usize, Option<Alone>>,
}

/// What a parse gives in a store of its own.
struct Alone {
  forest: Option<Ta>,
  /// Forests with the same trees.
  same: HashSet<Option<Ta>>,
}

/// What a rendering shows, up to the names of vertices.
fn drawing(s: &str) -> Result<u64, String> {
  let g = Graph::parse(s)?;
  let vs: Vec<(String, String)> =
    g.vertices.into_iter().map(|v| (v.1, v.2)).collect();
  Ok(canonical(&vs, &g.edges, 6))
}

enum Got<'a> {
  Node(Result<Option<N<'a>>, String>),
  Ta(Result<Ta, String>),
  Text(Result<String, String>),
}

impl World {
  fn new(gs: &[Gram], menu: &Arc<Vec<Step>>) -> Result<World, String> {
    Ok(World {
      gs: gs.to_vec(),
      sgs: gs.iter().map(start_grammar).collect::<Result<_, _>>()?,
      menu: menu.clone(),
      alone: HashMap::new(),
    })
  }

  /// False if the parse panics even alone, which is not about sharing.
  fn learn(&mut self, m: usize) -> bool {
    let (gs, menu) = (&self.sgs, &self.menu);
    self
      .alone
      .entry(m)
      .or_insert_with(|| {
        let (g, input, v) = &menu[m];
        let tree = Tree::new();
        let r = run_parse(&gs[*g], &tree, input, &values(input.len(), *v));
        let forest = r.ok()?.as_ref().map(read_forest);
        let same = [forest.clone()].into_iter().collect();
        Some(Alone { forest, same })
      })
      .is_some()
  }

  fn show_step(&self, m: usize) -> String {
    let (g, i, v) = &self.menu[m];
    let v = values(i.len(), *v);
    format!("parse {} with {}", show_input(i, &v), self.gs[*g].show())
  }

  fn show(&self, p: &Program, wf: Policy, steps: &[u8]) -> String {
    let mut s = String::new();
    for m in &p.before {
      s.push_str(&format!("before: {}\n", self.show_step(*m)));
    }
    for (t, acts) in p.threads.iter().enumerate() {
      for a in acts {
        let what = match a {
          Act::Parse(m) => self.show_step(*m),
          Act::Apart(m) => format!("{} on another store", self.show_step(*m)),
          Act::Look(i) => format!("walk over result {} of before", i + 1),
          Act::Draw(i) => format!("render result {} of before", i + 1),
        };
        s.push_str(&format!("thread {}: {}\n", t, what));
      }
    }
    // Runs of steps of one thread.
    let mut runs: Vec<(u8, usize)> = Vec::new();
    for t in steps {
      match runs.last_mut() {
        Some((u, n)) if u == t => *n += 1,
        _ => runs.push((*t, 1)),
      }
    }
    let runs: Vec<String> =
      runs.iter().map(|(t, n)| format!("{}x{}", t, n)).collect();
    format!(
      "{}schedule (thread x steps, a step runs to the next lock{}): {}",
      s,
      wf,
      runs.join(" ")
    )
  }

  /// Whether a forest has exactly the trees the parse gives alone.
  fn judge(&mut self, m: usize, got: Option<Ta>, st: &mut Stats) -> Verdict {
    let alone = self.alone.get_mut(&m).unwrap().as_mut().unwrap();
    if alone.same.contains(&got) {
      return Ok(());
    }
    let (a, b) = match (&got, &alone.forest) {
      (Some(a), Some(b)) => (a, b),
      _ => {
        return Err(format!(
          "alone a tree: {}, together: {}",
          alone.forest.is_some(),
          got.is_some()
        ))
      }
    };
    let mut ic = InclCost::default();
    for (x, y, what) in [(a, b, "gained"), (b, a, "lost")] {
      match included(x, y, INCL_CAP, &mut ic) {
        Incl::Yes => {}
        Incl::Capped => st.capped += 1,
        Incl::No(t) => {
          return Err(format!(
            "{} the tree {}\ntogether: {}\nalone: {}",
            what,
            t,
            a.show(),
            b.show()
          ))
        }
      }
    }
    st.outcome("another graph, same trees");
    alone.same.insert(got);
    Ok(())
  }

  /// Runs a program under one schedule.
  fn execute(
    &mut self,
    p: &Program,
    prefix: &[usize],
    wf: Policy,
    st: &mut Stats,
  ) -> Result<sched::Run, String> {
    let tree = Tree::new();
    let apart: Vec<Tree> = p.threads.iter().map(|_| Tree::new()).collect();
    let sgs = std::mem::take(&mut self.sgs);
    let menu = self.menu.clone();
    let parse_on = |tree, m: usize| {
      let (g, input, v) = &menu[m];
      run_parse(&sgs[*g], tree, input, &values(input.len(), *v))
    };
    let r = (|| {
      let mut before: Vec<Option<N<'_>>> = Vec::new();
      for m in &p.before {
        before.push(parse_on(&tree, *m).map_err(|e| {
          format!("{} after others panics: {}", self.show_step(*m), e)
        })?);
      }
      let draws = p.threads.iter().flatten().any(|a| matches!(a, Act::Draw(_)));
      let drawn: Vec<String> = before
        .iter()
        .filter(|_| draws)
        .map(|n| guard(|| n.as_ref().map_or(String::new(), |n| n.to_dot())))
        .collect::<Result<_, _>>()
        .map_err(|e| format!("rendering panics: {}", e))?;
      let mut got: Vec<Vec<Got<'_>>> =
        p.threads.iter().map(|_| vec![]).collect();
      let mut bodies: Vec<Body<'_>> = Vec::new();
      for (t, out) in got.iter_mut().enumerate() {
        let (tree, apart, before) = (&tree, &apart[t], &before);
        let (acts, parse_on) = (&p.threads[t], &parse_on);
        bodies.push(Box::new(move |c: &Ctx| {
          for (i, a) in acts.iter().enumerate() {
            if i > 0 {
              c.step();
            }
            let seen = |i: usize| before[i].as_ref();
            match a {
              Act::Parse(m) => out.push(Got::Node(parse_on(tree, *m))),
              Act::Apart(m) => out.push(Got::Node(parse_on(apart, *m))),
              Act::Look(i) => out.push(match seen(*i) {
                Some(n) => Got::Ta(guard(|| read_forest(n))),
                None => Got::Text(Ok(String::new())),
              }),
              Act::Draw(i) => out.push(match seen(*i) {
                Some(n) => Got::Text(guard(|| n.to_dot())),
                None => Got::Text(Ok(String::new())),
              }),
            }
          }
        }));
      }
      let run = sched::run(bodies, prefix, wf)?;
      let fail = |w: &World, e: String| {
        format!("{}\n{}", w.show(p, wf, &run.steps), e)
      };
      if let Some(d) = &run.deadlock {
        let e = fail(self, format!("deadlock: {}", d));
        std::mem::forget((got, before));
        return Err(e);
      }
      for (t, out) in got.iter().enumerate() {
        for (a, g) in p.threads[t].iter().zip(out) {
          let at = |w: &World, e: String| {
            fail(w, format!("thread {}, {:?}: {}", t, a, e))
          };
          match g {
            Got::Node(r) => {
              let n = match r {
                Ok(n) => n,
                Err(e) => return Err(at(self, format!("panics: {}", e))),
              };
              let ta = guard(|| n.as_ref().map(read_forest))
                .map_err(|e| at(self, format!("reading panics: {}", e)))?;
              let m = match a {
                Act::Parse(m) | Act::Apart(m) => *m,
                _ => unreachable!(),
              };
              let r = self.judge(m, ta, st);
              r.map_err(|e| at(self, e))?;
            }
            Got::Ta(r) => {
              let ta = match r {
                Ok(t) => t.clone(),
                Err(e) => return Err(at(self, format!("panics: {}", e))),
              };
              let m = match a {
                Act::Look(i) => p.before[*i],
                _ => unreachable!(),
              };
              let r = self.judge(m, Some(ta), st);
              r.map_err(|e| at(self, e))?;
            }
            Got::Text(Err(e)) => {
              return Err(at(self, format!("panics: {}", e)))
            }
            Got::Text(Ok(s)) => {
              let want = match a {
                Act::Draw(i) => &drawn[*i],
                _ => continue,
              };
              // What it says is P18; here it is that of a quiet store.
              if s != want {
                match (drawing(s), drawing(want)) {
                  (Ok(x), Ok(y)) if x == y => {}
                  _ => {
                    let e = format!("renders\n{}\ninstead of\n{}", s, want);
                    return Err(at(self, e));
                  }
                }
              }
            }
          }
        }
      }
      for (i, n) in before.iter().enumerate() {
        let ta = guard(|| n.as_ref().map(read_forest)).map_err(|e| {
          fail(self, format!("reading result {} of before panics: {}", i + 1, e))
        })?;
        let r = self.judge(p.before[i], ta, st);
        r.map_err(|e| {
          fail(self, format!("result {} of before: {}", i + 1, e))
        })?;
      }
      Ok(run)
    })();
    self.sgs = sgs;
    r
  }

  fn explore(&mut self, p: &Program, bound: usize, st: &mut Stats) -> Verdict {
    let parses = p.threads.iter().flatten().filter_map(|a| match a {
      Act::Parse(m) | Act::Apart(m) => Some(*m),
      _ => None,
    });
    let all: Vec<usize> = parses.chain(p.before.iter().copied()).collect();
    for m in all {
      if !self.learn(m) {
        st.outcome("parse panics alone");
        return Ok(());
      }
    }
    let mut policies = Policies::default();
    while let Some(wf) = policies.next() {
      let mut prefix: Vec<usize> = Vec::new();
      let mut schedules = 0u64;
      loop {
        beat();
        let run = self.execute(p, &prefix, wf, st)?;
        schedules += 1;
        st.traces += 1;
        st.transitions += run.steps.len() as u64;
        policies.saw(&run.seen);
        match sched::next(run.choices, policies.bound(bound, run.steps.len())) {
          Some(p) => prefix = p,
          None => break,
        }
      }
      st.states_extra += 1;
      st.sample(|| format!("{:?}: {} schedules", p, schedules));
    }
    if policies.nested {
      st.outcome("lock requested while one is held");
    }
    if policies.cut {
      st.capped += 1;
      st.outcome(CUT);
    }
    if policies.tried {
      st.outcome("lock tried");
    }
    Ok(())
  }
}

/// Every unit of a family is a list of programs.
fn programs(
  name: &str,
  note: String,
  gs: Vec<Gram>,
  menu: Vec<Step>,
  ps: Vec<Vec<Program>>,
  bound: usize,
) -> Family {
  let note = format!(
    "{}; every schedule of at most {} switches away from a runnable thread",
    note, bound
  );
  let (gs, menu) = (Arc::new(gs), Arc::new(menu));
  Family::new(name, ps.len() as u64, note, move |u, st| {
    let mut w = World::new(&gs, &menu)?;
    for p in &ps[u as usize] {
      w.explore(p, bound, st)?;
    }
    Ok(())
  })
}

fn two(a: Vec<Act>, b: Vec<Act>, before: Vec<usize>) -> Program {
  Program { before, threads: vec![a, b] }
}

/// All pairs of steps of the menu.
fn pairs(k: usize) -> impl Iterator<Item = (usize, usize)> {
  (0..k).flat_map(move |a| (a..k).map(move |b| (a, b)))
}

fn menu_families(large: bool) -> Vec<Family> {
  use Act::*;
  let (gs, menu) = p04_menu(large);
  let k = menu.len();
  let mut out = Vec::new();
  let mut add = |name: &str, note: &str, ps: Vec<Vec<Program>>, bound: usize| {
    let note = format!(
      "{} of a menu of {} (grammar, input, values) over {} grammars",
      note,
      k,
      gs.len()
    );
    let name = &format!("{}{}", name, if large { ", large menu" } else { "" });
    out.push(programs(name, note, gs.clone(), menu.clone(), ps, bound));
  };
  add(
    "pairs",
    "every pair of parses at the same time, in an empty store,",
    pairs(k)
      .map(|(a, b)| vec![two(vec![Parse(a)], vec![Parse(b)], vec![])])
      .collect(),
    2,
  );
  add(
    "pairs after one",
    "every pair of parses at the same time, in the store of a third,",
    pairs(k)
      .map(|(a, b)| {
        (0..k)
          .map(|c| two(vec![Parse(a)], vec![Parse(b)], vec![c]))
          .collect()
      })
      .collect(),
    1,
  );
  add(
    "readers",
    "every parse while the result of another is walked over, and rendered,",
    (0..k)
      .map(|a| {
        (0..k)
          .flat_map(|b| {
            [Look(0), Draw(0)]
              .map(|r| two(vec![Parse(a)], vec![r], vec![b]))
          })
          .collect()
      })
      .collect(),
    2,
  );
  add(
    "sequences",
    "every parse at the same time as two others one after the other",
    pairs(k)
      .map(|(a, b)| {
        (0..k)
          .map(|c| two(vec![Parse(a)], vec![Parse(b), Parse(c)], vec![]))
          .collect()
      })
      .collect(),
    1,
  );
  add(
    "stores",
    "every pair of parses at the same time on two stores",
    (0..k)
      .map(|a| {
        (0..k)
          .map(|b| two(vec![Parse(a)], vec![Apart(b)], vec![]))
          .collect()
      })
      .collect(),
    1,
  );
  add(
    "three",
    "every three parses at the same time",
    pairs(k)
      .map(|(a, b)| {
        (b..k)
          .map(|c| Program {
            before: vec![],
            threads: vec![vec![Parse(a)], vec![Parse(b)], vec![Parse(c)]],
          })
          .collect()
      })
      .collect(),
    1,
  );
  out
}

/// Every pair of steps over all grammars of small spaces.
fn space_pairs(
  name: &str,
  spaces: Vec<Space>,
  max_len: usize,
  keys: Keys,
  bound: usize,
) -> Family {
  let (gs, menu, note) = p04_steps(spaces, max_len, keys);
  let k = menu.len();
  let ps = (0..k)
    .map(|a| {
      (a..k)
        .map(|b| two(vec![Act::Parse(a)], vec![Act::Parse(b)], vec![]))
        .collect()
    })
    .collect();
  let note = format!("every pair at the same time of {}", note);
  programs(name, note, gs, menu, ps, bound)
}

pub fn p29(tier: Tier) -> Property {
  set_hook(sched::hook);
  let deep = tier == Tier::Thorough;
  let mut families = menu_families(false);
  let spaces = |p: &[(usize, usize, usize)]| vec![Space::new("2nt1t", 1, p, false)];
  for (keys, suffix) in
    [(Keys::Unique, ""), (Keys::PerHead, "-perhead"), (Keys::One, "-onekey")]
  {
    let name = |s: &str| format!("{}{}", s, suffix);
    let small = || {
      vec![
        Space::new("2nt1t-rhs1", 1, &[(1, 2, 1), (1, 1, 1)], false),
        Space::new("1nt1t", 1, &[(1, 2, 2)], false),
      ]
    };
    families.push(space_pairs(&name("small"), small(), 2, keys, 1));
    // The smallest parses that share nodes, with many more switches.
    let more = |n: usize| if deep { n + 1 } else { n };
    let unit = |n: usize| vec![Space::new("1nt1t-unit", 1, &[(1, n, 1)], false)];
    families.push(space_pairs(&name("tiny"), unit(1), 1, keys, more(5)));
    families.push(space_pairs(&name("tiny-2"), unit(2), 1, keys, more(3)));
    if deep {
      families.push(space_pairs(&name("small-2"), small(), 2, keys, 2));
      families.push(space_pairs(
        &name("mid"),
        spaces(&[(1, 1, 2), (1, 2, 1)]),
        2,
        keys,
        1,
      ));
    }
  }
  if deep {
    use Act::*;
    families.extend(menu_families(true));
    let (gs, menu) = p04_menu(false);
    let k = menu.len();
    families.push(programs(
      "pairs after one, more switches",
      "every pair of parses at the same time, in the store of a third".into(),
      gs.clone(),
      menu.clone(),
      pairs(k)
        .map(|(a, b)| {
          (0..k)
            .map(|c| two(vec![Parse(a)], vec![Parse(b)], vec![c]))
            .collect()
        })
        .collect(),
      2,
    ));
    // The shorter ones.
    let menu: Vec<Step> =
      menu.into_iter().filter(|m| m.1.len() <= 2).collect();
    let k = menu.len();
    families.push(programs(
      "three, more switches",
      format!("every three of {} parses of up to two tokens at the same time", k),
      gs.clone(),
      menu.clone(),
      pairs(k)
        .map(|(a, b)| {
          (b..k)
            .map(|c| Program {
              before: vec![],
              threads: vec![vec![Parse(a)], vec![Parse(b)], vec![Parse(c)]],
            })
            .collect()
        })
        .collect(),
      2,
    ));
    families.push(programs(
      "pairs, more switches",
      format!("every pair of {} parses of up to two tokens at the same time", k),
      gs,
      menu,
      pairs(k)
        .map(|(a, b)| vec![two(vec![Parse(a)], vec![Parse(b)], vec![])])
        .collect(),
      3,
    ));
  }
  Property {
    id: "P29",
    families,
    assumptions: vec![
      "the store synchronises through its reader-writer lock only: threads are \
       switched before a lock is taken and between operations"
        .into(),
      "each parse alone is the reference for the same parse together with \
       others; that it is right is P01 to P03"
        .into(),
    ],
    explanation: "whole parses run as coroutines on the real store under a \
      scheduler that decides every lock acquisition; all schedules up to the \
      stated number of switches are enumerated by re-execution. traces: \
      schedules run; transitions: scheduling steps; states: programs. Every \
      forest is compared, as a set of trees of any height in both directions, \
      with what the same parse returns in a store of its own"
      .into(),
  }
}
