//! Every history of operations up to a depth, by re-execution.

use crate::engine::*;
use std::fmt::Debug;

/// The real thing next to its model.
pub trait World: Sized {
  type Cfg: Clone + Debug + Send + Sync + 'static;
  type Op: Clone + Debug + Send + Sync + 'static;
  fn new(cfg: &Self::Cfg) -> Self;
  /// The operations possible now, by the model.
  fn ops(&self) -> Vec<Self::Op>;
  /// Applies an operation to both and compares its result.
  fn apply(&mut self, op: &Self::Op) -> Verdict;
  /// Compares everything visible.
  fn check(&mut self) -> Verdict;
  /// The state of the model.
  fn key(&self) -> u64;
}

fn run<W: World>(cfg: &W::Cfg, hist: &[W::Op]) -> Result<(Vec<W::Op>, u64), String> {
  guard(|| {
    let mut w = W::new(cfg);
    for op in hist {
      w.apply(op)?;
    }
    w.check()?;
    Ok((w.ops(), w.key()))
  })
  .unwrap_or_else(|p| Err(format!("panics: {}", p)))
  .map_err(|e: String| {
    let mut s = format!("start: {:?}\nhistory:\n", cfg);
    for o in hist {
      s += &format!("  {:?}\n", o);
    }
    s + &e
  })
}

fn dfs<W: World>(
  cfg: &W::Cfg,
  hist: &mut Vec<W::Op>,
  depth: usize,
  st: &mut Stats,
) -> Verdict {
  let (ops, key) = run::<W>(cfg, hist)?;
  st.traces += 1;
  st.transitions += 1;
  st.states.insert(key);
  if hist.len() == depth {
    st.sample(|| format!("{:?} {:?}", cfg, hist));
    return Ok(());
  }
  for op in ops {
    hist.push(op);
    dfs::<W>(cfg, hist, depth, st)?;
    hist.pop();
  }
  Ok(())
}

/// A family of all histories up to the depth, from every configuration.
pub fn histories<W: World + 'static>(
  name: &str,
  cfgs: Vec<W::Cfg>,
  depth: usize,
  note: impl Into<String>,
) -> Family {
  // One unit: a configuration and every 64th first operation.  Nothing runs
  // before the exploration does.
  const SPLIT: u64 = 64;
  Family::new(
    name,
    cfgs.len() as u64 * SPLIT,
    format!("{}, histories of up to {} operations", note.into(), depth),
    move |u, st| {
      let c = &cfgs[(u / SPLIT) as usize];
      let i = (u % SPLIT) as usize;
      if i == 0 {
        dfs::<W>(c, &mut vec![], 0, st)?;
      }
      if depth > 0 {
        let (ops, _) = run::<W>(c, &[])?;
        for o in ops.into_iter().skip(i).step_by(SPLIT as usize) {
          dfs::<W>(c, &mut vec![o], depth, st)?;
        }
      }
      Ok(())
    },
  )
}
