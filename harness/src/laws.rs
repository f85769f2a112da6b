//! Laws of equality and order.

use std::cmp::Ordering;
use std::fmt::Debug;

/// Handles of the same thing by every route, with what they denote.
pub fn laws<T: Ord + Clone, I: PartialEq + Debug>(
  what: &str,
  hs: &[(I, T)],
) -> Result<(), String> {
  // A total order is a strictly monotone numbering: sort, number, compare all.
  let mut reps: Vec<usize> = Vec::new();
  for i in 0..hs.len() {
    if !reps.iter().any(|r| hs[*r].0 == hs[i].0) {
      reps.push(i);
    }
  }
  // Insertion sort by the handles' own comparison.
  let mut sorted: Vec<usize> = Vec::new();
  for r in reps {
    let at = sorted
      .iter()
      .position(|s| hs[*s].1.cmp(&hs[r].1) == Ordering::Greater)
      .unwrap_or(sorted.len());
    sorted.insert(at, r);
  }
  let ranks: Vec<usize> = (0..hs.len())
    .map(|i| sorted.iter().position(|s| hs[*s].0 == hs[i].0).unwrap())
    .collect();
  for i in 0..hs.len() {
    for j in 0..hs.len() {
      let want = ranks[i].cmp(&ranks[j]);
      let (a, b) = (&hs[i].1, &hs[j].1);
      let got = (a == b, a != b, a.cmp(b), a.partial_cmp(b), a < b, a <= b);
      let exp = (
        want == Ordering::Equal,
        want != Ordering::Equal,
        want,
        Some(want),
        want == Ordering::Less,
        want != Ordering::Greater,
      );
      if got != exp {
        return Err(format!(
          "{} {:?} and {:?} compare as {:?} (eq, ne, cmp, partial_cmp, lt, le), \
           no total order consistent with identity",
          what, hs[i].0, hs[j].0, got
        ));
      }
    }
  }
  Ok(())
}

