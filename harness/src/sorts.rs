//! Types of symbols, actions and values other than plain numbers, and the
//! grammars over them.

#![allow(dead_code)]

use crate::cfg::*;
use crate::engine::*;
use crate::spaces::{Check, Space};
use bongo::grammar::Grammar;
pub use bongo::grammar::{NonTerminal, Terminal};
pub use bongo::utils::Name;

/// Symbols, actions and values of some type, by number.
pub trait Sort: Ord + Clone + std::fmt::Debug + 'static {
  /// The numbers told apart.
  const COUNT: u16;
  fn make(i: u16) -> Self;
  fn number(&self) -> u16;
}

/// What action keys must be.
pub trait Key: Ord + Clone + std::fmt::Debug + 'static {}
impl<T: Ord + Clone + std::fmt::Debug + 'static> Key for T {}

impl Sort for () {
  const COUNT: u16 = 1;
  fn make(_: u16) {}
  fn number(&self) -> u16 {
    0
  }
}

impl Sort for bool {
  const COUNT: u16 = 2;
  fn make(i: u16) -> bool {
    i % 2 == 1
  }
  fn number(&self) -> u16 {
    *self as u16
  }
}

impl Sort for std::cmp::Reverse<u16> {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    std::cmp::Reverse(i)
  }
  fn number(&self) -> u16 {
    self.0
  }
}

/// The empty text for 0, and the longer the number the earlier in order.
impl Sort for String {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    if i == 0 {
      String::new()
    } else {
      format!("{}start", 65000 - i)
    }
  }
  fn number(&self) -> u16 {
    match self.trim_end_matches("start") {
      "" => 0,
      s => 65000 - s.parse::<u16>().unwrap_or(0),
    }
  }
}

impl Sort for Option<[i64; 40]> {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    if i == 1 {
      None
    } else {
      let mut a = [0; 40];
      a[39] = i as i64;
      Some(a)
    }
  }
  fn number(&self) -> u16 {
    self.map_or(1, |a| a[39] as u16)
  }
}

/// No two of these are alike, but equality and order only look at the number,
/// and so does the debug text.
#[derive(Clone)]
pub struct Loose(u16, usize);
impl std::fmt::Debug for Loose {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "Loose({})", self.0)
  }
}
impl PartialEq for Loose {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl Eq for Loose {}
impl Ord for Loose {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    self.0.cmp(&o.0)
  }
}
impl PartialOrd for Loose {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Sort for Loose {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    use std::sync::atomic::*;
    static N: AtomicUsize = AtomicUsize::new(0);
    Loose(i, N.fetch_add(1, Ordering::SeqCst))
  }
  fn number(&self) -> u16 {
    self.0
  }
}

/// The crate's own symbols and names, by texts that differ little.
macro_rules! own {
  ($($t:ident),*) => {$(
    impl Sort for $t {
      const COUNT: u16 = u16::MAX;
      fn make(i: u16) -> Self {
        $t::new(&format!("{}{}", if i % 2 == 0 { "x" } else { "X" }, i / 2))
      }
      fn number(&self) -> u16 {
        let text = format!("{:?}", self);
        let digits: String =
          text.chars().filter(|c| c.is_ascii_digit()).collect();
        match digits.parse::<u16>() {
          Ok(d) => 2 * d + text.contains('X') as u16,
          Err(_) => u16::MAX,
        }
      }
    }
  )*};
}
own!(Terminal, NonTerminal, Name);

/// The grammar with terminals and actions told apart up to a number only.
pub fn collapsed(g: &Gram, terms: u16, actions: u16) -> Gram {
  let mut g = g.clone();
  for (_, ps) in &mut g.rules {
    for p in ps {
      p.ak %= actions;
      for e in &mut p.elems {
        if let Sym::T(t) = &mut e.1 {
          *t %= terms;
        }
      }
    }
  }
  g
}


pub type Rev = std::cmp::Reverse<u16>;
pub type Big = Option<[i64; 40]>;

/// The grammar built over the types; it must have no more of anything than the
/// types tell apart.
pub fn built_as<T: Sort, NT: Sort, AK: Sort, AV: Sort>(
  g: &Gram,
) -> Result<Grammar<T, NT, AK, AV>, String> {
  guard(|| {
    to_bongo_with(
      g,
      &|t| T::make(t as u16),
      &|n| NT::make(n as u16),
      &AK::make,
      &|v| AV::make(v % AV::COUNT),
    )
  })
  .map_err(|p| format!("building {} panics: {}", g.show(), p))?
  .map_err(|_| format!("building {} fails", g.show()))
}

impl Sort for Tm {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    Tm(i)
  }
  fn number(&self) -> u16 {
    self.0
  }
}
impl Sort for Nt {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    Nt(i)
  }
  fn number(&self) -> u16 {
    self.0 as u16
  }
}
impl Sort for Ak {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    Ak(i)
  }
  fn number(&self) -> u16 {
    self.0
  }
}
impl Sort for Av {
  const COUNT: u16 = u16::MAX;
  fn make(i: u16) -> Self {
    Av(i)
  }
  fn number(&self) -> u16 {
    self.0
  }
}

/// Calls `$f::<T, NT, AK, AV>($args)` for the combination of that number.
macro_rules! with_types {
  ($i:expr, $f:ident, $($a:expr),*) => {{
    use $crate::sorts::*;
    match $i {
      0 => $f::<(), Rev, (), ()>($($a),*),
      1 => $f::<String, String, String, String>($($a),*),
      2 => $f::<Loose, Loose, Loose, Loose>($($a),*),
      3 => $f::<Rev, Big, bool, Big>($($a),*),
      4 => $f::<bool, String, Big, ()>($($a),*),
      5 => $f::<Big, Loose, Rev, bool>($($a),*),
      _ => $f::<Terminal, NonTerminal, Name, Name>($($a),*),
    }
  }};
}

#[allow(unused_imports)]
pub(crate) use with_types;

/// A check of a grammar for each combination of types.
macro_rules! typed {
  ($f:ident) => {{
    fn at<const I: u64>(g: &Gram, st: &mut Stats) -> Verdict {
      let (t, a) = LIMITS[I as usize];
      with_types!(I, $f, &collapsed(g, t, a), st)
    }
    [at::<0> as Check, at::<1>, at::<2>, at::<3>, at::<4>, at::<5>, at::<6>]
  }};
}
#[allow(unused_imports)]
pub(crate) use typed;

/// How many terminals and actions each combination tells apart.
pub const LIMITS: [(u16, u16); TYPES as usize] =
  [(1, 1), (MANY, MANY), (MANY, MANY), (MANY, 2), (2, MANY), (MANY, MANY), (MANY, MANY)];
const MANY: u16 = u16::MAX;

/// The grammars given, and those of a small space, over every combination of
/// types.
pub fn type_families(
  list: Vec<Gram>,
  deep: bool,
  typed: [Check; TYPES as usize],
) -> Vec<Family> {
  let sp = if deep {
    Space::new("2nt2t", 2, &[(1, 2, 2), (1, 2, 1)], false)
  } else {
    Space::new("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)], false)
  };
  let mut f = Vec::new();
  const CHUNK: u64 = 64;
  f.push(Family::new(
    "types",
    list.len() as u64 * TYPES,
    format!("{} grammars over {}", list.len(), TYPES_NOTE),
    move |u, st| typed[(u % TYPES) as usize](&list[(u / TYPES) as usize], st),
  ));
  f.push(Family::new(
    format!("types-{}", sp.name),
    sp.chunks(CHUNK) * TYPES,
    format!("{} over {}", sp.note, TYPES_NOTE),
    move |u, st| {
      let check = typed[(u % TYPES) as usize];
      let f = sp.for_chunk(u / TYPES, CHUNK, |g| check(&g, st))?;
      st.filtered += f;
      Ok(())
    },
  ));
  f
}

/// Sizes around what a byte can tell apart, which all checks see.
const BYTE: [usize; 3] = [255, 256, 257];

/// Grammars whose size goes with n.
pub fn sized(n: usize) -> Vec<(&'static str, Gram)> {
  let mut v = Vec::new();
  let (t, nt) = (|i: usize| Sym::T(i as u16), |i: usize| Sym::N(i as u16));
  let g = |rules| Gram::simple(0, rules);
  // Productions of n elements: terminals, with the only nonterminal last, and
  // one optional nonterminal over and over.
  v.push(("elements", g(vec![(0, vec![(0..n).map(|i| t(i % 5000)).collect()])])));
  let mut tail: Vec<Sym> = (0..n).map(|i| t(i % 5000)).collect();
  tail.push(nt(1));
  tail.push(t(60001));
  v.push(("a nonterminal behind", g(vec![(0, vec![tail]), (1, vec![vec![], vec![t(60002)]])])));
  v.push((
    "one optional part",
    g(vec![
      (0, vec![vec![nt(1); n].into_iter().chain(Some(t(0))).collect()]),
      (1, vec![vec![], vec![t(1)]]),
    ]),
  ));
  // Optional ends, and n parts in between that are not.
  v.push((
    "optional ends",
    g(vec![
      (0, vec![Some(nt(1)).into_iter().chain(vec![nt(2); n]).chain(Some(nt(1))).collect()]),
      (1, vec![vec![], vec![t(1)]]),
      (2, vec![vec![t(2)]]),
    ]),
  ));
  if n > 0 {
    // n productions.
    let pair = |i: usize| vec![t(i % 200), t(i / 200)];
    v.push(("productions", g(vec![(0, (0..n).map(pair).collect())])));
    v.push((
      "the last is empty",
      g(vec![
        (0, vec![vec![nt(1), t(0)]]),
        (1, (0..n).map(pair).chain(Some(vec![])).collect()),
      ]),
    ));
    v.push((
      "the last leads on",
      g(vec![
        (0, (0..n).map(pair).chain(Some(vec![nt(1), nt(1)])).collect()),
        (1, vec![vec![], vec![t(201)]]),
      ]),
    ));
  }
  if n > 0 {
    let ends: [(&str, Vec<Vec<Sym>>); 3] = [
      ("a chain that ends in a token or not", vec![vec![t(0)], vec![]]),
      ("a chain that ends in nothing", vec![vec![]]),
      ("a chain that ends in a token", vec![vec![t(0)]]),
    ];
    for (name, end) in ends {
      let rules: Vec<(u16, Vec<Vec<Sym>>)> = (0..n)
        .map(|i| (i as u16, if i + 1 == n { end.clone() } else { vec![vec![nt(i + 1)]] }))
        .collect();
      v.push((name, g(rules)));
    }
    // A ring, entered at the start, left by a token in the middle.
    let rules = (0..n)
      .map(|i| {
        let mut ps = vec![vec![nt((i + 1) % n), t(i)]];
        if i == n / 2 {
          ps.push(vec![t(60000)]);
        }
        (i as u16, ps)
      })
      .collect();
    v.push(("a ring", g(rules)));
    // A chain in which each adds a token behind, and its own first one.
    let rules = (0..n)
      .map(|i| {
        let ps = if i + 1 == n {
          vec![vec![t(i)]]
        } else {
          vec![vec![nt(i + 1), t(i)], vec![t(i), t(60005)]]
        };
        (i as u16, ps)
      })
      .collect();
    v.push(("a chain of tokens", g(rules)));
    // n optional parts, each of a token of its own, none nullable in between.
    for hole in [None, Some(n / 2)] {
      let mut rules = vec![(0u16, vec![(1..=n).map(nt).collect::<Vec<_>>()])];
      rules.extend((1..=n).map(|i| {
        (i as u16, if Some(i) == hole { vec![vec![t(i)]] } else { vec![vec![t(i)], vec![]] })
      }));
      v.push(("optional parts", g(rules)));
    }
    // A chain of right ends: what follows the first follows the last.
    let mut rules = vec![(0u16, vec![vec![nt(1), t(60000)], vec![nt(n), t(60001)]])];
    rules.extend((1..=n).map(|i| {
      (i as u16, if i == n { vec![vec![t(0)]] } else { vec![vec![t(1), nt(i + 1)]] })
    }));
    v.push(("right ends", g(rules)));
  }
  // The same in another order of the nonterminals.
  let other: Vec<(&'static str, Gram)> = v
    .iter()
    .filter(|x| x.1.rules.len() > 1)
    .map(|(name, g)| {
      let k = g.rules.len() as u16;
      (*name, g.rename_nts(|x| k - 1 - x))
    })
    .collect();
  v.extend(other);
  v
}

pub fn sized_family(max: usize, check: Check) -> Family {
  let mut ns = edges(max);
  ns.extend(BYTE.iter().filter(|n| **n > max));
  ns.reverse();
  let of: Vec<(usize, usize)> =
    ns.iter().flat_map(|n| (0..sized(*n).len()).map(move |i| (*n, i))).collect();
  Family::new(
    "sizes",
    of.len() as u64,
    format!(
      "productions of many elements, many productions, optional ends, of sizes \
       around the powers of two up to 257; chains, rings and many optional \
       parts, of such sizes up to {}",
      max.max(257)
    ),
    move |u, st| {
      let (n, i) = of[u as usize];
      let (name, g) = sized(n).swap_remove(i);
      check(&g, st).map_err(|e| format!("{} of size {}\n{}", name, n, e))
    },
  )
}

pub const TYPES: u64 = 7;
pub const TYPES_NOTE: &str =
  "7 combinations of types of terminals, nonterminals, actions and values (of \
   no size, texts, large, reversed, with a loose equality, the crate's own)";
