//! Bounded spaces of grammars.

use crate::cfg::*;
use crate::engine::*;
use std::sync::Arc;

/// All right-hand sides over the symbols, shortest first.
pub fn all_rhs(nts: u16, terms: u16, max_len: usize) -> Vec<Vec<Sym>> {
  let syms: Vec<Sym> = (0..terms)
    .map(Sym::T)
    .chain((0..nts).map(Sym::N))
    .collect();
  let mut res: Vec<Vec<Sym>> = vec![vec![]];
  let mut last = res.clone();
  for _ in 0..max_len {
    let mut next = Vec::new();
    for s in &last {
      for a in &syms {
        let mut s = s.clone();
        s.push(*a);
        next.push(s);
      }
    }
    res.extend(next.iter().cloned());
    last = next;
  }
  res
}

/// Multisets (or sequences) of size lo..=hi of 0..n.
fn selections(n: usize, lo: usize, hi: usize, ordered: bool) -> Vec<Vec<u32>> {
  let mut res = Vec::new();
  let mut last: Vec<Vec<u32>> = vec![vec![]];
  for size in 0..=hi {
    if size >= lo {
      res.extend(last.iter().cloned());
    }
    let mut next = Vec::new();
    if size < hi {
      for s in &last {
        let from = if ordered {
          0
        } else {
          s.last().copied().unwrap_or(0)
        };
        for x in from..n as u32 {
          let mut s = s.clone();
          s.push(x);
          next.push(s);
        }
      }
    }
    last = next;
  }
  res
}

/// A space of grammars: for each nonterminal a list of choices of production
/// lists.  Grammars are numbered in mixed radix.
#[derive(Clone)]
pub struct Space {
  pub name: String,
  pub terms: u16,
  rhs: Vec<Arc<Vec<Vec<Sym>>>>,
  choices: Vec<Arc<Vec<Vec<u32>>>>,
  pub note: String,
}

impl Space {
  /// `prods`: per nonterminal (min productions, max productions, max RHS).
  pub fn new(
    name: &str,
    terms: u16,
    prods: &[(usize, usize, usize)],
    ordered: bool,
  ) -> Space {
    let nts = prods.len() as u16;
    let mut rhs = Vec::new();
    let mut choices = Vec::new();
    for (lo, hi, len) in prods {
      let r = all_rhs(nts, terms, *len);
      choices.push(Arc::new(selections(r.len(), *lo, *hi, ordered)));
      rhs.push(Arc::new(r));
    }
    let note = format!(
      "all grammars with {} nonterminals, {} terminals and, per nonterminal, \
       (min productions, max productions, max length) = {:?}, productions as {}, \
       up to renaming of terminals{}",
      nts,
      terms,
      prods,
      if ordered { "sequences" } else { "multisets" },
      if nts == 3 {
        " or of the two non-start nonterminals"
      } else {
        ""
      }
    );
    Space {
      name: name.to_string(),
      terms,
      rhs,
      choices,
      note,
    }
  }

  pub fn count(&self) -> u64 {
    self.choices.iter().map(|c| c.len() as u64).product()
  }

  /// The grammar of that number, or None when it is not well-formed or not
  /// the representative of its class.
  pub fn get(&self, ix: u64) -> Option<Gram> {
    self.get_any(ix).filter(|g| g.well_formed())
  }

  pub fn get_any(&self, mut ix: u64) -> Option<Gram> {
    let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = Vec::new();
    for (n, ch) in self.choices.iter().enumerate() {
      let c = &ch[(ix % ch.len() as u64) as usize];
      ix /= ch.len() as u64;
      rules.push((
        n as u16,
        c.iter().map(|r| self.rhs[n][*r as usize].clone()).collect(),
      ));
    }
    // Terminals in order of first occurrence.
    let mut next_t = 0;
    for s in rules.iter().flat_map(|r| &r.1).flatten() {
      if let Sym::T(t) = s {
        if *t > next_t {
          return None;
        }
        if *t == next_t {
          next_t += 1;
        }
      }
    }
    if rules.len() == 3 {
      // Only used where one terminal exists, so that the two symmetries do
      // not interact.
      let first = rules
        .iter()
        .flat_map(|r| &r.1)
        .flatten()
        .find(|s| matches!(s, Sym::N(n) if *n > 0));
      if first == Some(&Sym::N(2)) && self.terms <= 1 {
        let sym12 = self.choices[1].len() == self.choices[2].len();
        if sym12 {
          return None;
        }
      }
    }
    Some(Gram::simple(0, rules))
  }

  /// Chunked: number of chunks of the given size.
  pub fn chunks(&self, size: u64) -> u64 {
    (self.count() + size - 1) / size
  }

  /// Runs over one chunk; returns the number filtered out.
  pub fn for_chunk(
    &self,
    chunk: u64,
    size: u64,
    mut f: impl FnMut(Gram) -> Result<(), String>,
  ) -> Result<u64, String> {
    let mut filtered = 0;
    for ix in chunk * size..((chunk + 1) * size).min(self.count()) {
      match self.get(ix) {
        None => filtered += 1,
        Some(g) => f(g)?,
      }
    }
    Ok(filtered)
  }
}

// -------------------------------------------------------- families

pub type Check = fn(&Gram, &mut Stats) -> Verdict;

pub fn built(g: &Gram) -> Result<G, String> {
  guard(|| to_bongo(g))
    .map_err(|p| format!("building {} panics: {}", g.show(), p))?
    .map_err(|e| format!("building {} fails: {:?}", g.show(), e))
}

pub fn list_family(name: &str, gs: Vec<Gram>, check: Check) -> Family {
  let gs = Arc::new(gs);
  let n = gs.len() as u64;
  Family::new(
    name,
    n,
    format!("{} grammars", n),
    move |u, st| check(&gs[u as usize], st),
  )
}

pub fn space_family(sp: Space, renamed: bool, check: Check) -> Family {
  const CHUNK: u64 = 256;
  let note = format!(
    "{}{}",
    sp.note,
    if renamed { "; start nonterminal ordered last" } else { "" }
  );
  Family::new(
    format!("{}{}", sp.name, if renamed { "-rev" } else { "" }),
    sp.chunks(CHUNK),
    note,
    move |u, st| {
      let f = sp.for_chunk(u, CHUNK, |g| {
        let k = g.rules.len() as u16;
        let g = if renamed { g.rename_nts(|x| k - 1 - x) } else { g };
        check(&g, st)
      })?;
      st.filtered += f;
      Ok(())
    },
  )
}

// -------------------------------------------------------- curated shapes

/// Parses "S: A b | ; A: a" notation: upper case is a nonterminal, lower case
/// a terminal; single letters.  The first head is the start.
pub fn gram(s: &str) -> Gram {
  let mut names: Vec<char> = Vec::new();
  let mut terms: Vec<char> = Vec::new();
  let mut rules = Vec::new();
  let parts: Vec<(&str, &str)> = s
    .split(';')
    .filter(|p| !p.trim().is_empty())
    .map(|p| {
      let mut it = p.splitn(2, ':');
      (it.next().unwrap().trim(), it.next().unwrap())
    })
    .collect();
  for (h, _) in &parts {
    names.push(h.chars().next().unwrap());
  }
  for (h, body) in &parts {
    let h = names.iter().position(|n| *n == h.chars().next().unwrap()).unwrap();
    let mut prods = Vec::new();
    for alt in body.split('|') {
      let mut p = Vec::new();
      for c in alt.chars().filter(|c| !c.is_whitespace()) {
        if c.is_uppercase() {
          let n = names.iter().position(|n| *n == c).unwrap_or_else(|| {
            panic!("curated grammar {:?} lacks a rule for {}", s, c)
          });
          p.push(Sym::N(n as u16));
        } else {
          let t = terms.iter().position(|t| *t == c).unwrap_or_else(|| {
            terms.push(c);
            terms.len() - 1
          });
          p.push(Sym::T(t as u16));
        }
      }
      prods.push(p);
    }
    rules.push((h as u16, prods));
  }
  Gram::simple(0, rules)
}

/// Grammars of the literature and of practice.
pub fn classics() -> Vec<Gram> {
  [
    "S:",
    "S:a",
    "S:SS|a",
    "S:SS|a|",
    "S:SSS|SS|a",
    "S:aS|",
    "S:Sa|",
    "S:aS|a",
    "S:Sa|a",
    "S:aSb|",
    "S:aSa|bSb|",
    "S:aSa|bSb|a|b|",
    "S:aSbS|",
    "S:(S)S|",
    "E:E+T|T;T:T*F|F;F:(E)|n",
    "E:E+E|E*E|n",
    "E:E+E|E*E|(E)|-E|n",
    "E:TX;X:+TX|;T:FY;Y:*FY|;F:(E)|n",
    "S:iS|iSeS|x",
    "S:iES|iESeS|a;E:b",
    "S:L=R|R;L:*R|i;R:L",
    "S:CC;C:cC|d",
    "S:AB;A:a|;B:b|",
    "S:ABC;A:a|;B:b|;C:c|",
    "S:AAAA;A:a|E;E:",
    "S:A;A:B;B:C;C:A|a",
    "S:S|a",
    "S:S|",
    "S:A|B;A:a|B;B:b|A",
    "S:AS|b;A:|a",
    "S:SA|b;A:|a",
    "S:aAd|bBd|aBe|bAe;A:c;B:c",
    "S:Aa|bAc|Bc|bBa;A:d;B:d",
    "S:AaAb|BbBa;A:;B:",
    "S:aB|bA;A:a|aS|bAA;B:b|bS|aBB",
    "S:aXb;X:Y;Y:Z;Z:|c",
    "S:a|a|a",
    "S:A|B;A:ab|a;B:a|ab",
    "L:[I]|[];I:V|I,V;V:L|n",
    "S:X;X:{M};M:|P|P,M;P:s;",
    "P:D;D:DS|S;S:i=Ez|{P};E:E+i|i",
    "S:AB|AC;A:a;B:b;C:Bc|c",
    "S:AbA|A;A:aA|",
    "S:xSy|xS|z",
    "S:ABAB;A:|a;B:|b",
    "S:Aab|b;A:S|",
    "S:aSS|",
    "S:SaS|SbS|c",
    "S:BSA|c;A:|a;B:|b",
  ]
  .iter()
  .map(|s| gram(s))
  .collect()
}

/// Larger shapes: (name, grammar, inputs).
pub fn shapes(deep: bool) -> Vec<(String, Gram, Vec<Vec<u16>>)> {
  let mut v: Vec<(String, Gram, Vec<Vec<u16>>)> = Vec::new();
  let t = Sym::T;
  let n = Sym::N;
  let maxn = if deep { 80 } else { 40 };
  // A long right-hand side, exact, one short, one long.
  for len in [1usize, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 70] {
    let rhs: Vec<Sym> = (0..len).map(|i| t((i % 3) as u16)).collect();
    let g = Gram::simple(0, vec![(0, vec![rhs])]);
    let good: Vec<u16> = (0..len).map(|i| (i % 3) as u16).collect();
    let mut long = good.clone();
    long.push(0);
    let mut bad = good.clone();
    bad[len - 1] = 3;
    v.push((
      format!("rhs{}", len),
      g,
      vec![good.clone(), good[..len - 1].to_vec(), long, bad],
    ));
    // Same with a nullable nonterminal between terminals.
    if len <= 17 {
      let mut rhs = vec![];
      for _ in 0..len {
        rhs.push(n(1));
        rhs.push(t(0));
      }
      let g = Gram::simple(0, vec![(0, vec![rhs]), (1, vec![vec![], vec![t(1)]])]);
      let mut full = vec![];
      for _ in 0..len {
        full.push(1);
        full.push(0);
      }
      v.push((
        format!("rhs-nullable{}", len),
        g,
        vec![vec![0; len], full, vec![0; len - 1], vec![0; len + 1]],
      ));
    }
  }
  // Many productions.
  for k in [9usize, 17, 33, 65, 70] {
    let prods: Vec<Vec<Sym>> = (0..k).map(|i| vec![t(i as u16)]).collect();
    let g = Gram::simple(0, vec![(0, prods)]);
    let mut ins: Vec<Vec<u16>> = (0..k + 1).map(|i| vec![i as u16]).collect();
    ins.push(vec![0, 1]);
    ins.push(vec![]);
    v.push((format!("prods{}", k), g, ins));
  }
  // Unit chains, in both directions of the nonterminal order.
  for k in [5u16, 17, 40] {
    for rev in [false, true] {
      let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = (0..k)
        .map(|i| {
          (
            i,
            if i + 1 == k {
              vec![vec![t(0)], vec![]]
            } else {
              vec![vec![n(i + 1)]]
            },
          )
        })
        .collect();
      if k <= 17 {
        // and a cycle back to the start
        rules[k as usize - 1].1.push(vec![n(0)]);
      }
      let g = Gram::simple(0, rules);
      let g = if rev { g.rename_nts(|x| k - 1 - x) } else { g };
      v.push((
        format!("chain{}{}", k, if rev { "r" } else { "" }),
        g,
        vec![vec![], vec![0], vec![0, 0], vec![1]],
      ));
    }
  }
  // Many nonterminals in one production, each with its own terminal.
  for k in [5u16, 12, 20] {
    let mut rules = vec![(0u16, vec![(1..=k).map(n).collect::<Vec<_>>()])];
    for i in 1..=k {
      rules.push((i, vec![vec![t(i)], vec![]]));
    }
    let g = Gram::simple(0, rules);
    let all: Vec<u16> = (1..=k).collect();
    let even: Vec<u16> = (1..=k).filter(|x| x % 2 == 0).collect();
    let rev: Vec<u16> = (1..=k).rev().collect();
    v.push((format!("optional{}", k), g, vec![all, even, rev, vec![], vec![k]]));
  }
  // Long inputs over small grammars.
  for (name, s) in [
    ("left", "S:Sa|b"),
    ("right", "S:aS|b"),
    ("left-eps", "S:Sa|"),
    ("right-eps", "S:aS|"),
    ("anbn", "S:aSb|"),
    ("dyck", "S:aSbS|"),
    ("expr", "E:E+T|T;T:T*F|F;F:(E)|n"),
  ] {
    let g = gram(s);
    let mut ins: Vec<Vec<u16>> = Vec::new();
    for len in [10usize, 20, maxn] {
      match name {
        "left" => {
          let mut w = vec![1u16];
          w.extend(vec![0; len]);
          ins.push(w.clone());
          w.push(1);
          ins.push(w);
        }
        "right" => {
          let mut w = vec![0u16; len];
          ins.push(w.clone());
          w.push(1);
          ins.push(w);
        }
        "left-eps" | "right-eps" => {
          let mut w = vec![0u16; len];
          ins.push(w.clone());
          w.push(1);
          ins.push(w);
        }
        "anbn" => {
          let mut w = vec![0u16; len / 2];
          w.extend(vec![1; len / 2]);
          ins.push(w.clone());
          w.push(1);
          ins.push(w.clone());
          w.pop();
          w.pop();
          ins.push(w);
        }
        "dyck" => {
          let w: Vec<u16> = (0..len).map(|i| (i % 2) as u16).collect();
          ins.push(w.clone());
          let mut w2 = vec![0u16; len / 4];
          w2.extend(w);
          w2.extend(vec![1; len / 4]);
          ins.push(w2.clone());
          w2.push(1);
          ins.push(w2);
        }
        _ => {
          // n + n * n + ...; with terminals + * ( ) n numbered by occurrence
          let w: Vec<u16> = (0..len)
            .map(|i| {
              if i % 2 == 0 {
                4
              } else {
                (i / 2 % 2) as u16
              }
            })
            .collect();
          let mut good = w.clone();
          if good.len() % 2 == 0 {
            good.pop();
          }
          ins.push(good);
          let mut bad = w;
          bad.push(2);
          ins.push(bad);
          let d = len / 4;
          let mut p = vec![2u16; d];
          p.push(4);
          p.extend(vec![3; d]);
          ins.push(p.clone());
          p.push(3);
          ins.push(p);
        }
      }
    }
    v.push((format!("long-{}", name), g, ins));
  }
  // Highly ambiguous.
  for (name, s, max) in [
    ("catalan", "S:SS|a", if deep { 10 } else { 7 }),
    ("catalan3", "S:SSS|SS|a", if deep { 8 } else { 6 }),
    ("binop", "E:E+E|n", if deep { 17 } else { 11 }),
    ("ss-eps", "S:SS|a|", if deep { 5 } else { 4 }),
  ] {
    let g = gram(s);
    let ins = (0..=max)
      .map(|len| {
        if name == "binop" {
          (0..len).map(|i| if i % 2 == 0 { 1 } else { 0 }).collect()
        } else {
          vec![0u16; len]
        }
      })
      .collect();
    v.push((name.to_string(), g, ins));
  }
  v
}
