//! P13: printing a grammar.

use crate::cfg::*;
use crate::engine::*;
use crate::spaces::*;
use bongo::grammar::{Grammar, NonTerminal, Terminal};
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::utils::ToDoc;
use std::collections::BTreeMap;

/// How symbols are called.
#[derive(Clone, Copy, Debug)]
struct Names {
  nt_len: usize,
  t_len: usize,
}

impl Names {
  fn nt(&self, n: u16) -> String {
    format!("N{:02}{}", n, "n".repeat(self.nt_len))
  }
  fn t(&self, t: u16) -> String {
    format!("t{:02}{}", t, "t".repeat(self.t_len))
  }
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Tok {
  Plain(String),
  Marked(String),
  Label(String),
  Empty,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct MPrint {
  start: String,
  rules: Vec<(String, Vec<Vec<Tok>>)>,
}

fn squeeze(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl MPrint {
  /// The text without whitespace in today's notation.
  fn text(&self) -> String {
    let mut o = format!("Start={},Rules{{", self.start);
    for (h, ps) in &self.rules {
      o.push_str(h);
      o.push_str("=>");
      for (i, p) in ps.iter().enumerate() {
        if i > 0 {
          o.push('|');
        }
        for t in p {
          match t {
            Tok::Plain(s) => o.push_str(s),
            Tok::Marked(s) => o.push_str(&format!("<{}>", s)),
            Tok::Label(s) => o.push_str(&format!("{}:", s)),
            Tok::Empty => o.push('ε'),
          }
        }
      }
      o.push(';');
    }
    o.push_str("},");
    squeeze(&o)
  }

  /// Whether the text shows the same in another notation: the same words in
  /// the same order, nonterminals of productions set off from terminals, and
  /// productions separated by something that does not separate elements.
  fn shown_by(&self, text: &str) -> bool {
    let t = squeeze(text);
    let mut rest: &str = &t;
    let mut seps: BTreeMap<(u16, u16), Vec<String>> = BTreeMap::new();
    // Word classes: 0 start, 1 head, 2 plain, 3 marked, 4 label, 5 empty;
    // plus 8 at the start of a production.
    let mut words: Vec<(u16, String)> = vec![(0, self.start.clone())];
    for (h, ps) in &self.rules {
      words.push((1, h.clone()));
      for p in ps {
        for (i, k) in p.iter().enumerate() {
          let c = if i == 0 { 8 } else { 0 };
          words.push(match k {
            Tok::Plain(s) => (2 + c, s.clone()),
            Tok::Marked(s) => (3 + c, s.clone()),
            Tok::Label(s) => (4 + c, s.clone()),
            Tok::Empty => (5 + c, "ε".into()),
          });
        }
      }
    }
    let mut last = 7u16;
    for (class, w) in &words {
      let w = squeeze(w);
      match rest.find(&w) {
        None => return false,
        Some(i) => {
          let sep = rest[..i].to_string();
          // No foreign word may be skipped.
          if last != 7
            && sep.chars().any(|c| c.is_alphanumeric())
            && !(last == 0 && *class == 1)
          {
            return false;
          }
          seps.entry((last & 7, *class)).or_default().push(sep);
          rest = &rest[i + w.len()..];
        }
      }
      last = *class;
    }
    // One notation per kind of neighbourhood.
    if seps.values().any(|v| v.iter().any(|s| s != &v[0])) {
      return false;
    }
    let get = |a: u16, b: u16| seps.get(&(a, b)).map(|v| v[0].clone());
    // Marked nonterminals differ from terminals.
    if let (Some(a), Some(b)) = (get(2, 3), get(2, 2)) {
      if a == b {
        return false;
      }
    }
    // Heads and names are set off from what follows them.
    let glued = |(k, v): (&(u16, u16), &Vec<String>)| {
      (k.0 == 1 || k.0 == 4) && v[0].is_empty()
    };
    if seps.iter().any(glued) {
      return false;
    }
    // A new production differs from a further element.
    for a in 2..6 {
      for b in 2..6 {
        if let (Some(x), Some(y)) = (get(a, b), get(a, b + 8)) {
          if x == y || y.is_empty() {
            return false;
          }
        }
      }
    }
    true
  }
}

fn model(
  g: &Gram,
  nt: &dyn Fn(u16) -> String,
  t: &dyn Fn(u16) -> String,
) -> MPrint {
  let mut rules: Vec<(String, Vec<Vec<Tok>>)> = Vec::new();
  for (h, ps) in &g.rules {
    rules.push((
      nt(*h),
      ps.iter()
        .map(|p| {
          let mut v = Vec::new();
          for (n, s) in &p.elems {
            if let Some(n) = n {
              v.push(Tok::Label(elem_name(*n)));
            }
            v.push(match s {
              Sym::T(x) => Tok::Plain(t(*x)),
              Sym::N(x) => Tok::Marked(nt(*x)),
            });
          }
          if p.elems.is_empty() {
            v.push(Tok::Empty);
          }
          v
        })
        .collect(),
    ));
  }
  rules.sort_by(|a, b| a.0.cmp(&b.0));
  MPrint {
    start: nt(g.start),
    rules,
  }
}

fn compare<T: ToDoc, NT: ToDoc, AK, AV>(
  real: &Grammar<T, NT, AK, AV>,
  want: &MPrint,
  ctx: &dyn Fn() -> String,
  st: &mut Stats,
) -> Verdict {
  let text = guard(|| real.to_pretty())
    .map_err(|p| format!("{}\nprinting panics: {}", ctx(), p))?;
  st.traces += 1;
  st.transitions += want.rules.len() as u64;
  let again = guard(|| real.to_pretty()).unwrap_or_default();
  if again != text {
    return Err(format!("{}\nprinting twice differs", ctx()));
  }
  if squeeze(&text) == want.text() || want.shown_by(&text) {
    st.outcome(format!("{} lines", text.lines().count().min(12)));
    return Ok(());
  }
  Err(format!(
    "{}\nprinted:\n{}\nexpected, ignoring whitespace:\n{}",
    ctx(),
    text,
    want.text()
  ))
}

fn check_names(g: &Gram, names: Names, st: &mut Stats) -> Verdict {
  let real = guard(|| {
    to_bongo_with(
      g,
      &|t| Terminal::new(&names.t(t)),
      &|n| NonTerminal::new(&names.nt(n)),
      &Ak,
      &Av,
    )
  })
  .map_err(|p| format!("{}\nbuilding panics: {}", g.show(), p))?
  .map_err(|e| format!("{}\nbuilding fails: {:?}", g.show(), e))?;
  st.states_extra += 1;
  let ctx = || format!("grammar: {}\nnames: {:?}", g.show(), names);
  let want = model(g, &|n| names.nt(n), &|t| names.t(t));
  compare(&real, &want, &ctx, st)?;
  st.sample(|| want.text());
  // Start-wrapped.
  let wrapped = guard(|| wrap_grammar_with_start(real.clone()))
    .map_err(|p| format!("{}\nwrapping panics: {}", ctx(), p))?
    .map_err(|e| format!("{}\nwrapping fails: {:?}", ctx(), e))?;
  let mut w = want;
  let start = "<START>".to_string();
  let rule = vec![
    Tok::Label("start".into()),
    Tok::Marked(w.start.clone()),
    Tok::Plain("<EOS>".into()),
  ];
  w.rules.insert(0, (start.clone(), vec![rule]));
  w.start = start;
  compare(&wrapped, &w, &|| format!("{}\nwrapped", ctx()), st)
}

/// Names that a printer could take for its own notation or for nothing.
const ODD: [&str; 12] = [
  "", "S", "<S>", "|", "ε", "start", "<START>", ";", "=>", "a:b", "<EOS>",
  "日本",
];

fn odd(i: u16, from: usize) -> &'static str {
  ODD[(i as usize + from) % ODD.len()]
}

/// Symbols with odd names, terminals and nonterminals sharing some.  Only
/// today's notation says how these look.
fn check_odd(g: &Gram, st: &mut Stats) -> Verdict {
  let plain = Names { nt_len: 0, t_len: 0 };
  let build = |t: &dyn Fn(u16) -> Terminal, n: &dyn Fn(u16) -> NonTerminal| {
    guard(|| to_bongo_with(g, t, n, &Ak, &Av))
      .map_err(|p| format!("{}\nbuilding panics: {}", g.show(), p))?
      .map_err(|e| format!("{}\nbuilding fails: {:?}", g.show(), e))
  };
  let real = build(&|t| Terminal::new(&plain.t(t)), &|n| NonTerminal::new(&plain.nt(n)))?;
  let text = guard(|| real.to_pretty())
    .map_err(|p| format!("{}\nprinting panics: {}", g.show(), p))?;
  if squeeze(&text) != model(g, &|n| plain.nt(n), &|t| plain.t(t)).text() {
    st.outcome("another notation");
    return Ok(());
  }
  for from in 0..ODD.len() {
    for apart in [0, 1, 5] {
      let nt = |n: u16| odd(n, from).to_string();
      let t = |t: u16| odd(t, from + apart).to_string();
      let real = build(&|x| Terminal::new(&t(x)), &|x| NonTerminal::new(&nt(x)))?;
      let text = guard(|| real.to_pretty())
        .map_err(|p| format!("{}\nprinting panics: {}", g.show(), p))?;
      st.traces += 1;
      st.states_extra += 1;
      let want = model(g, &nt, &t);
      if squeeze(&text) != want.text() {
        return Err(format!(
          "{}\nnames from {:?}, terminals {} further\nprinted:\n{}\nexpected, ignoring whitespace:\n{}",
          g.show(),
          ODD[from],
          apart,
          text,
          want.text()
        ));
      }
    }
  }
  Ok(())
}

/// Keys of very many productions.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Number(usize);

/// Large grammars.
fn sizes(list: Vec<usize>) -> Family {
  let shapes = 4;
  Family::new(
    "sizes",
    list.len() as u64 * shapes,
    format!("{:?} rules, productions, elements, or characters of a name", list),
    move |u, st| {
      let n = list[(u / shapes) as usize].max(1);
      let word = |i: usize| format!("w{}", i);
      let mut rules: Vec<(String, Vec<Vec<Tok>>)> = Vec::new();
      let (mut nt, mut prods) = (vec!["S".to_string()], vec![]);
      match u % shapes {
        0 => {
          for i in 0..n {
            nt.push(word(i));
            prods.push((0, vec![Tok::Label(word(i)), Tok::Marked(word(i))]));
            prods.push((i + 1, vec![]));
          }
        }
        1 => prods.extend((0..n).map(|i| (0, vec![Tok::Plain(word(i))]))),
        2 => prods.push((0, (0..n).map(|i| Tok::Plain(word(i))).collect())),
        _ => prods.push((
          0,
          vec![
            Tok::Label("l".repeat(n)),
            Tok::Plain("t".repeat(n)),
            Tok::Plain("u".repeat(n)),
          ],
        )),
      }
      // The productions of each head.
      let mut of: Vec<Vec<(usize, &Vec<Tok>)>> = vec![vec![]; nt.len()];
      for (k, p) in prods.iter().enumerate() {
        of[p.0].push((k, &p.1));
      }
      let real = guard(|| {
        bongo::grammar::build(NonTerminal::new("S"), |gb| {
          for (h, name) in nt.iter().enumerate() {
            gb.add_rule(NonTerminal::new(name), |rb| {
              for (k, p) in &of[h] {
                rb.add_prod(Number(*k), Av(0), |pb| {
                  let mut label: Option<String> = None;
                  for t in *p {
                    match (t, label.take()) {
                      (Tok::Label(s), _) => label = Some(s.clone()),
                      (Tok::Plain(s), Some(l)) => {
                        pb.add_named_term(&*l, Terminal::new(s));
                      }
                      (Tok::Plain(s), None) => {
                        pb.add_term(Terminal::new(s));
                      }
                      (Tok::Marked(s), Some(l)) => {
                        pb.add_named_nonterm(&*l, NonTerminal::new(s));
                      }
                      (Tok::Marked(s), None) => {
                        pb.add_nonterm(NonTerminal::new(s));
                      }
                      (Tok::Empty, _) => {}
                    }
                  }
                });
              }
            });
          }
        })
      })
      .map_err(|p| format!("building {} panics: {}", n, p))?
      .map_err(|_| format!("building {} fails", n))?;
      for (h, name) in nt.iter().enumerate() {
        let ps = of[h]
          .iter()
          .map(|x| if x.1.is_empty() { vec![Tok::Empty] } else { x.1.clone() })
          .collect();
        rules.push((name.clone(), ps));
      }
      rules.sort_by(|a, b| a.0.cmp(&b.0));
      let want = MPrint { start: "S".into(), rules };
      st.states_extra += 1;
      compare(&real, &want, &|| format!("shape {} of size {}", u % shapes, n), st)
    },
  )
}

fn check(g0: &Gram, st: &mut Stats) -> Verdict {
  for variant in [0, 1] {
    check_odd(&g0.with_names(variant), st)?;
  }
  for variant in [0, 1, 2, 4, 5, 6] {
    let g = g0.with_names(variant);
    for names in [
      Names { nt_len: 0, t_len: 0 },
      Names { nt_len: 30, t_len: 0 },
      Names { nt_len: 0, t_len: 90 },
    ] {
      check_names(&g, names, st)?;
    }
  }
  Ok(())
}

/// Every name length: moves every possible line break over every position.
fn widths(max: usize) -> Family {
  let mut gs = classics();
  for (_, g, _) in shapes(false) {
    gs.push(g);
  }
  // Many rules, many productions, long productions.
  for n in [5u16, 12, 30, 60] {
    let mut rules: Vec<(u16, Vec<Vec<Sym>>)> = Vec::new();
    for i in 0..n {
      rules.push((i, vec![vec![Sym::N((i + 1) % n)], vec![]]));
    }
    gs.push(Gram::simple(0, rules));
    gs.push(Gram::simple(
      0,
      vec![(0, (0..n).map(|i| vec![Sym::T(i), Sym::N(0)]).collect())],
    ));
    let long = (0..n).map(|i| if i % 3 == 1 { Sym::N(0) } else { Sym::T(i) });
    gs.push(Gram::simple(0, vec![(0, vec![long.collect(), vec![]])]));
  }
  let lens: Vec<Names> = (0..max)
    .flat_map(|l| {
      [
        Names { nt_len: l, t_len: 0 },
        Names { nt_len: 0, t_len: l },
        Names { nt_len: l, t_len: l },
      ]
    })
    .collect();
  Family::new(
    "widths",
    gs.len() as u64,
    format!(
      "{} grammars of up to 60 rules, productions or elements, with {} name \
       lengths up to {} characters, unnamed and named elements",
      gs.len(),
      lens.len(),
      max + 2
    ),
    move |u, st| {
      for v in [0, 2] {
        let g = gs[u as usize].with_names(v);
        for n in &lens {
          check_names(&g, *n, st)?;
        }
      }
      Ok(())
    },
  )
}

pub fn p13(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let s = |n: &str, t, p: &[(usize, usize, usize)]| Space::new(n, t, p, true);
  let mut f = vec![
    widths(if deep { 170 } else { 85 }),
    sizes(edges_and(if deep { 4096 } else { 512 }, 65536).into_iter().rev().collect()),
    space_family(s("1nt2t", 2, &[(1, 2, 3)]), false, check),
    space_family(s("2nt1t", 1, &[(1, 2, 2), (1, 2, 1)]), true, check),
    space_family(
      s("3nt1t", 1, &[(1, 1, 2), (1, 2, 1), (1, 1, 1)]),
      false,
      check,
    ),
  ];
  if deep {
    f.push(space_family(s("1nt1t-3prods", 1, &[(1, 3, 3)]), false, check));
    f.push(space_family(
      s("2nt2t", 2, &[(1, 2, 2), (1, 1, 2)]),
      false,
      check,
    ));
  }
  Property {
    id: "P13",
    families: f,
    assumptions: vec![
      "symbol names without whitespace; symbols print as their name".into(),
      "how symbols with the characters of the notation in their names look is \
       only compared in today's notation".into(),
    ],
    explanation: "states: (grammar, element naming, symbol name lengths); each is \
      printed plain and start-wrapped and compared, without whitespace, with the \
      text the definition gives (in today's notation, or any other that shows \
      the same words in the same order and keeps productions and nonterminals \
      apart); transitions: rules printed"
      .into(),
  }
}
