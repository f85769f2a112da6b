//! Reading DOT text back into a graph.

use crate::engine::hash;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Graph {
  /// Name, shape and label of each vertex, in the order declared.
  pub vertices: Vec<(String, String, String)>,
  /// Edges between vertices, by index, in the order printed.
  pub edges: Vec<(usize, usize)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Tok {
  Id(String),
  Str(String),
  Sym(char),
  Arrow,
}

fn unescape(s: &str) -> Result<String, String> {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      out.push(c);
      continue;
    }
    match it.next().ok_or("a backslash at the end of a string")? {
      'n' => out.push('\n'),
      't' => out.push('\t'),
      'r' => out.push('\r'),
      'u' => {
        let mut h = String::new();
        if it.next() != Some('{') {
          return Err("a bad unicode escape".to_string());
        }
        for d in it.by_ref() {
          if d == '}' {
            break;
          }
          h.push(d);
        }
        let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
        out.push(char::from_u32(n).ok_or("a bad code point")?);
      }
      c => out.push(c),
    }
  }
  Ok(out)
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
  let mut out = Vec::new();
  let cs: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < cs.len() {
    let c = cs[i];
    if c.is_whitespace() {
      i += 1;
    } else if c == '"' {
      let mut t = String::new();
      i += 1;
      loop {
        match cs.get(i) {
          None => return Err("a string without end".to_string()),
          Some('"') => break,
          Some('\\') => {
            t.push('\\');
            t.push(*cs.get(i + 1).ok_or("a string without end")?);
            i += 2;
          }
          Some(c) => {
            t.push(*c);
            i += 1;
          }
        }
      }
      i += 1;
      out.push(Tok::Str(unescape(&t)?));
    } else if c == '-' && cs.get(i + 1) == Some(&'>') {
      out.push(Tok::Arrow);
      i += 2;
    } else if c.is_alphanumeric() || c == '_' || c == '.' {
      let mut t = String::new();
      while i < cs.len()
        && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '.')
      {
        t.push(cs[i]);
        i += 1;
      }
      out.push(Tok::Id(t));
    } else if "{}[];=,".contains(c) {
      out.push(Tok::Sym(c));
      i += 1;
    } else {
      return Err(format!("an unexpected character {:?}", c));
    }
  }
  Ok(out)
}

impl Graph {
  /// Parses a digraph in which every vertex is declared exactly once.
  pub fn parse(s: &str) -> Result<Graph, String> {
    let t = lex(s).map_err(|e| format!("not DOT: {} in\n{}", e, s))?;
    Self::parse_toks(&t).map_err(|e| format!("{} in\n{}", e, s))
  }

  fn parse_toks(t: &[Tok]) -> Result<Graph, String> {
    let mut i = 0;
    let id = |t: Option<&Tok>| match t {
      Some(Tok::Id(s)) | Some(Tok::Str(s)) => Ok(s.clone()),
      t => Err(format!("{:?} instead of a name", t)),
    };
    if t.first() == Some(&Tok::Id("strict".into())) {
      i += 1;
    }
    if t.get(i) != Some(&Tok::Id("digraph".into())) {
      return Err("no digraph".to_string());
    }
    i += 1;
    if t.get(i) != Some(&Tok::Sym('{')) {
      id(t.get(i))?;
      i += 1;
    }
    if t.get(i) != Some(&Tok::Sym('{')) {
      return Err("no body".to_string());
    }
    i += 1;
    let mut g = Graph::default();
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut edges: Vec<(String, String)> = Vec::new();
    while t.get(i) != Some(&Tok::Sym('}')) {
      let name = id(t.get(i))?;
      i += 1;
      let mut to = None;
      if t.get(i) == Some(&Tok::Arrow) {
        to = Some(id(t.get(i + 1))?);
        i += 2;
      }
      let mut attrs: BTreeMap<String, String> = BTreeMap::new();
      while t.get(i) == Some(&Tok::Sym('[')) {
        i += 1;
        while t.get(i) != Some(&Tok::Sym(']')) {
          let k = id(t.get(i))?;
          if t.get(i + 1) != Some(&Tok::Sym('=')) {
            return Err("an attribute without value".to_string());
          }
          attrs.insert(k, id(t.get(i + 2))?);
          i += 3;
          if let Some(Tok::Sym(',')) | Some(Tok::Sym(';')) = t.get(i) {
            i += 1;
          }
        }
        i += 1;
      }
      if t.get(i) == Some(&Tok::Sym(';')) {
        i += 1;
      }
      match to {
        Some(to) => edges.push((name, to)),
        None => {
          // Attributes of the whole graph are no vertices.
          if ["graph", "node", "edge"].contains(&name.as_str()) {
            continue;
          }
          if index.insert(name.clone(), g.vertices.len()).is_some() {
            return Err(format!("{} is declared twice", name));
          }
          let mut a = |k: &str| attrs.remove(k).unwrap_or_default();
          let (shape, label) = (a("shape"), a("label"));
          g.vertices.push((name, shape, label));
        }
      }
    }
    if i + 1 != t.len() {
      return Err("text after the graph".to_string());
    }
    for (a, b) in edges {
      let f = |n: &String| {
        index
          .get(n)
          .copied()
          .ok_or(format!("an edge of {}, which is not shown", n))
      };
      g.edges.push((f(&a)?, f(&b)?));
    }
    Ok(g)
  }
}

/// A name-free fingerprint of a graph: colours refined by neighbours.
pub fn canonical(
  vs: &[(String, String)],
  es: &[(usize, usize)],
  rounds: usize,
) -> u64 {
  let mut col: Vec<u64> = vs.iter().map(hash).collect();
  for _ in 0..rounds {
    let mut around = vec![(vec![], vec![]); vs.len()];
    for (a, b) in es {
      around[*a].0.push(col[*b]);
      around[*b].1.push(col[*a]);
    }
    col = around
      .into_iter()
      .zip(&col)
      .map(|((mut o, mut i), c)| {
        o.sort_unstable();
        i.sort_unstable();
        hash(&(*c, o, i))
      })
      .collect();
  }
  col.sort_unstable();
  hash(&col)
}
