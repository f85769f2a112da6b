//! P21: text positions.

use crate::engine::*;
use bongo::utils::buffer::BufferRange;
use unicode_segmentation::UnicodeSegmentation;

/// Line, column and byte offset of an offset in characters.
fn position(text: &[char], at: usize) -> (usize, usize, usize) {
  let byte = text[..at].iter().map(|c| c.len_utf8()).sum();
  // Terminators: (first, past the last), in characters.
  let mut terms = Vec::new();
  let mut i = 0;
  while i < text.len() {
    match text[i] {
      '\r' if text.get(i + 1) == Some(&'\n') => {
        terms.push((i, i + 2));
        i += 2;
      }
      '\r' | '\n' => {
        terms.push((i, i + 1));
        i += 1;
      }
      _ => i += 1,
    }
  }
  let line = terms.iter().filter(|t| t.1 <= at).count();
  let start = if line == 0 { 0 } else { terms[line - 1].1 };
  let end = terms.get(line).map_or(text.len(), |t| t.0);
  let s: String = text[start..end].iter().collect();
  let upto: usize = text[start..at.min(end)].iter().map(|c| c.len_utf8()).sum();
  let col = s.grapheme_indices(true).filter(|(o, _)| *o < upto).count();
  // For simple texts the clusters are known without tables.
  if text.iter().all(|c| crate::props::buffer_alpha().contains(c)) {
    let simple = text[start..at.min(end)]
      .iter()
      .enumerate()
      .filter(|(i, c)| **c != '\u{301}' || *i == 0)
      .count();
    if simple != col {
      crate::engine::oracle_broken(format!("columns of {:?}", text));
    }
  }
  (line, col, byte)
}

fn check(text: &[char], st: &mut Stats) -> Verdict {
  let s: String = text.iter().collect();
  let n = text.len();
  let want: Vec<_> = (0..=n).map(|i| position(text, i)).collect();
  let r = guard(|| {
    let whole = BufferRange::new("<mc>", &s);
    // A range for each start, and of those one for each end.
    let mut at = vec![whole.clone()];
    for i in 0..n {
      let mut r = at[i].clone();
      r.read_char_mut();
      at.push(r);
    }
    for i in 0..=n {
      let e = at[i].end_pos().verif_parts();
      let s = at[i].start_pos().verif_parts();
      if s != want[i] || e != want[n] {
        return Err(format!(
          "range {}..{}: {:?} to {:?}, expected {:?} to {:?}",
          i, n, s, e, want[i], want[n]
        ));
      }
      for j in i..=n {
        let x = at[i].remove_suffix(&at[j]);
        let e = x.end_pos().verif_parts();
        let s = x.start_pos().verif_parts();
        if s != want[i] || e != want[j] {
          return Err(format!(
            "range {}..{}: {:?} to {:?}, expected {:?} to {:?}",
            i, j, s, e, want[i], want[j]
          ));
        }
      }
    }
    Ok(())
  });
  st.traces += 1;
  st.states_extra += 1;
  st.transitions += ((n + 1) * (n + 2) / 2) as u64;
  r.unwrap_or_else(|p| Err(format!("panics: {}", p)))
    .map_err(|e| format!("text {:?}, (line, column, byte)\n{}", s, e))
}

fn all(name: &str, alpha: &'static [char], len: u32) -> Family {
  let k = alpha.len() as u64;
  let total = k.pow(len);
  let chunk = 200;
  Family::new(
    name,
    total.div_ceil(chunk),
    format!("every text of {} characters out of {:?}, every range of it", len, alpha),
    move |u, st| {
      for i in u * chunk..((u + 1) * chunk).min(total) {
        let mut x = i;
        let t: Vec<char> = (0..len)
          .map(|_| {
            let c = alpha[(x % k) as usize];
            x /= k;
            c
          })
          .collect();
        check(&t, st)?;
      }
      Ok(())
    },
  )
}

const TERMS: &[&str] = &["\n", "\r", "\r\n"];
const LINES: &[&str] = &["", "a", "ab", "e\u{301}", "\u{301}", "\u{1F600}x"];

/// Sequences of whole lines with every terminator.
fn lines(n: u32) -> Family {
  let k = (LINES.len() * TERMS.len()) as u64;
  Family::new(
    format!("{} lines", n),
    k.pow(n),
    format!("every {} lines out of {:?} with terminators {:?}, then every last line", n, LINES, TERMS),
    move |u, st| {
      for last in LINES {
        let mut x = u;
        let mut s = String::new();
        for _ in 0..n {
          let c = (x % k) as usize;
          x /= k;
          s += LINES[c / TERMS.len()];
          s += TERMS[c % TERMS.len()];
        }
        s += last;
        let t: Vec<char> = s.chars().collect();
        check(&t, st)?;
      }
      Ok(())
    },
  )
}

/// Many lines, long lines.
fn large(max: u64) -> Family {
  Family::new(
    "large",
    max,
    format!("up to {} lines of up to that many characters", max),
    move |n, st| {
      let n = n as usize;
      for term in TERMS {
        for len in [0, 1, 2, 17] {
          let mut s = String::new();
          for i in 0..n {
            for j in 0..(len + i) % (len + 1).max(2) {
              s.push(crate::props::buffer_alpha()[(i + j) % 5]);
            }
            s += term;
          }
          if s.len() < 400 {
            check(&s.chars().collect::<Vec<_>>(), st)?;
          }
        }
      }
      let s: Vec<char> =
        (0..n).map(|j| crate::props::buffer_alpha()[j * j % 5]).collect();
      check(&s, st)
    },
  )
}

const CLUSTERS: &[&str] = &[
  "a", "\u{200d}", "\u{1F468}", "\u{1F469}", "\u{1F1E9}", "\u{1F1EA}",
  "\u{fe0f}", "\u{1100}", "\u{1161}", "\u{b}", "\u{2028}", "\u{85}", "\u{0}",
  "\n", "\r", "\t", "\u{915}", "\u{93f}", "\u{94d}", "\u{600}", "\u{feff}",
  "\u{c}", "\u{2029}", " ",
];

/// Characters with other clusters, and other characters that end a line in
/// some conventions but not in this one.
fn clusters(len: u32) -> Family {
  let k = CLUSTERS.len() as u64;
  let total = k.pow(len);
  let chunk = 64;
  Family::new(
    format!("clusters of {}", len),
    total.div_ceil(chunk),
    format!("every text of {} characters out of {:?}", len, CLUSTERS),
    move |u, st| {
      for i in u * chunk..((u + 1) * chunk).min(total) {
        let mut x = i;
        let mut s = String::new();
        for _ in 0..len {
          s += CLUSTERS[(x % k) as usize];
          x /= k;
        }
        check(&s.chars().collect::<Vec<_>>(), st)?;
      }
      Ok(())
    },
  )
}

/// Every character there is, in several surroundings.
fn every_char(around: &'static [(&'static str, &'static str)]) -> Family {
  const CHUNK: u32 = 2048;
  Family::new(
    "every character",
    (0x11_0000 / CHUNK) as u64,
    format!("every Unicode character between each of {:?}", around),
    move |u, st| {
      for c in u as u32 * CHUNK..(u as u32 + 1) * CHUNK {
        if let Some(c) = char::from_u32(c) {
          for (a, b) in around {
            let mut t: Vec<char> = a.chars().collect();
            t.push(c);
            t.extend(b.chars());
            check(&t, st)?;
          }
        }
      }
      Ok(())
    },
  )
}

/// Positions of the suffixes of long texts.
fn sizes(list: Vec<usize>) -> Family {
  Family::new(
    "sizes",
    list.len() as u64 * 5,
    format!("one line, lines of one character, of 17, empty lines with mixed and with equal ends; {:?} characters", list),
    move |u, st| {
      let n = list[u as usize / 5];
      let alpha = crate::props::buffer_alpha();
      let text: Vec<char> = (0..n)
        .map(|i| match u % 5 {
          0 => ['a', '\u{e9}', '\u{3042}', '\u{1F600}'][i * i % 4],
          1 if i % 2 == 1 => ['\n', '\r'][i / 2 % 2],
          2 if i % 18 == 17 => '\n',
          3 => ['\n', '\r'][i % 3 / 2],
          4 => '\n',
          _ => alpha.iter().copied().find(|c| c.is_alphabetic()).unwrap_or('a'),
        })
        .collect();
      let s: String = text.iter().collect();
      let mut r = BufferRange::new("", &s);
      // Lines and columns counted along the text.
      let (mut line, mut col, mut byte) = (0, 0, 0);
      let end = position(&text, n);
      let checked = edges(n);
      for i in 0..=n {
        // Near the start, the end and the powers of two of a long text.
        let near = n <= 4097
          || n - i < 20
          || checked.binary_search(&i).is_ok();
        if near {
          let got = r.start_pos().verif_parts();
          if got != (line, col, byte) {
            return Err(format!(
              "text of {} characters, at {}: {:?}, expected {:?}",
              n,
              i,
              got,
              (line, col, byte)
            ));
          }
          if r.end_pos().verif_parts() != end {
            return Err(format!(
              "text of {} characters, range from {}: ends at {:?}, expected {:?}",
              n,
              i,
              r.end_pos().verif_parts(),
              end
            ));
          }
          st.transitions += 1;
        }
        if i == n {
          break;
        }
        byte += text[i].len_utf8();
        match text[i] {
          '\r' if text.get(i + 1) == Some(&'\n') => {}
          '\n' | '\r' => {
            line += 1;
            col = 0;
          }
          _ => col += 1,
        }
        r.read_char_mut();
        beat();
      }
      st.traces += 1;
      st.states_extra += n as u64 + 1;
      Ok(())
    },
  )
}

pub fn p21(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let alpha = crate::props::buffer_alpha();
  let mut f = Vec::new();
  for n in 0..=if deep { 7 } else { 5 } {
    f.push(all(&format!("texts of {}", n), alpha, n));
  }
  const FEW: &[char] = &['a', '\r', '\n'];
  for n in 8..=if deep { 13 } else { 10 } {
    f.push(all(&format!("terminators of {}", n), FEW, n));
  }
  f.push(lines(if deep { 4 } else { 2 }));
  f.push(clusters(if deep { 5 } else { 3 }));
  f.push(large(if deep { 120 } else { 50 }));
  f.push(every_char(if deep {
    &[("", ""), ("a", "b"), ("a", "\u{301}"), ("\n", "\n"), ("\r", "\n"),
      ("e\u{301}", "\u{200d}x"), ("\u{1F1E9}", "\u{1F1EA}"), ("\u{1100}", "\u{1161}")]
  } else {
    &[("", ""), ("a", "\u{301}b\n")]
  }));
  f.push(sizes(edges_and(if deep { 4096 } else { 1024 }, 65536)));
  Property {
    id: "P21",
    families: f,
    assumptions: vec![
      "grapheme clusters are the extended ones of Unicode, as segmented by the \
       unicode-segmentation crate"
        .into(),
      "only line feeds and carriage returns terminate lines".into(),
    ],
    explanation: "states: texts; transitions: ranges of a text; both positions of \
      every range are compared with positions counted from the start of the text"
      .into(),
  }
}
