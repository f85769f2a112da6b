//! P28: symbols, elements, keys and trees of names compare as what they hold.

use crate::engine::*;
use crate::laws::laws;
use bongo::grammar::{
  build, Elem, Grammar, NonTerminal, ProdElement, ProdKey, Terminal,
};
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use bongo::utils::{Name, TreeNode, TreeValue, Void, WasChanged};
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

/// What a value is, told apart exactly.
type Id = String;

/// All values of a type up to a bound, each by every way to make it.
trait Dom: Ord + Clone + Debug + 'static {
  fn all() -> Vec<(Id, Self)>;
}

/// One value of each kind, made in some way.
fn kinds<A: Dom>() -> Vec<(Id, A)> {
  let mut seen = BTreeMap::new();
  for (i, v) in A::all() {
    seen.entry(i).or_insert(v);
  }
  seen.into_iter().collect()
}

macro_rules! plain {
  ($($t:ty: $vs:expr;)*) => {$(
    impl Dom for $t {
      fn all() -> Vec<(Id, Self)> {
        $vs.into_iter().map(|v: $t| (format!("{:?}", v), v)).collect()
      }
    }
  )*};
}

plain! {
  (): vec![()];
  bool: vec![false, true];
  u8: vec![0, 1, 255];
  i32: vec![i32::MIN, -1, 0, 7];
  Reverse<u8>: vec![Reverse(0), Reverse(1), Reverse(2)];
  Option<bool>: vec![None, Some(false), Some(true)];
  WasChanged: vec![WasChanged::Changed, WasChanged::Unchanged];
  String: texts(2);
}

impl Dom for Void {
  fn all() -> Vec<(Id, Self)> {
    vec![]
  }
}

/// All texts up to a length over some characters, and some that look like how
/// something is written.
fn texts(max: usize) -> Vec<String> {
  let mut v = vec![String::new()];
  let mut last = v.clone();
  for _ in 0..max {
    last = last
      .iter()
      .flat_map(|s| ['a', 'A', '\0', '1', ' ', 'é'].map(|c| format!("{}{}", s, c)))
      .collect();
    v.extend(last.clone());
  }
  for s in [
    "<a>", "b", "<b>", "a:", "Start", "EndOfStream", "<EOS>", "aaaaaaaaaaaaaaaaaaaaaaaab",
    "ß", "ss", "SS", "e\u{301}", "É", "x9", "x10", "x010", "X9", "\u{feff}a",
  ] {
    v.push(s.to_string());
  }
  v.push("x".repeat(300));
  v.push("x".repeat(301));
  v
}

impl Dom for Name {
  fn all() -> Vec<(Id, Self)> {
    let mut v = Vec::new();
    for t in texts(2) {
      let id = format!("{:?}", t);
      let n = Name::new(&t);
      v.push((id.clone(), n.clone()));
      // Out of another by changing it.
      let mut m = Name::new("ab");
      let other = m.clone();
      *m.make_mut() = t.clone();
      v.push((id.clone(), m));
      if t == "ab" {
        v.push((id, other));
      }
    }
    v
  }
}

impl Dom for Terminal {
  fn all() -> Vec<(Id, Self)> {
    texts(2)
      .iter()
      .flat_map(|t| [(t, Terminal::new(t)), (t, Terminal::new(&t.clone()))])
      .map(|(t, v)| (format!("{:?}", t), v))
      .collect()
  }
}

impl Dom for NonTerminal {
  fn all() -> Vec<(Id, Self)> {
    texts(2)
      .iter()
      .flat_map(|t| [(t, NonTerminal::new(t)), (t, NonTerminal::new(&t.clone()))])
      .map(|(t, v)| (format!("{:?}", t), v))
      .collect()
  }
}

impl<A: Dom, B: Dom> Dom for Elem<A, B> {
  fn all() -> Vec<(Id, Self)> {
    let mut v = Vec::new();
    for (i, a) in A::all() {
      v.push((format!("term({})", i), Elem::Term(a)));
    }
    for (i, b) in B::all() {
      v.push((format!("nonterm({})", i), Elem::NonTerm(b)));
    }
    v
  }
}

impl<A: Dom, B: Dom> Dom for ProdElement<A, B> {
  fn all() -> Vec<(Id, Self)> {
    let mut v = Vec::new();
    for (i, e) in kinds::<Elem<A, B>>() {
      let id = format!("none {}", i);
      v.push((id.clone(), ProdElement::new(None, e.clone())));
      v.push((id.clone(), ProdElement::new_empty(e.clone())));
      v.push((id, ProdElement::from(e.clone())));
      for n in ["", "a", "b", "ab", "term(0)", "none"] {
        let id = format!("some({:?}) {}", n, i);
        v.push((id.clone(), ProdElement::new(Some(Name::new(n)), e.clone())));
        v.push((id, ProdElement::new_with_name(Name::new(n), e.clone())));
      }
    }
    v
  }
}

impl<A: Dom> Dom for StreamTerminal<A> {
  fn all() -> Vec<(Id, Self)> {
    let mut v = vec![("eos".to_string(), StreamTerminal::EndOfStream)];
    v.extend(
      A::all().into_iter().map(|(i, a)| (format!("({})", i), StreamTerminal::Term(a))),
    );
    v
  }
}

impl<A: Dom> Dom for StartNonTerminal<A> {
  fn all() -> Vec<(Id, Self)> {
    let mut v = vec![("start".to_string(), StartNonTerminal::Start)];
    v.extend(
      A::all().into_iter().map(|(i, a)| (format!("({})", i), StartNonTerminal::NTerm(a))),
    );
    v
  }
}

impl<A: Dom> Dom for StartActionKey<A> {
  fn all() -> Vec<(Id, Self)> {
    let mut v = vec![("start".to_string(), StartActionKey::Start)];
    v.extend(
      A::all()
        .into_iter()
        .map(|(i, a)| (format!("({})", i), StartActionKey::ActionKey(a))),
    );
    v
  }
}

/// Compares by its last digit only.
#[derive(Clone, Debug)]
struct Digit(u32);

impl PartialEq for Digit {
  fn eq(&self, o: &Self) -> bool {
    self.0 % 10 == o.0 % 10
  }
}
impl Eq for Digit {}
impl PartialOrd for Digit {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for Digit {
  fn cmp(&self, o: &Self) -> Ordering {
    (self.0 % 10).cmp(&(o.0 % 10))
  }
}
impl Dom for Digit {
  fn all() -> Vec<(Id, Self)> {
    [1, 11, 31, 2, 102, 20].map(|n| (format!("..{}", n % 10), Digit(n))).to_vec()
  }
}

impl<A: Dom, B: Dom> Dom for ProdKey<A, B> {
  /// Out of two grammars in which each head has a production of each action.
  fn all() -> Vec<(Id, Self)> {
    let (heads, actions) = (kinds::<A>(), kinds::<B>());
    let mut v = Vec::new();
    for rev in [false, true] {
      let g: Grammar<usize, A, B, ()> = build(heads[0].1.clone(), |gb| {
        for (_, h) in &heads {
          gb.add_rule(h.clone(), |rb| {
            let mut acts: Vec<_> = actions.iter().collect();
            if rev {
              acts.reverse();
            }
            for (i, (_, a)) in acts.into_iter().enumerate() {
              rb.add_prod(a.clone(), (), |pb| {
                pb.add_term(i);
                for (_, h) in &heads {
                  pb.add_nonterm(h.clone());
                }
              });
            }
          });
        }
      })
      .unwrap();
      for (hi, h) in &heads {
        for p in g.get_rule(h).prods() {
          let ai = &actions.iter().find(|a| a.1 == *p.action_key()).unwrap().0;
          v.push((format!("{} of {}", ai, hi), p.prod_key()));
        }
      }
    }
    v
  }
}

impl<L: Dom, V: Dom> Dom for TreeValue<L, V> {
  fn all() -> Vec<(Id, Self)> {
    let mut v: Vec<(Id, Self)> = V::all()
      .into_iter()
      .map(|(i, x)| (format!("leaf({})", i), TreeValue::Leaf(x)))
      .collect();
    v.extend(
      trees::<L, V>(1)
        .into_iter()
        .map(|(i, n)| (format!("node({})", i), TreeValue::Node(Box::new(n)))),
    );
    v
  }
}

impl<L: Dom, V: Dom> Dom for TreeNode<L, V> {
  fn all() -> Vec<(Id, Self)> {
    trees(2)
  }
}

/// Trees up to a depth with up to two parameters.
fn trees<L: Dom, V: Dom>(depth: usize) -> Vec<(Id, TreeNode<L, V>)> {
  let mut vals: Vec<(Id, TreeValue<L, V>)> = kinds::<V>()
    .into_iter()
    .map(|(i, x)| (format!("leaf({})", i), TreeValue::Leaf(x)))
    .collect();
  if depth > 0 {
    let mut inner: BTreeMap<Id, TreeNode<L, V>> = BTreeMap::new();
    for (i, n) in trees(depth - 1) {
      inner.entry(i).or_insert(n);
    }
    vals.extend(
      inner.into_iter().map(|(i, n)| (format!("node({})", i), TreeValue::Node(Box::new(n)))),
    );
  }
  if vals.len() > 6 {
    let step = vals.len() / 6;
    vals = vals.into_iter().step_by(step).collect();
  }
  let mut v = Vec::new();
  for (i, l) in kinds::<L>() {
    v.push((format!("{}[]", i), TreeNode::from_action(l.clone())));
    v.push((format!("{}[]", i), TreeNode::new(l.clone(), BTreeMap::new())));
    for (vi, x) in &vals {
      for n in ["", "p"] {
        let params = [(Name::new(n), x.clone())].into_iter().collect();
        v.push((format!("{}[{:?}={}]", i, n, vi), TreeNode::new(l.clone(), params)));
      }
    }
    if depth > 0 {
      for (vi, x) in &vals {
        for (wi, y) in &vals {
          let params =
            [(Name::new("q"), y.clone()), (Name::new("p"), x.clone())].into_iter().collect();
          v.push((
            format!("{}[\"p\"={},\"q\"={}]", i, vi, wi),
            TreeNode::new(l.clone(), params),
          ));
        }
      }
    }
  }
  v
}

// ---------------------------------------------------------------- checks

/// Equality, order and collections of all values of a type.
fn compare<A: Dom>(st: &mut Stats) -> Verdict {
  let what = std::any::type_name::<A>();
  let mut vs = A::all();
  // Clones are the same.
  let clones: Vec<(Id, A)> = vs.iter().take(40).cloned().collect();
  vs.extend(clones);
  laws(what, &vs)?;
  st.transitions += (vs.len() * vs.len()) as u64;
  for (i, a) in &vs {
    st.state(&(what, i));
    st.traces += 1;
    for (j, b) in &vs {
      let c = a.cmp(b);
      let got = (a > b, a >= b, b.cmp(a), (a.max(b) == b, a.min(b) == a));
      let want = (
        c == Ordering::Greater,
        c != Ordering::Less,
        c.reverse(),
        (c != Ordering::Greater, c != Ordering::Greater),
      );
      if got != want {
        return Err(format!(
          "{}: {} and {} compare as {:?}, but >, >=, reversed, max and min give {:?}",
          what, i, j, c, got
        ));
      }
    }
  }
  // As keys.
  let ids: BTreeSet<&Id> = vs.iter().map(|v| &v.0).collect();
  let set: BTreeSet<&A> = vs.iter().map(|v| &v.1).collect();
  if ids.len() != set.len() {
    return Err(format!("{}: {} kinds, but a set holds {}", what, ids.len(), set.len()));
  }
  let mut map: BTreeMap<A, &Id> = BTreeMap::new();
  for (i, a) in &vs {
    let old = map.insert(a.clone(), i);
    if old.map_or(false, |o| o != i) {
      return Err(format!("{}: {} takes the place of {}", what, i, old.unwrap()));
    }
  }
  for (i, a) in &vs {
    if map.get(a) != Some(&i) {
      return Err(format!("{}: looking up {} finds {:?}", what, i, map.get(a)));
    }
  }
  st.outcome("a type whose values are told apart exactly");
  st.sample(|| format!("{}: {} kinds, {} values", what, ids.len(), vs.len()));
  Ok(())
}

fn hashes<A: Dom + Hash>(st: &mut Stats) -> Verdict {
  let what = std::any::type_name::<A>();
  let vs = A::all();
  let mut map: HashMap<A, &Id> = HashMap::new();
  for (i, a) in &vs {
    st.state(&(what, "hash", i));
    st.transitions += 1;
    let old = map.insert(a.clone(), i);
    if old.map_or(false, |o| o != i) {
      return Err(format!("{}: {} takes the place of {}", what, i, old.unwrap()));
    }
  }
  for (i, a) in &vs {
    if map.get(a) != Some(&i) {
      return Err(format!("{}: looking up {} finds {:?}", what, i, map.get(a)));
    }
  }
  let ids: BTreeSet<&Id> = vs.iter().map(|v| &v.0).collect();
  if map.len() != ids.len() {
    return Err(format!("{}: {} kinds, but a hash map holds {}", what, ids.len(), map.len()));
  }
  st.traces += 1;
  st.outcome("a type whose hashes agree with equality");
  Ok(())
}

/// What an element gives back.
fn elements<A: Dom, B: Dom>(st: &mut Stats) -> Verdict {
  for (i, e) in Elem::<A, B>::all() {
    st.traces += 1;
    st.transitions += 1;
    let r = e.as_ref();
    let ok = match &e {
      Elem::Term(t) => {
        e.as_term() == Some(t)
          && e.as_nonterm().is_none()
          && matches!(r, Elem::Term(x) if std::ptr::eq(x, t))
      }
      Elem::NonTerm(n) => {
        e.as_nonterm() == Some(n)
          && e.as_term().is_none()
          && matches!(r, Elem::NonTerm(x) if std::ptr::eq(x, n))
      }
    };
    if !ok {
      return Err(format!("{} gives {:?}, {:?} and {:?}", i, e.as_term(), e.as_nonterm(), r));
    }
    for n in [None, Some(""), Some("a"), Some("é")] {
      let name = n.map(Name::new);
      let pe = ProdElement::new(name.clone(), e.clone());
      if pe.id() != name.as_ref() || pe.elem() != &e {
        return Err(format!("{} named {:?} is {:?} named {:?}", i, n, pe.elem(), pe.id()));
      }
    }
  }
  st.outcome("what elements hold");
  Ok(())
}

/// What symbols of a wrapped grammar give back.
fn wrapped<A: Dom>(st: &mut Stats) -> Verdict {
  let what = std::any::type_name::<A>();
  let kinds = A::all();
  for (i, k) in &kinds {
    let t = StreamTerminal::Term(k.clone());
    if t.is_eos() {
      return Err(format!("{}: the terminal {} ends the stream", what, i));
    }
    let eos: StreamTerminal<A> = StreamTerminal::EndOfStream;
    if !eos.is_eos() || eos.has_kind(k) {
      return Err(format!("{}: the end of the stream is of kind {}", what, i));
    }
    for (j, l) in &kinds {
      st.transitions += 1;
      if t.has_kind(l) != (i == j) {
        return Err(format!("{}: terminal {} of kind {}: {}", what, i, j, t.has_kind(l)));
      }
    }
    let a = StartActionKey::ActionKey(k.clone());
    match a.as_base() {
      Some(b) if b == k => {}
      b => return Err(format!("{}: the action {} is {:?}", what, i, b)),
    }
    st.traces += 1;
  }
  if StartActionKey::<A>::Start.as_base().is_some() {
    return Err(format!("{}: the action of the start production is one of the grammar", what));
  }
  st.outcome("what wrapped symbols hold");
  Ok(())
}

/// Rules of different grammars cannot be mixed up.
fn rules<A: Dom>(st: &mut Stats) -> Verdict {
  let what = std::any::type_name::<A>();
  let heads = kinds::<A>();
  let make = || -> Grammar<u8, A, u8, ()> {
    build(heads[0].1.clone(), |gb| {
      for (_, h) in &heads {
        gb.add_rule(h.clone(), |rb| {
          rb.add_prod(0, (), |pb| {
            for (_, h) in &heads {
              pb.add_nonterm(h.clone());
            }
          });
        });
      }
    })
    .unwrap()
  };
  let (g, h) = (make(), make());
  let gs = [&g, &h, &g.clone()];
  for (x, g) in gs.iter().enumerate() {
    for (y, h) in gs.iter().enumerate() {
      for (i, r) in g.rules().enumerate().take(6) {
        for (j, s) in h.rules().enumerate().take(6) {
          st.traces += 1;
          st.transitions += 4;
          st.state(&(what, x, y, i, j));
          let got = [
            guard(|| r == s).ok(),
            guard(|| r.cmp(&s) == Ordering::Equal).ok(),
            guard(|| r.partial_cmp(&s) == Some(Ordering::Equal)).ok(),
            guard(|| !(r != s)).ok(),
          ];
          let want = [if x == y { Some(i == j) } else { None }; 4];
          if got != want {
            return Err(format!(
              "{}: rule {} of grammar {} and rule {} of grammar {}: {:?}, expected {:?}",
              what, i, x, j, y, got, want
            ));
          }
        }
      }
    }
  }
  st.outcome("rules of several grammars");
  Ok(())
}

type Check = fn(&mut Stats) -> Verdict;

fn checks() -> Vec<(&'static str, Check)> {
  macro_rules! list {
    ($($f:ident: $($t:ty),*;)*) => {
      vec![$($((concat!(stringify!($f), " ", stringify!($t)), $f::<$t> as Check)),*),*]
    };
  }
  type E<A, B> = Elem<A, B>;
  type P<A, B> = ProdElement<A, B>;
  type S<A> = StreamTerminal<A>;
  type N<A> = StartNonTerminal<A>;
  type K<A> = StartActionKey<A>;
  let mut v = list! {
    compare: Name, Terminal, NonTerminal, WasChanged, Digit;
    compare: E<u8, u8>, E<(), ()>, E<Terminal, NonTerminal>, E<String, u8>, E<Reverse<u8>, bool>,
      E<E<u8, u8>, E<u8, u8>>, E<Digit, u8>, E<u8, Digit>, E<S<u8>, N<u8>>, E<Void, u8>;
    compare: P<u8, u8>, P<(), ()>, P<Option<bool>, i32>, P<Digit, Digit>, P<S<u8>, N<u8>>,
      P<Void, bool>;
    compare: S<u8>, S<S<u8>>, S<()>, S<Terminal>, S<Reverse<u8>>, S<Digit>, S<Void>;
    compare: N<u8>, N<N<u8>>, N<()>, N<NonTerminal>, N<Reverse<u8>>, N<Digit>, N<Void>;
    compare: K<u8>, K<K<u8>>, K<()>, K<Name>, K<Reverse<u8>>, K<Digit>, K<ProdKey<u8, u8>>;
    compare: ProdKey<u8, u8>, ProdKey<(), ()>, ProdKey<(), i32>, ProdKey<NonTerminal, u8>,
      ProdKey<u8, Name>, ProdKey<N<u8>, K<u8>>, ProdKey<Reverse<u8>, bool>, ProdKey<String, ()>;
    compare: TreeNode<u8, Void>, TreeNode<u8, u8>, TreeNode<(), ()>, TreeNode<Name, bool>,
      TreeNode<ProdKey<u8, u8>, Void>, TreeNode<Digit, u8>;
    compare: TreeValue<u8, Void>, TreeValue<u8, u8>, TreeValue<(), ()>, TreeValue<bool, Digit>;
    hashes: Name, Terminal, NonTerminal, WasChanged;
    wrapped: u8, (), String, Terminal, Reverse<u8>, Digit, S<u8>, N<u8>, K<u8>;
    rules: u8, (), NonTerminal, N<u8>, Reverse<u8>;
  };
  v.push(("elements u8, u8", elements::<u8, u8>));
  v.push(("elements (), ()", elements::<(), ()>));
  v.push(("elements texts", elements::<Terminal, NonTerminal>));
  v.push(("elements wrapped", elements::<S<u8>, N<u8>>));
  v.push(("elements nested", elements::<E<u8, u8>, E<u8, u8>>));
  v.push(("elements opaque", elements::<Digit, u8>));
  v
}

pub fn p28(tier: Tier) -> Property {
  let cs = checks();
  let mut f = vec![Family::new(
    "types",
    cs.len() as u64,
    "all pairs of values, up to a bound, of every public type of symbols, \
     elements, keys and trees, over several base types and each other",
    move |u, st| {
      let (name, c) = cs[u as usize];
      c(st).map_err(|e| format!("{}\n{}", name, e))
    },
  )];
  // All pairs of texts, as names, terminals and nonterminals.
  let max = if tier == Tier::Thorough { 4 } else { 3 };
  let ts = texts(max);
  f.push(Family::new(
    "texts",
    ts.len() as u64,
    format!("all pairs of texts of up to {} of 6 characters, and odd ones", max),
    move |u, st| {
      let s = &ts[u as usize];
      for t in &ts {
        let want = s == t;
        let got = [
          Name::new(s) == Name::new(t),
          Terminal::new(s) == Terminal::new(t),
          NonTerminal::new(s) == NonTerminal::new(t),
          Name::new(s).cmp(&Name::new(t)) == Ordering::Equal,
          Terminal::new(s).cmp(&Terminal::new(t)) == Ordering::Equal,
          NonTerminal::new(s).cmp(&NonTerminal::new(t)) == Ordering::Equal,
        ];
        st.transitions += 1;
        if got != [want; 6] {
          return Err(format!(
            "{:?} and {:?} as names, terminals and nonterminals are equal: {:?}",
            s, t, got
          ));
        }
      }
      st.traces += 1;
      st.state(&u);
      st.outcome("a text");
      Ok(())
    },
  ));
  Property {
    id: "P28",
    families: f,
    assumptions: vec![
      "values beyond the bounds, and orders of their contents that are not total, \
       are not explored"
        .into(),
    ],
    explanation: "Every value of each type up to a bound, made in every way there \
      is, is compared with every other by every operator, and kept in sets and \
      maps; equal must be exactly what is made of the same contents, and the \
      order total and consistent. States: kinds of values; transitions: \
      comparisons."
      .into(),
  }
}
