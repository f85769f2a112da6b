//! P14: the pass context.

use crate::cfg::*;
use crate::engine::*;
use crate::spaces::*;
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::{Pass, PassContext};
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

pub const N: usize = 4;

/// What one pass does.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Plan {
  /// Passes it requests, in order.
  deps: Vec<usize>,
  /// It fails at the end.
  fails: bool,
  /// It fails as soon as a request fails.
  propagates: bool,
}

#[derive(Default)]
struct World {
  plans: Vec<Plan>,
  /// Which context is being used, and successful or failed runs so far.
  ctx: usize,
  next_run: u64,
  /// (context, pass) of each finished successful run.
  ok_runs: Vec<(usize, usize)>,
  /// Requests made by passes: (context, pass, address or None for an error).
  seen: Vec<(usize, usize, Option<usize>)>,
  /// A complaint from within a pass.
  complaint: Option<String>,
  /// Results stay alive, so that addresses are not used again.
  keep: Vec<Rc<dyn Any>>,
  depth: usize,
}

thread_local! {
  static WORLD: RefCell<World> = RefCell::new(World::default());
}

fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
  WORLD.with(|w| f(&mut w.borrow_mut()))
}

/// The result of pass I.
struct P<const I: usize> {
  run: u64,
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct PErr(usize);

impl std::fmt::Display for PErr {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "pass {} fails", self.0)
  }
}
impl std::error::Error for PErr {}

/// Requests pass `i`: its address and run, or its error.
fn request(
  pc: &PassContext<Tm, Nt, Ak, Av>,
  i: usize,
) -> Result<(usize, u64), PErr> {
  fn go<const I: usize>(
    pc: &PassContext<Tm, Nt, Ak, Av>,
  ) -> Result<(usize, u64), PErr> {
    let r = pc.get_pass::<P<I>>()?;
    let x = (Rc::as_ptr(&r) as usize, r.run);
    // Distinct runs live at distinct addresses only while alive; results of
    // size zero do not occur.
    world(|w| w.keep.push(r));
    Ok(x)
  }
  match i {
    0 => go::<0>(pc),
    1 => go::<1>(pc),
    2 => go::<2>(pc),
    _ => go::<3>(pc),
  }
}

impl<const I: usize> Pass<Tm, Nt, Ak, Av> for P<I> {
  type Error = PErr;

  fn run_pass(pc: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
    let plan = world(|w| {
      w.depth += 1;
      w.plans[I].clone()
    });
    if world(|w| w.depth) > 4 * N {
      // Ends an endless recursion before the stack does.
      world(|w| {
        w.complaint = Some("a pass that depends on itself recurses".into())
      });
      return Err(PErr(99));
    }
    let r = run(pc, &plan, I);
    world(|w| w.depth -= 1);
    r.map(|run| P { run })
  }
}

fn run(
  pc: &PassContext<Tm, Nt, Ak, Av>,
  plan: &Plan,
  me: usize,
) -> Result<u64, PErr> {
  for d in &plan.deps {
    let r = request(pc, *d);
    world(|w| {
      let c = w.ctx;
      w.seen.push((c, *d, r.as_ref().ok().map(|x| x.0)));
      if let Err(e) = &r {
        if e.0 != *d && e.0 != 99 && w.complaint.is_none() {
          w.complaint = Some(format!("requesting {} reports {:?}", d, e));
        }
      }
    });
    if r.is_err() && plan.propagates {
      return Err(PErr(me));
    }
  }
  if plan.fails {
    return Err(PErr(me));
  }
  Ok(world(|w| {
    w.next_run += 1;
    let c = w.ctx;
    w.ok_runs.push((c, me));
    w.next_run
  }))
}

// -------------------------------------------------------------- the model

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Outcome {
  Ok,
  Fails,
  Loops,
}

fn outcome(plans: &[Plan], i: usize, stack: &mut Vec<usize>) -> Outcome {
  if stack.contains(&i) {
    return Outcome::Loops;
  }
  stack.push(i);
  let mut res = if plans[i].fails { Outcome::Fails } else { Outcome::Ok };
  for d in &plans[i].deps {
    match outcome(plans, *d, stack) {
      Outcome::Loops => {
        res = Outcome::Loops;
        break;
      }
      Outcome::Fails if plans[i].propagates => {
        res = Outcome::Fails;
        break;
      }
      _ => {}
    }
  }
  stack.pop();
  res
}

fn history(
  reals: &[&G],
  plans: &[Plan],
  reqs: &[(usize, usize)],
  st: &mut Stats,
) -> Verdict {
  world(|w| {
    *w = World::default();
    w.plans = plans.to_vec();
  });
  let pcs: Vec<_> = reals.iter().map(|g| PassContext::new(*g)).collect();
  let ctx = |n: usize| {
    let mut s = String::new();
    for (i, p) in plans.iter().enumerate() {
      s.push_str(&format!("pass {}: {:?}\n", i, p));
    }
    format!("{}requests (context, pass): {:?}", s, &reqs[..n + 1])
  };
  // (context, pass) -> address.
  let mut known: Vec<((usize, usize), usize)> = Vec::new();
  st.traces += 1;
  for (n, (c, i)) in reqs.iter().enumerate() {
    st.transitions += 1;
    world(|w| {
      w.ctx = *c;
      w.depth = 0;
    });
    let want = outcome(plans, *i, &mut Vec::new());
    let got = guard(|| request(&pcs[*c], *i));
    if let Some(e) = world(|w| w.complaint.take()) {
      return Err(format!("{}\n{}", ctx(n), e));
    }
    match (&got, want) {
      (Ok(Ok(_)), Outcome::Ok) => {}
      (Ok(Err(e)), Outcome::Fails) if e.0 == *i => {}
      (Err(_), Outcome::Loops) => {
        st.outcome("detected loop");
        return Ok(());
      }
      _ => {
        return Err(format!(
          "{}\nthe last request gives {:?}, expected {:?}",
          ctx(n),
          got,
          want
        ))
      }
    }
    if let Ok(Ok((addr, _))) = got {
      known.push(((*c, *i), addr));
    }
    // Each successful pass ran once per context, and all saw that result.
    let (runs, seen) = world(|w| (w.ok_runs.clone(), w.seen.clone()));
    for (k, r) in runs.iter().enumerate() {
      if runs[..k].contains(r) {
        return Err(format!("{}\n(context, pass) {:?} ran twice", ctx(n), r));
      }
    }
    for (sc, sp, sa) in seen {
      match sa {
        Some(a) => known.push(((sc, sp), a)),
        None if runs.contains(&(sc, sp)) => {
          return Err(format!(
            "{}\n(context, pass) {:?} succeeded and also reported an error",
            ctx(n),
            (sc, sp)
          ))
        }
        None => {}
      }
    }
    known.sort();
    known.dedup();
    for w in known.windows(2) {
      if w[0].0 == w[1].0 {
        return Err(format!(
          "{}\n(context, pass) {:?} has two results",
          ctx(n),
          w[0].0
        ));
      }
      if w[0].1 == w[1].1 {
        return Err(format!("{}\ntwo passes share a result", ctx(n)));
      }
    }
    for (k, _) in &known {
      if !runs.contains(k) {
        return Err(format!(
          "{}\nthe result of {:?} was not computed in its context",
          ctx(n),
          k
        ));
      }
    }
    st.outcome(match want {
      Outcome::Ok => "ok",
      _ => "fails",
    });
  }
  Ok(())
}

fn plans_for(n: usize, max_deps: usize) -> Vec<Plan> {
  let mut deps: Vec<Vec<usize>> = vec![vec![]];
  let mut last = deps.clone();
  for _ in 0..max_deps {
    let mut next = Vec::new();
    for s in &last {
      for d in 0..n {
        let mut s = s.clone();
        s.push(d);
        next.push(s);
      }
    }
    deps.extend(next.iter().cloned());
    last = next;
  }
  let mut v = Vec::new();
  for d in deps {
    for fails in [false, true] {
      for propagates in [false, true] {
        if d.is_empty() && propagates {
          continue;
        }
        v.push(Plan {
          deps: d.clone(),
          fails,
          propagates,
        });
      }
    }
  }
  v
}

fn requests(ctxs: usize, n: usize, len: usize) -> Vec<Vec<(usize, usize)>> {
  let mut last: Vec<Vec<(usize, usize)>> = vec![vec![]];
  for _ in 0..len {
    let mut next = Vec::new();
    for s in &last {
      for c in 0..ctxs {
        for i in 0..n {
          let mut s = s.clone();
          s.push((c, i));
          next.push(s);
        }
      }
    }
    last = next;
  }
  last
}

fn family(
  name: &str,
  n: usize,
  max_deps: usize,
  ctxs: usize,
  len: usize,
  two_grammars: bool,
) -> Family {
  let plans = plans_for(n, max_deps);
  let reqs = requests(ctxs, n, len);
  let per = plans.len() as u64;
  let total = per.pow(n as u32);
  const CHUNK: u64 = 64;
  let note = format!(
    "{} passes, each of {} behaviours (up to {} requests in order, including of \
     itself, failing or not, propagating errors or not), all {} request \
     histories of length {} over {} contexts of {}",
    n,
    per,
    max_deps,
    reqs.len(),
    len,
    ctxs,
    if two_grammars { "two grammars" } else { "one grammar" }
  );
  Family::new(name, (total + CHUNK - 1) / CHUNK, note, move |u, st| {
    let a = built(&gram("S:aS|"))?;
    let b = built(&gram("S:bA;A:a"))?;
    for mut ix in u * CHUNK..((u + 1) * CHUNK).min(total) {
      let mut ps = Vec::new();
      for _ in 0..n {
        ps.push(plans[(ix % per) as usize].clone());
        ix /= per;
      }
      st.states_extra += 1;
      for r in &reqs {
        if two_grammars {
          history(&[&a, &b], &ps, r, st)?;
        } else {
          history(&vec![&a; ctxs], &ps, r, st)?;
        }
      }
      st.sample(|| format!("{:?}", ps));
    }
    Ok(())
  })
}

// -------------------------------------------------- many passes

/// How pass I of many depends on others, how large its result is by its type.
struct Many<const I: usize>(u64);

const MANY: usize = 520;

thread_local! {
  static SHAPE: RefCell<(usize, usize, Vec<usize>)> = const { RefCell::new((0, 0, Vec::new())) };
}

fn many_deps(shape: usize, n: usize, i: usize) -> Vec<usize> {
  match shape {
    0 => vec![],
    1 => (i + 1..n).take(1).collect(),
    2 => (0..i).collect(),
    3 => (i + 1..n).rev().collect(),
    _ => [2 * i + 1, 2 * i + 2].iter().copied().filter(|d| *d < n).collect(),
  }
}

impl<const I: usize> Pass<Tm, Nt, Ak, Av> for Many<I> {
  type Error = PErr;

  fn run_pass(pc: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
    let (shape, n) = SHAPE.with(|s| {
      let mut s = s.borrow_mut();
      s.2.push(I);
      (s.0, s.1)
    });
    let mut sum = I as u64 + 1;
    for d in many_deps(shape, n, I) {
      sum = sum.wrapping_mul(31).wrapping_add(many_request(pc, d)?.0);
    }
    Ok(Many(sum))
  }
}

macro_rules! many {
  ($pc:expr, $i:expr, $($n:literal)*) => {
    match $i {
      $($n => {
        let r = $pc.get_pass::<Many<$n>>()?;
        Ok((r.0, Rc::as_ptr(&r) as usize))
      })*
      _ => Err(PErr(98)),
    }
  };
}

/// Value and address of the result of a pass.
fn many_request(
  pc: &PassContext<Tm, Nt, Ak, Av>,
  i: usize,
) -> Result<(u64, usize), PErr> {
  many!(pc, i,
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28
    29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53
    54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78
    79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102
    103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121
    122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140
    141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
    160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178
    179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197
    198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216
    217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235
    236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254
    255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273
    274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292
    293 294 295 296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311
    312 313 314 315 316 317 318 319 320 321 322 323 324 325 326 327 328 329 330
    331 332 333 334 335 336 337 338 339 340 341 342 343 344 345 346 347 348 349
    350 351 352 353 354 355 356 357 358 359 360 361 362 363 364 365 366 367 368
    369 370 371 372 373 374 375 376 377 378 379 380 381 382 383 384 385 386 387
    388 389 390 391 392 393 394 395 396 397 398 399 400 401 402 403 404 405 406
    407 408 409 410 411 412 413 414 415 416 417 418 419 420 421 422 423 424 425
    426 427 428 429 430 431 432 433 434 435 436 437 438 439 440 441 442 443 444
    445 446 447 448 449 450 451 452 453 454 455 456 457 458 459 460 461 462 463
    464 465 466 467 468 469 470 471 472 473 474 475 476 477 478 479 480 481 482
    483 484 485 486 487 488 489 490 491 492 493 494 495 496 497 498 499 500 501
    502 503 504 505 506 507 508 509 510 511 512 513 514 515 516 517 518 519)
}

fn many_passes() -> Family {
  let mut ns: Vec<usize> = (1..=64).collect();
  ns.extend(edges(MANY).iter().filter(|n| **n > 64));
  ns.push(MANY);
  Family::new(
    "many passes",
    5 * ns.len() as u64,
    "1 to 64 passes, and numbers of them around the powers of two up to 520, that depend on none, on the next, on all before, on all \
     behind in reverse, or on two others as a tree; requested forwards and \
     backwards, three times, in two contexts after each other",
    move |u, st| {
      let g = built(&gram("S:aS|"))?;
      let (shape, n) = (u as usize % 5, ns[ns.len() - 1 - u as usize / 5]);
      fn value(shape: usize, n: usize, i: usize, memo: &mut Vec<Option<u64>>) -> u64 {
        if let Some(v) = memo[i] {
          return v;
        }
        let mut sum = i as u64 + 1;
        for d in many_deps(shape, n, i) {
          sum = sum.wrapping_mul(31).wrapping_add(value(shape, n, d, memo));
        }
        memo[i] = Some(sum);
        sum
      }
      let mut memo = vec![None; n];
      for rev in [false, true] {
        // The second context may well lie where the first one did.
        for _ in 0..2 {
          SHAPE.with(|s| *s.borrow_mut() = (shape, n, vec![]));
          let pc = PassContext::new(&g);
          let mut at: Vec<Option<usize>> = vec![None; n];
          for round in 0..3 {
            for k in 0..n {
              let i = if rev { n - 1 - k } else { k };
              let ctx = || format!("{} passes of shape {}, request {} of round {}", n, shape, i, round);
              let (v, p) = guard(|| many_request(&pc, i))
                .map_err(|p| format!("{}: panics: {}", ctx(), p))?
                .map_err(|e| format!("{}: {}", ctx(), e))?;
              if v != value(shape, n, i, &mut memo) {
                return Err(format!("{}: another pass's result", ctx()));
              }
              if *at[i].get_or_insert(p) != p {
                return Err(format!("{}: a second result", ctx()));
              }
              st.transitions += 1;
            }
          }
          let mut runs = SHAPE.with(|s| s.borrow().2.clone());
          runs.sort_unstable();
          if runs != (0..n).collect::<Vec<_>>() {
            return Err(format!("{} passes of shape {}: runs {:?}", n, shape, runs));
          }
          st.traces += 1;
          st.states_extra += 1;
        }
      }
      Ok(())
    },
  )
}

// ----------------------------------------- unusual passes and contexts

/// Requests a pass type of its own, of a name shared with others.
macro_rules! namesake {
  ($pc:expr, $ty:ty, $v:expr) => {{
    struct Same($ty);
    impl Pass<Tm, Nt, Ak, Av> for Same {
      type Error = PErr;
      fn run_pass(_: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
        world(|w| w.next_run += 1);
        Ok(Same($v))
      }
    }
    let r: Result<($ty, usize), PErr> = $pc
      .get_pass::<Same>()
      .map(|r| (r.0.clone(), Rc::as_ptr(&r) as usize));
    r
  }};
}

/// A pass by the type of something else.
struct By<X: 'static>(std::marker::PhantomData<X>, u64);

impl<X: 'static> Pass<Tm, Nt, Ak, Av> for By<X> {
  type Error = PErr;
  fn run_pass(_: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
    world(|w| w.next_run += 1);
    Ok(By(std::marker::PhantomData, world(|w| w.next_run)))
  }
}

/// Without a result worth the name.
struct Empty;

impl Pass<Tm, Nt, Ak, Av> for Empty {
  type Error = PErr;
  fn run_pass(_: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
    world(|w| w.next_run += 1);
    Ok(Empty)
  }
}

/// Asks another context of the same grammar for itself, some levels deep.
struct Nested<const FRESH: bool>(usize);

thread_local! {
  static LEVEL: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) };
}

impl<const FRESH: bool> Pass<Tm, Nt, Ak, Av> for Nested<FRESH> {
  type Error = PErr;
  fn run_pass(pc: &PassContext<Tm, Nt, Ak, Av>) -> Result<Self, PErr> {
    let level = LEVEL.with(|l| {
      let mut l = l.borrow_mut();
      l.1 += 1;
      l.0 -= 1;
      l.0
    });
    if level == 0 {
      return Ok(Nested(0));
    }
    let inner = PassContext::new(pc.grammar());
    let r = inner.get_pass::<Nested<FRESH>>()?;
    // The other context's results are not this one's.
    inner.get_pass::<Empty>()?;
    Ok(Nested(r.0 + 1))
  }
}

fn unusual() -> Family {
  Family::new(
    "unusual passes",
    24,
    "every order of four passes among which are types that share their names, \
     types that differ in a parameter, results of size zero, and passes that \
     ask another context of the same grammar for themselves",
    |u, st| {
      let g = built(&gram("S:aS|"))?;
      let mut order: Vec<usize> = (0..4).collect();
      let mut x = u as usize;
      for k in 0..4 {
        order.swap(k, k + x % (4 - k));
        x /= 4 - k;
      }
      world(|w| *w = World::default());
      let pc = PassContext::new(&g);
      let bad = |e: &str| Err(format!("requests in order {:?}: {}", order, e));
      let r = guard(|| {
        let mut seen: Vec<Option<(usize, usize)>> = vec![None; 4];
        for round in 0..2 {
          for i in &order {
            let before = world(|w| w.next_run);
            let got: (usize, usize) = match i {
              0 => {
                // One call site each, as the types are local to them.
                let mut ask = |k: usize| -> Result<(usize, usize), PErr> {
                  Ok(match k {
                    0 => namesake!(pc, u16, 7).map(|r| (r.0 as usize, r.1))?,
                    1 => namesake!(pc, u16, 8).map(|r| (r.0 as usize, r.1))?,
                    2 => namesake!(pc, String, "9".into())
                      .map(|r| (r.0.len() + 8, r.1))?,
                    _ => namesake!(pc, (), ()).map(|r| (10, r.1))?,
                  })
                };
                let mut all = Vec::new();
                for k in 0..4 {
                  let a = ask(k).map_err(|e| e.to_string())?;
                  if a.0 != 7 + k {
                    return bad("a result of another pass of the same name");
                  }
                  if ask(k).map_err(|e| e.to_string())? != a {
                    return bad("a second result");
                  }
                  all.push(a);
                }
                (all.iter().map(|a| a.0).sum(), all[1].1)
              }
              1 => {
                let a = pc.get_pass::<By<u16>>().map_err(|e| e.to_string())?;
                let b = pc.get_pass::<By<i8>>().map_err(|e| e.to_string())?;
                let c = pc.get_pass::<By<&'static u16>>().map_err(|e| e.to_string())?;
                let d = pc.get_pass::<By<By<u16>>>().map_err(|e| e.to_string())?;
                if a.1 == b.1 || b.1 == c.1 || a.1 == c.1 || d.1 == a.1 {
                  return bad("types that differ in a parameter share a result");
                }
                ((a.1 + 10 * b.1) as usize, Rc::as_ptr(&c) as usize)
              }
              2 => {
                let a = pc.get_pass::<Empty>().map_err(|e| e.to_string())?;
                let b = pc.get_pass::<Empty>().map_err(|e| e.to_string())?;
                if !Rc::ptr_eq(&a, &b) {
                  return bad("two results");
                }
                (0, Rc::as_ptr(&a) as usize)
              }
              _ => {
                let mut sum = 0;
                for depth in 1..5 {
                  LEVEL.with(|l| *l.borrow_mut() = (depth, 0));
                  let fresh = PassContext::new(&g);
                  let r = fresh.get_pass::<Nested<true>>().map_err(|e| e.to_string())?;
                  let runs = LEVEL.with(|l| l.borrow().1);
                  if r.0 + 1 != depth || runs != depth {
                    return bad("contexts of one grammar share what is in process");
                  }
                  sum += r.0;
                }
                LEVEL.with(|l| *l.borrow_mut() = (3, 0));
                let r = pc.get_pass::<Nested<false>>().map_err(|e| e.to_string())?;
                if r.0 != 2 {
                  return bad("a nested request");
                }
                world(|w| w.next_run = before);
                (sum, Rc::as_ptr(&r) as usize)
              }
            };
            match seen[*i] {
              None => seen[*i] = Some(got),
              Some(s) if s == got => {}
              Some(_) => return bad("another result in the second round"),
            }
            if round == 1 && *i != 3 && world(|w| w.next_run) != before {
              return bad("a pass that ran is run again");
            }
            st.transitions += 1;
          }
        }
        Ok(())
      });
      st.traces += 1;
      st.states_extra += 1;
      r.map_err(|p| format!("requests in order {:?} panic: {}", order, p))?
    },
  )
}

// -------------------------------------------------- the passes of bongo

fn real_request(
  pc: &PassContext<Tm, Nt, Ak, Av>,
  i: usize,
) -> Result<Rc<dyn Any>, String> {
  Ok(match i {
    0 => pc
      .get_pass::<Nullable<Nt, Ak>>()
      .map_err(|e| e.to_string())?,
    1 => pc.get_pass::<Firsts<Tm, Nt>>().map_err(|e| e.to_string())?,
    _ => pc
      .get_pass::<Follows<Tm, Nt>>()
      .map_err(|e| e.to_string())?,
  })
}

fn check_real(g: &Gram, st: &mut Stats) -> Verdict {
  let real = built(g)?;
  let ambiguous = empty_derivations(g).values().any(|c| *c > 1);
  for reqs in requests(2, 3, 4) {
    let ctx =
      || format!("grammar: {}\nrequests (context, pass): {:?}", g.show(), reqs);
    let pcs = [PassContext::new(&real), PassContext::new(&real)];
    let mut got: Vec<((usize, usize), Result<Rc<dyn Any>, String>)> = Vec::new();
    st.traces += 1;
    for (c, i) in &reqs {
      st.transitions += 1;
      let r = guard(|| real_request(&pcs[*c], *i))
        .map_err(|p| format!("{}\na request panics: {}", ctx(), p))?;
      if *i == 0 && r.is_err() != ambiguous {
        return Err(format!("{}\nthe nullable pass gives {:?}", ctx(), r));
      }
      for (k, x) in &got {
        let same = match (x, &r) {
          (Ok(a), Ok(b)) => Rc::ptr_eq(a, b) == (*k == (*c, *i)),
          (Err(a), Err(b)) => k.1 != *i || a == b,
          _ => k.1 != *i,
        };
        if !same {
          return Err(format!(
            "{}\nresults of {:?} and {:?} are {:?} and {:?}",
            ctx(),
            k,
            (c, i),
            x,
            r
          ));
        }
      }
      got.push(((*c, *i), r));
    }
  }
  st.states_extra += 1;
  Ok(())
}

pub fn p14(tier: Tier) -> Property {
  let deep = tier == Tier::Thorough;
  let mut cl = classics();
  for (_, g, _) in shapes(false) {
    cl.push(g);
  }
  let mut f = vec![
    family("2 passes", 2, 3, 1, 4, false),
    family("2 passes, 2 contexts", 2, 2, 2, 4, false),
    family("2 passes, 2 grammars", 2, 1, 2, 4, true),
    family("3 passes", 3, 2, 1, 3, false),
    many_passes(),
    unusual(),
    Family::new(
      "passes of bongo",
      cl.len() as u64,
      "curated grammars, all request histories of length 4 over 3 passes and 2 \
       contexts",
      move |u, st| check_real(&cl[u as usize], st),
    ),
  ];
  if deep {
    f.push(family("3 passes, longer", 3, 2, 1, 5, false));
    f.push(family("3 passes, 2 contexts", 3, 1, 2, 4, false));
    f.push(family("4 passes", 4, 1, 1, 4, false));
  }
  Property {
    id: "P14",
    families: f,
    assumptions: vec![
      "passes are deterministic".into(),
      "how often a failing pass runs is left open, and so is what follows a \
       detected loop"
        .into(),
    ],
    explanation: "states: assignments of behaviours to passes; for each, every \
      request history is run against the real context and compared, request by \
      request, with the outcome by recursion over the plan, the number of \
      successful runs and the identity of results; transitions: requests"
      .into(),
  }
}
