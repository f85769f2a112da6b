//! Threads under a scheduler of our own: coroutines that hand control back
//! before they take a lock of the tree store (replaced through the `sync` hook)
//! and wherever they ask to; and the enumeration of their schedules.

use crate::engine::late;
use bongo::verif_sync::Event;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
  /// At the start of an operation.
  Go,
  Read(usize),
  Write(usize),
  /// A writer that arrived while the lock was held.
  Waiting(usize),
  /// Failed to get a lock several times: others first.
  Retry,
  Done,
}

#[derive(Default, Debug)]
struct Lock {
  readers: Vec<usize>,
  writer: Option<usize>,
}

struct Sched {
  current: usize,
  want: Vec<Want>,
  locks: Vec<(usize, Lock)>,
  yielders: Vec<*const Yielder<(), ()>>,
  /// Some thread asked for a lock while one was held.
  nested: bool,
  /// Some thread tried to take a lock.
  tried: bool,
  /// Some thread used an atomic.
  atomic: bool,
  /// Threads can be switched while they hold a lock.
  split: bool,
  fails: Vec<usize>,
  acquired: u64,
  clock: usize,
}

thread_local! {
  static SCHED: Cell<*mut Sched> = const { Cell::new(std::ptr::null_mut()) };
  static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

/// Hands control to the scheduler.  No reference to the scheduler's state is
/// alive while another thread runs.
unsafe fn pause(s: *mut Sched, w: Want) {
  let y = {
    let s = &mut *s;
    s.want[s.current] = w;
    s.yielders[s.current]
  };
  (*y).suspend(());
}

/// To be installed with `bongo::verif_sync::set_hook`.
pub fn hook(lock: usize, e: Event) {
  let s = SCHED.with(|c| c.get());
  if s.is_null() {
    return;
  }
  unsafe {
    match e {
      Event::Read => pause(s, Want::Read(lock)),
      Event::Write => pause(s, Want::Write(lock)),
      Event::Taken => {
        if (*s).split {
          pause(s, Want::Go)
        }
      }
      Event::Atomic => {
        (*s).atomic = true;
        pause(s, Want::Go)
      }
      Event::Try => {
        (*s).tried = true;
        pause(s, Want::Go)
      }
      Event::Failed => {
        let c = (*s).current;
        let f = &mut (&mut (*s).fails)[c];
        *f += 1;
        let again = *f > 2;
        pause(s, if again { Want::Retry } else { Want::Go })
      }
      Event::TriedRead => {
        let s = &mut *s;
        let c = s.current;
        s.fails[c] = 0;
        s.lock(lock).readers.push(c);
      }
      Event::TriedWrite => {
        let s = &mut *s;
        let c = s.current;
        s.fails[c] = 0;
        s.lock(lock).writer = Some(c);
      }
      Event::ReadDone => {
        let s = &mut *s;
        let c = s.current;
        let l = s.lock(lock);
        if let Some(i) = l.readers.iter().position(|x| *x == c) {
          l.readers.swap_remove(i);
        } else {
          l.readers.pop();
        }
      }
      Event::WriteDone => {
        let s = &mut *s;
        s.lock(lock).writer = None;
      }
    }
  }
}

impl Sched {
  fn lock(&mut self, a: usize) -> &mut Lock {
    let i = match self.locks.iter().position(|x| x.0 == a) {
      Some(i) => i,
      None => {
        self.locks.push((a, Lock::default()));
        self.locks.len() - 1
      }
    };
    &mut self.locks[i].1
  }

  fn free(&self, a: usize) -> (bool, bool) {
    match self.locks.iter().find(|x| x.0 == a) {
      None => (true, true),
      Some((_, l)) => (
        l.writer.is_none(),
        l.writer.is_none() && l.readers.is_empty(),
      ),
    }
  }

  /// The threads that can take a step, that one first.
  fn ready(&self, first: usize, writers_first: bool) -> Vec<usize> {
    let all = std::iter::once(first)
      .chain((0..self.want.len()).filter(|t| *t != first));
    let en: Vec<usize> =
      all.clone().filter(|t| self.enabled(*t, writers_first)).collect();
    if en.is_empty() {
      return all.filter(|t| self.want[*t] == Want::Retry).collect();
    }
    en
  }

  /// Whether a thread can take a step.
  fn enabled(&self, t: usize, writers_first: bool) -> bool {
    match self.want[t] {
      Want::Go => true,
      Want::Retry => false,
      Want::Done => false,
      Want::Read(l) => {
        self.free(l).0
          && !(writers_first && self.want.contains(&Want::Waiting(l)))
      }
      // Under writer preference arriving is a step of its own.
      Want::Write(l) => writers_first || self.free(l).1,
      Want::Waiting(l) => self.free(l).1,
    }
  }

  /// Takes the lock for a thread, if it wants one; false if it only arrived.
  fn grant(&mut self, t: usize) -> bool {
    if self.locks.iter().any(|(_, l)| {
      l.writer.is_some() || !l.readers.is_empty()
    }) {
      self.nested = true;
    }
    match self.want[t] {
      Want::Read(l) => {
        self.acquired += 1;
        self.lock(l).readers.push(t);
        true
      }
      Want::Write(l) | Want::Waiting(l) => {
        if !self.free(l).1 {
          self.want[t] = Want::Waiting(l);
          return false;
        }
        self.acquired += 1;
        self.lock(l).writer = Some(t);
        true
      }
      _ => true,
    }
  }
}

/// What a running thread can ask of the scheduler.
pub struct Ctx(*mut Sched);

impl Ctx {
  /// Lets other threads go first.
  pub fn step(&self) {
    unsafe { pause(self.0, Want::Go) }
  }
  /// A number greater than all given before, in this run.
  pub fn tick(&self) -> usize {
    unsafe {
      (*self.0).clock += 1;
      (*self.0).clock
    }
  }
}

pub type Body<'a> = Box<dyn FnOnce(&Ctx) + 'a>;

/// How locks behave, and where threads are switched.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Policy {
  /// Waiting writers block new readers.
  pub writers_first: bool,
  /// Threads can also be switched while they hold a lock.
  pub split: bool,
}

impl std::fmt::Display for Policy {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    if self.writers_first {
      write!(f, ", waiting writers block readers")?;
    }
    if self.split {
      write!(f, ", or to the point after taking one")?;
    }
    Ok(())
  }
}

/// The policies that make a difference, by what their runs show.
#[derive(Default)]
pub struct Policies {
  stage: usize,
  pub nested: bool,
  pub tried: bool,
  pub atomic: bool,
  /// Fewer switches were explored than asked for, for want of time.
  pub cut: bool,
}

impl Policies {
  pub fn saw(&mut self, run: &Seen) {
    self.nested |= run.nested;
    self.tried |= run.tried;
    self.atomic |= run.atomic;
  }
  /// How many switches are explored, out of the number asked for, after a
  /// schedule of that many steps: programs with atomics, or switched inside
  /// locks, have many more schedules.
  pub fn bound(&mut self, bound: usize, steps: usize) -> usize {
    let most = match () {
      _ if late(400) => 0,
      _ if late(250) => 1,
      _ => bound,
    };
    self.cut |= most < bound;
    let bound = bound.min(most);
    if self.stage > 2 && steps > 40 {
      bound.min(1)
    } else if self.atomic || self.stage > 2 {
      bound.min(2)
    } else {
      bound
    }
  }
  pub fn next(&mut self) -> Option<Policy> {
    // Without a lock taken or waited for while another is held both kinds of
    // locks have the same schedules, and without a lock that is only tried it
    // makes no difference what happens while one is held.
    if self.stage == 1 && !self.nested {
      self.stage += 1;
    }
    if self.stage >= 2 && !self.tried {
      return None;
    }
    self.stage += 1;
    Some(match self.stage {
      1 => Policy { writers_first: true, split: false },
      2 => Policy { writers_first: false, split: false },
      3 => Policy { writers_first: true, split: true },
      4 => Policy { writers_first: false, split: true },
      _ => return None,
    })
  }
}

/// What threads used.
#[derive(Clone, Copy)]
pub struct Seen {
  /// A lock was taken or waited for while one was held.
  pub nested: bool,
  /// A lock was only tried.
  pub tried: bool,
  pub atomic: bool,
}

pub struct Run {
  /// (choice, number of choices, whether another choice is a preemption)
  pub choices: Vec<(usize, usize, bool)>,
  /// The thread of each step.
  pub steps: Vec<u8>,
  pub seen: Seen,
  pub acquired: u64,
  /// Nobody can go on.  The threads are abandoned: what they use stays
  /// borrowed, and must be leaked.
  pub deadlock: Option<String>,
}

fn take_stack() -> DefaultStack {
  STACKS
    .with(|s| s.borrow_mut().pop())
    .unwrap_or_else(|| DefaultStack::new(512 * 1024).unwrap())
}

/// Runs threads under a schedule: the given choices, then the first one.
/// The bodies must not panic.
pub fn run(
  bodies: Vec<Body<'_>>,
  prefix: &[usize],
  policy: Policy,
) -> Result<Run, String> {
  let n = bodies.len();
  let mut sched = Box::new(Sched {
    current: 0,
    want: vec![Want::Go; n],
    locks: vec![],
    yielders: vec![std::ptr::null(); n],
    nested: false,
    tried: false,
    atomic: false,
    split: policy.split,
    fails: vec![0; n],
    acquired: 0,
    clock: 0,
  });
  let sp: *mut Sched = &mut *sched;
  let mut cos: Vec<Coroutine<(), (), (), DefaultStack>> = bodies
    .into_iter()
    .enumerate()
    .map(|(t, b)| {
      // The coroutines end, or are abandoned, before this function returns.
      let b: Body<'static> = unsafe { std::mem::transmute(b) };
      Coroutine::with_stack(take_stack(), move |y: &Yielder<(), ()>, ()| unsafe {
        (&mut (*sp).yielders)[t] = y;
        b(&Ctx(sp));
        (&mut (*sp).want)[t] = Want::Done;
      })
    })
    .collect();
  SCHED.with(|c| c.set(sp));
  let mut choices = Vec::new();
  let mut steps = Vec::new();
  let mut last = 0;
  let mut alone = 0;
  let dead = loop {
    // Safe: no coroutine runs here.
    let s = unsafe { &mut *sp };
    // The running thread first: fewer switches come first.
    let mut en = s.ready(last, policy.writers_first);
    // A thread that goes on and on may wait for another.
    if alone > 1000 && en.len() > 1 && en[0] == last {
      en.remove(0);
    }
    if en.is_empty() {
      if s.want.iter().all(|w| *w == Want::Done) {
        break None;
      }
      break Some(format!(
        "threads want {:?}, locks {:?}",
        s.want,
        s.locks.iter().map(|l| &l.1).collect::<Vec<_>>()
      ));
    }
    let k = choices.len();
    let (c, broken) = match prefix.get(k) {
      Some(c) if *c < en.len() => (*c, None),
      Some(_) => (0, Some("the schedule does not repeat")),
      None if k > 100_000 => (0, Some("a schedule does not end")),
      None => (0, None),
    };
    if let Some(b) = broken {
      SCHED.with(|c| c.set(std::ptr::null_mut()));
      std::mem::forget(cos);
      std::mem::forget(sched);
      return Err(b.to_string());
    }
    choices.push((c, en.len(), en[0] == last));
    let t = en[c];
    steps.push(t as u8);
    alone = if t == last { alone + 1 } else { 0 };
    last = t;
    s.current = t;
    if s.grant(t) {
      match cos[t].resume(()) {
        CoroutineResult::Yield(()) => {}
        CoroutineResult::Return(()) => {}
      }
    }
  };
  SCHED.with(|c| c.set(std::ptr::null_mut()));
  let seen = Seen {
    nested: sched.nested,
    tried: sched.tried,
    atomic: sched.atomic,
  };
  let acquired = sched.acquired;
  if dead.is_some() {
    // The stuck threads are abandoned with everything they use.
    std::mem::forget(cos);
    std::mem::forget(sched);
  } else {
    for c in cos {
      STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
    }
  }
  Ok(Run { choices, steps, seen, acquired, deadlock: dead })
}

/// The choices of the next schedule of at most that many switches away from a
/// runnable thread.
pub fn next(mut c: Vec<(usize, usize, bool)>, bound: usize) -> Option<Vec<usize>> {
  while let Some((i, n, pre)) = c.pop() {
    if i + 1 < n {
      c.push((i + 1, n, pre));
      if c.iter().filter(|x| x.0 > 0 && x.2).count() <= bound {
        return Some(c.iter().map(|x| x.0).collect());
      }
      c.pop();
    }
  }
  None
}
