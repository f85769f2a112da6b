//! The exploration engine.
//!
//! A property is a list of *families*; a family is a finite, explicitly
//! numbered list of *units*; a unit is a piece of the bounded space that is
//! explored completely.  Units are handed out in order to worker threads.
//!
//! The exploration runs in a child process, so that a crash, a stack overflow,
//! an exhausted memory or a hang of the code under test is attributed to the
//! unit that caused it instead of ending the check.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// What one worker measured.
#[derive(Default)]
pub struct Stats {
  /// Hashes of the distinct states visited.
  pub states: HashSet<u64>,
  /// States known to be distinct by construction of the enumeration.
  pub states_extra: u64,
  pub transitions: u64,
  /// Executions of the real code that were compared with the model.
  pub traces: u64,
  /// Units left out by a canonicity or well-formedness filter.
  pub filtered: u64,
  /// Cases whose comparison was cut by a stated cap.
  pub capped: u64,
  pub outcomes: BTreeMap<String, u64>,
  pub samples: Vec<String>,
}

impl Stats {
  pub fn outcome(&mut self, s: impl Into<String>) {
    *self.outcomes.entry(s.into()).or_insert(0) += 1;
  }
  pub fn state<T: std::hash::Hash>(&mut self, t: &T) -> bool {
    self.states.insert(hash(t))
  }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.samples.len() < 3 {
      self.samples.push(f());
    }
  }
  fn merge(&mut self, o: Stats) {
    self.states.extend(o.states);
    self.states_extra += o.states_extra;
    self.transitions += o.transitions;
    self.traces += o.traces;
    self.filtered += o.filtered;
    self.capped += o.capped;
    for (k, v) in o.outcomes {
      *self.outcomes.entry(k).or_insert(0) += v;
    }
    self.samples.extend(o.samples);
  }
}

/// Deterministic hash (fixed keys).
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
  use std::hash::Hasher;
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new_with_keys(1, 2);
  t.hash(&mut h);
  h.finish()
}

pub type Verdict = Result<(), String>;

pub struct Family {
  pub name: String,
  pub units: u64,
  pub note: String,
  pub run: Box<dyn Fn(u64, &mut Stats) -> Verdict + Send + Sync>,
}

impl Family {
  pub fn new(
    name: impl Into<String>,
    units: u64,
    note: impl Into<String>,
    run: impl Fn(u64, &mut Stats) -> Verdict + Send + Sync + 'static,
  ) -> Self {
    Family {
      name: name.into(),
      units,
      note: note.into(),
      run: Box::new(run),
    }
  }
}

pub struct Property {
  pub id: &'static str,
  pub families: Vec<Family>,
  pub assumptions: Vec<String>,
  pub explanation: String,
}

// ------------------------------------------------------------ panics

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = payload_str(info.payload());
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
  }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
  if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "<non-string panic>".to_string()
  }
}

thread_local! {
  static BEATS: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
}

/// Tells the monitor that the unit being explored goes on.
pub fn beat() {
  BEATS.with(|b| {
    if let Some(b) = &*b.borrow() {
      b.fetch_add(1, Ordering::Relaxed);
    }
  });
}

/// Runs code under test, turning a panic into an error message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  beat();
  catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
    LAST_PANIC
      .with(|l| l.borrow_mut().take())
      .unwrap_or_else(|| payload_str(&*p))
  })
}

// ------------------------------------------------------------ child

pub struct ChildOpts {
  pub tier: Tier,
  pub threads: usize,
  pub only: Option<(usize, u64)>,
  pub progress_dir: String,
  pub unit_limit: Duration,
  /// What the check took so far.
  pub used: Duration,
}

pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOLATION: i32 = 10;
pub const EXIT_HANG: i32 = 11;

struct Slot {
  /// Unit number + 1, or 0 when idle.
  unit: AtomicU64,
  family: AtomicU64,
  since_ms: AtomicU64,
  /// Executions of the code under test.
  beats: Arc<AtomicU64>,
}

/// When a quick exploration began.
static BEGAN: OnceLock<Instant> = OnceLock::new();

/// The quick check of a change has to give an answer in 15 minutes, also where
/// the changed code needs many times the time of the one the bounds were chosen
/// for: whether that many seconds of it are over.
pub fn late(seconds: u64) -> bool {
  BEGAN.get().map_or(false, |b| b.elapsed().as_secs() >= seconds)
}

/// The outcome of a case that was cut short then.
pub const CUT: &str = "fewer switches for want of time";

/// No unit is begun after this.
const LATEST_S: u64 = 540;

/// Explores and returns the exit code.  Prints a RESULT line.
pub fn run_child(prop: Property, opts: ChildOpts) -> i32 {
  install_panic_hook();
  let start = Instant::now();
  if opts.tier == Tier::Quick {
    let _ = BEGAN.set(start.checked_sub(opts.used).unwrap_or(start));
  }
  let prop = Arc::new(prop);
  let slots: Arc<Vec<Slot>> = Arc::new(
    (0..opts.threads)
      .map(|_| Slot {
        unit: AtomicU64::new(0),
        family: AtomicU64::new(0),
        since_ms: AtomicU64::new(0),
        beats: Arc::default(),
      })
      .collect(),
  );
  // Flat numbering of all units.
  let total: u64 = prop.families.iter().map(|f| f.units).sum();
  let next = Arc::new(AtomicU64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let violation: Arc<Mutex<Option<(u64, usize, u64, String)>>> =
    Arc::new(Mutex::new(None));
  let merged = Arc::new(Mutex::new((Stats::default(), 0u64)));
  let times: Arc<Vec<AtomicU64>> =
    Arc::new(prop.families.iter().map(|_| AtomicU64::new(0)).collect());
  let mut handles = Vec::new();
  for t in 0..opts.threads {
    let prop = prop.clone();
    let slots = slots.clone();
    let next = next.clone();
    let stop = stop.clone();
    let violation = violation.clone();
    let merged = merged.clone();
    let times = times.clone();
    let only = opts.only;
    let file = File::create(format!("{}/p{}", opts.progress_dir, t)).unwrap();
    handles.push(
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .name(format!("w{}", t))
        .spawn(move || {
          BEATS.with(|b| *b.borrow_mut() = Some(slots[t].beats.clone()));
          let mut stats = Stats::default();
          let mut done = 0u64;
          loop {
            if stop.load(Ordering::SeqCst) {
              break;
            }
            let flat = next.fetch_add(1, Ordering::SeqCst);
            let (fam, unit) = match only {
              Some(x) => {
                if flat > 0 {
                  break;
                }
                x
              }
              None => {
                if flat >= total || late(LATEST_S) {
                  break;
                }
                locate(&prop.families, flat)
              }
            };
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(fam as u64 + 1).to_le_bytes());
            buf[8..].copy_from_slice(&unit.to_le_bytes());
            let _ = file.write_all_at(&buf, 0);
            slots[t].family.store(fam as u64, Ordering::SeqCst);
            slots[t]
              .since_ms
              .store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
            slots[t].unit.store(unit + 1, Ordering::SeqCst);
            let began = Instant::now();
            let r = guard(|| (prop.families[fam].run)(unit, &mut stats));
            times[fam].fetch_add(
              began.elapsed().as_micros() as u64,
              Ordering::Relaxed,
            );
            slots[t].unit.store(0, Ordering::SeqCst);
            done += 1;
            let err = match r {
              Ok(Ok(())) => None,
              Ok(Err(e)) => Some(e),
              // The exploration is deterministic, so a panic outside the code
              // under test also stems from an answer of that code which the
              // check was not prepared for.
              Err(p) => Some(format!("panic: {}", p)),
            };
            if let Some(e) = err {
              let mut v = violation.lock().unwrap();
              if v.as_ref().map_or(true, |(f, ..)| *f > flat) {
                *v = Some((flat, fam, unit, e));
              }
              stop.store(true, Ordering::SeqCst);
              break;
            }
          }
          let _ = file.write_all_at(&[0u8; 16], 0);
          let mut m = merged.lock().unwrap();
          m.0.merge(stats);
          m.1 += done;
        })
        .unwrap(),
    );
  }
  // Monitor.
  let mut last_beats = vec![0; slots.len()];
  loop {
    if handles.iter().all(|h| h.is_finished()) {
      break;
    }
    std::thread::sleep(Duration::from_millis(10));
    let now = start.elapsed().as_millis() as u64;
    for (s, last) in slots.iter().zip(&mut last_beats) {
      let beats = s.beats.load(Ordering::Relaxed);
      if beats != *last {
        *last = beats;
        s.since_ms.store(now, Ordering::SeqCst);
      }
      let u = s.unit.load(Ordering::SeqCst);
      if u != 0 {
        let since = s.since_ms.load(Ordering::SeqCst);
        if now.saturating_sub(since) > opts.unit_limit.as_millis() as u64
          && s.unit.load(Ordering::SeqCst) == u
        {
          println!(
            "HANG {} {} {}",
            s.family.load(Ordering::SeqCst),
            u - 1,
            (now - since) / 1000
          );
          let _ = std::io::stdout().flush();
          std::process::exit(EXIT_HANG);
        }
      }
    }
  }
  let v = violation.lock().unwrap().take();
  let m = merged.lock().unwrap();
  // For whoever sets the bounds.
  if std::env::var("MC_TIMES").is_ok() {
    for (f, t) in prop.families.iter().zip(&*times) {
      let t = t.load(Ordering::Relaxed);
      eprintln!("{:>9.2} s  {} ({} units)", t as f64 / 1e6, f.name, f.units);
    }
  }
  println!("STATS {}", stats_json(&prop, &m.0, m.1, total));
  match v {
    None => EXIT_OK,
    Some((_, fam, unit, e)) => {
      println!("FOUND {} {}", fam, unit);
      println!("{}", e);
      EXIT_VIOLATION
    }
  }
}

fn locate(families: &[Family], mut flat: u64) -> (usize, u64) {
  for (i, f) in families.iter().enumerate() {
    if flat < f.units {
      return (i, flat);
    }
    flat -= f.units;
  }
  unreachable!()
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn stats_json(
  prop: &Property,
  s: &Stats,
  units_done: u64,
  units_total: u64,
) -> String {
  let mut samples = s.samples.clone();
  samples.sort();
  samples.truncate(6);
  let fams: Vec<String> = prop
    .families
    .iter()
    .map(|f| {
      format!(
        "{{\"name\":{},\"units\":{},\"bounds\":{}}}",
        json_str(&f.name),
        f.units,
        json_str(&f.note)
      )
    })
    .collect();
  let outs: Vec<String> = s
    .outcomes
    .iter()
    .map(|(k, v)| format!("{}:{}", json_str(k), v))
    .collect();
  format!(
    "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\
     \"units_explored\":{},\"units_total\":{},\"filtered\":{},\
     \"cases_cut_by_cap\":{},\"exhaustive\":{},\"outcomes\":{{{}}},\
     \"samples\":[{}],\"families\":[{}],\"explanation\":{}}}",
    s.states.len() as u64 + s.states_extra,
    s.transitions,
    s.traces,
    units_done,
    units_total,
    s.filtered,
    s.capped,
    units_done == units_total && !s.outcomes.contains_key(CUT),
    outs.join(","),
    samples
      .iter()
      .map(|s| json_str(s))
      .collect::<Vec<_>>()
      .join(","),
    fams.join(","),
    json_str(&prop.explanation)
  )
}

/// The oracles disagree with each other: the check itself is broken.
pub fn oracle_broken(what: String) -> ! {
  eprintln!("ORACLE {}", what);
  std::process::exit(3)
}

/// The edges up to a size, and those of one power of two beyond it.
#[allow(dead_code)]
pub fn edges_and(max: usize, power: usize) -> Vec<usize> {
  let mut v = edges(max);
  v.extend([power - 1, power, power + 1]);
  v
}

/// Sizes around the powers of two, where containers and shortcuts change.
#[allow(dead_code)]
pub fn edges(max: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (0..=9).collect();
  let mut p = 16;
  while p <= max {
    v.extend([p - 1, p, p + 1]);
    p *= 2;
  }
  v.extend([10, 20, 40, 50, 60, 72, 80, 100, 120, 200, 500, 1000].iter().filter(|n| **n <= max));
  v.sort();
  v.dedup();
  v
}
