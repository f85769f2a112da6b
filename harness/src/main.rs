#![allow(dead_code, unused_imports)]
#[cfg(feature = "g_cfg")]
mod cfg;
#[cfg(any(feature = "p17", feature = "p18", feature = "p29"))]
mod dotgraph;
mod engine;
#[cfg(feature = "g_forest")]
mod forest;
mod hist;
mod laws;
mod props;
#[cfg(feature = "g_sched")]
mod sched;
#[cfg(feature = "g_cfg")]
#[macro_use]
mod sorts;
#[cfg(feature = "g_cfg")]
mod spaces;

use engine::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// One unit takes microseconds to a few seconds; this is a hang.
const UNIT_LIMIT_S: u64 = 60;

fn arg(args: &[String], name: &str) -> Option<String> {
  args
    .iter()
    .position(|a| a == name)
    .and_then(|i| args.get(i + 1))
    .cloned()
}

fn tier_of(args: &[String]) -> Tier {
  match arg(args, "--tier")
    .or_else(|| std::env::var("VERIF_TIER").ok())
    .as_deref()
  {
    Some("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("check") => check(&args),
    Some("child") => child(&args),
    Some("list") => {
      for tier in [Tier::Quick, Tier::Thorough] {
        for id in props::ids() {
          let p = props::get(id, tier).unwrap();
          for f in &p.families {
            println!("{:?} {} {} units={} {}", tier, id, f.name, f.units, f.note);
          }
        }
      }
      0
    }
    _ => {
      eprintln!("usage: bongo-mc check|child PROPERTY [--tier T] [--only F U]");
      2
    }
  };
  std::process::exit(code);
}

fn child(args: &[String]) -> i32 {
  let tier = tier_of(args);
  let id = &args[2];
  let dir = arg(args, "--progress").unwrap_or_else(|| "/tmp".to_string());
  let limit = arg(args, "--unit-limit")
    .and_then(|s| s.parse().ok())
    .unwrap_or(UNIT_LIMIT_S);
  let prop = match props::get(id, tier) {
    Some(p) => p,
    None => {
      eprintln!("unknown property {} in this build", id);
      return 2;
    }
  };
  // For the parent, which builds no property itself.
  let assume: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
  println!("ASSUME {}", assume.join(","));
  for (i, f) in prop.families.iter().enumerate() {
    println!("FAMILY {} {}", i, f.name);
  }
  let only = args.iter().position(|a| a == "--only").map(|i| {
    (
      args[i + 1].parse::<usize>().unwrap(),
      args[i + 2].parse::<u64>().unwrap(),
    )
  });
  let threads = if only.is_some() {
    1
  } else {
    std::env::var("BONGO_MC_THREADS")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or_else(|| {
        std::thread::available_parallelism()
          .map(|n| n.get())
          .unwrap_or(4)
          .min(8)
      })
  };
  run_child(
    prop,
    ChildOpts {
      tier,
      threads,
      only,
      progress_dir: dir,
      unit_limit: Duration::from_secs(limit),
      used: Duration::from_secs(
        arg(args, "--used").and_then(|s| s.parse().ok()).unwrap_or(0),
      ),
    },
  )
}

struct ChildOut {
  code: Option<i32>,
  stdout: String,
  stderr: String,
}

fn spawn_child(
  id: &str,
  tier: Tier,
  progress: &str,
  only: Option<(usize, u64)>,
  limit: u64,
  used: Duration,
) -> ChildOut {
  let exe = std::env::current_exe().unwrap();
  let mut cmd = Command::new("sh");
  // The address space limit turns runaway allocation into an abort of the
  // child, which is attributed to the unit that was running.
  cmd
    .arg("-c")
    .arg("ulimit -v 16000000; ulimit -c 0; exec \"$0\" \"$@\"")
    .arg(exe)
    .arg("child")
    .arg(id)
    .arg("--tier")
    .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
    .arg("--progress")
    .arg(progress)
    .arg("--unit-limit")
    .arg(limit.to_string())
    .arg("--used")
    .arg(used.as_secs().to_string());
  if let Some((f, u)) = only {
    cmd.arg("--only").arg(f.to_string()).arg(u.to_string());
  }
  cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
  let mut ch = cmd.spawn().expect("spawn child");
  let mut so = ch.stdout.take().unwrap();
  let mut se = ch.stderr.take().unwrap();
  let t = std::thread::spawn(move || {
    let mut s = Vec::new();
    let _ = se.read_to_end(&mut s);
    String::from_utf8_lossy(&s).to_string()
  });
  let mut out = Vec::new();
  let _ = so.read_to_end(&mut out);
  let st = ch.wait().expect("wait");
  ChildOut {
    code: st.code(),
    stdout: String::from_utf8_lossy(&out).to_string(),
    stderr: t.join().unwrap(),
  }
}

/// The unit that gave no sign of life for too long.
fn hanging(out: &ChildOut) -> Option<(usize, u64)> {
  let l = out.stdout.lines().find(|l| l.starts_with("HANG "))?;
  let w: Vec<&str> = l.split(' ').collect();
  Some((w[1].parse().ok()?, w[2].parse().ok()?))
}

fn check(args: &[String]) -> i32 {
  let start = Instant::now();
  let id = args[2].clone();
  let tier = tier_of(args);
  let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".to_string());
  let progress = format!("{}/run/{}-{}", verif, id, std::process::id());
  std::fs::create_dir_all(&progress).expect("scratch directory");
  let replay_dir = format!("{}/replays", verif);
  std::fs::create_dir_all(&replay_dir).expect("replay directory");
  let mut limit = UNIT_LIMIT_S;
  let spawn = |only, limit| {
    spawn_child(&id, tier, &progress, only, limit, start.elapsed())
  };
  let mut out = spawn(None, limit);
  let mut alone = None;
  if let Some(unit) = hanging(&out) {
    let o2 = spawn(Some(unit), limit);
    if o2.code == Some(EXIT_OK) {
      // Slow once, not again: all of it once more, with more patience.
      limit *= 3;
      out = spawn(None, limit);
    } else {
      alone = Some(o2);
    }
  }
  let mut found: Option<(usize, u64, String)> = None;
  let mut error: Option<String> = None;
  let mut hung = false;
  match out.code {
    Some(EXIT_OK) => {}
    Some(EXIT_VIOLATION) => {
      let mut lines = out.stdout.lines();
      let l = lines.find(|l| l.starts_with("FOUND ")).unwrap_or("FOUND 0 0");
      let w: Vec<&str> = l.split(' ').collect();
      let rest: Vec<&str> = lines.collect();
      found = Some((
        w[1].parse().unwrap(),
        w[2].parse().unwrap(),
        rest.join("\n"),
      ));
    }
    Some(EXIT_HANG) => {
      let (f, u) = hanging(&out).unwrap();
      // Confirm alone.
      let o2 = alone.take().unwrap_or_else(|| spawn(Some((f, u)), limit));
      match o2.code {
        Some(EXIT_HANG) => {
          hung = true;
          found = Some((
            f,
            u,
            format!(
              "does not terminate: no result within {} s, twice",
              limit
            ),
          ))
        }
        Some(EXIT_VIOLATION) => {
          let rest: Vec<&str> = o2
            .stdout
            .lines()
            .skip_while(|l| !l.starts_with("FOUND "))
            .skip(1)
            .collect();
          found = Some((f, u, rest.join("\n")));
        }
        Some(EXIT_OK) => {
          error = Some(format!("unit {} {} was slow once, not again", f, u))
        }
        c => {
          found = Some((f, u, format!("crash of the process, status {:?}", c)))
        }
      }
    }
    Some(c) if c < 100 => {
      error = Some(format!("child exit {}: {}", c, out.stderr));
    }
    c => {
      // Crash: find which unit.
      let mut cands = Vec::new();
      if let Ok(rd) = std::fs::read_dir(&progress) {
        for e in rd.flatten() {
          if let Ok(b) = std::fs::read(e.path()) {
            if b.len() == 16 {
              let f = u64::from_le_bytes(b[..8].try_into().unwrap());
              let u = u64::from_le_bytes(b[8..].try_into().unwrap());
              if f > 0 {
                cands.push(((f - 1) as usize, u));
              }
            }
          }
        }
      }
      cands.sort();
      for (f, u) in cands {
        let o2 = spawn(Some((f, u)), limit);
        match o2.code {
          Some(EXIT_OK) => continue,
          Some(EXIT_VIOLATION) => {
            let rest: Vec<&str> = o2
              .stdout
              .lines()
              .skip_while(|l| !l.starts_with("FOUND "))
              .skip(1)
              .collect();
            found = Some((f, u, rest.join("\n")));
          }
          c2 => {
            found = Some((
              f,
              u,
              format!(
                "the process dies (status {:?}): {}",
                c2,
                tail(&o2.stderr, 300)
              ),
            ));
          }
        }
        break;
      }
      if found.is_none() {
        error = Some(format!(
          "child died (status {:?}) and no unit reproduces it: {}",
          c,
          tail(&out.stderr, 500)
        ));
      }
    }
  }
  let stats = out
    .stdout
    .lines()
    .find(|l| l.starts_with("STATS "))
    .map(|l| l[6..].to_string())
    .unwrap_or_else(|| {
      "{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\
       \"exhaustive\":false,\"samples\":[],\"explanation\":\
       \"the exploration ended before it could report\"}"
        .to_string()
    });
  let line = |start: &str| {
    out
      .stdout
      .lines()
      .find_map(|l| l.strip_prefix(start))
      .unwrap_or("")
      .to_string()
  };
  let assumptions = line("ASSUME ");
  let seed = std::env::var("VERIF_SEED")
    .ok()
    .and_then(|s| s.parse::<i64>().ok())
    .unwrap_or(1);
  let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
  let ev = format!(
    "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\
     \"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
    json_str(&id),
    json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
    seed,
    stats,
    assumptions,
    start.elapsed().as_secs_f64(),
    if found.is_some() { 1 } else { 0 }
  );
  std::fs::write(format!("{}/evidence/{}.json", verif, id), ev)
    .expect("write evidence");
  let _ = std::fs::remove_dir_all(&progress);
  if let Some(e) = error {
    eprintln!("ERROR {}", e);
    return 2;
  }
  match found {
    None => {
      println!(
        "OK property={} wall={:.1}s {}",
        id,
        start.elapsed().as_secs_f64(),
        tail_head(&stats, 220)
      );
      0
    }
    Some((f, u, detail)) => {
      let fam = line(&format!("FAMILY {} ", f));
      // Replay once more, to state whether the failure is deterministic.
      // A hang has been confirmed already.
      let det = hung || {
        let again = progress_again(&progress);
        let rep =
          spawn_child(&id, tier, &again, Some((f, u)), limit, Duration::ZERO);
        let _ = std::fs::remove_dir_all(&progress);
        rep.code != Some(EXIT_OK)
      };
      let path = format!("{}/{}-{}-{}.txt", replay_dir, id, f, u);
      let t = if tier == Tier::Quick { "quick" } else { "thorough" };
      let text = format!(
        "property: {}\nfamily: {} ({})\nunit: {}\ntier: {}\n\
         reproduced on replay: {}\nreplay with: {}/check {} --replay {} {} {}\n\n{}\n",
        id, f, fam, u, t, det, verif, id, t, f, u, detail
      );
      std::fs::write(&path, &text).expect("write replay");
      println!("{}", tail_head(&text, 3000));
      println!("VIOLATION property={} replay={}", id, path);
      1
    }
  }
}

fn progress_again(p: &str) -> String {
  let _ = std::fs::create_dir_all(p);
  p.to_string()
}

fn tail(s: &str, n: usize) -> String {
  let c: Vec<char> = s.chars().collect();
  c[c.len().saturating_sub(n)..].iter().collect()
}

fn tail_head(s: &str, n: usize) -> String {
  s.chars().take(n).collect()
}
