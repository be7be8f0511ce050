//! Monitor runtime: case scheduling, verdict collection, evidence, known findings.
use crate::rng::{Rng, splitmix};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

/// What a case execution observed.
pub enum Verdict {
  /// The oracle looked at the execution and agreed. The u64 is a fingerprint of the
  /// observed state (used to count distinct non-trivial observations).
  Held(u64),
  /// The case did not reach the state the oracle judges (e.g. unsupported combination).
  Skip(&'static str),
  /// Violation: (signature, detail). The signature identifies the failure class.
  Bad(String, String),
}

pub struct Shared {
  pub evaluations: u64,
  pub skips: BTreeMap<String, u64>,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<Value>,
  pub violations: Vec<(String, String, PathBuf)>,
  pub known: BTreeMap<String, (u64, String)>,
}

pub struct Ctx {
  pub prop: String,
  pub tier: Tier,
  pub seed: u64,
  pub start: Instant,
  pub cap: Duration,
  pub replay_case: Option<(String, u64)>,
  known_sigs: Vec<(String, String)>,
  pub sh: Mutex<Shared>,
  stop: AtomicBool,
  pub threads: usize,
  pub hang: Duration,
}

thread_local! {
  static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
static GLOBAL_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      String::new()
    };
    let full = format!("{} [{}]", msg.chars().take(200).collect::<String>(), loc);
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
    *GLOBAL_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(full);
  }));
}

fn short(f: &str) -> &str {
  f.rsplit("/repo/").next().unwrap_or(f)
}

/// Run a closure, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  LAST_PANIC.with(|p| *p.borrow_mut() = None);
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => {
      let l = LAST_PANIC.with(|p| p.borrow_mut().take());
      Err(l.or_else(|| GLOBAL_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()).unwrap_or_else(|| "panic".into()))
    }
  }
}

pub fn hash_bytes(data: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in data {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

pub fn hash_u16(data: &[u16]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in data {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

pub fn hash_str(s: &str) -> u64 {
  hash_bytes(s.as_bytes())
}

impl Ctx {
  pub fn new(prop: &str, tier: Tier, seed: u64, cap: Duration, replay_case: Option<(String, u64)>) -> Self {
    let mut known_sigs = Vec::new();
    if let Ok(txt) = std::fs::read_to_string("/verif/known_findings.json") {
      if let Ok(v) = serde_json::from_str::<Value>(&txt) {
        for e in v["findings"].as_array().cloned().unwrap_or_default() {
          if e["property"] == prop {
            known_sigs.push((e["signature"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
          }
        }
      }
    }
    Self {
      prop: prop.into(),
      tier,
      seed,
      start: Instant::now(),
      cap,
      replay_case,
      known_sigs,
      sh: Mutex::new(Shared {
        evaluations: 0,
        skips: BTreeMap::new(),
        distinct: HashSet::new(),
        counters: BTreeMap::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        known: BTreeMap::new(),
      }),
      stop: AtomicBool::new(false),
      threads: 6,
      hang: Duration::from_secs(100),
    }
  }

  pub fn thorough(&self) -> bool {
    self.tier == Tier::Thorough
  }

  /// Number of cases: quick vs thorough
  pub fn n(&self, quick: usize, thorough: usize) -> usize {
    if self.thorough() { thorough } else { quick }
  }

  pub fn count(&self, key: &str, n: u64) {
    *self.sh.lock().unwrap().counters.entry(key.to_string()).or_insert(0) += n;
  }

  pub fn max(&self, key: &str, n: u64) {
    let mut g = self.sh.lock().unwrap();
    let e = g.counters.entry(key.to_string()).or_insert(0);
    if n > *e {
      *e = n;
    }
  }

  pub fn sample(&self, v: Value) {
    let mut g = self.sh.lock().unwrap();
    if g.samples.len() < 12 {
      g.samples.push(v);
    }
  }

  pub fn stopped(&self) -> bool {
    self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.cap
  }

  pub fn report(&self, stage: &str, case: u64, v: Verdict) {
    let mut g = self.sh.lock().unwrap();
    match v {
      Verdict::Held(fp) => {
        g.evaluations += 1;
        let mut x = fp ^ hash_str(stage);
        let fp = splitmix(&mut x);
        g.distinct.insert(fp);
        *g.counters.entry(format!("held.{stage}")).or_insert(0) += 1;
      }
      Verdict::Skip(why) => {
        *g.skips.entry(format!("{stage}: {why}")).or_insert(0) += 1;
      }
      Verdict::Bad(sig, detail) => {
        g.evaluations += 1;
        if let Some((s, what)) = self.known_sigs.iter().find(|(s, _)| *s == sig) {
          let e = g.known.entry(s.clone()).or_insert((0, what.clone()));
          e.0 += 1;
          return;
        }
        let dir = PathBuf::from("/verif/replays").join(&self.prop);
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", stage, case));
        let body = json!({"property": self.prop, "stage": stage, "case": format!("{:#x}", case), "signature": sig, "detail": detail,
          "replay": format!("/verif/check.sh {} replay {} {:#x}", self.prop, stage, case)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        if g.violations.len() < 20 && !g.violations.iter().any(|v| v.0 == sig) {
          println!("VIOLATION property={} replay={}", self.prop, path.display());
          println!("  stage={stage} case={case:#x} sig={sig}\n  {}", detail.chars().take(600).collect::<String>());
          g.violations.push((sig, detail, path));
        }
        if g.violations.len() >= 5 {
          self.stop.store(true, Ordering::Relaxed);
        }
      }
    }
  }

  /// Run `n` generated cases of a stage in parallel.
  pub fn cases(&self, stage: &str, n: usize, f: impl Fn(&mut Rng, u64) -> Verdict + Sync) {
    self.cases_t(stage, n, self.threads, f)
  }

  pub fn cases_t(&self, stage: &str, n: usize, threads: usize, f: impl Fn(&mut Rng, u64) -> Verdict + Sync) {
    let run = |case: u64| {
      let mut rng = Rng::new(case);
      let v = match guard(|| f(&mut rng, case)) {
        Ok(v) => v,
        Err(p) => Verdict::Bad(format!("panic: {p}"), format!("panic while executing a valid case: {p}")),
      };
      self.report(stage, case, v);
    };
    if let Some((s, c)) = &self.replay_case {
      if s == stage {
        run(*c);
      }
      return;
    }
    let next = AtomicUsize::new(0);
    // hang watchdog: (case, start) per worker
    let running: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads.max(1)).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let left = AtomicUsize::new(threads.max(1));
    std::thread::scope(|sc| {
      let (running, done, left) = (&running, &done, &left);
      sc.spawn(move || {
        while !done.load(Ordering::Relaxed) {
          std::thread::sleep(Duration::from_millis(20));
          for slot in running {
            let cur = *slot.lock().unwrap();
            if let Some((case, t0)) = cur {
              if t0.elapsed() > self.hang {
                self.report(stage, case, Verdict::Bad(format!("hang: {stage}"), format!("case did not terminate within {:?}", self.hang)));
                let code = self.emit("exploration", "aborted by the hang watchdog", &[]);
                std::process::exit(code.max(1));
              }
            }
          }
        }
      });
      for t in 0..threads.max(1) {
        let next = &next;
        let run = &run;
        std::thread::Builder::new()
          .name(format!("case-{t}"))
          .stack_size(16 << 20)
          .spawn_scoped(sc, move || {
            loop {
              let i = next.fetch_add(1, Ordering::Relaxed);
              if i >= n || self.stopped() {
                break;
              }
              // low bits carry the case index so that directed sub-cases can be selected by index
              let mut x = self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(stage) ^ ((i as u64) << 1);
              let case = (splitmix(&mut x) & !0xffff_ffff) | (i as u64 & 0xffff_ffff);
              *running[t].lock().unwrap() = Some((case, Instant::now()));
              run(case);
              *running[t].lock().unwrap() = None;
            }
            if left.fetch_sub(1, Ordering::Relaxed) == 1 {
              done.store(true, Ordering::Relaxed);
            }
          })
          .unwrap();
      }
    });
  }

  /// Index part of a case id.
  pub fn idx(case: u64) -> usize {
    (case & 0xffff_ffff) as usize
  }

  pub fn finish(self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
    self.emit(level, rule, assumptions)
  }

  fn emit(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
    let g = self.sh.lock().unwrap();
    for (sig, (n, what)) in g.known.iter() {
      println!("KNOWN-FINDING: property={} {} (signature '{}', seen {} times)", self.prop, what, sig, n);
    }
    let ev = json!({
      "property": self.prop,
      "tier": if self.thorough() {"thorough"} else {"quick"},
      "seed": self.seed,
      "level": level,
      "coverage": {
        "evaluations": g.evaluations,
        "distinct_nontrivial": g.distinct.len(),
        "rule": rule,
        "samples": g.samples,
        "counters": g.counters,
        "skipped": g.skips,
        "known_findings_observed": g.known.iter().map(|(k, v)| json!({"signature": k, "count": v.0})).collect::<Vec<_>>(),
      },
      "assumptions": assumptions,
      "wall_s": self.start.elapsed().as_secs_f64(),
      "violations": g.violations.len(),
    });
    if self.replay_case.is_none() {
      let _ = std::fs::create_dir_all("/verif/evidence");
      std::fs::write(format!("/verif/evidence/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
      "{} {}: evaluations={} distinct={} skipped={} violations={} wall={:.1}s",
      self.prop,
      if g.violations.is_empty() { "held" } else { "VIOLATED" },
      g.evaluations,
      g.distinct.len(),
      g.skips.values().sum::<u64>(),
      g.violations.len(),
      self.start.elapsed().as_secs_f64()
    );
    if g.violations.is_empty() { 0 } else { 1 }
  }
}
