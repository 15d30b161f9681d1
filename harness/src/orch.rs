//! Orchestrator: shards a property's cases over worker processes, watches them
//! (aborts, stack overflows, CPU budget), merges what they observed, and writes
//! the verdict and the evidence file.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::rng::{Rng, hash_bytes};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  pub fn name(self) -> &'static str {
    match self {
      Tier::Quick => "quick",
      Tier::Thorough => "thorough",
    }
  }
}

#[derive(Clone, Debug)]
pub struct Fail {
  pub index: u64,
  pub sig: String,
  pub msg: String,
  pub input: Value,
}

/// What a case sees, and what it reports back.
pub struct Cx {
  pub rng: Rng,
  pub index: u64,
  pub seed: u64,
  pub tier: Tier,
  pub fails: Vec<Fail>,
  pub inconclusive: BTreeMap<String, u64>,
  pub counters: BTreeMap<String, u64>,
  pub distinct: HashSet<u64>,
  pub samples: Vec<Value>,
  pub evaluations: u64,
  pub verbose: bool,
}

impl Cx {
  pub fn new(seed: u64, tier: Tier) -> Cx {
    Cx {
      rng: Rng::new(0, "", 0),
      index: 0,
      seed,
      tier,
      fails: vec![],
      inconclusive: BTreeMap::new(),
      counters: BTreeMap::new(),
      distinct: HashSet::new(),
      samples: vec![],
      evaluations: 0,
      verbose: false,
    }
  }
  pub fn eval(&mut self) {
    self.evaluations += 1;
  }
  pub fn count(&mut self, k: &str) {
    self.add(k, 1);
  }
  pub fn add(&mut self, k: &str, n: u64) {
    if let Some(v) = self.counters.get_mut(k) {
      *v += n;
    } else {
      self.counters.insert(k.to_string(), n);
    }
  }
  pub fn nontrivial(&mut self, key: &str) {
    self.distinct.insert(hash_bytes(key.as_bytes()));
  }
  pub fn sample(&mut self, f: impl FnOnce() -> Value) {
    if self.samples.len() < 2 && self.index % 7 == 3 {
      self.samples.push(f());
    }
  }
  pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>, input: Value) {
    let f = Fail { index: self.index, sig: sig.into(), msg: msg.into(), input };
    if self.verbose {
      println!("FAIL sig={}\n  {}\n  input={}", f.sig, f.msg, serde_json::to_string_pretty(&f.input).unwrap());
      if let Some(s) = f.input.get("src").and_then(|s| s.as_str()) {
        println!("---- src\n{s}\n----");
      }
    }
    if self.fails.len() < 400 {
      self.fails.push(f);
    }
    self.count("failing_cases");
  }
  pub fn inconclusive(&mut self, why: &str) {
    *self.inconclusive.entry(why.to_string()).or_insert(0) += 1;
  }
}

pub trait Prop: Sync {
  fn id(&self) -> &'static str;
  /// how cases are made, and what makes one non-trivial
  fn rule(&self) -> &'static str;
  fn cases(&self, tier: Tier) -> u64;
  fn run(&self, cx: &mut Cx);
  /// CPU seconds one case may burn before the watchdog ends it
  fn case_cpu_s(&self) -> f64 {
    20.0
  }
  /// does running out of the CPU budget, or dying, decide this property?
  fn crash_is_violation(&self) -> bool {
    false
  }
  fn hang_is_violation(&self) -> bool {
    false
  }
  fn max_workers(&self) -> usize {
    8
  }
  /// Called once, before the workers start (scratch dirs, binaries to build).
  fn prepare(&self, _tier: Tier) -> Result<(), String> {
    Ok(())
  }
  /// Called once by the orchestrator with the merged counters: adds to them or fails.
  fn finish(&self, _counters: &BTreeMap<String, u64>, _cx: &mut Cx) {}
  fn assumptions(&self) -> Vec<String> {
    vec![]
  }
}

pub fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn cpu_secs(pid: u32) -> Option<f64> {
  let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
  let rest = &s[s.rfind(')')? + 2..];
  let f: Vec<&str> = rest.split_whitespace().collect();
  let ut: f64 = f.get(11)?.parse().ok()?;
  let st: f64 = f.get(12)?.parse().ok()?;
  Some((ut + st) / 100.0)
}

pub fn seed_case(cx: &mut Cx, prop: &dyn Prop, index: u64) {
  cx.index = index;
  cx.rng = Rng::new(cx.seed, prop.id(), index);
}

pub fn worker(prop: &dyn Prop, tier: Tier, seed: u64, start: u64, step: u64, end: u64, deadline_s: f64, out: &Path, progress: &Path) {
  let pf = fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress).unwrap();
  let mut cx = Cx::new(seed, tier);
  let t0 = Instant::now();
  let mut last = Instant::now();
  let mut i = start;
  let mut cut = false;
  while i < end {
    if t0.elapsed().as_secs_f64() > deadline_s {
      cut = true;
      break;
    }
    pf.write_all_at(&i.to_le_bytes(), 0).unwrap();
    seed_case(&mut cx, prop, i);
    prop.run(&mut cx);
    i += step;
    if last.elapsed() > Duration::from_millis(500) {
      dump(&cx, out, false);
      last = Instant::now();
    }
  }
  if cut {
    cx.add("cases_not_reached_in_time", (end - i).div_ceil(step));
  }
  dump(&cx, out, true);
}

fn dump(cx: &Cx, out: &Path, fin: bool) {
  let v = json!({
    "final": fin,
    "evaluations": cx.evaluations,
    "counters": cx.counters,
    "inconclusive": cx.inconclusive,
    "distinct": cx.distinct.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
    "samples": cx.samples,
    "fails": cx.fails.iter().map(|f| json!({"index": f.index, "sig": f.sig, "msg": f.msg, "input": f.input})).collect::<Vec<_>>(),
  });
  let tmp = out.with_extension("tmp");
  fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
  fs::rename(&tmp, out).unwrap();
}

struct Merged {
  evaluations: u64,
  counters: BTreeMap<String, u64>,
  inconclusive: BTreeMap<String, u64>,
  distinct: BTreeSet<String>,
  samples: Vec<Value>,
  fails: Vec<Fail>,
}

fn merge(m: &mut Merged, path: &Path) {
  let Ok(b) = fs::read(path) else { return };
  let Ok(v) = serde_json::from_slice::<Value>(&b) else { return };
  m.evaluations += v["evaluations"].as_u64().unwrap_or(0);
  for (k, n) in v["counters"].as_object().into_iter().flatten() {
    *m.counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
  }
  for (k, n) in v["inconclusive"].as_object().into_iter().flatten() {
    *m.inconclusive.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
  }
  for d in v["distinct"].as_array().into_iter().flatten() {
    m.distinct.insert(d.as_str().unwrap_or("").to_string());
  }
  for s in v["samples"].as_array().into_iter().flatten() {
    if m.samples.len() < 4 {
      m.samples.push(s.clone());
    }
  }
  for f in v["fails"].as_array().into_iter().flatten() {
    m.fails.push(Fail {
      index: f["index"].as_u64().unwrap_or(0),
      sig: f["sig"].as_str().unwrap_or("").to_string(),
      msg: f["msg"].as_str().unwrap_or("").to_string(),
      input: f["input"].clone(),
    });
  }
}

struct Known {
  sig: String,
  what: String,
}

fn known(prop: &str) -> Vec<Known> {
  let path = verif_dir().join("known_findings.jsonl");
  let Ok(s) = fs::read_to_string(path) else { return vec![] };
  s.lines()
    .filter_map(|l| serde_json::from_str::<Value>(l).ok())
    .filter(|v| v["property"] == prop && v.get("sig").is_some())
    .map(|v| Known {
      sig: v["sig"].as_str().unwrap_or("").to_string(),
      what: v["what"].as_str().unwrap_or("").to_string(),
    })
    .collect()
}

pub fn check(prop: &dyn Prop, tier: Tier, seed: u64) -> i32 {
  let t0 = Instant::now();
  let id = prop.id();
  if let Err(e) = prop.prepare(tier) {
    println!("INCONCLUSIVE property={id} prepare: {e}");
    return 2;
  }
  let cap: f64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
    Tier::Quick => 120.0,
    Tier::Thorough => 700.0,
  });
  let total = prop.cases(tier);
  let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).min(prop.max_workers());
  let dir = std::env::temp_dir().join(format!("vh-{id}-{}", std::process::id()));
  fs::create_dir_all(&dir).unwrap();
  let exe = std::env::current_exe().unwrap();

  struct W {
    start: u64,
    shard: u64,
    gen_no: u32,
    child: std::process::Child,
    out: PathBuf,
    progress: PathBuf,
    last_idx: u64,
    cpu_at_idx: f64,
    since: Instant,
    killed: Option<&'static str>,
  }
  let spawn = |shard: u64, start: u64, gen_no: u32, left: f64| -> W {
    let out = dir.join(format!("out-{shard}-{gen_no}.json"));
    let progress = dir.join(format!("prog-{shard}-{gen_no}"));
    fs::write(&progress, start.to_le_bytes()).unwrap();
    let errf = fs::File::create(dir.join(format!("err-{shard}-{gen_no}"))).unwrap();
    let child = Command::new(&exe)
      .args(["worker", id, tier.name(), &seed.to_string(), &start.to_string(), &(jobs as u64).to_string(), &total.to_string(), &left.to_string()])
      .arg(&out)
      .arg(&progress)
      .stdin(Stdio::null())
      .stdout(Stdio::null())
      .stderr(Stdio::from(errf))
      .spawn()
      .expect("spawn worker");
    W { start, shard, gen_no, child, out, progress, last_idx: start, cpu_at_idx: 0.0, since: Instant::now(), killed: None }
  };

  let mut m = Merged { evaluations: 0, counters: BTreeMap::new(), inconclusive: BTreeMap::new(), distinct: BTreeSet::new(), samples: vec![], fails: vec![] };
  let mut ws: Vec<W> = (0..jobs as u64).map(|s| spawn(s, s, 0, cap)).collect();
  let mut crashes = 0u64;
  while !ws.is_empty() {
    std::thread::sleep(Duration::from_millis(15));
    let mut next = vec![];
    for mut w in ws.drain(..) {
      let idx = fs::read(&w.progress).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(w.last_idx);
      match w.child.try_wait().unwrap() {
        None => {
          if let Some(cpu) = cpu_secs(w.child.id()) {
            if idx != w.last_idx {
              w.last_idx = idx;
              w.cpu_at_idx = cpu;
              w.since = Instant::now();
            } else if w.killed.is_none() && cpu - w.cpu_at_idx > prop.case_cpu_s() {
              w.killed = Some("cpu budget");
              let _ = w.child.kill();
            } else if w.killed.is_none() && w.since.elapsed().as_secs_f64() > 240.0 {
              w.killed = Some("wall watchdog");
              let _ = w.child.kill();
            }
          }
          next.push(w);
        }
        Some(st) => {
          merge(&mut m, &w.out);
          if st.success() {
            continue;
          }
          crashes += 1;
          let err = fs::read_to_string(dir.join(format!("err-{}-{}", w.shard, w.gen_no))).unwrap_or_default();
          let err_tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
          let (sig, decides) = match w.killed {
            Some("cpu budget") => (format!("hang:cpu>{}s", prop.case_cpu_s()), prop.hang_is_violation()),
            Some(k) => (format!("stuck:{k}"), false),
            None => {
              let why = if err.contains("overflowed its stack") {
                "stack overflow".to_string()
              } else if st.code() == Some(crate::alloc::EXIT_MEM) {
                "memory budget".to_string()
              } else if let Some(s) = st.signal() {
                format!("signal {s}")
              } else {
                format!("exit {:?}", st.code())
              };
              // SIGKILL comes from outside (memory guard): never a verdict on the code
              let decides = prop.crash_is_violation() && st.signal() != Some(9);
              (format!("crash:{why}"), decides)
            }
          };
          if decides {
            m.fails.push(Fail { index: idx, sig, msg: format!("worker died on case {idx}: {err_tail}"), input: json!({"index": idx, "see": "vh dump"}) });
          } else {
            *m.inconclusive.entry(format!("{sig} at case {idx}: {}", err_tail.lines().last().unwrap_or(""))).or_insert(0) += 1;
          }
          let left = cap - t0.elapsed().as_secs_f64();
          if crashes < 200 && left > 1.0 && idx + (jobs as u64) < total {
            next.push(spawn(w.shard, idx + jobs as u64, w.gen_no + 1, left));
          }
          let _ = w.start;
        }
      }
    }
    ws = next;
  }
  {
    let mut cx = Cx::new(seed, tier);
    prop.finish(&m.counters, &mut cx);
    m.evaluations += cx.evaluations;
    for (k, n) in cx.counters {
      *m.counters.entry(k).or_insert(0) += n;
    }
    m.fails.extend(cx.fails);
    for (k, n) in cx.inconclusive {
      *m.inconclusive.entry(k).or_insert(0) += n;
    }
  }
  let _ = fs::remove_dir_all(&dir);

  // verdict
  let known = known(id);
  let mut by_sig: BTreeMap<String, Vec<Fail>> = BTreeMap::new();
  for f in m.fails {
    by_sig.entry(f.sig.clone()).or_default().push(f);
  }
  let mut rc = 0;
  let mut n_viol = 0;
  for k in &known {
    if by_sig.contains_key(&k.sig) {
      println!("KNOWN-FINDING: property={id} {}", k.what);
    } else {
      println!("note: listed finding not reproduced in this run: property={id} {}", k.what);
    }
  }
  let rdir = verif_dir().join("evidence").join("replay");
  for (sig, fs_) in &by_sig {
    if known.iter().any(|k| &k.sig == sig) {
      continue;
    }
    rc = 1;
    n_viol += 1;
    if n_viol > 40 {
      continue;
    }
    let _ = fs::create_dir_all(&rdir);
    let mut f = &fs_[0];
    for g in fs_ {
      if g.input.to_string().len() < f.input.to_string().len() {
        f = g;
      }
    }
    let path = rdir.join(format!("{id}-{:x}.json", hash_bytes(sig.as_bytes()) & 0xffff_ffff));
    let v = json!({
      "property": id, "sig": sig, "message": f.msg, "tier": tier.name(), "seed": seed, "index": f.index,
      "occurrences": fs_.len(), "input": f.input,
      "replay": format!("cd /verif && ./check.sh replay {id} {} {} {}", tier.name(), seed, f.index),
    });
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("  {sig} ({} cases)\n    {}", fs_.len(), crate::html::clip(&f.msg, 1500).replace('\n', "\n    "));
    println!("VIOLATION property={id} replay={}", path.display());
  }
  let wall = t0.elapsed().as_secs_f64();
  let ev = json!({
    "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
    "coverage": {
      "evaluations": m.evaluations,
      "distinct_nontrivial": m.distinct.len(),
      "rule": prop.rule(),
      "samples": m.samples,
      "cases_planned": total,
      "observed": m.counters,
      "inconclusive": m.inconclusive,
      "worker_restarts": crashes,
    },
    "assumptions": prop.assumptions(),
    "wall_s": wall,
    "violations": n_viol,
  });
  let edir = verif_dir().join("evidence");
  let _ = fs::create_dir_all(&edir);
  fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
  println!(
    "{id} {} seed={seed}: {} evaluations, {} distinct non-trivial, {} inconclusive, {} unlisted violation signature(s), {:.1}s",
    tier.name(), m.evaluations, m.distinct.len(), m.inconclusive.values().sum::<u64>(), n_viol, wall
  );
  if std::env::var("VERIF_VERBOSE").is_ok() {
    for (k, n) in &m.counters {
      println!("    {k}: {n}");
    }
    for (k, n) in &m.inconclusive {
      println!("    inconclusive {k}: {n}");
    }
  }
  if rc == 0 && m.evaluations == 0 {
    println!("INCONCLUSIVE property={id}: nothing was evaluated");
    return 2;
  }
  rc
}
