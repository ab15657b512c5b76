//! Exhaustive bounded exploration engine.
//!
//! A `Space` is a finite, indexable set of cases (operation sequences, token
//! sequences, configurations ...) over a small alphabet, together with the
//! function that executes the *real* code on one case and judges the outcome.
//! The engine executes every index of every space of a property, spread over
//! worker processes, and attributes panics, aborts, stack overflows, memory
//! exhaustion and hangs to the case that was executing.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  pub fn name(self) -> &'static str {
    match self {
      Tier::Quick => "quick",
      Tier::Thorough => "thorough",
    }
  }
  pub fn pick<T>(self, quick: T, thorough: T) -> T {
    match self {
      Tier::Quick => quick,
      Tier::Thorough => thorough,
    }
  }
}

pub enum Verdict {
  /// not a member of the space (symmetric / ill-formed combination)
  Skip,
  Ok { nontrivial: bool, sig: u64 },
  Bad { msg: String },
}

impl Verdict {
  pub fn ok(nontrivial: bool, sig: &impl Hash) -> Verdict {
    Verdict::Ok { nontrivial, sig: hash(sig) }
  }
  pub fn bad(msg: impl Into<String>) -> Verdict {
    Verdict::Bad { msg: msg.into() }
  }
}

pub fn hash(v: &(impl Hash + ?Sized)) -> u64 {
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new();
  v.hash(&mut h);
  h.finish()
}

pub struct Space {
  pub name: String,
  pub len: u64,
  pub describe: Box<dyn Fn(u64) -> String>,
  pub check: Box<dyn Fn(u64) -> Verdict>,
}

impl Space {
  /// a space whose cases are decoded from the index first
  pub fn new<C: 'static>(
    name: impl Into<String>,
    len: u64,
    decode: impl Fn(u64) -> C + Clone + 'static,
    describe: impl Fn(&C) -> String + 'static,
    check: impl Fn(&C) -> Verdict + 'static,
  ) -> Space {
    let d2 = decode.clone();
    Space {
      name: name.into(),
      len,
      describe: Box::new(move |i| describe(&d2(i))),
      check: Box::new(move |i| check(&decode(i))),
    }
  }
}

/// mixed radix decoder
pub struct Radix(u64);
impl Radix {
  pub fn new(idx: u64) -> Self {
    Radix(idx)
  }
  pub fn take(&mut self, n: usize) -> usize {
    let r = (self.0 % n as u64) as usize;
    self.0 /= n as u64;
    r
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.take(xs.len())]
  }
}

/// number of sequences of length lo..=hi over n symbols
pub fn seq_count(n: usize, lo: usize, hi: usize) -> u64 {
  (lo..=hi).map(|l| (n as u64).pow(l as u32)).sum()
}

/// decode a sequence: shortest first
pub fn seq_decode(mut idx: u64, n: usize, lo: usize, hi: usize) -> Vec<usize> {
  for l in lo..=hi {
    let c = (n as u64).pow(l as u32);
    if idx < c {
      let mut v = vec![0; l];
      for slot in v.iter_mut().rev() {
        *slot = (idx % n as u64) as usize;
        idx /= n as u64;
      }
      return v;
    }
    idx -= c;
  }
  unreachable!()
}

pub struct Prop {
  pub id: &'static str,
  pub level: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub spaces: fn(Tier) -> Vec<Space>,
}

// ---- reference-model statistics -------------------------------------------

#[derive(Default)]
struct ModelStats {
  states: HashSet<u64>,
  transitions: HashSet<u64>,
}
thread_local! {
  static MODEL: RefCell<ModelStats> = RefCell::default();
}
/// record a state of the reference model reached while predicting this case
pub fn note_state(s: &(impl Hash + ?Sized)) {
  MODEL.with(|m| m.borrow_mut().states.insert(hash(s)));
}
/// record a (state, op, state') transition of the reference model
pub fn note_transition(s: &(impl Hash + ?Sized)) {
  MODEL.with(|m| m.borrow_mut().transitions.insert(hash(s)));
}

// ---- panic capture ---------------------------------------------------------

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
  }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(space: &Space, idx: u64) -> Verdict {
  match catch(|| (space.check)(idx)) {
    Ok(v) => v,
    Err(p) => Verdict::Bad { msg: p },
  }
}

// ---- libc bits ---------------------------------------------------------------

#[repr(C)]
struct Timespec {
  sec: i64,
  nsec: i64,
}
#[repr(C)]
struct Rlimit {
  cur: u64,
  max: u64,
}
unsafe extern "C" {
  fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
  fn setrlimit(res: i32, l: *const Rlimit) -> i32;
}
fn cpu_ms() -> u64 {
  let mut ts = Timespec { sec: 0, nsec: 0 };
  unsafe { clock_gettime(2, &mut ts) };
  (ts.sec * 1000 + ts.nsec / 1_000_000) as u64
}
fn limit_memory(bytes: u64) {
  let l = Rlimit { cur: bytes, max: bytes };
  unsafe { setrlimit(9, &l) };
  let l = Rlimit { cur: 0, max: 0 };
  unsafe { setrlimit(4, &l) };
}

// ---- worker --------------------------------------------------------------------

pub const NWORKERS: u64 = 8;
const CASE_CPU_MS: u64 = 10_000;
const MAX_BAD_PER_SPACE: usize = 40;
const SIG_CAP: usize = 1_500_000;

static CASE_START: AtomicU64 = AtomicU64::new(0);

pub fn worker(prop: &Prop, tier: Tier, k: u64, start: (u64, u64), dir: &Path) {
  limit_memory(1 << 30);
  let progress = std::fs::File::create(dir.join(format!("progress.{k}"))).unwrap();
  let hang = dir.join(format!("hang.{k}"));
  std::thread::spawn(move || {
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let s = CASE_START.load(Ordering::Relaxed);
      if s != 0 && cpu_ms().saturating_sub(s) > CASE_CPU_MS {
        std::fs::write(&hang, "hang").ok();
        std::process::abort();
      }
    }
  });
  let spaces = (prop.spaces)(tier);
  let out = std::fs::OpenOptions::new()
    .create(true)
    .append(true)
    .open(dir.join(format!("out.{k}")))
    .unwrap();
  let mut out = std::io::BufWriter::new(out);
  let (s0, i0) = start;
  for (si, space) in spaces.iter().enumerate() {
    if (si as u64) < s0 {
      continue;
    }
    let mut idx = if si as u64 == s0 { i0 } else { k };
    let mut evals = 0u64;
    let mut skipped = 0u64;
    let mut nontrivial = 0u64;
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut bad = 0usize;
    let mut complete = true;
    let sample_at: Vec<u64> = [0u64, space.len / 3, space.len / 2, space.len - space.len.min(1)]
      .into_iter()
      .collect();
    while idx < space.len {
      let mut rec = [0u8; 16];
      rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
      rec[8..].copy_from_slice(&idx.to_le_bytes());
      progress.write_all_at(&rec, 0).unwrap();
      CASE_START.store(cpu_ms().max(1), Ordering::Relaxed);
      let v = run_case(space, idx);
      let sample = sample_at.contains(&idx);
      match v {
        Verdict::Skip => skipped += 1,
        Verdict::Ok { nontrivial: nt, sig } => {
          evals += 1;
          if nt && sigs.len() < SIG_CAP {
            nontrivial += 1;
            sigs.insert(sig);
          }
          if sample {
            let line = json!({"t": "sample", "space": space.name, "case": (space.describe)(idx)});
            writeln!(out, "{line}").unwrap();
          }
        }
        Verdict::Bad { msg } => {
          evals += 1;
          bad += 1;
          let line = json!({"t": "bad", "space": space.name, "si": si, "idx": idx,
            "case": (space.describe)(idx), "msg": msg});
          writeln!(out, "{line}").unwrap();
          out.flush().unwrap();
          if bad >= max_bad() {
            complete = false;
            break;
          }
        }
      }
      idx += NWORKERS;
    }
    CASE_START.store(0, Ordering::Relaxed);
    let line = json!({"t": "space", "si": si, "space": space.name, "evals": evals, "skipped": skipped,
      "nontrivial": nontrivial, "bad": bad, "complete": complete});
    writeln!(out, "{line}").unwrap();
    let mut buf = Vec::with_capacity(sigs.len() * 8);
    for s in &sigs {
      buf.extend_from_slice(&s.to_le_bytes());
    }
    use std::io::Write as _;
    std::fs::OpenOptions::new()
      .create(true)
      .append(true)
      .open(dir.join(format!("sig.{si}.{k}")))
      .unwrap()
      .write_all(&buf)
      .unwrap();
    out.flush().unwrap();
  }
  MODEL.with(|m| {
    let m = m.borrow();
    for (name, set) in [("st", &m.states), ("tr", &m.transitions)] {
      let mut buf = Vec::with_capacity(set.len() * 8);
      for s in set {
        buf.extend_from_slice(&s.to_le_bytes());
      }
      std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("{name}.{k}")))
        .unwrap()
        .write_all(&buf)
        .unwrap();
    }
  });
  std::fs::write(dir.join(format!("done.{k}")), "done").unwrap();
}

fn max_bad() -> usize {
  std::env::var("ADK_MAX_BAD")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(MAX_BAD_PER_SPACE)
}

pub fn one(prop: &Prop, tier: Tier, space_name: &str, idx: u64) -> i32 {
  limit_memory(1 << 30);
  let spaces = (prop.spaces)(tier);
  let Some(space) = spaces.iter().find(|s| s.name == space_name) else {
    println!("no such space {space_name}");
    return 2;
  };
  println!("case: {}", (space.describe)(idx));
  let h = std::thread::spawn(move || {
    loop {
      std::thread::sleep(Duration::from_millis(500));
      if cpu_ms() > CASE_CPU_MS {
        println!("hang: more than {CASE_CPU_MS} ms of CPU time");
        std::process::abort();
      }
    }
  });
  let _ = h;
  match run_case(space, idx) {
    Verdict::Skip => {
      println!("skip");
      0
    }
    Verdict::Ok { .. } => {
      println!("ok");
      0
    }
    Verdict::Bad { msg } => {
      println!("BAD: {msg}");
      1
    }
  }
}

pub fn fails(prop: &Prop, tier: Tier, prefix: &str) -> i32 {
  for space in (prop.spaces)(tier).iter().filter(|s| s.name.starts_with(prefix)) {
    let mut n = 0;
    for i in 0..space.len {
      if let Verdict::Bad { msg } = run_case(space, i) {
        println!("{}", json!({"space": space.name, "case": (space.describe)(i), "msg": msg}));
        n += 1;
        if n >= 20_000 {
          break;
        }
      }
    }
  }
  0
}

// ---- parent ----------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Violation {
  pub space: String,
  pub si: u64,
  pub idx: u64,
  pub case: String,
  pub msg: String,
}

pub struct Known {
  pub property: String,
  pub case: String,
  pub what: String,
}

/// lines `known: {"property":..,"case":..,"what":..}`; other lines (comments,
/// `fixed:` records) suppress nothing
pub fn load_known(path: &Path) -> Vec<Known> {
  let Ok(text) = std::fs::read_to_string(path) else {
    return vec![];
  };
  text
    .lines()
    .filter_map(|l| l.strip_prefix("known:"))
    .map(|l| {
      let v: Value = serde_json::from_str(l.trim()).expect("bad known-findings line");
      Known {
        property: v["property"].as_str().unwrap().into(),
        case: v["case"].as_str().unwrap().into(),
        what: v["what"].as_str().unwrap().into(),
      }
    })
    .collect()
}

fn read_u64s(p: &Path, into: &mut HashSet<u64>) {
  if let Ok(b) = std::fs::read(p) {
    for c in b.chunks_exact(8) {
      into.insert(u64::from_le_bytes(c.try_into().unwrap()));
    }
  }
}

pub fn check(prop: &Prop, tier: Tier, root: &Path) -> i32 {
  let t0 = Instant::now();
  let exe = std::env::current_exe().unwrap();
  let dir: PathBuf = std::env::temp_dir().join(format!(
    "adk-mc-{}-{}-{}",
    prop.id,
    tier.name(),
    std::process::id()
  ));
  std::fs::create_dir_all(&dir).unwrap();
  let spaces = (prop.spaces)(tier);
  let crashes: Mutex<Vec<Violation>> = Mutex::new(vec![]);
  let gave_up = AtomicU64::new(0);

  std::thread::scope(|scope| {
    for k in 0..NWORKERS {
      let (exe, dir, crashes, gave_up) = (&exe, &dir, &crashes, &gave_up);
      let names: Vec<String> = spaces.iter().map(|s| s.name.clone()).collect();
      let id = prop.id;
      scope.spawn(move || {
        let mut start = (0u64, k);
        let mut ncrash = 0;
        loop {
          let st = std::process::Command::new(exe)
            .args(["worker", id, tier.name()])
            .args([k.to_string(), start.0.to_string(), start.1.to_string()])
            .arg(dir)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::piped())
            .output()
            .expect("spawn worker");
          if dir.join(format!("done.{k}")).exists() {
            return;
          }
          let rec = std::fs::read(dir.join(format!("progress.{k}"))).unwrap_or_default();
          let (si, idx) = if rec.len() == 16 {
            (
              u64::from_le_bytes(rec[..8].try_into().unwrap()),
              u64::from_le_bytes(rec[8..].try_into().unwrap()),
            )
          } else {
            eprintln!("worker {k} failed to start: {}", String::from_utf8_lossy(&st.stderr));
            gave_up.fetch_add(1, Ordering::SeqCst);
            return;
          };
          let hang = dir.join(format!("hang.{k}"));
          let err = String::from_utf8_lossy(&st.stderr);
          let kind = if hang.exists() {
            std::fs::remove_file(&hang).ok();
            format!("does not terminate within {CASE_CPU_MS} ms of CPU time")
          } else {
            let tail: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
            format!(
              "process died ({:?}): {}",
              st.status,
              tail.iter().rev().take(3).rev().cloned().collect::<Vec<_>>().join(" / ")
            )
          };
          crashes.lock().unwrap().push(Violation {
            space: names[si as usize].clone(),
            si,
            idx,
            case: String::new(),
            msg: kind,
          });
          ncrash += 1;
          if ncrash >= 6 {
            gave_up.fetch_add(1, Ordering::SeqCst);
            return;
          }
          start = (si, idx + NWORKERS);
        }
      });
    }
  });

  // merge
  let mut violations: Vec<Violation> = crashes.into_inner().unwrap();
  for v in violations.iter_mut() {
    v.case = (spaces[v.si as usize].describe)(v.idx);
  }
  let mut complete = gave_up.load(Ordering::SeqCst) == 0;
  let mut samples: Vec<Value> = vec![];
  let (mut evals, mut skipped) = (0u64, 0u64);
  let mut per_space: Vec<Value> = vec![];
  let mut sp_ev = vec![0u64; spaces.len()];
  for k in 0..NWORKERS {
    let Ok(f) = std::fs::File::open(dir.join(format!("out.{k}"))) else {
      complete = false;
      continue;
    };
    for line in std::io::BufReader::new(f).lines() {
      let Ok(v) = serde_json::from_str::<Value>(&line.unwrap()) else { continue };
      match v["t"].as_str().unwrap() {
        "space" => {
          evals += v["evals"].as_u64().unwrap();
          sp_ev[v["si"].as_u64().unwrap() as usize] += v["evals"].as_u64().unwrap();
          skipped += v["skipped"].as_u64().unwrap();
          complete &= v["complete"].as_bool().unwrap();
        }
        "sample" => {
          if samples.len() < 40 {
            samples.push(json!({"space": v["space"], "case": v["case"]}))
          }
        }
        _ => violations.push(Violation {
          space: v["space"].as_str().unwrap().into(),
          si: v["si"].as_u64().unwrap(),
          idx: v["idx"].as_u64().unwrap(),
          case: v["case"].as_str().unwrap().into(),
          msg: v["msg"].as_str().unwrap().into(),
        }),
      }
    }
  }
  let mut distinct = 0u64;
  for (si, sp) in spaces.iter().enumerate() {
    let mut set = HashSet::new();
    for k in 0..NWORKERS {
      read_u64s(&dir.join(format!("sig.{si}.{k}")), &mut set);
    }
    distinct += set.len() as u64;
    per_space.push(json!({"space": sp.name, "size": sp.len, "evaluated": sp_ev[si], "distinct_nontrivial": set.len()}));
  }
  let (mut states, mut transitions) = (HashSet::new(), HashSet::new());
  for k in 0..NWORKERS {
    read_u64s(&dir.join(format!("st.{k}")), &mut states);
    read_u64s(&dir.join(format!("tr.{k}")), &mut transitions);
  }
  std::fs::remove_dir_all(&dir).ok();

  violations.sort_by_key(|v| (v.si, v.idx));
  let known = load_known(&root.join("known-findings.txt"));
  let (mut listed, mut fresh) = (vec![], vec![]);
  for v in violations {
    match known.iter().find(|k| k.property == prop.id && k.case == v.case) {
      Some(k) => listed.push((v, k.what.clone())),
      None => fresh.push(v),
    }
  }

  let mut coverage = json!({
    "evaluations": evals,
    "distinct_nontrivial": distinct,
    "rule": prop.rule,
    "samples": samples,
    "exhaustive": complete,
    "cases_outside_domain_skipped": skipped,
    "spaces": per_space,
  });
  if prop.level == "model_checking" {
    coverage["states"] = json!(states.len());
    coverage["transitions"] = json!(transitions.len());
    coverage["traces_validated_against_impl"] = json!(evals);
  }
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let ev = json!({
    "property": prop.id,
    "tier": tier.name(),
    "seed": seed,
    "level": prop.level,
    "coverage": coverage,
    "assumptions": prop.assumptions,
    "known_findings_reproduced": listed.len(),
    "violations": fresh.len(),
    "wall_s": t0.elapsed().as_secs_f64(),
  });
  let evdir = root.join("evidence");
  std::fs::create_dir_all(&evdir).unwrap();
  std::fs::write(
    evdir.join(format!("{}.json", prop.id)),
    serde_json::to_string_pretty(&ev).unwrap(),
  )
  .unwrap();

  println!(
    "{} {}: {} evaluations, {} distinct nontrivial outcomes, {} model states, {} transitions, exhaustive={} in {:.1}s",
    prop.id, tier.name(), evals, distinct, states.len(), transitions.len(), complete,
    t0.elapsed().as_secs_f64()
  );
  for s in per_space_lines(&ev) {
    println!("  {s}");
  }
  for (_, what) in &listed {
    println!("KNOWN-FINDING: property={} {}", prop.id, what);
  }
  if fresh.is_empty() {
    if !complete {
      println!("exploration incomplete without a violation: engine failure");
      return 2;
    }
    return 0;
  }
  if std::env::var("ADK_CLUSTER").is_ok() {
    cluster(&fresh);
  }
  for (n, v) in fresh.iter().enumerate().take(5) {
    let path = evdir.join(format!("replay-{}-{}.json", prop.id, n));
    let rep = json!({"property": prop.id, "tier": tier.name(), "space": v.space, "idx": v.idx,
      "case": v.case, "msg": v.msg});
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    println!("--- {} [{} #{}]\n{}\n=> {}", prop.id, v.space, v.idx, v.case, v.msg);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
  }
  if fresh.len() > 5 {
    println!("({} further violations)", fresh.len() - 5);
  }
  1
}

fn per_space_lines(ev: &Value) -> Vec<String> {
  ev["coverage"]["spaces"]
    .as_array()
    .unwrap()
    .iter()
    .map(|s| {
      format!(
        "{}: size {} evaluated {} distinct {}",
        s["space"].as_str().unwrap(),
        s["size"],
        s["evaluated"],
        s["distinct_nontrivial"]
      )
    })
    .collect()
}

fn cluster(vs: &[Violation]) {
  use std::collections::BTreeMap;
  let mut m: BTreeMap<String, (usize, &Violation)> = BTreeMap::new();
  for v in vs {
    let key: String = v
      .msg
      .chars()
      .take(std::env::var("ADK_CLUSTER").unwrap().parse().unwrap_or(60))
      .map(|c| if c.is_ascii_digit() && !v.msg.starts_with("panic") { '#' } else { c })
      .collect();
    m.entry(format!("{} | {}", v.space, key)).or_insert((0, v)).0 += 1;
  }
  let mut es: Vec<_> = m.into_iter().collect();
  es.sort_by_key(|e| std::cmp::Reverse(e.1.0));
  for (k, (n, v)) in es.iter().take(60) {
    println!("== {n} x {k}\n   case: {}\n   msg: {}", v.case, v.msg);
  }
}
