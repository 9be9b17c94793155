//! rcheck: searches for violations of the properties of the Rust half in simulated runs.

mod crash;
mod alloc;
mod client;
mod flux;
mod full;
mod native;
mod peer;
mod plan;
mod sock;
mod tape;
mod world;

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use plan::Focus;
use tape::Tape;

#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

struct Check {
  id: &'static str,
  families: &'static [&'static str],
  /// Violations this check answers for.
  own: &'static [&'static str],
  rule: &'static str,
  real: &'static str,
}

const ALWAYS: &[&str] = &["panic", "stuck", "livelock", "setup", "wire"];
const BOTH: &str = "real iota Rust crates: wasmrs (socket, frames), wasmrs-rx, wasmrs-runtime, wasmrs-host, wasmrs-wasmtime and, compiled in its wasm configuration, wasmrs-guest; stand-ins: tokio's scheduler and channels, parking_lot, dashmap and std::sync over the simulator, the wasm engine (the guest runs as native code behind a linear memory of its own), strum, wasi";
const SOCK: &str = "real iota Rust crates: wasmrs (socket, frames), wasmrs-rx, wasmrs-runtime; stand-ins: tokio's scheduler and channels, parking_lot, dashmap and std::sync over the simulator";

const CHECKS: &[Check] = &[
  Check {
    id: "C28",
    families: &["sock/rr", "full/rr", "peer/rr"],
    own: &["rr", "fnf"],
    rule: "A run has one to six calls, mostly request/response and fire-and-forget, from several tasks of either side; each call's handler, size, delay, gate and failure is drawn beforehand, and each outcome must be that call's own, handled once by the operation it named.",
    real: BOTH,
  },
  Check {
    id: "C29",
    families: &["sock/stream", "full/stream", "peer/stream"],
    own: &["stream"],
    rule: "A run has one to six calls, mostly request/stream; each stream's elements, pauses and end are drawn beforehand, what arrives must be exactly them in order, then one end of the same kind, and nothing may follow, at the caller or on the wire.",
    real: BOTH,
  },
  Check {
    id: "C30",
    families: &["sock/chan", "full/chan", "peer/chan"],
    own: &["chan"],
    rule: "A run has one to six calls, mostly channels; both directions' elements, pauses and ends are drawn beforehand, each direction is judged like a stream of its own, and either end may let go of its part.",
    real: BOTH,
  },
  Check {
    id: "C31",
    families: &["sock/cancel", "full/cancel", "peer/cancel"],
    own: &["rr", "fnf", "stream", "chan", "cancel", "leak"],
    rule: "A run has one to six calls most of which are let go of by their caller or handler at a drawn point, with late frames of finished streams injected; the rest must be as if alone, producers must stop, and at rest nothing may be left.",
    real: BOTH,
  },
  Check {
    id: "C32",
    families: &["hostile/mix", "hostile/mix", "damaged/mix"],
    own: &["rr", "fnf", "stream", "chan", "cancel"],
    rule: "A run has one to six calls with truncated, damaged, invented and repeated frames put on the wire, or between the frames given to a guest and by it at once, at drawn points; nothing may panic or hang, and every call that no damaged frame names must be as if alone.",
    real: SOCK,
  },
  Check {
    id: "C33",
    families: &["full/bounds", "wild/mix"],
    own: &["bounds", "rr", "fnf", "stream", "chan"],
    rule: "A run has calls with payloads around the size of the guest's and the host's buffer, or a guest that gives any pointers, lengths, operation lists and frames and traps; the host may touch nothing outside the buffers, must not panic, and what does not fit fails its own call only.",
    real: BOTH,
  },
  Check {
    id: "C34",
    families: &["flux/mix"],
    own: &["flux"],
    rule: "A run has one to three senders of values and errors on one flux and a receiver that uses next, recv, given-up receives, clones, pipes and hand-overs; every element arrives exactly once in its sender's order, then the end.",
    real: "real iota Rust crates: wasmrs-rx, wasmrs-runtime; stand-ins: tokio's channels and parking_lot over the simulator",
  },
];

fn focus(f: &str) -> Focus {
  match f {
    "stream" => Focus::Stream,
    "chan" => Focus::Chan,
    "cancel" => Focus::Cancel,
    "bounds" => Focus::Bounds,
    _ => Focus::Rr,
  }
}

#[derive(Clone)]
struct Spec {
  family: String,
  tape: Tape,
  seed: u64,
  overrides: Option<BTreeMap<u64, u32>>,
  trace: bool,
}

struct Ran {
  out: vsim::Outcome,
  tape: Vec<u64>,
  plan: String,
  policy: u8,
}

const POLICIES: [&str; 4] = ["random_walk", "pct", "run_to_block", "uniform"];

/// vsim::run, on a thread of its own that knows which run it is.
fn on(cfg: vsim::Config, f: impl FnOnce() + Send + 'static) -> vsim::Outcome {
  let i = crash::current();
  vsim::run(cfg, move || {
    crash::run(i);
    f()
  })
}

fn exec(s: &Spec) -> Ran {
  let mut t = s.tape.clone();
  let policy = [0u8, 0, 1, 1, 2, 3][t.n(6)];
  let switch = [40, 120, 300, 700][t.n(4)] as u32;
  let shards = [1usize, 2, 4][t.n(3)];
  let cfg = vsim::Config {
    seed: s.seed,
    policy,
    switch,
    shards,
    overrides: s.overrides.clone(),
    max_steps: 120_000,
    trace: s.trace,
    after: Some(alloc::end_run),
  };
  let (fam, var) = s.family.split_once('/').unwrap_or((&s.family, ""));
  let f = focus(var);
  let (out, plan);
  match fam {
    "sock" => {
      let x = sock::Extra {
        stray: if f == Focus::Cancel || t.p(10) { sock::strays(&mut t) } else { vec![] },
        hostile: vec![],
        peer: None,
      };
      let calls = plan::calls(&mut t, f, false);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || sock::run(calls, x));
    }
    "peer" => {
      let peer = peer::cfg(&mut t);
      let seed = t.below(1 << 30);
      let x = sock::Extra {
        stray: if f == Focus::Cancel { sock::strays(&mut t) } else { vec![] },
        hostile: vec![],
        peer: Some((peer, seed)),
      };
      let calls = plan::calls(&mut t, f, false);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || sock::run(calls, x));
    }
    "hostile" => {
      let f = [Focus::Rr, Focus::Stream, Focus::Chan, Focus::Cancel][t.n(4)];
      let x = sock::Extra {
        stray: vec![],
        hostile: sock::hostiles(&mut t),
        peer: None,
      };
      let calls = plan::calls(&mut t, f, false);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || sock::run(calls, x));
    }
    "damaged" => {
      let f = [Focus::Rr, Focus::Stream, Focus::Chan, Focus::Cancel][t.n(4)];
      let x = full::extra(&mut t, false, true);
      let calls = plan::calls(&mut t, f, true);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || full::run(calls, x));
    }
    "full" => {
      let x = full::extra(&mut t, false, false);
      let calls = plan::calls(&mut t, f, true);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || full::run(calls, x));
    }
    "wild" => {
      let x = full::extra(&mut t, true, false);
      let f = [Focus::Rr, Focus::Stream, Focus::Chan, Focus::Bounds][t.n(4)];
      let calls = plan::calls(&mut t, f, true);
      plan = format!("{calls:?} {x:?}");
      out = on(cfg, move || full::run(calls, x));
    }
    "flux" => {
      let p = flux::plan(&mut t);
      plan = format!("{p:?}");
      out = on(cfg, move || flux::run(p));
    }
    _ => {
      eprintln!("no family {}", s.family);
      std::process::exit(3);
    }
  }
  let n = t.used();
  t.vals.truncate(n);
  Ran {
    out,
    tape: t.vals,
    plan,
    policy,
  }
}

fn signature(v: &(String, String)) -> String {
  let t = v.1.split(" | ").next().unwrap_or("");
  let t = t.lines().next().unwrap_or("");
  if v.0 != "panic" {
    return format!("{}: {t}", v.0);
  }
  // Numbers in panic messages differ from run to run.
  let mut o = String::new();
  for c in t.chars() {
    if !c.is_ascii_digit() {
      o.push(c);
    } else if !o.ends_with('#') {
      o.push('#');
    }
  }
  format!("{}: {o}", v.0)
}

fn own(c: &Check, class: &str) -> bool {
  c.own.contains(&class) || ALWAYS.contains(&class)
}

#[derive(Default)]
struct Tally {
  runs: u64,
  distinct: HashSet<u64>,
  states: HashSet<u64>,
  steps: u64,
  switches: u64,
  stats: BTreeMap<&'static str, u64>,
  policies: BTreeMap<&'static str, u64>,
  families: BTreeMap<String, u64>,
  foreign: BTreeMap<String, u64>,
  known: BTreeMap<String, u64>,
  samples: Vec<Value>,
  found: BTreeMap<String, (u64, Spec, Ran2)>,
  harness: Option<String>,
}

struct Ran2 {
  text: String,
  tape: Vec<u64>,
  choices: BTreeMap<u64, u32>,
}

struct Args {
  prop: String,
  dur: Duration,
  seed: u64,
  tier: String,
  evidence: Option<String>,
  replays: String,
  known: Option<String>,
  workers: usize,
  replay: Option<String>,
  one: Option<u64>,
  hashes: Option<u64>,
  keepgoing: bool,
  trace: bool,
}

fn args() -> Args {
  let mut a = Args {
    prop: String::new(),
    dur: Duration::ZERO,
    seed: 1,
    tier: "quick".into(),
    evidence: None,
    replays: "/tmp".into(),
    known: None,
    workers: 8,
    replay: None,
    one: None,
    hashes: None,
    keepgoing: false,
    trace: std::env::var("VERIF_TRACE").is_ok_and(|v| !v.is_empty() && v != "0"),
  };
  let mut it = std::env::args().skip(1);
  while let Some(x) = it.next() {
    let mut v = || {
      it.next().unwrap_or_else(|| {
        eprintln!("{x} needs a value");
        std::process::exit(3)
      })
    };
    match x.as_str() {
      "-prop" => a.prop = v(),
      "-dur" => a.dur = secs(&v()),
      "-seed" => a.seed = v().parse().unwrap_or(1),
      "-tier" => a.tier = v(),
      "-evidence" => a.evidence = Some(v()),
      "-replays" => a.replays = v(),
      "-known" => a.known = Some(v()),
      "-workers" => a.workers = v().parse().unwrap_or(8),
      "-replay" => a.replay = Some(v()),
      "-one" => a.one = v().parse().ok(),
      "-hashes" => a.hashes = v().parse().ok(),
      "-keepgoing" => a.keepgoing = true,
      "-trace" => a.trace = true,
      _ => {
        eprintln!("unknown argument {x}");
        std::process::exit(3);
      }
    }
  }
  if a.dur.is_zero() {
    a.dur = Duration::from_secs(if a.tier == "thorough" { 600 } else { 24 });
  }
  a
}

fn secs(s: &str) -> Duration {
  let (n, m) = if let Some(x) = s.strip_suffix('m') {
    (x, 60.0)
  } else {
    (s.strip_suffix('s').unwrap_or(s), 1.0)
  };
  Duration::from_secs_f64(n.parse::<f64>().unwrap_or(24.0) * m)
}

fn spec(c: &Check, seed: u64, i: u64) -> Spec {
  let x = vsim::mix(seed, i);
  Spec {
    family: c.families[(x >> 7) as usize % c.families.len()].to_string(),
    tape: Tape::seeded(vsim::mix(x, 1)),
    seed: vsim::mix(x, 2),
    overrides: None,
    trace: false,
  }
}

fn hash(v: &[u64], h: u64) -> u64 {
  v.iter().fold(h, |h, x| vsim::mix(h, *x))
}

/// Shrinks the plan, then the schedule, keeping the violation.
fn minimise(s: &Spec, tape: Vec<u64>, choices: BTreeMap<u64, u32>, sig: &str, dur: Duration) -> (Vec<u64>, BTreeMap<u64, u32>, u64) {
  let end = Instant::now() + dur;
  let mut tries = 0;
  let (mut best, mut sched) = (tape, choices);
  let fails = |t: &[u64], o: Option<&BTreeMap<u64, u32>>, seed: u64, tries: &mut u64| -> Option<BTreeMap<u64, u32>> {
    *tries += 1;
    let r = exec(&Spec {
      family: s.family.clone(),
      tape: Tape::fixed(t.to_vec()),
      seed,
      overrides: o.cloned(),
      trace: false,
    });
    r.out.violation.filter(|v| signature(v) == sig).map(|_| r.out.choices)
  };
  let half = Instant::now() + dur / 2;
  let search = |t: &[u64], o: &BTreeMap<u64, u32>, tries: &mut u64| -> Option<BTreeMap<u64, u32>> {
    if let Some(c) = fails(t, Some(o), 0, tries) {
      return Some(c);
    }
    (0..24).find_map(|k| if Instant::now() > half { None } else { fails(t, None, vsim::mix(s.seed, 1000 + k), tries) })
  };
  let mut step = (best.len() / 2).max(1);
  while step > 0 && Instant::now() < half {
    let mut i = 0;
    while i < best.len() && Instant::now() < half {
      let e = (i + step).min(best.len());
      let mut kept = true;
      if best[i..e].iter().any(|x| *x != 0) {
        let mut t = best.clone();
        t[i..e].fill(0);
        if let Some(c) = search(&t, &sched, &mut tries) {
          best = t;
          sched = c;
          kept = false;
        } else {
          let mut t = best.clone();
          t.drain(i..e);
          if let Some(c) = search(&t, &sched, &mut tries) {
            best = t;
            sched = c;
            continue;
          }
        }
      }
      let _ = kept;
      i = e;
    }
    step /= 2;
  }
  while best.last() == Some(&0) {
    best.pop();
  }
  // The schedule.
  let mut keys: Vec<(u64, u32)> = sched.iter().map(|(a, b)| (*a, *b)).collect();
  let mut step = keys.len().max(1);
  while Instant::now() < end {
    let mut i = 0;
    let mut any = false;
    while i < keys.len() && Instant::now() < end {
      let e = (i + step).min(keys.len());
      let mut k = keys.clone();
      k.drain(i..e);
      let o: BTreeMap<u64, u32> = k.iter().copied().collect();
      if fails(&best, Some(&o), 0, &mut tries).is_some() {
        keys = k;
        any = true;
      } else {
        i = e;
      }
    }
    if step == 1 && !any {
      break;
    }
    step = (step / 2).max(1);
  }
  let o: BTreeMap<u64, u32> = keys.into_iter().collect();
  if fails(&best, Some(&o), 0, &mut tries).is_some() {
    return (best, o, tries);
  }
  (best, sched, tries)
}

fn replay(path: &str, a: &Args) -> i32 {
  let Ok(text) = std::fs::read_to_string(path) else {
    eprintln!("cannot read {path}");
    return 3;
  };
  let Ok(v) = serde_json::from_str::<Value>(&text) else {
    eprintln!("{path} is no replay file");
    return 3;
  };
  let nums = |k: &str| -> Vec<u64> { v[k].as_array().map_or(vec![], |x| x.iter().filter_map(Value::as_u64).collect()) };
  let o: BTreeMap<u64, u32> = v["schedule"].as_array().map_or(BTreeMap::new(), |x| {
    x.iter()
      .filter_map(|p| Some((p.get(0)?.as_u64()?, p.get(1)?.as_u64()? as u32)))
      .collect()
  });
  if let Some(i) = v["index"].as_u64() {
    let prop = v["property"].as_str().unwrap_or("");
    let Some(c) = CHECKS.iter().find(|c| c.id == prop) else {
      eprintln!("{path} names no check");
      return 3;
    };
    crash::install(prop, v["seed"].as_u64().unwrap_or(1), "", Some(path));
    let s = spec(c, v["seed"].as_u64().unwrap_or(1), i);
    crash::run(i);
    let r = exec(&s);
    println!("plan: {}", r.plan);
    println!("no crash in {} steps", r.out.steps);
    return 0;
  }
  let r = exec(&Spec {
    family: v["family"].as_str().unwrap_or("").into(),
    tape: Tape::fixed(nums("gen")),
    seed: 0,
    overrides: Some(o),
    trace: a.trace,
  });
  println!("plan: {}", r.plan);
  for l in &r.out.log {
    println!("{l}");
  }
  let prop = v["property"].as_str().unwrap_or("");
  match r.out.violation {
    Some(x) => {
      println!("{}: {}", x.0, x.1);
      if v["signature"].as_str() == Some(&signature(&x)) {
        println!("VIOLATION property={prop} replay={path}");
      } else {
        println!("a different violation than the recorded one: {}", signature(&x));
      }
      1
    }
    None => {
      println!("no violation in {} steps", r.out.steps);
      if let Some(h) = r.out.harness_error {
        println!("harness: {h}");
        return 3;
      }
      0
    }
  }
}

fn known(path: &Option<String>, prop: &str) -> Vec<(String, String)> {
  let Some(p) = path else { return vec![] };
  let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
  s.lines()
    .filter_map(|l| serde_json::from_str::<Value>(l).ok())
    .filter(|v| v["status"] == "known" && v["property"] == prop)
    .filter_map(|v| Some((v["match"].as_str()?.to_string(), v["what"].as_str().unwrap_or("").to_string())))
    .collect()
}

fn main() {
  // Backtraces would end up in the texts of errors. No other thread is there yet.
  unsafe {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
  }
  vsim::install_panic_hook();
  let a = args();
  if let Some(p) = &a.replay {
    std::process::exit(replay(p, &a));
  }
  let Some(c) = CHECKS.iter().find(|c| c.id == a.prop) else {
    eprintln!("no check {}", a.prop);
    std::process::exit(3);
  };
  if let Some(i) = a.one {
    let mut s = spec(c, a.seed, i);
    s.trace = true;
    let r = exec(&s);
    println!("{} {}", s.family, r.plan);
    for l in &r.out.log {
      println!("{l}");
    }
    println!("steps {} switches {} hash {:x} {:?} {:?}", r.out.steps, r.out.switches, r.out.hash, r.out.violation, r.out.harness_error);
    return;
  }
  if let Some(n) = a.hashes {
    for i in 0..n {
      let r = exec(&spec(c, a.seed, i));
      println!("{i} {:x} {} {}", hash(&r.tape, r.out.hash), r.out.steps, r.out.violation.as_ref().map_or(String::new(), signature));
    }
    return;
  }
  crash::install(c.id, a.seed, &a.replays, None);
  let kn = known(&a.known, c.id);
  let start = Instant::now();
  let stop = AtomicBool::new(false);
  let next = AtomicU64::new(0);
  let tally = Mutex::new(Tally::default());
  std::thread::scope(|sc| {
    for _ in 0..a.workers {
      sc.spawn(|| {
        while !stop.load(Ordering::Relaxed) && start.elapsed() < a.dur {
          let i = next.fetch_add(1, Ordering::Relaxed);
          let s = spec(c, a.seed, i);
          crash::run(i);
          let r = exec(&s);
          crash::run(u64::MAX);
          let mut t = tally.lock().unwrap_or_else(|e| e.into_inner());
          t.runs += 1;
          t.steps += r.out.steps;
          t.switches += r.out.switches;
          *t.policies.entry(POLICIES[r.policy as usize]).or_default() += 1;
          *t.families.entry(s.family.clone()).or_default() += 1;
          let mut worked = c.id == "C34";
          for (k, v) in &r.out.stats {
            *t.stats.entry(k).or_default() += v;
            worked |= k.starts_with("ops_");
          }
          t.states.insert(r.out.hash);
          if r.out.switches > 0 && worked {
            t.distinct.insert(hash(&r.tape, r.out.hash));
          }
          if t.samples.len() < 2 && worked && r.out.steps > 50 {
            let x = json!({"family": s.family, "seed_index": i, "plan": r.plan.chars().take(4000).collect::<String>(), "decisions": r.out.steps, "context_switches": r.out.switches,
              "outcome": r.out.violation.as_ref().map_or("ok".to_string(), signature)});
            t.samples.push(x);
          }
          if let Some(h) = r.out.harness_error {
            t.harness = Some(format!("seed index {i} ({}): {h}", s.family));
            stop.store(true, Ordering::Relaxed);
            continue;
          }
          if let Some(v) = r.out.violation {
            let sig = signature(&v);
            if !own(c, &v.0) {
              *t.foreign.entry(sig).or_default() += 1;
              continue;
            }
            if kn.iter().any(|k| k.0 == sig) {
              *t.known.entry(sig).or_default() += 1;
              continue;
            }
            let r2 = Ran2 {
              text: v.1,
              tape: r.tape,
              choices: r.out.choices,
            };
            match t.found.get_mut(&sig) {
              Some(e) => e.0 += 1,
              None => {
                t.found.insert(sig, (1, s, r2));
              }
            }
            if !a.keepgoing {
              stop.store(true, Ordering::Relaxed);
            }
          }
        }
      });
    }
  });
  let searched = start.elapsed().as_secs_f64();
  let t = tally.into_inner().unwrap_or_else(|e| e.into_inner());
  let mut code = 0;
  if let Some(h) = &t.harness {
    eprintln!("harness error: {h}");
    code = 3;
  }
  let mut violations = vec![];
  for (sig, (n, s, r)) in &t.found {
    if a.keepgoing {
      println!("{n:>7} {sig}\n        {}", r.text);
      continue;
    }
    let dur = Duration::from_secs(if a.tier == "thorough" { 60 } else { 12 });
    let (tape, sched, tries) = minimise(s, r.tape.clone(), r.choices.clone(), sig, dur);
    let last = exec(&Spec {
      family: s.family.clone(),
      tape: Tape::fixed(tape.clone()),
      seed: 0,
      overrides: Some(sched.clone()),
      trace: true,
    });
    let name = format!("{}/{}-{:08x}.json", a.replays, c.id, vsim::mix(s.seed, 7) as u32);
    let body = json!({"property": c.id, "family": s.family, "signature": sig, "violation": last.out.violation.as_ref().map_or(&r.text, |v| &v.1),
      "seed": a.seed, "gen": tape, "schedule": sched.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "plan": last.plan,
      "trace": last.out.log, "minimised_in": tries});
    if let Err(e) = std::fs::write(&name, serde_json::to_string_pretty(&body).unwrap_or_default()) {
      eprintln!("cannot write {name}: {e}");
    }
    println!("{sig}");
    println!("  {}", last.out.violation.as_ref().map_or(&r.text, |v| &v.1));
    println!("  {} context switches, {} choices of the plan, seed {}", sched.len(), tape.len(), a.seed);
    println!("VIOLATION property={} replay={name}", c.id);
    violations.push(json!({"signature": sig, "text": r.text, "replay": name}));
    code = 1;
  }
  for (sig, what) in &kn {
    println!("KNOWN-FINDING: property={} {}", c.id, if what.is_empty() { sig } else { what });
  }
  if a.keepgoing {
    println!("{} runs, {} distinct, {:.0}/h", t.runs, t.distinct.len(), t.runs as f64 / searched * 3600.0);
    for (k, v) in &t.foreign {
      println!("foreign {v:>6} {k}");
    }
    println!("{:?}", t.stats);
  }
  if let Some(dir) = &a.evidence {
    let faults: BTreeMap<_, _> = t.stats.iter().filter(|x| x.0.starts_with("fault_")).map(|(k, v)| (k.trim_start_matches("fault_"), v)).collect();
    let events: BTreeMap<_, _> = t.stats.iter().filter(|x| !x.0.starts_with("fault_")).collect();
    let used: BTreeSet<&String> = t.foreign.keys().collect();
    let ev = json!({
      "property": c.id, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": start.elapsed().as_secs_f64(),
      "coverage": {
        "evaluations": t.runs, "distinct_nontrivial": t.distinct.len(), "distinct_schedules": t.states.len(),
        "rule": format!("{} One evaluation is one simulated run. A run is counted in distinct_nontrivial when it made at least one call (sent at least one element, for a flux), at least one context switch happened, and no other run had the same plan together with the same sequence of context switches.", c.rule),
        "samples": t.samples, "faults_injected": faults, "events": events, "runs_by_scheduler": t.policies, "runs_by_variant": t.families,
        "runs_per_hour": (t.runs as f64 / searched * 3600.0) as u64, "context_switches": t.switches, "simulated_time": format!("{} scheduling decisions (no clock is read by this code)", t.steps),
        "real_components": c.real, "known_findings_hit": t.known, "foreign": t.foreign.values().sum::<u64>(), "foreign_kinds": used,
      },
      "assumptions": [
        "interleavings are explored at operations on shared objects (atomics, locks, maps, channels, task starts and wake-ups), under sequential consistency",
        "tokio, parking_lot, dashmap and the wasm engine are replaced by stand-ins with their documented behaviour; the guest is compiled for this machine in its wasm configuration",
        "a clean search is evidence over the sampled seeds, not a proof"
      ],
      "violations": violations.len(), "violation_list": violations,
    });
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", c.id), serde_json::to_string_pretty(&ev).unwrap_or_default()) {
      eprintln!("cannot write evidence: {e}");
      code = code.max(3);
    }
  }
  if code == 0 {
    println!("{}: {} runs, {} distinct, {:.1} s", c.id, t.runs, t.distinct.len(), start.elapsed().as_secs_f64());
  }
  std::process::exit(code);
}
