//! A deterministic simulator for the Rust half: every task (a thread or a spawned future) is a
//! coroutine on one OS thread, and one seeded scheduler decides at every operation on a shared
//! object (atomic, lock, map, channel) which task goes on.
//!
//! A decision is a choice among n alternatives; choice 0 is the default (go on with the current
//! task, or the next one in id order when it cannot). Only the other choices are recorded, so a
//! replay is a sparse list of (decision number, choice).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::ptr;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub mod sync;

/// Takes the place of println: formats and forgets.
#[macro_export]
macro_rules! quiet {
  () => {};
  ($($t:tt)*) => { { let _ = format!($($t)*); } };
}

pub type TaskId = usize;

#[derive(Clone, Debug, Default)]
pub struct Config {
  pub seed: u64,
  /// 0 walk, 1 priorities with change points, 2 run to block, 3 uniform.
  pub policy: u8,
  /// How often a random walk leaves the current task, in 1/1024.
  pub switch: u32,
  /// Replay: the recorded choices; every other decision takes the default.
  pub overrides: Option<BTreeMap<u64, u32>>,
  pub max_steps: u64,
  /// Number of shards of a simulated map.
  pub shards: usize,
  pub trace: bool,
  /// Called on the run's thread once everything has been unwound.
  pub after: Option<fn()>,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
  pub violation: Option<(String, String)>,
  pub choices: BTreeMap<u64, u32>,
  pub steps: u64,
  pub switches: u64,
  pub hash: u64,
  pub log: Vec<String>,
  pub stats: BTreeMap<&'static str, u64>,
  pub harness_error: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
  Ready,
  /// Waits for a waker.
  Parked,
  /// Waits for a lock.
  Lock,
  /// The main task waiting until nothing else can run.
  Quiet,
  Done,
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct Task {
  name: String,
  co: Option<Co>,
  yielder: *const Yielder<(), ()>,
  state: State,
  woken: bool,
  prio: u64,
  label: &'static str,
  abort: bool,
}

struct Sim {
  tasks: Vec<Task>,
  cur: TaskId,
  next: Option<TaskId>,
  rng: Rng,
  cfg: Config,
  out: Outcome,
  decisions: u64,
  ending: bool,
  changes: Vec<u64>,
  low: u64,
  stopped: bool,
}

thread_local! {
  static SIM: Cell<*mut Sim> = const { Cell::new(ptr::null_mut()) };
  static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct Stop;

fn sim() -> Option<&'static mut Sim> {
  let p = SIM.with(Cell::get);
  if p.is_null() {
    None
  } else {
    Some(unsafe { &mut *p })
  }
}

#[derive(Clone, Debug, Default)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      self.next() % n
    }
  }
}

pub fn mix(a: u64, b: u64) -> u64 {
  let mut r = Rng(a.wrapping_mul(0xD134_2543_DE82_EF95) ^ b);
  r.next()
}

const NONE: TaskId = usize::MAX;

static STACKS: std::sync::Mutex<Vec<DefaultStack>> = std::sync::Mutex::new(Vec::new());

fn stack() -> DefaultStack {
  if let Some(s) = STACKS.lock().unwrap_or_else(|e| e.into_inner()).pop() {
    return s;
  }
  DefaultStack::new(1 << 20).expect("stack")
}

/// Runs main as the first task of a new simulation, on an OS thread of its own (the code under test
/// keeps state in thread locals), until it returns.
pub fn run(cfg: Config, main: impl FnOnce() + Send + 'static) -> Outcome {
  let t = std::thread::Builder::new()
    .stack_size(1 << 20)
    .spawn(move || run_here(cfg, main))
    .expect("thread");
  match t.join() {
    Ok(o) => o,
    Err(_) => Outcome {
      harness_error: Some("the simulator panicked".into()),
      ..Default::default()
    },
  }
}

/// To be called once per process: keeps panic messages for the outcome instead of printing them.
pub fn install_panic_hook() {
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |info| {
    if sim().is_none() {
      old(info);
      return;
    }
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      (*s).to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      String::new()
    };
    let at = info
      .location()
      .map(|l| {
        let f = l.file();
        let f = f.rsplit("/w/").next().unwrap_or(f);
        format!("{}:{}", f, l.line())
      })
      .unwrap_or_default();
    PANIC.with(|p| {
      let mut p = p.borrow_mut();
      if p.is_none() {
        *p = Some(format!("{msg} | at {at}"));
      }
    });
  }));
}

/// The last panic message, cleared by reading it.
pub fn take_panic() -> Option<String> {
  PANIC.with(|p| p.borrow_mut().take())
}

fn run_here(cfg: Config, main: impl FnOnce() + 'static) -> Outcome {
  let mut rng = Rng::new(cfg.seed);
  let mut changes = Vec::new();
  if cfg.policy == 1 {
    let d = 1 + rng.below(4);
    let span = [60, 250, 1000][rng.below(3) as usize];
    for _ in 0..d {
      changes.push(rng.below(span));
    }
    changes.sort_unstable();
  }
  let p = Box::into_raw(Box::new(Sim {
    tasks: Vec::new(),
    cur: NONE,
    next: None,
    rng,
    cfg,
    out: Outcome::default(),
    decisions: 0,
    ending: false,
    changes,
    low: 1 << 30,
    stopped: false,
  }));
  SIM.with(|c| c.set(p));
  PANIC.with(|p| p.borrow_mut().take());
  spawn("main", main);
  loop {
    let Some(id) = sim().and_then(Sim::pick) else { break };
    resume(id);
    if sim().map_or(true, |s| s.tasks[0].state == State::Done || s.stopped) {
      break;
    }
  }
  // Unwind whatever is still suspended, newest first.
  loop {
    let Some(mut co) = sim().and_then(|s| {
      s.ending = true;
      let i = (0..s.tasks.len()).rev().find(|i| s.tasks[*i].co.is_some())?;
      s.cur = i;
      s.tasks[i].co.take()
    }) else {
      break;
    };
    if co.started() && !co.done() {
      let _ = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
    }
    if co.done() {
      STACKS.lock().unwrap_or_else(|e| e.into_inner()).push(co.into_stack());
    } else if co.started() {
      std::mem::forget(co);
    }
  }
  SIM.with(|c| c.set(ptr::null_mut()));
  let mut s = unsafe { Box::from_raw(p) };
  if let Some(f) = s.cfg.after {
    f();
  }
  let mut o = std::mem::take(&mut s.out);
  o.steps = s.decisions;
  o
}

impl Sim {
  fn runnable(&self) -> Vec<TaskId> {
    // The current task first, then the others in id order after it.
    let n = self.tasks.len();
    let start = if self.cur == NONE { 0 } else { self.cur };
    (0..n)
      .map(|k| (start + k) % n)
      .filter(|i| self.tasks[*i].state == State::Ready)
      .collect()
  }

  /// One decision among n alternatives; pref is what the search proposes.
  fn decide(&mut self, n: usize, pref: usize) -> usize {
    let at = self.decisions;
    self.decisions += 1;
    if n <= 1 {
      return 0;
    }
    let c = match &self.cfg.overrides {
      Some(o) => (o.get(&at).copied().unwrap_or(0) as usize) % n,
      None => pref % n,
    };
    if c != 0 {
      self.out.choices.insert(at, c as u32);
    }
    c
  }

  fn propose(&mut self, c: &[TaskId], yielding: bool) -> usize {
    if self.cfg.overrides.is_some() || c.len() <= 1 {
      return 0;
    }
    let at_cur = c[0] == self.cur;
    match self.cfg.policy {
      1 => {
        while self.changes.first().is_some_and(|x| *x <= self.decisions) {
          self.changes.remove(0);
          if at_cur {
            self.low -= 1;
            let cur = self.cur;
            self.tasks[cur].prio = self.low;
          }
        }
        if yielding && at_cur {
          self.low -= 1;
          let cur = self.cur;
          self.tasks[cur].prio = self.low;
        }
        let mut best = 0;
        for (i, t) in c.iter().enumerate() {
          if self.tasks[*t].prio > self.tasks[c[best]].prio {
            best = i;
          }
        }
        best
      }
      2 => {
        if at_cur && !yielding {
          0
        } else {
          self.rng.below(c.len() as u64) as usize
        }
      }
      3 => self.rng.below(c.len() as u64) as usize,
      _ => {
        if at_cur && !yielding && self.rng.below(1024) >= u64::from(self.cfg.switch) {
          0
        } else {
          self.rng.below(c.len() as u64) as usize
        }
      }
    }
  }

  fn pick(&mut self) -> Option<TaskId> {
    if let Some(n) = self.next.take() {
      return Some(n);
    }
    let mut c = self.runnable();
    if c.is_empty() {
      if let Some(q) = (0..self.tasks.len()).find(|i| self.tasks[*i].state == State::Quiet) {
        self.tasks[q].state = State::Ready;
        c.push(q);
      } else {
        let mut w = String::new();
        for t in &self.tasks {
          if t.state != State::Done {
            let _ = write!(w, "{} {:?} at {}; ", t.name, t.state, t.label);
          }
        }
        self.violate("stuck", format!("nothing can run any more | {w}"));
        return None;
      }
    }
    let p = self.propose(&c, false);
    let k = self.decide(c.len(), p);
    Some(c[k])
  }

  fn violate(&mut self, class: &str, text: String) {
    if self.out.violation.is_none() {
      if self.cfg.trace {
        self.out.log.push(format!("VIOLATION {class}: {text}"));
      }
      self.out.violation = Some((class.to_string(), text));
    }
    self.stopped = true;
  }

  fn suspend(&mut self) {
    let y = self.tasks[self.cur].yielder;
    unsafe { (*y).suspend(()) };
  }
}

/// Lets a task run until it suspends. No reference to the simulation lives across the switch.
fn resume(id: TaskId) {
  let mut co = {
    let Some(s) = sim() else { return };
    if s.cur != id {
      s.out.switches += 1;
      s.cur = id;
      s.out.hash = mix(s.out.hash, (id as u64) << 32 ^ str_hash(s.tasks[id].label));
      if s.cfg.trace {
        let l = format!("        -> {} ({})", s.tasks[id].name, s.tasks[id].label);
        s.out.log.push(l);
      }
    }
    s.tasks[id].co.take().expect("coroutine")
  };
  let r = co.resume(());
  let Some(s) = sim() else { return };
  match r {
    CoroutineResult::Yield(()) => s.tasks[id].co = Some(co),
    CoroutineResult::Return(()) => {
      s.tasks[id].state = State::Done;
      STACKS.lock().unwrap_or_else(|e| e.into_inner()).push(co.into_stack());
    }
  }
}

fn str_hash(s: &str) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325_u64;
  for b in s.bytes() {
    h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
  }
  h
}

pub fn active() -> bool {
  sim().is_some_and(|s| !s.ending && s.cur != NONE)
}

pub fn ending() -> bool {
  sim().map_or(true, |s| s.ending)
}

/// Starts a task (a thread of the application or a task of the runtime).
pub fn spawn(name: impl Into<String>, f: impl FnOnce() + 'static) -> TaskId {
  let s = sim().expect("no simulation");
  let id = s.tasks.len();
  if s.ending {
    return NONE;
  }
  let co: Co = Coroutine::with_stack(stack(), move |y: &Yielder<(), ()>, ()| {
    if let Some(s) = sim() {
      s.tasks[id].yielder = y;
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = r {
      let Some(s) = sim() else { resume_unwind(e) };
      if s.ending {
        resume_unwind(e);
      }
      if e.is::<Stop>() {
        return;
      }
      let m = take_panic().unwrap_or_default();
      if let Some(h) = m.strip_prefix("HARNESS ") {
        s.out.harness_error = Some(h.to_string());
        s.stopped = true;
      } else {
        let name = s.tasks[id].name.clone();
        s.violate("panic", format!("{} [in {}]", m, name));
      }
    }
  });
  let prio = (1 << 32) + s.rng.below(1 << 20);
  s.tasks.push(Task {
    name: name.into(),
    co: Some(co),
    yielder: ptr::null(),
    state: State::Ready,
    woken: false,
    prio,
    label: "start",
    abort: false,
  });
  id
}

/// A scheduling point: another task may go on here.
pub fn point(label: &'static str) {
  pt(label, false);
}

/// A scheduling point of a task that has nothing to do right now.
pub fn yield_now(label: &'static str) {
  pt(label, true);
}

fn pt(label: &'static str, yielding: bool) {
  let Some(s) = sim() else { return };
  if s.ending || s.cur == NONE || std::thread::panicking() {
    return;
  }
  if s.decisions > s.cfg.max_steps {
    s.violate("livelock", format!("still running after {} steps | at {label}", s.cfg.max_steps));
  }
  if s.stopped {
    s.suspend();
    return;
  }
  let cur = s.cur;
  s.tasks[cur].label = label;
  if s.tasks[cur].abort {
    s.tasks[cur].abort = false;
    std::panic::panic_any(Stop);
  }
  let c = s.runnable();
  let p = s.propose(&c, yielding);
  let k = s.decide(c.len(), p);
  if c[k] != cur {
    s.next = Some(c[k]);
    s.suspend();
  }
}

fn blocked(label: &'static str, st: State) {
  let Some(s) = sim() else { return };
  if s.ending {
    return;
  }
  let cur = s.cur;
  s.tasks[cur].label = label;
  s.tasks[cur].state = st;
  s.suspend();
}

/// Blocks the current task on a lock until another task makes it ready.
pub fn block_lock(label: &'static str) {
  blocked(label, State::Lock);
}

pub fn ready(id: TaskId) {
  if let Some(s) = sim() {
    if id < s.tasks.len() && matches!(s.tasks[id].state, State::Parked | State::Lock) {
      s.tasks[id].state = State::Ready;
    }
  }
}

/// The current task goes on when nothing else can.
pub fn quiesce() {
  blocked("quiesce", State::Quiet);
}

pub fn current() -> TaskId {
  sim().map_or(NONE, |s| s.cur)
}

pub fn is_done(id: TaskId) -> bool {
  sim().map_or(true, |s| id >= s.tasks.len() || s.tasks[id].state == State::Done)
}

pub fn shards() -> usize {
  sim().map_or(4, |s| s.cfg.shards.max(1))
}

/// A decision of the harness during the run, for a fault or a delay.
pub fn choose(n: usize) -> usize {
  let Some(s) = sim() else { return 0 };
  if s.ending {
    return 0;
  }
  let p = s.rng.below(n as u64) as usize;
  s.decide(n, p)
}

pub fn fail(class: &str, text: String) {
  if let Some(s) = sim() {
    if !s.ending {
      s.violate(class, text);
      if s.cur != NONE {
        s.suspend();
      }
    }
  }
}

pub fn violated() -> bool {
  sim().is_some_and(|s| s.out.violation.is_some())
}

pub fn harness(text: String) -> ! {
  panic!("HARNESS {text}")
}

pub fn log(f: impl FnOnce() -> String) {
  if let Some(s) = sim() {
    if s.cfg.trace && !s.ending {
      let n = if s.cur == NONE { "-".into() } else { s.tasks[s.cur].name.clone() };
      let l = format!("{:>6} {:<14} {}", s.decisions, n, f());
      s.out.log.push(l);
    }
  }
}

pub fn stat(name: &'static str, n: u64) {
  if let Some(s) = sim() {
    *s.out.stats.entry(name).or_default() += n;
  }
}

/// The number of decisions so far: a clock that orders events.
pub fn now() -> u64 {
  sim().map_or(0, |s| s.decisions)
}

/// Names of the tasks that have not ended, with what they wait for.
pub fn alive() -> Vec<(TaskId, String, &'static str)> {
  sim().map_or_else(Vec::new, |s| {
    s.tasks
      .iter()
      .enumerate()
      .filter(|(_, t)| t.state != State::Done)
      .map(|(i, t)| (i, t.name.clone(), t.label))
      .collect()
  })
}

pub fn abort(id: TaskId) {
  if let Some(s) = sim() {
    if id < s.tasks.len() && s.tasks[id].state != State::Done {
      s.tasks[id].abort = true;
      s.tasks[id].woken = true;
      ready(id);
    }
  }
}

// ---- futures ----

fn raw(id: usize) -> RawWaker {
  fn clone(p: *const ()) -> RawWaker {
    raw(p as usize)
  }
  fn wake(p: *const ()) {
    let id = p as usize;
    if let Some(s) = sim() {
      if id < s.tasks.len() {
        s.tasks[id].woken = true;
        if s.tasks[id].state == State::Parked {
          s.tasks[id].state = State::Ready;
        }
      }
    }
  }
  fn drop(_: *const ()) {}
  static V: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, drop);
  RawWaker::new(id as *const (), &V)
}

/// Runs a future to its end on the current task.
pub fn block_on<F: Future>(fut: F) -> F::Output {
  let mut fut = std::pin::pin!(fut);
  loop {
    if let Poll::Ready(v) = poll_once(fut.as_mut()) {
      return v;
    }
    park("await");
  }
}

/// Polls a future once with the current task's waker.
pub fn poll_once<F: Future + ?Sized>(fut: Pin<&mut F>) -> Poll<F::Output> {
  let id = current();
  if let Some(s) = sim() {
    if id < s.tasks.len() {
      s.tasks[id].woken = false;
    }
  }
  let w = unsafe { Waker::from_raw(raw(id)) };
  let mut cx = Context::from_waker(&w);
  fut.poll(&mut cx)
}

/// Waits until the current task has been woken since its last poll.
pub fn park(label: &'static str) {
  let Some(s) = sim() else { return };
  let id = s.cur;
  if s.tasks[id].woken {
    yield_now(label);
  } else {
    while !sim().map_or(true, |s| s.tasks[id].woken || s.ending) {
      blocked(label, State::Parked);
      if sim().is_some_and(|s| s.tasks[id].abort) {
        yield_now(label);
      }
    }
  }
}

/// A queue of tasks waiting for something.
#[derive(Default)]
pub struct WaitQ(RefCell<VecDeque<TaskId>>);

impl WaitQ {
  pub fn wait(&self, label: &'static str) {
    self.0.borrow_mut().push_back(current());
    block_lock(label);
  }
  pub fn wake_all(&self) {
    for t in self.0.borrow_mut().drain(..) {
      ready(t);
    }
  }
}

/// Tasks waiting for a lock: at a quiescent point, tasks that wait for ever.
pub fn deadlocked() -> Vec<String> {
  sim().map_or_else(Vec::new, |s| {
    s.tasks
      .iter()
      .filter(|t| t.state == State::Lock)
      .map(|t| format!("{} at {}", t.name, t.label))
      .collect()
  })
}
