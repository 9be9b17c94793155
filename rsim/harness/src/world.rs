//! The workload and what is known about it while it runs. One world per OS thread, that is per run.

use std::cell::RefCell;
use std::rc::Rc;

use bytes::Bytes;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  Fnf,
  Rr,
  Rs,
  Rc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
  Complete,
  Error,
  /// The producer lets go of the stream without a word.
  Gone,
}

#[derive(Clone, Copy, Debug)]
pub struct Item {
  pub md: usize,
  pub sz: usize,
}

#[derive(Clone, Debug)]
pub struct Call {
  pub id: usize,
  /// Who calls: 0 the host's socket, 1 the guest's.
  pub side: usize,
  pub task: usize,
  pub kind: Kind,
  pub op: usize,
  pub req: Item,
  pub pre: usize,
  pub h_sync: bool,
  pub h_yield: usize,
  pub h_gate: Option<usize>,
  pub h_err: bool,
  pub out: Vec<Item>,
  pub out_end: End,
  pub hold: bool,
  pub h_in_stop: Option<usize>,
  pub input: Vec<Item>,
  pub in_end: End,
  pub in_hold: bool,
  pub in_none: bool,
  pub feeder: bool,
  pub in_gate: Option<usize>,
  pub take: Option<usize>,
  pub recv: bool,
  /// The handler calls the other side while it runs.
  pub back: bool,
  /// 1: an operation that does not exist; 2: too little metadata.
  pub bad: u8,
}

#[derive(Default)]
pub struct St {
  pub sid: u32,
  pub called: bool,
  pub started: u32,
  pub inn: usize,
  pub in_end: Option<End>,
  pub in_left: bool,
  pub guards: u32,
  pub stopped: bool,
  pub sent: usize,
  pub finished: bool,
  pub got: usize,
  pub end: Option<End>,
  pub cdone: bool,
  pub dropped: bool,
  pub feeding: bool,
  pub feed_stopped: bool,
  pub fed: usize,
  pub tainted: bool,
  pub back: u32,
  /// The guest has seen this call's request, and came to an end with it.
  pub seen: bool,
  pub trapped: bool,
  pub gates: Vec<UnboundedSender<()>>,
}

pub struct World {
  pub calls: Rc<Vec<Call>>,
  pub st: Vec<St>,
  pub limit: usize,
  pub limit_out: usize,
  /// Bytes nobody planned may arrive.
  pub hostile: bool,
}

thread_local! {
  static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn set(calls: Vec<Call>) {
  let st = calls.iter().map(|_| St::default()).collect();
  W.with(|w| {
    *w.borrow_mut() = Some(World {
      calls: Rc::new(calls),
      st,
      limit: usize::MAX,
      limit_out: usize::MAX,
      hostile: false,
    })
  });
}

pub fn clear() {
  let w = W.with(|w| w.borrow_mut().take());
  drop(w);
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
  if !alive() && vsim::active() {
    // The run is over; nobody waits for this task.
    vsim::block_on(std::future::pending::<()>());
  }
  W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

pub fn alive() -> bool {
  W.with(|w| w.borrow().is_some())
}

pub fn st<R>(id: usize, f: impl FnOnce(&mut St) -> R) -> R {
  with(|w| f(&mut w.st[id]))
}

pub fn call(id: usize) -> Call {
  with(|w| w.calls[id].clone())
}

pub fn calls() -> Rc<Vec<Call>> {
  with(|w| w.calls.clone())
}

pub const REQ: u8 = 1;
pub const OUT: u8 = 2;
pub const IN: u8 = 3;

fn fill(id: usize, dir: u8, seq: usize, part: u64, n: usize) -> Vec<u8> {
  let mut v = Vec::with_capacity(n);
  let mut r = vsim::Rng::new(vsim::mix((id as u64) << 32 | (dir as u64) << 24 | part << 16, seq as u64));
  while v.len() < n {
    v.extend_from_slice(&r.next().to_be_bytes());
  }
  v.truncate(n);
  v
}

/// The data of a payload: which call, which direction, which element, then bytes of its own.
pub fn body(id: usize, dir: u8, seq: usize, n: usize) -> Bytes {
  let mut v = vec![0xC0 | (id >> 8) as u8, id as u8, dir, (seq >> 8) as u8, seq as u8];
  if n > 5 {
    v.extend(fill(id, dir, seq, 0, n - 5));
  }
  v.truncate(n);
  v.into()
}

pub fn meta(id: usize, dir: u8, seq: usize, n: usize) -> Bytes {
  fill(id, dir, seq, 1, n).into()
}

/// Which call a request belongs to.
pub fn whose(b: &[u8]) -> Option<usize> {
  if b.len() < 5 || b[0] & 0xC0 != 0xC0 || b[2..5] != [REQ, 0, 0] {
    return None;
  }
  let id = ((b[0] & 0x3f) as usize) << 8 | b[1] as usize;
  with(|w| (id < w.calls.len()).then_some(id))
}

/// Which call bytes inside a frame might belong to.
pub fn whose_any(b: &[u8]) -> Option<usize> {
  (0..b.len().saturating_sub(4)).find_map(|i| if b[i + 2] == REQ && b[i + 3] == 0 && b[i + 4] == 0 { whose(&b[i..]) } else { None })
}

/// Lets everything that waits for permission go on, until nothing comes of it.
pub fn nudge(calls: &[Call], mut after: impl FnMut()) {
  let state = || -> Vec<_> {
    calls.iter().map(|c| st(c.id, |s| (s.called, s.cdone, s.fed, s.inn, s.guards, s.sent >= c.out.len()))).collect()
  };
  let (mut last, mut still) = (state(), 0);
  for _ in 0..60 {
    if still == 4 || calls.iter().all(crate::sock::settled) {
      return;
    }
    for c in calls {
      kick(c.id);
    }
    after();
    let now = state();
    still = if now == last { still + 1 } else { 0 };
    last = now;
  }
}

pub fn message(id: usize, what: &str) -> String {
  format!("call {id} {what}")
}

pub fn show(b: &[u8]) -> String {
  let h: String = b.iter().take(12).map(|x| format!("{x:02x}")).collect();
  format!("{} bytes {h}", b.len())
}

/// Compares an element with what its producer made.
pub fn compare(class: &str, what: &str, id: usize, dir: u8, seq: usize, it: Item, md: &[u8], data: &[u8], md_from: usize) {
  let want = body(id, dir, seq, it.sz);
  if data != want {
    vsim::fail(class, format!("{what} differs from what was sent | call {id} element {seq}: {} instead of {}", show(data), show(&want)));
  }
  if md_from == usize::MAX {
    return;
  }
  let want = meta(id, dir, seq, it.md);
  if md != &want[..] {
    vsim::fail(class, format!("the metadata of {what} differs from what was sent | call {id} element {seq}: {} instead of {}", show(md), show(&want)));
  }
}

/// Counts a piece of work of a call that is still alive.
pub struct Guard(usize);
impl Guard {
  pub fn new(id: usize) -> Guard {
    st(id, |s| s.guards += 1);
    Guard(id)
  }
}
impl Drop for Guard {
  fn drop(&mut self) {
    if alive() {
      let id = self.0;
      W.with(|w| {
        if let Ok(mut w) = w.try_borrow_mut() {
          if let Some(w) = w.as_mut() {
            w.st[id].guards -= 1;
          }
        }
      });
    }
  }
}

/// Something to wait at until the call is let on.
pub fn gate(id: usize) -> UnboundedReceiver<()> {
  let (tx, rx) = unbounded_channel();
  st(id, |s| s.gates.push(tx));
  rx
}

pub fn kick(id: usize) {
  let g: Vec<_> = st(id, |s| s.gates.clone());
  for t in g {
    let _ = t.send(());
  }
}

pub async fn yields(n: usize) {
  for _ in 0..n {
    tokio::task::yield_now().await;
  }
}
