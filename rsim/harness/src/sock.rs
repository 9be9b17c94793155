//! Two real sockets joined by a wire of bytes: every frame is encoded, looked at, decoded and handed on.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use bytes::Bytes;
use wasmrs::{Frame, RSocket, SocketSide, WasmSocket};

use crate::native::{class, Srv};
use crate::tape::Tape;
use crate::world::{self, Call, End, Kind};

#[derive(Clone, Debug, Default)]
pub struct Extra {
  /// Frames nobody waits for any more, each with when (yields before it), where to and what.
  pub stray: Vec<(usize, usize, u8, u64)>,
  /// Damaged bytes: before which frame of which direction, how.
  pub hostile: Vec<Bad>,
  /// One side is not this repository's socket.
  pub peer: Option<(crate::peer::Cfg, u64)>,
}

#[derive(Clone, Debug)]
pub struct Bad {
  pub dir: usize,
  pub at: usize,
  pub kind: u8,
  pub a: u64,
  pub b: u64,
}

pub fn strays(t: &mut Tape) -> Vec<(usize, usize, u8, u64)> {
  let n = t.n(5);
  (0..n).map(|_| (t.n(30), t.n(2), t.below(8) as u8, t.below(1 << 16))).collect()
}

pub fn hostiles(t: &mut Tape) -> Vec<Bad> {
  let n = 1 + t.n(4);
  (0..n)
    .map(|_| Bad {
      dir: t.n(2),
      at: t.n(12),
      kind: t.below(8) as u8,
      a: t.below(1 << 20),
      b: t.below(1 << 20),
    })
    .collect()
}

/// What has been seen on the wire of one stream.
#[derive(Default)]
struct Seen {
  call: Option<usize>,
  /// By side: it has sent its end.
  over: [bool; 2],
  gone: [bool; 2],
  cancelled: [bool; 2],
}

#[derive(Default)]
pub struct Wire {
  by_sid: BTreeMap<u32, Seen>,
  recent: Vec<Vec<u8>>,
}

/// A frame as the format says, parsed independently of the code under test.
pub struct Parsed {
  pub sid: u32,
  pub ty: u8,
  pub flags: u16,
  pub n: u32,
  pub md: Vec<u8>,
  pub data: Vec<u8>,
}

pub const T_RR: u8 = 4;
pub const T_FNF: u8 = 5;
pub const T_RS: u8 = 6;
pub const T_RC: u8 = 7;
pub const T_N: u8 = 8;
pub const T_CANCEL: u8 = 9;
pub const T_PAYLOAD: u8 = 10;
pub const T_ERR: u8 = 11;
const F_COMPLETE: u16 = 1 << 6;
const F_META: u16 = 1 << 8;

pub fn parse(b: &[u8]) -> Option<Parsed> {
  if b.len() < 6 {
    return None;
  }
  let sid = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
  let x = u16::from_be_bytes([b[4], b[5]]);
  let (ty, flags) = ((x >> 10) as u8, x & 0x3ff);
  let mut r = &b[6..];
  let mut n = 0;
  if matches!(ty, T_RS | T_RC | T_N | T_ERR) {
    if r.len() < 4 {
      return None;
    }
    n = u32::from_be_bytes([r[0], r[1], r[2], r[3]]);
    r = &r[4..];
  }
  let mut md = vec![];
  if flags & F_META != 0 && matches!(ty, T_RR | T_FNF | T_RS | T_RC | T_PAYLOAD) {
    if r.len() < 3 {
      return None;
    }
    let m = (r[0] as usize) << 16 | (r[1] as usize) << 8 | r[2] as usize;
    if r.len() < 3 + m {
      return None;
    }
    md = r[3..3 + m].to_vec();
    r = &r[3 + m..];
  }
  Some(Parsed {
    sid,
    ty,
    flags,
    n,
    md,
    data: r.to_vec(),
  })
}

fn tap(w: &RefCell<Wire>, from: usize, b: &[u8], strict: bool) {
  if !world::alive() {
    return;
  }
  let Some(p) = parse(b) else {
    vsim::fail("wire", format!("a frame sent is not well formed | side {from}: {}", world::show(b)));
    return;
  };
  vsim::log(|| {
    format!(
      "{} -> {}: sid {} type {} flags {:#x} n {} {} bytes",
      ["host", "guest"][from],
      ["guest", "host"][from],
      p.sid,
      p.ty,
      p.flags,
      p.n,
      p.data.len()
    )
  });
  let mut w = w.borrow_mut();
  if w.recent.len() < 64 {
    w.recent.push(b.to_vec());
  }
  let s = w.by_sid.entry(p.sid).or_default();
  if (T_RR..=T_RC).contains(&p.ty) {
    let id = world::whose(&p.data);
    let taint = id.is_some_and(|i| world::st(i, |s| s.tainted));
    if let Some(i) = id {
      let kind = world::call(i).kind;
      let c = class(kind);
      if !taint && s.call.is_some() {
        vsim::fail(c, format!("two calls share a stream id | sid {}: calls {:?} and {i}", p.sid, s.call));
      }
      if p.sid % 2 != (from as u32 + 1) % 2 {
        vsim::fail(c, format!("a request carries a stream id of the other side | side {from} sid {}", p.sid));
      }
      s.call = Some(i);
      world::st(i, |s| s.sid = p.sid);
    } else if strict {
      vsim::fail("wire", format!("a request on the wire is nobody's | sid {}", p.sid));
    }
    return;
  }
  let Some(id) = s.call else { return };
  if world::st(id, |s| s.tainted) {
    return;
  }
  let c = world::call(id);
  let cl = class(c.kind);
  match p.ty {
    T_CANCEL => s.cancelled[from] = true,
    T_PAYLOAD | T_ERR => {
      if s.over[from] {
        vsim::fail(
          cl,
          format!(
            "{} sent after the end of the stream | call {id} sid {} from side {from}",
            if p.ty == T_ERR { "an error" } else if p.flags & F_COMPLETE != 0 { "an end" } else { "an element" },
            p.sid
          ),
        );
      }
      if p.ty == T_ERR || p.flags & F_COMPLETE != 0 {
        s.over[from] = true;
      }
    }
    _ => {}
  }
}

#[derive(Clone)]
enum Side {
  Real(Arc<WasmSocket>),
  Peer(crate::peer::Shared),
}

struct Rig {
  socks: [Side; 2],
  wire: Rc<RefCell<Wire>>,
}

/// Sockets and everything else used by tasks of one simulation, all on one OS thread.
pub struct Local<T>(pub T);
unsafe impl<T> Send for Local<T> {}
unsafe impl<T> Sync for Local<T> {}

pub fn run(calls: Vec<Call>, x: Extra) {
  world::set(calls.clone());
  world::with(|w| w.hostile = !x.hostile.is_empty());
  let mut socks = vec![];
  let mut rxs = vec![];
  for side in 0..2 {
    if let Some((cfg, seed)) = x.peer.as_ref().filter(|p| p.0.side == side) {
      let (p, rx) = crate::peer::new(cfg.clone(), *seed);
      socks.push(Side::Peer(p));
      rxs.push(Frames::Bytes(rx));
      continue;
    }
    let mut s = WasmSocket::new(Srv { side }, [SocketSide::Host, SocketSide::Guest][side]);
    rxs.push(Frames::Real(s.take_rx().unwrap_or_else(|_| vsim::harness("no receiver".into()))));
    socks.push(Side::Real(Arc::new(s)));
  }
  let rig = Rc::new(Rig {
    socks: [socks[0].clone(), socks[1].clone()],
    wire: Default::default(),
  });
  drop(socks);
  let strict = x.hostile.is_empty();
  for (from, mut rx) in rxs.into_iter().enumerate() {
    let rig = rig.clone();
    let bad: Vec<Bad> = x.hostile.iter().filter(|b| b.dir == from).cloned().collect();
    vsim::spawn(format!("writer{from}"), move || {
      let mut i = 0;
      while let Some(b) = rx.next() {
        tap(&rig.wire, from, &b, strict);
        for x in bad.iter().filter(|x| x.at == i) {
          if let Some(b) = mangle(x, from, &b, &rig.wire) {
            hand(&rig, from, b, false);
          }
        }
        hand(&rig, from, b.clone(), true);
        delivered(&rig.wire, from, &b);
        i += 1;
      }
    });
  }
  let mut by: BTreeMap<(usize, usize), Vec<Call>> = BTreeMap::new();
  for c in &calls {
    by.entry((c.side, c.task)).or_default().push(c.clone());
  }
  for ((side, task), cs) in by {
    let s = rig.socks[side].clone();
    vsim::spawn(format!("client{side}.{task}"), move || {
      for c in &cs {
        match &s {
          Side::Real(s) => crate::client::issue(&**s, c, &|_, m| m),
          Side::Peer(s) => crate::client::issue(&**s, c, &|_, m| m),
        }
      }
    });
  }
  if !x.stray.is_empty() {
    let rig = rig.clone();
    let st = x.stray.clone();
    vsim::spawn("stray", move || {
      for (pre, to, kind, a) in st {
        for _ in 0..pre {
          vsim::yield_now("stray");
        }
        stray(&rig, to, kind, a);
      }
    });
  }
  vsim::quiesce();
  world::nudge(&calls, vsim::quiesce);
  finish(&calls);
  pending(&calls, |side| match &rig.socks[side] {
    Side::Real(s) => format!("{s:?}"),
    Side::Peer(_) => "# pending streams: 0".into(),
  });
  let left: Vec<String> = vsim::alive()
    .into_iter()
    .filter(|t| t.1 != "main" && !t.1.starts_with("writer"))
    .map(|t| format!("{} at {}", t.1, t.2))
    .collect();
  if !left.is_empty() && calls.iter().all(|c| over(c)) {
    vsim::fail("leak", format!("work is left over although every call is over | {left:?}"));
  }
  crate::peer::clear();
  world::clear();
}

enum Frames {
  Real(wasmrs_runtime::UnboundedReceiver<Frame>),
  Bytes(tokio::sync::mpsc::UnboundedReceiver<Bytes>),
}

impl Frames {
  fn next(&mut self) -> Option<Bytes> {
    match self {
      Frames::Real(rx) => vsim::block_on(rx.recv()).map(|f| f.encode()),
      Frames::Bytes(rx) => vsim::block_on(rx.recv()),
    }
  }
}

/// Notes which directions of which streams are over for the one who receives.
fn delivered(w: &RefCell<Wire>, from: usize, b: &[u8]) {
  let Some(p) = parse(b) else { return };
  let mut w = w.borrow_mut();
  let s = w.by_sid.entry(p.sid).or_default();
  match p.ty {
    T_CANCEL => s.gone[1 - from] = true,
    T_ERR => s.gone[from] = true,
    T_PAYLOAD if p.flags & F_COMPLETE != 0 => s.gone[from] = true,
    _ => {}
  }
}

/// A call no frame can still belong to.
fn gone(w: &RefCell<Wire>, c: &Call) -> bool {
  let sid = world::st(c.id, |s| s.sid);
  let w = w.borrow();
  let Some(s) = w.by_sid.get(&sid) else { return false };
  match c.kind {
    Kind::Fnf => true,
    Kind::Rr | Kind::Rs => s.gone[1 - c.side],
    Kind::Rc => s.gone[0] && s.gone[1],
  }
}

fn hand(rig: &Rig, from: usize, b: Bytes, good: bool) {
  let to = match &rig.socks[1 - from] {
    Side::Real(s) => s,
    Side::Peer(p) => return crate::peer::process(p, &b),
  };
  match Frame::decode(b.clone()) {
    Ok(f) => {
      if to.process_once(f).is_err() && good {
        vsim::fail("wire", "a frame sent was refused".into());
      }
    }
    Err(_) if good => vsim::fail("wire", format!("a frame sent cannot be decoded | side {from}: {}", world::show(&b))),
    Err(_) => {
      vsim::stat("fault_frame_refused", 1);
    }
  }
}

/// A call that needs nothing more.
pub fn settled(c: &Call) -> bool {
  world::st(c.id, |s| s.called && s.cdone && s.guards == 0 && !s.feeding)
}

/// Nothing of this call may be left.
fn over(c: &Call) -> bool {
  let s = settled(c);
  s || world::st(c.id, |s| !s.called)
}

/// Does the plan let this call go on for ever?
pub fn endless(c: &Call) -> bool {
  (c.hold && c.take.is_none()) || world::st(c.id, |s| s.tainted)
}

pub fn finish(calls: &[Call]) {
  let d = vsim::deadlocked();
  if !d.is_empty() {
    vsim::fail("stuck", format!("tasks wait for locks for ever | {d:?}"));
  }
  // Calls behind an endless one in the same task are never made.
  let mut blocked = std::collections::BTreeSet::new();
  for c in calls {
    let key = (c.side, c.task);
    let (called, cdone, started) = world::st(c.id, |s| (s.called, s.cdone, s.started));
    if blocked.contains(&key) {
      continue;
    }
    if !called {
      vsim::harness(format!("call {} was never made", c.id));
    }
    let cl = class(c.kind);
    if !cdone {
      if !endless(c) {
        vsim::fail(
          cl,
          format!("a call never ended | call {} {:?}: {} elements", c.id, c.kind, world::st(c.id, |s| s.got)),
        );
      }
      blocked.insert(key);
    }
    if world::st(c.id, |s| s.tainted) {
      continue;
    }
    let reach = !c.in_none && c.bad == 0 && !crate::full::too_big(c, world::REQ, 0);
    if reach && started == 0 {
      vsim::fail(cl, format!("a request never reached its handler | call {} {:?}", c.id, c.kind));
    }
    if !reach || c.h_err {
      continue;
    }
    let (fin, dropped, guards, sent) = world::st(c.id, |s| (s.finished, s.dropped, s.guards, s.sent));
    if c.kind == Kind::Fnf && !fin {
      vsim::fail("fnf", format!("a fire-and-forget handler did not run to its end | call {}", c.id));
    }
    if dropped && c.hold && matches!(c.kind, Kind::Rs | Kind::Rc) && !world::st(c.id, |s| s.stopped) && !big_out(c) {
      vsim::fail(
        "cancel",
        format!("a handler goes on producing for a caller that has gone | call {} {sent} elements", c.id),
      );
    }
    if c.in_hold && world::st(c.id, |s| s.in_left && !s.feed_stopped) {
      vsim::fail(
        "cancel",
        format!("a caller goes on sending to a handler that has let go of its input | call {}", c.id),
      );
    }
    let live = c.in_hold && c.h_in_stop.is_none();
    if guards > 0 && !live && !endless(c) && !big_in(c) && c.h_in_stop.is_none() {
      vsim::fail(
        if c.kind == Kind::Rc { "chan" } else { "leak" },
        format!("the handler of a call that is over has not ended | call {} {:?}: {guards} parts", c.id, c.kind),
      );
    }
    // A channel's input, when its handler reads to the end.
    if c.kind == Kind::Rc && c.h_in_stop.is_none() && !c.in_hold && !c.in_none && !big_in(c) && world::st(c.id, |s| s.in_end.is_none()) {
      vsim::fail("chan", format!("the input of a channel handler never ended | call {}", c.id));
    }
  }
}

pub fn big_in(c: &Call) -> bool {
  (1..=c.input.len()).any(|i| crate::full::too_big(c, world::IN, i))
}
pub fn big_out(c: &Call) -> bool {
  (0..c.out.len()).any(|i| crate::full::too_big(c, world::OUT, i))
}

/// No entries of calls that are over, on either side.
fn pending(calls: &[Call], show: impl Fn(usize) -> String) {
  if world::with(|w| w.hostile) || calls.iter().any(|c| world::st(c.id, |s| s.tainted)) || !calls.iter().all(|c| settled(c)) {
    return;
  }
  for side in 0..2 {
    let s = show(side);
    let n = s.split("# pending streams\": ").nth(1).or_else(|| s.split("# pending streams: ").nth(1));
    let Some(n) = n.and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse::<usize>().ok()) else {
      vsim::stat("pending_unknown", 1);
      continue;
    };
    if n != 0 {
      vsim::fail("leak", format!("entries of calls that are over are left in a socket | side {side}: {n}"));
    }
  }
}

pub fn frame(sid: u32, ty: u8, flags: u16, rest: &[u8]) -> Bytes {
  let mut v = sid.to_be_bytes().to_vec();
  v.extend(((ty as u16) << 10 | flags).to_be_bytes());
  v.extend(rest);
  v.into()
}

/// Frames that arrive late: for streams that are over or never were, and requests for more elements
/// of streams that are alive. None of them may be noticed.
fn stray(rig: &Rig, to: usize, kind: u8, a: u64) {
  let calls = world::calls();
  let live = kind >= 6;
  let pick: Vec<u32> = calls
    .iter()
    .filter(|c| {
      let (sid, settled) = (world::st(c.id, |s| s.sid), settled(c));
      sid != 0 && if live { !settled && matches!(c.kind, Kind::Rs) && c.side != to } else { settled && gone(&rig.wire, c) }
    })
    .map(|c| world::st(c.id, |s| s.sid))
    .collect();
  let sid = if pick.is_empty() || (!live && a % 4 == 0) {
    if live {
      return;
    }
    0x4000_0000 + (a as u32 & 0xff)
  } else {
    pick[a as usize % pick.len()]
  };
  let b = match kind {
    0 | 1 => frame(sid, T_CANCEL, 0, &[]),
    2 => frame(sid, T_ERR, 0, &[0, 0, 2, 1, b'x']),
    3 => frame(sid, T_PAYLOAD, 1 << 5, b"late"),
    4 => frame(sid, T_PAYLOAD, F_COMPLETE, b""),
    _ => frame(sid, T_N, 0, &[0, 0, 0, 1 + (a & 7) as u8]),
  };
  vsim::stat(if live { "fault_request_n_live" } else { "fault_late_frame" }, 1);
  vsim::log(|| format!("stray frame to side {to}: sid {sid} kind {kind}"));
  hand(rig, 1 - to, b, true);
}

/// Bytes that are no proper frame, or a frame nobody should send. Calls it may name are no longer judged.
fn mangle(x: &Bad, from: usize, b: &Bytes, w: &RefCell<Wire>) -> Option<Bytes> {
  let base: Vec<u8> = {
    let w = w.borrow();
    if x.a % 3 == 0 || w.recent.is_empty() {
      b.to_vec()
    } else {
      w.recent[x.a as usize % w.recent.len()].clone()
    }
  };
  let mut r = vsim::Rng::new(x.b);
  let mut v = base;
  match x.kind {
    0 => v.truncate(x.b as usize % (v.len() + 1)),
    1 => {
      for _ in 0..1 + r.below(3) {
        let i = r.below(v.len() as u64) as usize;
        v[i] ^= 1 << r.below(8);
      }
    }
    2 => {
      let n = r.below(40) as usize;
      v = (0..n).map(|_| r.next() as u8).collect();
    }
    3 => {
      // A length of metadata that is too long.
      let at = if v.len() > 6 && matches!(v[4] >> 2, T_RS | T_RC) { 10 } else { 6 };
      if v.len() > 5 {
        v[4] |= 1;
      }
      v.truncate(at.max(6) + (x.b as usize % 5));
      v.resize(at + 3 + (x.b as usize % 3), 0xff);
    }
    4 => {
      // Another type.
      if v.len() > 4 {
        v[4] = (r.below(64) as u8) << 2 | (v[4] & 3);
      }
    }
    5 => {
      // Short frames of each kind.
      let ty = r.below(16) as u8;
      let n = r.below(6) as usize;
      v = frame(1 + r.below(40) as u32, ty, (r.next() as u16) & 0x3ff, &vec![r.next() as u8; n]).to_vec();
    }
    6 => {
      let ty = [T_CANCEL, T_ERR, T_N, T_PAYLOAD][r.below(4) as usize];
      v = frame(r.below(12) as u32, ty, [0, 1 << 5, F_COMPLETE][r.below(3) as usize], &[0, 0, 0, r.below(2) as u8]).to_vec();
    }
    _ => {} // the same frame once more
  }
  // Whom may this concern?
  let sid = v.get(..4).map(|s| u32::from_be_bytes([s[0], s[1], s[2], s[3]]) & 0x7fff_ffff);
  let calls = world::calls();
  let hit: Vec<usize> = calls
    .iter()
    .filter(|c| world::st(c.id, |s| s.sid != 0 && Some(s.sid) == sid) || world::whose_any(&v) == Some(c.id))
    .map(|c| c.id)
    .collect();
  // A stream id no call has yet: calls to come may get it.
  let fresh = sid.is_some_and(|s| s != 0 && s < 64 && !calls.iter().any(|c| world::st(c.id, |x| x.sid == s)));
  for c in calls.iter() {
    if hit.contains(&c.id) || (fresh && world::st(c.id, |s| s.sid == 0)) {
      world::st(c.id, |s| s.tainted = true);
    }
  }
  vsim::stat("fault_hostile_frame", 1);
  vsim::log(|| format!("hostile bytes to side {}: {} taints {hit:?}", 1 - from, world::show(&v)));
  Some(v.into())
}

#[allow(dead_code)]
fn unused(e: End) -> End {
  e
}

#[allow(dead_code)]
pub fn as_rsocket(s: &WasmSocket) -> &dyn RSocket {
  s
}
