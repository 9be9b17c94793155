//! The real host and its wasmtime provider, and the real guest library compiled for its wasm
//! configuration, joined by a stand-in for the wasm engine.

use std::collections::BTreeMap;
use std::rc::Rc;

use bytes::Bytes;
use wasmrs::{Payload, RSocket};
use wasmrs_host::Host;
use wasmrs_wasmtime::WasmtimeBuilder;

use crate::native::class;
use crate::plan::BUFFER;
use crate::sock;
use crate::tape::Tape;
use crate::world::{self, Call, Kind, REQ};

/// Does this element not fit into the buffer it has to go through?
pub fn too_big(c: &Call, dir: u8, seq: usize) -> bool {
  let limit = world::with(|w| if dir == world::OUT { w.limit_out } else { w.limit });
  if limit == usize::MAX {
    return false;
  }
  let (it, extra, op) = match dir {
    REQ => (c.req, if matches!(c.kind, Kind::Rs | Kind::Rc) { 4 } else { 0 }, if c.bad == 2 { 2 } else { 8 }),
    world::OUT => match c.out.get(seq) {
      Some(it) => (*it, 0, 0),
      None => return false,
    },
    _ => match c.input.get(seq.wrapping_sub(1)) {
      Some(it) => (*it, 0, 0),
      None => return false,
    },
  };
  let md = if dir == REQ && c.bad == 2 { 2 } else { it.md + op };
  3 + 6 + extra + if md > 0 { 3 + md } else { 0 } + it.sz > limit
}

mod wasm {
  //! Handlers of the guest.
  use guest::*;

  use crate::native::{arrived, class, in_item};
  use crate::world::{self, Call, End, Item, Kind, OUT};

  include!("prod.rs");

  async fn call_back(id: usize) {
    let r = Host::default().request_response(Payload::new(vec![0; 8].into(), world::body(id, 9, 0, 12))).await;
    if r.is_ok() {
      vsim::fail("rr", format!("the host answered a call it has no handler for | call {id}"));
    }
    world::st(id, |s| s.back += 1);
  }

  fn refuse<T>(id: usize) -> Result<T, GenericError> {
    Err(Box::new(std::io::Error::other(world::message(id, "refused"))))
  }

  /// The request a handler was called with.
  fn take(kind: Kind, op: usize, input: IncomingMono) -> Option<usize> {
    let p = match input.now_or_never() {
      Some(Ok(p)) => p,
      _ => {
        vsim::fail(class(kind), "a guest handler's request is not there".into());
        return None;
      }
    };
    check(kind, op, &p)
  }

  fn check(kind: Kind, op: usize, p: &ParsedPayload) -> Option<usize> {
    let id = arrived(None, kind, &[], &p.data, usize::MAX)?;
    let c = world::call(id);
    if c.op != op {
      vsim::fail(class(kind), format!("a call reached the handler of another operation | call {id} {kind:?}: {op} instead of {}", c.op));
    }
    Some(id)
  }

  pub fn fnf<const K: usize>(input: IncomingMono) -> Result<(), GenericError> {
    let Some(id) = take(Kind::Fnf, K, input) else { return Ok(()) };
    let c = world::call(id);
    if c.h_err {
      return refuse(id);
    }
    if c.h_sync {
      world::st(id, |s| s.finished = true);
      return Ok(());
    }
    let g = world::Guard::new(id);
    spawn(async move {
      let _g = g;
      let mut gate = world::gate(id);
      world::yields(c.h_yield).await;
      if c.h_gate.is_some() {
        gate.recv().await;
      }
      if c.back {
        call_back(id).await;
      }
      world::st(id, |s| s.finished = true);
    });
    Ok(())
  }

  pub fn rr<const K: usize>(input: IncomingMono) -> Result<OutgoingMono, GenericError> {
    let Some(id) = take(Kind::Rr, K, input) else {
      return Ok(Mono::new_error(PayloadError::application_error("unknown")));
    };
    if world::call(id).h_err {
      return refuse(id);
    }
    Ok(answer(id))
  }

  pub fn rs<const K: usize>(input: IncomingMono) -> Result<OutgoingStream, GenericError> {
    let Some(id) = take(Kind::Rs, K, input) else {
      return refuse(0);
    };
    if world::call(id).h_err {
      return refuse(id);
    }
    Ok(stream(id))
  }

  pub fn rc<const K: usize>(mut input: IncomingStream) -> Result<OutgoingStream, GenericError> {
    let first = match input.next().now_or_never() {
      Some(Some(Ok(p))) => p,
      _ => {
        vsim::fail("chan", "a channel handler's first element is not there".into());
        return refuse(0);
      }
    };
    let Some(id) = check(Kind::Rc, K, &first) else {
      return refuse(0);
    };
    let c = world::call(id);
    if c.h_err {
      return refuse(id);
    }
    let g = world::Guard::new(id);
    let out = stream(id);
    world::st(id, |s| s.inn = 1);
    spawn(async move {
      let _g = g;
      loop {
        if c.h_in_stop.is_some_and(|k| world::st(id, |s| s.inn) >= k) {
          world::st(id, |s| s.in_left = true);
          vsim::stat("fault_input_dropped", 1);
          vsim::log(|| format!("handler of call {id} drops its input"));
          return;
        }
        match input.next().await {
          None => {
            if world::st(id, |s| s.in_end.is_none()) {
              input_end(id, &c, End::Complete);
            }
            return;
          }
          Some(Err(_)) => input_end(id, &c, End::Error),
          Some(Ok(p)) => {
            let n = world::st(id, |s| {
              s.inn += 1;
              s.inn - 1
            });
            in_item(id, &c, n, &[], &p.data, usize::MAX);
          }
        }
      }
    });
    Ok(out)
  }

  fn kick(_: IncomingMono) -> Result<(), GenericError> {
    Ok(())
  }

  pub fn setup(order: &[usize]) {
    for k in order {
      match k {
        0 => register_fire_and_forget("ns0", "fnf", fnf::<0>),
        1 => register_fire_and_forget("ns1", "fnf", fnf::<1>),
        2 => register_fire_and_forget("ns2", "fnf", fnf::<2>),
        3 => register_request_response("ns0", "rr", rr::<0>),
        4 => register_request_response("ns1", "rr", rr::<1>),
        5 => register_request_response("ns2", "rr", rr::<2>),
        6 => register_request_stream("ns0", "rs", rs::<0>),
        7 => register_request_stream("ns1", "rs", rs::<1>),
        8 => register_request_stream("ns2", "rs", rs::<2>),
        9 => register_request_channel("ns0", "rc", rc::<0>),
        10 => register_request_channel("ns1", "rc", rc::<1>),
        11 => register_request_channel("ns2", "rc", rc::<2>),
        12 => register_fire_and_forget(super::KICK, "kick", kick),
        k => add_import(*k as u32, OperationType::RequestResponse, super::import(*k), "rr"),
      }
    }
  }
}

// What the guest imports.
#[no_mangle]
extern "C-unwind" fn __init_buffers(a: usize, b: usize) {
  wasmtime::import_init(a, b);
}
#[no_mangle]
extern "C-unwind" fn __send(n: usize) {
  wasmtime::import_send(n);
}
#[no_mangle]
extern "C-unwind" fn __op_list(p: usize, n: usize) {
  wasmtime::import_op_list(p, n);
}
// What it exports besides __wasmrs_init, which a module defines itself.
extern "C-unwind" {
  fn __wasmrs_op_list_request();
  fn __wasmrs_send(n: u32);
}

#[derive(Clone, Debug, Default)]
pub struct Extra {
  pub order: Vec<usize>,
  pub trap: Option<u64>,
  /// The guest, or what is between host and guest, passes on several frames at once.
  pub pack: (bool, bool),
  /// Damaged frames that get in between those.
  pub junk: Vec<Vec<u8>>,
  /// The sizes of the guest's buffers, if not the usual ones.
  pub sizes: Option<(u32, u32)>,
  /// How a guest that is not the real one behaves.
  pub wild: Option<Wild>,
}

#[derive(Clone, Debug)]
pub struct Wild {
  pub init: Option<(i32, i32)>,
  pub list: u8,
  pub acts: Vec<(u8, u64, u64)>,
}

/// A frame no call is concerned with, its length before it.
fn damaged(t: &mut Tape) -> Vec<u8> {
  let id = [0x7fff_0001u32, 0x7fff_0002, 0x7f00_0003, 0x7fff_fffe, 0][t.n(5)];
  let head = |ty: u16, flags: u16| [id.to_be_bytes().to_vec(), (ty << 10 | flags).to_be_bytes().to_vec()].concat();
  let f = match t.below(6) {
    0 => head(10, 0x20)[..t.n(6)].to_vec(),
    1 => head([0u16, 1, 2, 3, 12, 13, 14, 40, 63][t.n(9)], t.below(1024) as u16),
    2 => {
      let ty = [4u16, 5, 6, 7, 10][t.n(5)];
      let mut b = head(ty, 0x100);
      if matches!(ty, 6 | 7) {
        b.extend([0, 0, 0, 1]);
      }
      b.extend([[0u8, 0, 9], [255, 255, 255], [0, 1, 0]][t.n(3)]);
      b.truncate(b.len() - t.n(3));
      b.extend(vec![1; t.n(8)]);
      b
    }
    3 => {
      let mut b = head([6u16, 7, 8, 11][t.n(4)], 0);
      b.extend(vec![0; t.n(4)]);
      b
    }
    4 => {
      let mut b = head([8u16, 9, 10, 11][t.n(4)], [0u16, 0x20, 0x40, 0x60][t.n(4)]);
      b.extend([0, 0, 2, 1, 65, 66]);
      b
    }
    _ => vec![t.below(256) as u8; t.n(20)],
  };
  let mut b = (f.len() as u32).to_be_bytes()[1..].to_vec();
  b.extend(f);
  b
}

pub fn extra(t: &mut Tape, wild: bool, dirty: bool) -> Extra {
  let mut order: Vec<usize> = (0..16).collect();
  if t.p(80) {
    for i in (1..order.len()).rev() {
      let j = t.n(i + 1);
      order.swap(i, j);
    }
  }
  let wild = wild.then(|| Wild {
    init: if t.p(50) { Some((pointer(t, true), pointer(t, false))) } else { None },
    list: t.below(11) as u8,
    acts: {
      let n = 1 + t.n(8);
      (0..n).map(|_| (t.below(8) as u8, t.below(1 << 24), t.below(1 << 20))).collect()
    },
  });
  let pack = if wild.is_none() && t.p(40) { [(true, false), (false, true), (true, true)][t.n(3)] } else { (false, false) };
  let mut x = Extra {
    order,
    pack,
    wild,
    ..Extra::default()
  };
  if dirty {
    x.pack = [(true, false), (false, true), (true, true)][t.n(3)];
    for _ in 0..1 + t.n(5) {
      x.junk.push(damaged(t));
    }
  }
  if x.wild.is_none() && t.p(35) {
    x.sizes = Some((1024 + t.n(3000) as u32, 300 + t.n(725) as u32));
  }
  x
}

/// An address: inside, at the edge or outside the guest's memory. Addresses the host writes to stay
/// where a stray write can be seen.
fn pointer(t: &mut Tape, written: bool) -> i32 {
  let m = wasmtime::MEM as i32;
  match t.below(6) {
    0 => t.n(wasmtime::MEM - 4096) as i32,
    1 => m - 1024 + t.n(1026) as i32,
    2 => m - t.n(40) as i32,
    3 => m + t.n(60000) as i32,
    4 if !written => -1 - t.n(3) as i32,
    5 if !written => i32::MIN + t.n(3) as i32,
    _ => 0x1000,
  }
}

fn real_init(a: u32, b: u32, c: u32) {
  ORDER.with(|o| wasm::setup(&o.borrow()));
  guest::init(a, b, c);
}

thread_local! {
  static ORDER: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
  static WILD: std::cell::RefCell<(Option<Wild>, usize, i32, i32)> = const { std::cell::RefCell::new((None, 0, 0, 0)) };
}

fn trapped(m: String) {
  if WILD.with(|w| w.borrow().0.is_some()) {
    return;
  }
  vsim::fail("panic", format!("{m} [in the guest]"));
}

fn head(md: Bytes, index: u32) -> Bytes {
  let mut v = index.to_be_bytes().to_vec();
  v.extend([0; 4]);
  v.extend(&md);
  v.into()
}

/// A name longer than a byte can count.
const KICK: &str = concat!(
  "kick-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789",
  "-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789",
  "-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789"
);

fn import(k: usize) -> String {
  match k {
    15 => format!("ns{}", "15".repeat(200)),
    k => format!("ns{k}"),
  }
}

const NAMES: [(&str, Kind); 4] = [("fnf", Kind::Fnf), ("rr", Kind::Rr), ("rs", Kind::Rs), ("rc", Kind::Rc)];

pub fn run(calls: Vec<Call>, x: Extra) {
  world::set(calls.clone());
  world::with(|w| {
    w.limit = BUFFER;
    w.limit_out = x.sizes.map_or(BUFFER, |s| s.1 as usize);
  });
  ORDER.with(|o| *o.borrow_mut() = x.order.clone());
  WILD.with(|w| *w.borrow_mut() = (x.wild.clone(), 0, 0, 0));
  wasmtime::set_hooks(wasmtime::Hooks {
    exports: if x.wild.is_some() {
      world::with(|w| w.hostile = true);
      wasmtime::Exports {
        start: None,
        init: wild_init,
        send: wild_send,
        op_list: Some(wild_list),
      }
    } else {
      wasmtime::Exports {
        start: None,
        init: real_init,
        send: |n| unsafe { __wasmrs_send(n) },
        op_list: Some(|| unsafe { __wasmrs_op_list_request() }),
      }
    },
    guest_mode: crate::alloc::guest_mode,
    trap: trapped,
    pack: x.pack,
    junk: x.junk,
    sizes: x.sizes,
  });
  let wild = x.wild.is_some();
  let engine = match WasmtimeBuilder::new(b"\0asm").build() {
    Ok(e) => e,
    Err(e) => vsim::harness(format!("engine: {e}")),
  };
  let host = match Host::new(engine) {
    Ok(h) => h,
    Err(e) => vsim::harness(format!("host: {e}")),
  };
  let ctx = match host.new_context() {
    Ok(c) => Rc::new(c),
    Err(e) => {
      if !wild {
        vsim::fail("setup", format!("no context for a sound guest | {e}"));
      }
      vsim::stat("fault_setup_refused", 1);
      vsim::quiesce();
      world::clear();
      return;
    }
  };
  // Every operation has an index of its own.
  let mut index: BTreeMap<(usize, usize), u32> = BTreeMap::new();
  for (n, (name, _)) in NAMES.iter().enumerate() {
    for k in 0..3 {
      match ctx.get_export(&format!("ns{k}"), name) {
        Ok(i) => {
          index.insert((n, k), i);
        }
        Err(e) if !wild => vsim::fail("setup", format!("an exported operation cannot be found | ns{k} {name}: {e}")),
        Err(_) => {
          index.insert((n, k), k as u32);
        }
      }
    }
  }
  if !wild {
    for k in 13..16usize {
      match ctx.get_import(&import(k), "rr") {
        Ok(i) if i as usize == k => {}
        r => vsim::fail("setup", format!("an imported operation is not the one added | ns{k}: {r:?}")),
      }
    }
    if let Ok(i) = ctx.get_export("ns0", "none") {
      vsim::fail("setup", format!("an operation nobody exported was found | {i}"));
    }
  }
  let kick = ctx.get_export(KICK, "kick").unwrap_or(0);
  let index = Rc::new(index);
  let mut by: BTreeMap<usize, Vec<Call>> = BTreeMap::new();
  for c in &calls {
    if wild {
      world::st(c.id, |s| s.tainted = true);
    }
    by.entry(c.task).or_default().push(c.clone());
  }
  for (task, cs) in by {
    let ctx = ctx.clone();
    let index = index.clone();
    vsim::spawn(format!("client{task}"), move || {
      for c in &cs {
        let meta = |c: &Call, md: Bytes| match c.bad {
          1 => head(md, 77),
          2 => Bytes::from_static(&[0, 0]),
          _ => {
            let n = NAMES.iter().position(|n| n.1 == c.kind).unwrap_or(0);
            head(md, index.get(&(n, c.op)).copied().unwrap_or(0))
          }
        };
        crate::client::issue(&*ctx, c, &meta);
      }
    });
  }
  vsim::quiesce();
  world::nudge(&calls, || {
    // The guest's tasks run while the host calls the guest.
    let _ = vsim::block_on(ctx.fire_and_forget(Payload::new(head(Bytes::new(), kick), Bytes::from_static(b"kick"))));
    vsim::quiesce();
  });
  if !wild {
    sock::finish(&calls);
    for c in &calls {
      let (back, started, fin) = world::st(c.id, |s| (s.back, s.started, s.guards == 0));
      if c.back && started > 0 && fin && !c.h_err && !(c.h_sync && c.kind != Kind::Rs) && matches!(c.kind, Kind::Rr | Kind::Fnf) && back == 0 {
        vsim::fail(class(c.kind), format!("a handler's call of the host never returned | call {}", c.id));
      }
    }
  } else {
    // A call ends when its request cannot be given to the guest, or the guest comes to an end with it.
    for c in &calls {
      let (called, done, seen, trapped) = world::st(c.id, |s| (s.called, s.cdone, s.seen, s.trapped));
      if called && !done && (!seen || trapped) {
        vsim::fail("stuck", format!("a call the guest could not take never ended | call {} {:?} seen {seen}", c.id, c.kind));
      }
    }
    let d = vsim::deadlocked();
    if !d.is_empty() {
      vsim::fail("stuck", format!("tasks wait for locks for ever | {d:?}"));
    }
  }
  world::clear();
}

// ---- a guest that is not the real one ----

fn wild_init(_: u32, _: u32, _: u32) {
  let w = WILD.with(|w| w.borrow().0.clone()).unwrap_or_else(|| vsim::harness("no plan".into()));
  let (g, h) = w.init.unwrap_or((wasmtime::GUEST_BUF as i32, wasmtime::HOST_BUF as i32));
  vsim::stat("fault_wild_guest", 1);
  WILD.with(|w| {
    let mut w = w.borrow_mut();
    w.2 = g;
    w.3 = h;
  });
  wasmtime::import_raw("__init_buffers", &[g, h]);
}

fn wild_list() {
  let w = WILD.with(|w| w.borrow().0.clone()).unwrap_or_else(|| vsim::harness("no plan".into()));
  let at = wasmtime::OPLIST;
  let good: Vec<u8> = {
    let mut v = vec![0, b'w', b'r', b's', 0, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0];
    v.extend([0, 3]);
    v.extend(b"ns0");
    v.extend([0, 2]);
    v.extend(b"rr");
    v.extend([0, 0]);
    v
  };
  let seed = w.acts.first().map_or(0, |a| a.1);
  let mut r = vsim::Rng::new(seed);
  let mut b = good.clone();
  let (mut p, mut n) = (at as i32, b.len() as i32);
  match w.list {
    0 => {}
    1 => {
      n = r.below(b.len() as u64) as i32;
    }
    2 => b[10] = r.below(256) as u8,
    3 => {
      let i = r.below(b.len() as u64) as usize;
      b[i] ^= 1 << r.below(8);
    }
    4 => b[6..10].copy_from_slice(&[0xff; 4]),
    5 => p = [-1, i32::MIN, wasmtime::MEM as i32 - 3, wasmtime::MEM as i32 + 9][r.below(4) as usize],
    6 => n = [-1, i32::MAX, i32::MIN, wasmtime::MEM as i32][r.below(4) as usize],
    8 => {
      // A name that is no text.
      let i = [18, 19, 20, 23, 24][r.below(5) as usize];
      b[i] = 0x80 | r.below(128) as u8;
    }
    9 => {
      // Many operations, the last of them cut short.
      let one = b.split_off(10);
      let k = 2 + r.below(40) as usize;
      b[6..10].copy_from_slice(&(k as u32).to_be_bytes());
      for _ in 0..k {
        b.extend(&one);
      }
      n = (b.len() as i32 - r.below(3 * one.len() as u64) as i32).max(0);
    }
    _ => return,
  }
  wasmtime::poke(at, &b);
  vsim::stat("fault_wild_list", 1);
  wasmtime::import_raw("__op_list", &[p, n]);
}

fn wild_send(n: u32) {
  let (w, i, g, h) = WILD.with(|w| {
    let mut w = w.borrow_mut();
    w.1 += 1;
    (w.0.clone(), w.1 - 1, w.2, w.3)
  });
  let Some(w) = w else { return };
  let got = wasmtime::peek(g.max(0) as usize, n as usize);
  // A guest that answers everything for ever is no test of its host.
  let id = world::whose_any(&got);
  if let Some(id) = id {
    world::st(id, |s| s.seen = true);
  }
  if i > 60 {
    return;
  }
  let sid = got.get(3..7).map_or(1, |b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]));
  let (kind, a, b) = w.acts[i % w.acts.len()];
  let mut r = vsim::Rng::new(a);
  let at = h.max(0) as usize;
  let frame = |ty: u8, flags: u16, rest: &[u8]| {
    let mut v = sid.to_be_bytes().to_vec();
    v.extend(((ty as u16) << 10 | flags).to_be_bytes());
    v.extend(rest);
    let l = v.len() as u32;
    let mut o = vec![(l >> 16) as u8, (l >> 8) as u8, l as u8];
    o.extend(v);
    o
  };
  vsim::stat("fault_wild_send", 1);
  let announce = |v: &[u8], extra: i32| {
    wasmtime::poke(at, v);
    wasmtime::import_raw("__send", &[v.len() as i32 + extra]);
  };
  match kind {
    0 => announce(&frame(10, 1 << 5 | 1 << 6, b"ok"), 0),
    1 => {
      let n = r.below(40) as usize;
      let v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
      announce(&v, 0);
    }
    2 => {
      // Announces more, or less, than there is.
      let v = frame(10, 1 << 5, b"short");
      let x = [-4, -1, 1, 5, 2000, i32::MAX / 2, -1000][r.below(7) as usize];
      announce(&v, x);
    }
    3 => {
      wasmtime::poke(at, &frame(10, 1 << 5, b"x"));
      wasmtime::import_raw("__send", &[[-1, i32::MIN, i32::MAX, wasmtime::MEM as i32, 0][b as usize % 5]]);
    }
    4 => {
      if let Some(id) = id {
        world::st(id, |s| s.trapped = true);
      }
      panic!("the guest traps")
    }
    5 => {
      // A message to the host's console.
      let m = wasmtime::MEM as i32;
      wasmtime::poke(0x3000, &[b'h', 0xff, 0xfe, b'i']);
      let p = [0x3000, -1, m - 2, m + 5, i32::MIN][r.below(5) as usize];
      let n = [2, 4, -1, i32::MAX, i32::MIN][r.below(5) as usize];
      wasmtime::import_raw("__console_log", &[p, n]);
    }
    6 => {
      let ty = r.below(64) as u8;
      let f = (r.next() as u16) & 0x3ff;
      let k = r.below(8) as usize;
      let v: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
      announce(&frame(ty, f, &v), 0);
    }
    _ => {
      // A request of the host, answered with an error.
      let ty = 4 + r.below(4) as u8;
      let mut v = frame(ty, 0, &[0, 0, 0, 1]);
      v[6] = 2 + 2 * (i as u8 % 60);
      announce(&v, 0);
    }
  }
}
