//! The other side of a socket when it is not this repository's Rust code: a small peer of its own that
//! speaks the protocol the other ways it allows. It cancels at once, joins the last element and the end,
//! grants elements of channels a few at a time and sets flags the Rust socket never sets.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

use bytes::Bytes;
use futures::stream::{AbortHandle, Abortable};
use futures::StreamExt;
use tokio::sync::{mpsc, oneshot};
use wasmrs::{Frame, Payload, PayloadError, RSocket};
use wasmrs_rx::*;

use crate::native::Srv;
use crate::sock::{self, Local, T_CANCEL, T_ERR, T_FNF, T_N, T_PAYLOAD, T_RC, T_RR, T_RS};
use crate::tape::Tape;
use crate::world;

const NEXT: u16 = 1 << 5;
const COMPLETE: u16 = 1 << 6;
const META: u16 = 1 << 8;

#[derive(Clone, Debug)]
pub struct Cfg {
  pub side: usize,
  /// In percent: joins the last element with the end.
  pub merge: u64,
  /// Channel input granted at a time; 0 for all.
  pub credit: u32,
  /// Answers a request with an element and an end instead of both in one.
  pub split: bool,
  /// Announces metadata of no length.
  pub empty_md: bool,
  /// Lets go of what it does not want with a cancel, at once.
  pub cancel: bool,
  pub code: u32,
}

pub fn cfg(t: &mut Tape) -> Cfg {
  Cfg {
    side: t.n(2),
    merge: [0, 50, 100, 100][t.n(4)],
    credit: [0, 1, 1, 2, 3, 7][t.n(6)],
    split: t.p(30),
    empty_md: t.p(30),
    cancel: t.p(80),
    code: [0x201, 0x101, 0, 0xffff_ffff][t.n(4)],
  }
}

type Out = Flux<Payload, PayloadError>;

#[derive(Default)]
struct Stream {
  answer: Option<oneshot::Sender<Result<Payload, PayloadError>>>,
  recv: Option<Rc<Out>>,
  granted: u32,
  credit: Option<Rc<mpsc::UnboundedSender<u32>>>,
  pump: Option<AbortHandle>,
  /// This side asked; a channel's request may not have been sent yet.
  mine: bool,
  begun: bool,
  dropped: bool,
}

pub struct Peer {
  cfg: Cfg,
  out: mpsc::UnboundedSender<Bytes>,
  next: Cell<u32>,
  streams: RefCell<BTreeMap<u32, Stream>>,
  ids: RefCell<BTreeMap<usize, u32>>,
  rng: RefCell<vsim::Rng>,
}

// A run has one thread.
unsafe impl Send for Peer {}
unsafe impl Sync for Peer {}

pub type Shared = std::sync::Arc<Local<Peer>>;

thread_local! {
  static PEER: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

pub fn new(cfg: Cfg, seed: u64) -> (Shared, mpsc::UnboundedReceiver<Bytes>) {
  let (out, rx) = mpsc::unbounded_channel();
  #[allow(clippy::arc_with_non_send_sync)]
  let p = std::sync::Arc::new(Local(Peer {
    next: Cell::new(if cfg.side == 0 { 1 } else { 2 }),
    cfg,
    out,
    streams: Default::default(),
    ids: Default::default(),
    rng: RefCell::new(vsim::Rng::new(seed)),
  }));
  PEER.with(|x| *x.borrow_mut() = Some(p.clone()));
  (p, rx)
}

pub fn clear() {
  let p = PEER.with(|x| x.borrow_mut().take());
  drop(p);
}

fn peer() -> Option<Shared> {
  PEER.with(|x| x.borrow().clone())
}

/// The caller of a call has let go of its result.
pub fn caller_gone(id: usize) {
  let Some(p) = peer() else { return };
  let p = &p.0;
  if world::call(id).side != p.cfg.side || !p.cfg.cancel {
    return;
  }
  let Some(sid) = p.ids.borrow().get(&id).copied() else { return };
  let (r, a) = {
    let mut m = p.streams.borrow_mut();
    let Some(s) = m.get_mut(&sid) else { return };
    s.dropped = true;
    if !s.begun {
      return;
    }
    (s.recv.take(), s.answer.take())
  };
  if r.is_some() || a.is_some() {
    vsim::stat("fault_cancel_at_once", 1);
    p.send(sid, T_CANCEL, 0, &[]);
  }
}

/// The handler of a channel has let go of its input.
pub fn input_gone(id: usize) {
  let Some(p) = peer() else { return };
  let p = &p.0;
  if world::call(id).side == p.cfg.side || !p.cfg.cancel {
    return;
  }
  let sid = world::st(id, |s| s.sid);
  let r = p.streams.borrow_mut().get_mut(&sid).and_then(|s| s.recv.take());
  if r.is_some() {
    vsim::stat("fault_cancel_at_once", 1);
    p.send(sid, T_CANCEL, 0, &[]);
  }
}

/// What a stream has at once.
async fn ready<S: futures::Stream + Unpin>(s: &mut S) -> std::task::Poll<Option<S::Item>> {
  std::future::poll_fn(|cx| std::task::Poll::Ready(s.poll_next_unpin(cx))).await
}

fn fail(msg: &str) -> PayloadError {
  PayloadError::application_error(msg)
}

impl Peer {
  fn send(&self, sid: u32, ty: u8, flags: u16, rest: &[u8]) {
    let _ = self.out.send(sock::frame(sid, ty, flags, rest));
  }

  fn merges(&self) -> bool {
    self.rng.borrow_mut().below(100) < self.cfg.merge
  }

  /// The rest of a frame that carries a payload.
  fn body(&self, n: Option<u32>, p: &Payload) -> (u16, Vec<u8>) {
    let mut v = n.map(|n| n.to_be_bytes().to_vec()).unwrap_or_default();
    let md = p.metadata.as_deref().unwrap_or_default();
    let has = !md.is_empty() || self.cfg.empty_md;
    if has {
      v.extend(&(md.len() as u32).to_be_bytes()[1..]);
      v.extend(md);
    }
    v.extend(p.data.as_deref().unwrap_or_default());
    (if has { META } else { 0 }, v)
  }

  fn payload(&self, sid: u32, p: &Payload, flags: u16) {
    let (m, v) = self.body(None, p);
    self.send(sid, T_PAYLOAD, m | flags, &v);
  }

  fn error(&self, sid: u32, e: &PayloadError) {
    let mut v = self.cfg.code.to_be_bytes().to_vec();
    v.extend(e.msg.as_bytes());
    self.send(sid, T_ERR, 0, &v);
  }

  fn request(&self, ty: u8, n: Option<u32>, flags: u16, sid: u32, p: &Payload) {
    let (m, v) = self.body(n, p);
    self.send(sid, ty, m | flags, &v);
  }

  fn take_sid(&self, p: &Payload) -> u32 {
    let sid = self.next.get();
    self.next.set(sid + 2);
    if let Some(id) = p.data.as_deref().and_then(world::whose) {
      self.ids.borrow_mut().insert(id, sid);
    }
    sid
  }

  /// The input of a channel is granted bit by bit.
  fn grant(&self, sid: u32) {
    let n = if self.cfg.credit == 0 { 0x7fff_ffff } else { self.cfg.credit };
    if let Some(s) = self.streams.borrow_mut().get_mut(&sid) {
      s.granted = n;
    }
    self.send(sid, T_N, 0, &n.to_be_bytes());
  }
}

/// What the other side's socket sent.
pub fn process(me: &Shared, b: &[u8]) {
  let Some(f) = sock::parse(b) else { return };
  let p = &me.0;
  let srv = Srv { side: p.cfg.side };
  let pl = Payload::new(f.md.into(), f.data.clone().into());
  let sid = f.sid;
  match f.ty {
    T_FNF => {
      let m = srv.fire_and_forget(pl);
      wasmrs_runtime::spawn(async move {
        let _ = m.await;
      });
    }
    T_RR => {
      let m = srv.request_response(pl);
      let me = me.clone();
      wasmrs_runtime::spawn(async move {
        let r = m.await;
        let p = &me.0;
        match r {
          Ok(a) if p.cfg.split => {
            p.payload(sid, &a, NEXT);
            p.send(sid, T_PAYLOAD, COMPLETE, &[]);
          }
          Ok(a) => p.payload(sid, &a, NEXT | COMPLETE),
          Err(e) => p.error(sid, &e),
        }
      });
    }
    T_RS => {
      p.streams.borrow_mut().insert(sid, Stream { begun: true, ..Default::default() });
      pump(me, sid, srv.request_stream(pl));
    }
    T_RC => {
      let (tx, rx) = Flux::new_channels();
      let _ = tx.send(pl);
      let only = f.flags & COMPLETE != 0;
      if only {
        tx.complete();
      }
      let recv = (!only).then(|| Rc::new(tx));
      p.streams.borrow_mut().insert(sid, Stream { begun: true, recv, ..Default::default() });
      if !only {
        p.grant(sid);
      }
      pump(me, sid, srv.request_channel(rx));
    }
    T_PAYLOAD => {
      let (answer, recv, mine) = {
        let mut m = p.streams.borrow_mut();
        let Some(s) = m.get_mut(&sid) else { return };
        (s.answer.take(), s.recv.clone(), s.mine)
      };
      if let Some(a) = answer {
        let _ = a.send(Ok(pl));
      } else if let Some(tx) = recv {
        let (next, last) = (f.flags & NEXT != 0, f.flags & COMPLETE != 0);
        let gone = next && tx.send(pl).is_err();
        if last {
          tx.complete();
        }
        if gone || last {
          let r = p.streams.borrow_mut().get_mut(&sid).and_then(|s| s.recv.take());
          if gone && !last && r.is_some() {
            p.send(sid, T_CANCEL, 0, &[]);
          }
        } else if !mine && next {
          let used = p.streams.borrow_mut().get_mut(&sid).is_some_and(|s| {
            s.granted = s.granted.saturating_sub(1);
            s.granted == 0
          });
          if used {
            p.grant(sid);
          }
        }
      }
    }
    T_ERR => {
      let (a, r) = {
        let mut m = p.streams.borrow_mut();
        let Some(s) = m.get_mut(&sid) else { return };
        (s.answer.take(), s.recv.take())
      };
      let e = PayloadError::new(f.n, String::from_utf8_lossy(&f.data).into_owned());
      if let Some(a) = a {
        let _ = a.send(Err(e));
      } else if let Some(r) = r {
        let _ = r.error(e);
      }
    }
    T_CANCEL => {
      let (h, _c) = {
        let mut m = p.streams.borrow_mut();
        let Some(s) = m.get_mut(&sid) else { return };
        (s.pump.take(), s.credit.take())
      };
      if let Some(h) = h {
        h.abort();
      }
    }
    T_N => {
      let c = p.streams.borrow().get(&sid).and_then(|s| s.credit.clone());
      if let Some(c) = c {
        let _ = c.send(f.n);
      }
    }
    _ => {}
  }
}

/// Sends what a handler, or the caller of a channel, produces.
fn pump(me: &Shared, sid: u32, out: FluxReceiver<Payload, PayloadError>) {
  let (h, reg) = AbortHandle::new_pair();
  if let Some(s) = me.0.streams.borrow_mut().get_mut(&sid) {
    s.pump = Some(h);
  }
  let me = me.clone();
  wasmrs_runtime::spawn(async move {
    let mut out = Abortable::new(out, reg);
    let mut cur = out.next().await;
    while let Some(Ok(x)) = cur {
      let p = &me.0;
      let ahead = if p.merges() { ready(&mut out).await } else { std::task::Poll::Pending };
      match ahead {
        std::task::Poll::Ready(None) if !out.is_aborted() => {
          vsim::stat("fault_end_joined", 1);
          p.payload(sid, &x, NEXT | COMPLETE);
          return;
        }
        std::task::Poll::Ready(n) => {
          p.payload(sid, &x, NEXT);
          cur = n;
        }
        std::task::Poll::Pending => {
          p.payload(sid, &x, NEXT);
          cur = out.next().await;
        }
      }
    }
    let p = &me.0;
    if out.is_aborted() {
      return;
    }
    match cur {
      Some(Err(e)) => {
        // The input goes on by itself.
        let more = p.streams.borrow_mut().get_mut(&sid).is_some_and(|s| {
          let more = s.recv.is_some() && !s.mine && s.granted < 0x1000_0000;
          s.granted += if more { 0x4000_0000 } else { 0 };
          more
        });
        if more {
          p.send(sid, T_N, 0, &0x4000_0000u32.to_be_bytes());
        }
        p.error(sid, &e);
      }
      _ => p.send(sid, T_PAYLOAD, COMPLETE, &[]),
    }
  });
}

impl RSocket for Local<Peer> {
  fn fire_and_forget(&self, pl: Payload) -> Mono<(), PayloadError> {
    let p = &self.0;
    let sid = p.take_sid(&pl);
    p.request(T_FNF, None, 0, sid, &pl);
    Mono::new_success(())
  }

  fn request_response(&self, pl: Payload) -> Mono<Payload, PayloadError> {
    let p = &self.0;
    let sid = p.take_sid(&pl);
    let (tx, rx) = oneshot::channel();
    p.streams.borrow_mut().insert(sid, Stream { answer: Some(tx), mine: true, begun: true, ..Default::default() });
    p.request(T_RR, None, 0, sid, &pl);
    Mono::from_future(async move {
      match rx.await {
        Ok(r) => r,
        Err(_) => std::future::pending().await,
      }
    })
  }

  fn request_stream(&self, pl: Payload) -> FluxReceiver<Payload, PayloadError> {
    let p = &self.0;
    let sid = p.take_sid(&pl);
    let (tx, rx) = Flux::new_channels();
    p.streams.borrow_mut().insert(sid, Stream { recv: Some(Rc::new(tx)), mine: true, begun: true, ..Default::default() });
    p.request(T_RS, Some(Frame::REQUEST_MAX), 0, sid, &pl);
    rx
  }

  fn request_channel(&self, input: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let Some(me) = peer() else { vsim::harness("no peer".into()) };
    let (tx, rx) = Flux::new_channels();
    wasmrs_runtime::spawn(async move {
      channel(me, input, tx).await;
    });
    rx
  }
}

/// The calling side of a channel.
async fn channel(me: Shared, input: FluxReceiver<Payload, PayloadError>, tx: Out) {
  let p = &me.0;
  let (h, reg) = AbortHandle::new_pair();
  let mut input = Abortable::new(input, reg);
  let first = match input.next().await {
    Some(Ok(x)) => x,
    Some(Err(e)) => {
      let _ = tx.error(e);
      return;
    }
    None => {
      let _ = tx.error(fail("no payload"));
      return;
    }
  };
  let (ctx, mut crx) = mpsc::unbounded_channel();
  let sid = p.take_sid(&first);
  let id = first.data.as_deref().and_then(world::whose);
  p.streams.borrow_mut().insert(
    sid,
    Stream { recv: Some(Rc::new(tx)), mine: true, credit: Some(Rc::new(ctx)), pump: Some(h), ..Default::default() },
  );
  let mut cur = None;
  let mut only = false;
  let mut polled = false;
  if COMPLETE_REQUEST && p.merges() {
    if let std::task::Poll::Ready(n) = ready(&mut input).await {
      only = n.is_none() && !input.is_aborted();
      polled = true;
      cur = n;
    }
  }
  p.request(T_RC, Some(Frame::REQUEST_MAX), if only { COMPLETE } else { 0 }, sid, &first);
  if let Some(s) = p.streams.borrow_mut().get_mut(&sid) {
    s.begun = true;
  }
  if let Some(id) = id.filter(|i| world::st(*i, |s| s.dropped)) {
    caller_gone(id);
  }
  if only {
    vsim::stat("fault_end_joined", 1);
    return;
  }
  if !polled {
    cur = input.next().await;
  }
  let mut n = 0u32;
  while let Some(Ok(x)) = cur {
    while n == 0 {
      match crx.recv().await {
        Some(k) => n = k,
        None => return,
      }
    }
    n -= 1;
    let ahead = if p.merges() { ready(&mut input).await } else { std::task::Poll::Pending };
    match ahead {
      std::task::Poll::Ready(None) if !input.is_aborted() => {
        vsim::stat("fault_end_joined", 1);
        p.payload(sid, &x, NEXT | COMPLETE);
        return;
      }
      std::task::Poll::Ready(n) => {
        p.payload(sid, &x, NEXT);
        cur = n;
      }
      std::task::Poll::Pending => {
        p.payload(sid, &x, NEXT);
        cur = input.next().await;
      }
    }
  }
  if input.is_aborted() {
    return;
  }
  match cur {
    Some(Err(_)) => p.error(sid, &fail("input failed")),
    _ => p.send(sid, T_PAYLOAD, COMPLETE, &[]),
  }
}

/// Whether a channel of one element is sent as one frame.
const COMPLETE_REQUEST: bool = true;
