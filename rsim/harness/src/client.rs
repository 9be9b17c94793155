//! The calling side: issues the planned calls of one task on a native socket and judges what comes back.

use futures::StreamExt;
use std::future::Future;
use std::task::Poll;

use bytes::Bytes;
use wasmrs::{Payload, PayloadError, RSocket};
use wasmrs_rx::*;

use crate::native::class;
use crate::world::{self, Call, End, Item, Kind, IN, OUT, REQ};

/// How the metadata of a request is made: the operation's index in front, or none.
pub type Meta<'a> = &'a dyn Fn(&Call, Bytes) -> Bytes;

fn request(c: &Call, m: Meta) -> Payload {
  Payload::new(m(c, world::meta(c.id, REQ, 0, c.req.md)), world::body(c.id, REQ, 0, c.req.sz))
}

pub fn issue(s: &dyn RSocket, c: &Call, m: Meta) {
  let id = c.id;
  for _ in 0..c.pre {
    vsim::yield_now("client");
  }
  vsim::log(|| format!("call {id} {:?}", c.kind));
  world::st(id, |s| s.called = true);
  match c.kind {
    Kind::Fnf => {
      vsim::stat("ops_fnf", 1);
      let r = vsim::block_on(s.fire_and_forget(request(c, m)));
      if r.is_err() {
        vsim::fail("fnf", format!("a fire-and-forget call failed | call {id}"));
      }
      world::st(id, |s| {
        s.end = Some(End::Complete);
        s.cdone = true;
      });
    }
    Kind::Rr => {
      vsim::stat("ops_rr", 1);
      let fut = s.request_response(request(c, m));
      if let Some(k) = c.take {
        let mut fut = Box::pin(fut);
        for _ in 0..k {
          if let Poll::Ready(r) = vsim::poll_once(fut.as_mut()) {
            rr_outcome(c, r);
            world::st(id, |s| s.cdone = true);
            return;
          }
          vsim::yield_now("client");
        }
        vsim::log(|| format!("call {id}: caller drops the future"));
        vsim::stat("fault_caller_drops", 1);
        world::st(id, |s| s.dropped = true);
        drop(fut);
        crate::peer::caller_gone(id);
      } else {
        let r = vsim::block_on(fut);
        rr_outcome(c, r);
      }
      world::st(id, |s| s.cdone = true);
    }
    Kind::Rs => {
      vsim::stat("ops_rs", 1);
      let out = s.request_stream(request(c, m));
      consume(c, out);
    }
    Kind::Rc => {
      vsim::stat("ops_rc", 1);
      let (tx, rx) = Flux::new_channels();
      let first = if c.in_none { None } else { Some(request(c, m)) };
      let out;
      if c.feeder {
        out = s.request_channel(rx);
        let cc = c.clone();
        world::st(id, |s| s.feeding = true);
        vsim::spawn(format!("feed{id}"), move || {
          vsim::block_on(feed(cc, tx, first));
        });
      } else {
        feed_now(c, &tx, first);
        drop(tx);
        out = s.request_channel(rx);
      }
      consume(c, out);
    }
  }
}

pub fn rr_outcome(c: &Call, r: Result<Payload, PayloadError>) {
  let id = c.id;
  vsim::log(|| format!("call {id}: {}", if r.is_ok() { "value" } else { "error" }));
  world::st(id, |s| s.end = Some(if r.is_ok() { End::Complete } else { End::Error }));
  if world::st(id, |s| s.tainted) {
    return;
  }
  if failing(c, &r) {
    return;
  }
  match r {
    Ok(p) => {
      if c.out_end == End::Error {
        vsim::fail("rr", format!("a call whose handler failed got a value | call {id}"));
      }
      world::compare(
        "rr",
        "a response",
        id,
        OUT,
        0,
        c.out[0],
        p.metadata.as_deref().unwrap_or_default(),
        p.data.as_deref().unwrap_or_default(),
        0,
      );
    }
    Err(e) => {
      if c.out_end != End::Error {
        vsim::fail("rr", format!("a call whose handler answered failed | call {id}: {}", e.msg));
      }
      if e.msg != world::message(id, "failed") {
        vsim::fail("rr", format!("a call got the error of something else | call {id}: {}", e.msg));
      }
    }
  }
}

/// Calls that have to fail before they reach a handler.
fn failing(c: &Call, r: &Result<Payload, PayloadError>) -> bool {
  let id = c.id;
  if crate::full::too_big(c, REQ, 0) {
    if r.is_ok() {
      vsim::fail("bounds", format!("a request larger than the guest's buffer got a value | call {id}"));
    }
    return true;
  }
  if c.bad != 0 || c.h_err {
    // The element of the input that is too large may be found before the refusal arrives.
    let big = (1..=c.input.len()).any(|i| crate::full::too_big(c, IN, i));
    match r {
      Ok(_) => vsim::fail(class(c.kind), format!("a call to no operation, or whose handler failed, got a value | call {id}")),
      Err(e) if c.bad == 0 && !big && e.msg != world::message(id, "refused") => vsim::fail(
        class(c.kind),
        format!("a call got the error of something else | call {id}: {}", e.msg),
      ),
      Err(_) => {}
    }
    return true;
  }
  if c.kind == Kind::Rr && c.out_end != End::Error && crate::full::too_big(c, OUT, 0) {
    if r.is_ok() {
      vsim::fail("bounds", format!("a response larger than the host's buffer got through | call {id}"));
    }
    return true;
  }
  false
}

fn consume(c: &Call, mut out: FluxReceiver<Payload, PayloadError>) {
  let id = c.id;
  loop {
    if c.take.is_some_and(|k| world::st(id, |s| s.got) >= k) {
      vsim::log(|| format!("call {id}: caller drops the stream"));
      vsim::stat("fault_caller_drops", 1);
      world::st(id, |s| s.dropped = true);
      drop(out);
      crate::peer::caller_gone(id);
      break;
    }
    let r = if c.recv {
      match vsim::block_on(out.recv()) {
        Ok(r) => r,
        Err(e) => {
          vsim::fail(class(c.kind), format!("recv on a stream of one owner failed | call {id}: {e}"));
          return;
        }
      }
    } else {
      vsim::block_on(out.next())
    };
    let Some(r) = r else {
      out_end(c);
      break;
    };
    out_item(c, r);
  }
  world::st(id, |s| s.cdone = true);
}

fn out_item(c: &Call, r: Result<Payload, PayloadError>) {
  let id = c.id;
  let cl = class(c.kind);
  let got = world::st(id, |s| s.got);
  vsim::log(|| format!("call {id}: element {got} {}", if r.is_ok() { "" } else { "error" }));
  if world::st(id, |s| s.tainted) {
    world::st(id, |s| {
      s.got += 1;
      if r.is_err() {
        s.end = Some(End::Error);
      }
    });
    return;
  }
  if world::st(id, |s| s.end.is_some()) {
    vsim::fail(cl, format!("something arrived on a stream after its error | call {id}"));
  }
  if c.in_none || crate::full::too_big(c, REQ, 0) {
    if r.is_ok() {
      vsim::fail(cl, format!("a stream that never began has an element | call {id}"));
    }
    world::st(id, |s| s.end = Some(End::Error));
    return;
  }
  if c.bad != 0 || c.h_err {
    failing(c, &r);
    world::st(id, |s| s.end = Some(End::Error));
    return;
  }
  let big = (1..=c.input.len()).any(|i| crate::full::too_big(c, IN, i));
  match r {
    Ok(p) => {
      let it = match c.out.get(got) {
        Some(it) => *it,
        None if c.hold => Item { md: 0, sz: 9 },
        None => {
          vsim::fail(cl, format!("a stream has more elements than its handler sent | call {id}"));
          return;
        }
      };
      if crate::full::too_big(c, OUT, got) {
        vsim::fail("bounds", format!("an element larger than the host's buffer got through | call {id}"));
      }
      world::compare(
        cl,
        "an element of a stream",
        id,
        OUT,
        got,
        it,
        p.metadata.as_deref().unwrap_or_default(),
        p.data.as_deref().unwrap_or_default(),
        0,
      );
      if got >= world::st(id, |s| s.sent) {
        vsim::fail(cl, format!("an element arrived before it was sent | call {id}"));
      }
      world::st(id, |s| s.got += 1);
    }
    Err(e) => {
      world::st(id, |s| s.end = Some(End::Error));
      if big {
        return;
      }
      if got < c.out.len() && crate::full::too_big(c, OUT, got) {
        return;
      }
      if c.out_end != End::Error || c.hold {
        vsim::fail(cl, format!("a stream failed although its handler did not | call {id}: {}", e.msg));
      }
      if got != c.out.len() {
        vsim::fail(cl, format!("a stream failed before its elements had arrived | call {id}: {got} of {}", c.out.len()));
      }
      if e.msg != world::message(id, "failed") {
        vsim::fail(cl, format!("a stream got the error of something else | call {id}: {}", e.msg));
      }
    }
  }
}

fn out_end(c: &Call) {
  let id = c.id;
  let cl = class(c.kind);
  let (got, end) = world::st(id, |s| (s.got, s.end));
  vsim::log(|| format!("call {id}: end after {got}, {end:?}"));
  if world::st(id, |s| s.tainted) {
    return;
  }
  if end.is_some() || c.in_none {
    world::st(id, |s| s.end = Some(s.end.unwrap_or(End::Complete)));
    return;
  }
  world::st(id, |s| s.end = Some(End::Complete));
  if crate::full::too_big(c, REQ, 0) || c.bad != 0 || c.h_err {
    vsim::fail(cl, format!("a stream that could not begin ended without an error | call {id}"));
  }
  if c.hold {
    vsim::fail(cl, format!("a stream ended although its handler did not end it | call {id} after {got}"));
  }
  if got < c.out.len() {
    vsim::fail(cl, format!("a stream ended before its elements had arrived | call {id}: {got} of {}", c.out.len()));
  }
  if c.out_end == End::Error {
    vsim::fail(cl, format!("a stream whose handler failed ended without an error | call {id}"));
  }
}

fn put(id: usize, p: Payload, tx: &Flux<Payload, PayloadError>) -> bool {
  if tx.send(p).is_err() {
    vsim::log(|| format!("feeder of call {id}: nobody listens any more"));
    world::st(id, |s| s.feed_stopped = true);
    return false;
  }
  world::st(id, |s| s.fed += 1);
  true
}

fn item(id: usize, i: usize, it: Item) -> Payload {
  Payload::new(world::meta(id, IN, i, it.md), world::body(id, IN, i, it.sz))
}

async fn feed(c: Call, tx: Flux<Payload, PayloadError>, first: Option<Payload>) {
  let id = c.id;
  struct Done(usize);
  impl Drop for Done {
    fn drop(&mut self) {
      if world::alive() && !vsim::ending() {
        world::st(self.0, |s| s.feeding = false);
      }
    }
  }
  let _d = Done(id);
  let mut gate = world::gate(id);
  if let Some(p) = first {
    if !put(id, p, &tx) {
      return;
    }
    for (i, it) in c.input.iter().enumerate() {
      vsim::yield_now("feeder");
      if c.in_gate == Some(i) {
        gate.recv().await;
      }
      if !put(id, item(id, i + 1, *it), &tx) {
        return;
      }
    }
    if c.in_hold {
      let mut i = c.input.len() + 1;
      loop {
        gate.recv().await;
        if !put(id, item(id, i, Item { md: 0, sz: 9 }), &tx) {
          return;
        }
        i += 1;
      }
    }
  }
  in_end(&c, &tx);
}

fn feed_now(c: &Call, tx: &Flux<Payload, PayloadError>, first: Option<Payload>) {
  let id = c.id;
  if let Some(p) = first {
    put(id, p, tx);
    for (i, it) in c.input.iter().enumerate() {
      put(id, item(id, i + 1, *it), tx);
    }
  }
  in_end(c, tx);
}

fn in_end(c: &Call, tx: &Flux<Payload, PayloadError>) {
  match c.in_end {
    End::Complete => tx.complete(),
    End::Error => {
      let _ = tx.error(PayloadError::application_error(world::message(c.id, "input failed")));
    }
    End::Gone => {}
  }
}

#[allow(dead_code)]
fn unused<F: Future>(_: F) {}
