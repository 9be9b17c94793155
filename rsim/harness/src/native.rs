//! Handlers of a native socket.

use wasmrs::{Payload, PayloadError, RSocket};
use wasmrs_runtime::spawn;
use wasmrs_rx::*;

use crate::world::{self, Call, End, Item, Kind, IN, OUT, REQ};
use futures::StreamExt;

include!("prod.rs");

async fn call_back(_: usize) {}

pub struct Srv {
  pub side: usize,
}

fn md(p: &Payload) -> &[u8] {
  p.metadata.as_deref().unwrap_or_default()
}
fn data(p: &Payload) -> &[u8] {
  p.data.as_deref().unwrap_or_default()
}

impl Srv {
  /// A request has arrived: whose is it, and is it as it was sent?
  fn arrived(&self, kind: Kind, p: &Payload) -> Option<usize> {
    arrived(Some(self.side), kind, md(p), data(p), 0)
  }
}

pub fn class(kind: Kind) -> &'static str {
  match kind {
    Kind::Fnf => "fnf",
    Kind::Rr => "rr",
    Kind::Rs => "stream",
    Kind::Rc => "chan",
  }
}

pub fn arrived(side: Option<usize>, kind: Kind, md: &[u8], data: &[u8], md_from: usize) -> Option<usize> {
  let Some(id) = world::whose(data) else {
    if world::with(|w| w.hostile) {
      return None;
    }
    vsim::fail(class(kind), format!("a handler got a request nobody made | {kind:?} {}", world::show(data)));
    return None;
  };
  let c = world::call(id);
  vsim::log(|| format!("handler of call {id} {kind:?}"));
  if world::st(id, |s| s.tainted) {
    world::st(id, |s| s.started += 1);
    return Some(id);
  }
  if c.kind != kind || side == Some(c.side) {
    vsim::fail(class(kind), format!("a request reached a handler of another kind or side | call {id} {:?} as {kind:?}", c.kind));
  }
  world::compare(class(kind), "a request", id, REQ, 0, c.req, md, data, md_from);
  if world::st(id, |s| {
    s.started += 1;
    s.started
  }) > 1
  {
    vsim::fail(class(kind), format!("a request was handled twice | call {id}"));
  }
  Some(id)
}

impl RSocket for Srv {
  fn fire_and_forget(&self, p: Payload) -> Mono<(), PayloadError> {
    let Some(id) = self.arrived(Kind::Fnf, &p) else {
      return Mono::new_success(());
    };
    let c = world::call(id);
    if c.h_sync {
      world::st(id, |s| s.finished = true);
      if c.out_end == End::Error {
        return Mono::new_error(PayloadError::application_error(world::message(id, "failed")));
      }
      return Mono::new_success(());
    }
    let g = world::Guard::new(id);
    let mut gate = world::gate(id);
    Mono::from_future(async move {
      let _g = g;
      world::yields(c.h_yield).await;
      if c.h_gate.is_some() {
        gate.recv().await;
      }
      world::st(id, |s| s.finished = true);
      if c.out_end == End::Error {
        return Err(PayloadError::application_error(world::message(id, "failed")));
      }
      Ok(())
    })
  }

  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    match self.arrived(Kind::Rr, &p) {
      Some(id) => answer(id),
      None => Mono::new_error(PayloadError::application_error("unknown")),
    }
  }

  fn request_stream(&self, p: Payload) -> FluxReceiver<Payload, PayloadError> {
    match self.arrived(Kind::Rs, &p) {
      Some(id) => stream(id),
      None => {
        let (tx, rx) = Flux::new_channels();
        tx.complete();
        rx
      }
    }
  }

  fn request_channel(&self, mut input: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let side = self.side;
    spawn(async move {
      let first = match input.next().await {
        Some(Ok(p)) => p,
        _ => return,
      };
      let Some(id) = arrived(Some(side), Kind::Rc, md(&first), data(&first), 0) else {
        return;
      };
      let _g = world::Guard::new(id);
      let c = world::call(id);
      spawn(produce(id, tx));
      world::st(id, |s| s.inn = 1);
      loop {
        if c.h_in_stop.is_some_and(|k| world::st(id, |s| s.inn) >= k) {
          world::st(id, |s| s.in_left = true);
          vsim::stat("fault_input_dropped", 1);
          vsim::log(|| format!("handler of call {id} drops its input"));
          drop(input);
          crate::peer::input_gone(id);
          return;
        }
        match input.next().await {
          None => {
            if world::st(id, |s| s.in_end.is_none()) {
              input_end(id, &c, End::Complete);
            }
            return;
          }
          Some(Err(_)) => input_end(id, &c, End::Error),
          Some(Ok(p)) => {
            let n = world::st(id, |s| {
              s.inn += 1;
              s.inn - 1
            });
            in_item(id, &c, n, md(&p), data(&p), 0);
          }
        }
      }
    });
    rx
  }
}

pub fn in_item(id: usize, c: &Call, n: usize, md: &[u8], data: &[u8], md_from: usize) {
  if world::st(id, |s| s.tainted) {
    return;
  }
  if world::st(id, |s| s.in_end.is_some()) {
    vsim::fail("chan", format!("an element of a channel's input arrived after its end | call {id}"));
  }
  let it = match c.input.get(n - 1) {
    Some(it) => *it,
    None if c.in_hold => Item { md: 0, sz: 9 },
    None => {
      vsim::fail("chan", format!("a channel handler got more input than was sent | call {id}"));
      return;
    }
  };
  world::compare("chan", "an element of a channel's input", id, IN, n, it, md, data, md_from);
}
