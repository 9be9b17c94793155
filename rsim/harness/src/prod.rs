// Included once for the native build of the crates and once for the wasm build.

/// The producing half of a handler: its planned elements, then its planned end.
pub async fn produce(id: usize, tx: Flux<Payload, PayloadError>) {
  let _g = world::Guard::new(id);
  let c = world::call(id);
  let mut gate = world::gate(id);
  for (i, it) in c.out.iter().enumerate() {
    world::yields(c.h_yield).await;
    if c.h_gate == Some(i) {
      gate.recv().await;
    }
    if !put(id, i, *it, &tx) {
      return;
    }
  }
  if c.hold {
    let mut i = c.out.len();
    loop {
      gate.recv().await;
      if !put(id, i, Item { md: 0, sz: 9 }, &tx) {
        return;
      }
      i += 1;
    }
  }
  if c.h_gate == Some(c.out.len()) {
    gate.recv().await;
  }
  finish(id, &c, &tx);
}

pub fn produce_now(id: usize, tx: &Flux<Payload, PayloadError>) {
  let c = world::call(id);
  for (i, it) in c.out.iter().enumerate() {
    if !put(id, i, *it, tx) {
      return;
    }
  }
  finish(id, &c, tx);
}

fn finish(id: usize, c: &Call, tx: &Flux<Payload, PayloadError>) {
  world::st(id, |s| s.finished = true);
  match c.out_end {
    End::Complete => tx.complete(),
    End::Error => {
      let _ = tx.error(PayloadError::application_error(world::message(id, "failed")));
    }
    End::Gone => {}
  }
}

fn put(id: usize, i: usize, it: Item, tx: &Flux<Payload, PayloadError>) -> bool {
  let p = Payload::new(world::meta(id, OUT, i, it.md), world::body(id, OUT, i, it.sz));
  // Counted first: it may have arrived by the time send returns.
  world::st(id, |s| s.sent += 1);
  if tx.send(p).is_err() {
    world::st(id, |s| {
      s.sent -= 1;
      s.stopped = true;
    });
    vsim::log(|| format!("handler of call {id}: nobody listens any more"));
    return false;
  }
  true
}

pub fn answer(id: usize) -> Mono<Payload, PayloadError> {
  let c = world::call(id);
  // A damaged request may have made this the answer to a call of another kind.
  let o = c.out.first().copied().unwrap_or(c.req);
  let ok = Payload::new(world::meta(id, OUT, 0, o.md), world::body(id, OUT, 0, o.sz));
  if c.h_sync {
    return if c.out_end == End::Error {
      Mono::new_error(PayloadError::application_error(world::message(id, "failed")))
    } else {
      Mono::new_success(ok)
    };
  }
  let g = world::Guard::new(id);
  let mut gate = world::gate(id);
  Mono::from_future(async move {
    let _g = g;
    world::yields(c.h_yield).await;
    if c.h_gate.is_some() {
      gate.recv().await;
    }
    if c.back {
      call_back(id).await;
    }
    if c.out_end == End::Error {
      Err(PayloadError::application_error(world::message(id, "failed")))
    } else {
      Ok(ok)
    }
  })
}

pub fn stream(id: usize) -> FluxReceiver<Payload, PayloadError> {
  let (tx, rx) = Flux::new_channels();
  if world::call(id).h_sync {
    produce_now(id, &tx);
  } else {
    spawn(produce(id, tx));
  }
  rx
}

/// The end of a handler's input.
fn input_end(id: usize, c: &Call, e: End) {
  let n = world::st(id, |s| {
    s.in_end = Some(e);
    s.inn
  });
  vsim::log(|| format!("handler of call {id}: input ended with {e:?} after {n}"));
  if world::st(id, |s| s.tainted) {
    return;
  }
  let want = 1 + c.input.len();
  if let Some(b) = (1..want).find(|i| crate::full::too_big(c, world::IN, *i)) {
    if n > b {
      vsim::fail("bounds", format!("an element larger than the guest's buffer got through | call {id}"));
    }
    // It fails the channel; the caller may be gone by then.
    if (n < b || e != End::Error) && !world::st(id, |s| s.feed_stopped || s.dropped) {
      vsim::fail("chan", format!("the input of a channel handler ended early | call {id}: {n} elements, then {e:?}, although {b} fit"));
    }
    return;
  }
  if c.in_hold && e != End::Error {
    vsim::fail("chan", format!("the input of a channel handler ended although its caller did not end it | call {id}"));
  }
  if n != want && !world::st(id, |s| s.feed_stopped) {
    vsim::fail("chan", format!("the input of a channel handler ended early | call {id}: {n} of {want} elements, then {e:?}"));
  }
  if (e == End::Error) != (c.in_end == End::Error) {
    vsim::fail("chan", format!("the input of a channel handler ended with {e:?} instead of {:?} | call {id}", c.in_end));
  }
}
