//! Flux on its own: senders and one receiver at a time, receives given up half-way, hand-overs.

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::task::Poll;

use futures::StreamExt;
use wasmrs_rx::*;

use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Plan {
  /// For each sender: does it send an error (true) or a value, and the pauses before.
  pub senders: Vec<Vec<(bool, usize)>>,
  /// 0 the receiver of new_channels, 1 the flux itself, 2 what take_rx gives.
  pub kind: u8,
  pub complete: bool,
  pub clones: bool,
  /// What the receiver does, again and again: 0 next, 1 recv, 2 a recv given up after some polls,
  /// 3 hand over to another task's clone, 4 eject, 5 through a pipe.
  pub ops: Vec<(u8, usize)>,
  pub stop: Option<usize>,
}

pub fn plan(t: &mut Tape) -> Plan {
  let n = 1 + t.n(3);
  Plan {
    senders: (0..n)
      .map(|_| {
        let m = t.n(7);
        (0..m).map(|_| (t.p(12), t.n(3))).collect()
      })
      .collect(),
    kind: t.below(3) as u8,
    complete: t.p(60),
    clones: t.p(50),
    ops: {
      let n = 1 + t.n(6);
      (0..n).map(|_| (t.below(6) as u8, t.n(4))).collect()
    },
    stop: if t.p(20) { Some(t.n(8)) } else { None },
  }
}

type Val = (usize, usize);
type F = Flux<Val, Val>;
type R = FluxReceiver<Val, Val>;

enum Rx {
  Flux(Arc<F>),
  Rec(R),
}

struct Got {
  next: RefCell<Vec<usize>>,
  n: Cell<usize>,
  sent: RefCell<Vec<usize>>,
  plan: Plan,
}

impl Got {
  fn take(&self, r: Result<Val, Val>) {
    let (err, (s, i)) = match r {
      Ok(v) => (false, v),
      Err(v) => (true, v),
    };
    vsim::log(|| format!("got {s}.{i} {}", if err { "error" } else { "" }));
    let want = self.next.borrow()[s];
    if i != want {
      vsim::fail(
        "flux",
        format!(
          "{} | sender {s}: element {i} instead of {want}",
          if i < want { "an element of a flux arrived twice" } else { "an element of a flux was lost or overtaken" }
        ),
      );
    }
    if self.plan.senders[s][i].0 != err {
      vsim::fail("flux", format!("an element of a flux changed between value and error | sender {s}: element {i}"));
    }
    self.next.borrow_mut()[s] = i + 1;
    self.n.set(self.n.get() + 1);
  }
  fn end(&self, ok: bool) {
    vsim::log(|| "got the end".into());
    if !ok {
      vsim::fail("flux", "a flux ended although its senders had not ended it".into());
    }
    for (s, n) in self.next.borrow().iter().enumerate() {
      if *n != self.plan.senders[s].len() {
        vsim::fail("flux", format!("a flux ended before its elements had arrived | sender {s}: {n} of {}", self.plan.senders[s].len()));
      }
    }
  }
}

pub fn run(p: Plan) {
  let got = Rc::new(Got {
    next: RefCell::new(vec![0; p.senders.len()]),
    n: Cell::new(0),
    sent: RefCell::new(vec![0; p.senders.len()]),
    plan: p.clone(),
  });
  let (tx, mut rx) = match p.kind {
    0 => {
      let (f, r) = Flux::new_channels();
      (Arc::new(f), Rx::Rec(r))
    }
    k => {
      let f: Arc<F> = Arc::new(Flux::new());
      if k == 1 {
        (f.clone(), Rx::Flux(f))
      } else {
        match f.take_rx() {
          Ok(r) => (f, Rx::Rec(r)),
          Err(e) => {
            vsim::fail("flux", format!("the receiver of a new flux cannot be taken | {e}"));
            return;
          }
        }
      }
    }
  };
  // A flux that is its own receiver ends only by being completed.
  let complete = p.complete || p.kind == 1;
  let closing = Rc::new(Cell::new(false));
  let left = Rc::new(Cell::new(p.senders.len()));
  let dropped = Rc::new(Cell::new(false));
  for (s, items) in p.senders.iter().cloned().enumerate() {
    let tx: Arc<F> = if p.clones { Arc::new((*tx).clone()) } else { tx.clone() };
    let (got, closing, left, dropped) = (got.clone(), closing.clone(), left.clone(), dropped.clone());
    vsim::spawn(format!("sender{s}"), move || {
      for (i, (err, pause)) in items.iter().enumerate() {
        for _ in 0..*pause {
          vsim::yield_now("sender");
        }
        let gone = dropped.get();
        let r = if *err { tx.error((s, i)) } else if i % 2 == 0 { tx.send((s, i)) } else { tx.send_result(Ok((s, i))) };
        match r {
          Ok(()) if gone => vsim::fail("flux", "a flux whose receiver is gone took an element".into()),
          Err(e) if !dropped.get() => vsim::fail("flux", format!("a flux with a receiver refused an element | {e}")),
          _ => {}
        }
        got.sent.borrow_mut()[s] = i + 1;
      }
      left.set(left.get() - 1);
      if left.get() == 0 {
        closing.set(true);
        if complete {
          tx.complete();
        }
      }
      drop(tx);
    });
  }
  drop(tx);
  let g2 = got.clone();
  let done = Rc::new(Cell::new(false));
  let d2 = done.clone();
  vsim::spawn("receiver", move || {
    let mut i = 0;
    let mut given_up = 0;
    loop {
      if p.stop.is_some_and(|k| g2.n.get() >= k) && p.kind != 1 {
        vsim::stat("fault_receiver_dropped", 1);
        drop(rx);
        dropped.set(true);
        break;
      }
      let (op, k) = p.ops[i % p.ops.len()];
      i += 1;
      let r: Option<Result<Val, Val>> = match op {
        0 => match &mut rx {
          Rx::Rec(r) => vsim::block_on(r.next()),
          Rx::Flux(f) => match vsim::block_on(f.recv()) {
            Ok(r) => r,
            Err(e) => return vsim::fail("flux", format!("receiving failed | {e}")),
          },
        },
        2 if given_up < 40 => {
          let mut fut = match &rx {
            Rx::Rec(r) => r.recv(),
            Rx::Flux(f) => f.recv(),
          };
          let mut out = None;
          for _ in 0..=k {
            if let Poll::Ready(r) = vsim::poll_once(fut.as_mut()) {
              out = Some(r);
              break;
            }
            vsim::yield_now("receiver");
          }
          match out {
            Some(Ok(r)) => r,
            Some(Err(e)) => return vsim::fail("flux", format!("receiving failed | {e}")),
            None => {
              vsim::stat("fault_recv_given_up", 1);
              vsim::log(|| "gives up a receive".into());
              drop(fut);
              given_up += 1;
              continue;
            }
          }
        }
        4 => {
          if let Rx::Rec(r) = &rx {
            match r.eject() {
              Some(n) => {
                if vsim::block_on(r.recv()).is_ok() {
                  vsim::fail("flux", "a receiver that was taken out still receives".into());
                }
                rx = Rx::Rec(n);
              }
              None => return vsim::fail("flux", "a receiver that is there cannot be taken out".into()),
            }
          }
          // Taken out often enough: read.
          let read = i > 4 * p.ops.len() + 4;
          match &rx {
            Rx::Rec(_) if !read => continue,
            Rx::Rec(r) => match vsim::block_on(r.recv()) {
              Ok(r) => r,
              Err(e) => return vsim::fail("flux", format!("receiving failed | {e}")),
            },
            Rx::Flux(f) => match vsim::block_on(f.recv()) {
              Ok(r) => r,
              Err(e) => return vsim::fail("flux", format!("receiving failed | {e}")),
            },
          }
        }
        3 => match &rx {
          Rx::Rec(r) => {
            let mut c = r.clone();
            vsim::block_on(c.next())
          }
          Rx::Flux(f) => {
            let mut c = (**f).clone();
            vsim::block_on(c.next())
          }
        },
        5 => match &rx {
          Rx::Rec(r) => {
            let mut pipe = r.clone().pipe(Flux::new());
            vsim::block_on(pipe.next())
          }
          Rx::Flux(f) => {
            let mut pipe = (**f).clone().pipe(Flux::new());
            vsim::block_on(pipe.next())
          }
        },
        _ => {
          let fut = match &rx {
            Rx::Rec(r) => r.recv(),
            Rx::Flux(f) => f.recv(),
          };
          match vsim::block_on(fut) {
            Ok(r) => r,
            Err(e) => return vsim::fail("flux", format!("receiving failed | {e}")),
          }
        }
      };
      match r {
        Some(r) => g2.take(r),
        None => {
          g2.end(closing.get());
          break;
        }
      }
    }
    d2.set(true);
  });
  vsim::quiesce();
  let d = vsim::deadlocked();
  if !d.is_empty() {
    vsim::fail("stuck", format!("tasks wait for locks for ever | {d:?}"));
  }
  if !done.get() {
    vsim::fail("flux", format!("the receiver of a flux waits for ever | {} elements received, all sent", got.n.get()));
  }
}
