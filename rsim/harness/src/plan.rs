//! Workloads.

use crate::tape::Tape;
use crate::world::{Call, End, Item, Kind};

/// What a check is about: the kinds of calls it makes most of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
  Rr,
  Stream,
  Chan,
  Cancel,
  Bounds,
}

/// A sink of the linear memory's buffer: how much fits.
pub const BUFFER: usize = 1024;

fn size(t: &mut Tape, full: bool, f: Focus) -> usize {
  match t.below(12) {
    0..=5 => 5 + t.n(20),
    6 | 7 => 5,
    8 | 9 => 5 + t.n(200),
    10 => 900 + t.n(60),
    _ if full && f == Focus::Bounds => 960 + t.n(80),
    _ if full => 5 + t.n(800),
    _ => 5 + t.n(70000),
  }
}

fn item(t: &mut Tape, full: bool, f: Focus) -> Item {
  let sz = size(t, full, f);
  let md = match t.below(6) {
    0..=2 => 0,
    3 | 4 => t.n(24),
    _ => t.n(if full { 40 } else { 3000 }),
  };
  Item { md, sz }
}

fn out_item(t: &mut Tape, full: bool, f: Focus) -> Item {
  let mut it = item(t, full, f);
  if t.p(10) {
    it.sz = t.n(5);
  }
  it
}

fn end(t: &mut Tape, gone: bool) -> End {
  match t.below(8) {
    0..=4 => End::Complete,
    5 | 6 => End::Error,
    _ if gone => End::Gone,
    _ => End::Complete,
  }
}

pub fn calls(t: &mut Tape, f: Focus, full: bool) -> Vec<Call> {
  let n = 1 + t.n(if full { 5 } else { 6 });
  let mut v = Vec::new();
  for id in 0..n {
    v.push(call(t, id, f, full));
  }
  v
}

fn call(t: &mut Tape, id: usize, f: Focus, full: bool) -> Call {
  let w: [u64; 4] = match f {
    Focus::Rr => [30, 50, 10, 10],
    Focus::Stream => [5, 15, 65, 15],
    Focus::Chan => [5, 10, 15, 70],
    Focus::Cancel => [5, 25, 35, 35],
    Focus::Bounds => [15, 30, 30, 25],
  };
  let mut k = t.below(100);
  let mut kind = Kind::Rr;
  for (i, x) in [Kind::Rr, Kind::Fnf, Kind::Rs, Kind::Rc].into_iter().enumerate() {
    let x2 = [w[1], w[0], w[2], w[3]][i];
    if k < x2 {
      kind = x;
      break;
    }
    k -= x2;
  }
  let drops = match f {
    Focus::Cancel => 60,
    Focus::Rr | Focus::Bounds => 5,
    _ => 12,
  };
  let mut c = Call {
    id,
    side: if full { 0 } else { t.n(2) },
    task: t.n(3),
    kind,
    op: t.n(3),
    req: item(t, full, f),
    pre: t.n(4),
    h_sync: t.p(25),
    h_yield: t.n(3),
    h_gate: None,
    h_err: full && t.p(8),
    out: vec![],
    out_end: End::Complete,
    hold: false,
    h_in_stop: None,
    input: vec![],
    in_end: End::Complete,
    in_hold: false,
    in_none: false,
    feeder: false,
    in_gate: None,
    take: None,
    recv: t.p(30),
    back: full && t.p(10),
    bad: if full && t.p(8) { 1 + t.below(2) as u8 } else { 0 },
  };
  match kind {
    Kind::Fnf => {
      c.out_end = if t.p(15) { End::Error } else { End::Complete };
      if t.p(20) {
        c.h_gate = Some(0);
      }
    }
    Kind::Rr => {
      c.out = vec![out_item(t, full, f)];
      c.out_end = if t.p(20) { End::Error } else { End::Complete };
      if t.p(25) {
        c.h_gate = Some(0);
      }
      if t.p(drops / 2) {
        c.take = Some(t.n(6));
      }
    }
    Kind::Rs | Kind::Rc => {
      let m = match t.below(8) {
        0 => 0,
        1..=4 => t.n(4),
        5 | 6 => t.n(8),
        _ => t.n(if f == Focus::Cancel { 40 } else { 24 }),
      };
      c.out = (0..m).map(|_| out_item(t, full, f)).collect();
      c.out_end = end(t, true);
      if t.p(20) {
        c.h_gate = Some(t.n(m + 1));
      }
      if t.p(drops) {
        c.take = Some(t.n(m + 1));
        c.hold = !c.h_sync && t.p(40);
      } else if t.p(4) {
        c.hold = !c.h_sync;
      }
      if kind == Kind::Rc {
        let m = match t.below(6) {
          0 => 0,
          1..=3 => t.n(4),
          _ => t.n(10),
        };
        c.input = (0..m).map(|_| item(t, full, f)).collect();
        c.in_end = end(t, true);
        c.feeder = t.p(70);
        if c.feeder {
          if t.p(20) {
            c.in_gate = Some(t.n(m + 1));
          }
          c.in_hold = t.p(drops / 3);
        }
        if t.p(if f == Focus::Cancel { 35 } else { 8 }) {
          c.h_in_stop = Some(1 + t.n(m + 1));
          if c.feeder && !c.in_hold {
            c.in_hold = t.p(30);
          }
        }
        if t.p(4) && !full {
          c.in_none = true;
          c.feeder = t.p(50);
        }
        if c.h_err || c.bad != 0 {
          c.in_hold = false;
        }
      }
    }
  }
  c
}
