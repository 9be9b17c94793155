//! While guest code runs, memory it gives back is filled with 0xDD and kept until the run ends, so
//! that a pointer the guest handed out before (its buffers) never reads as something else: using it
//! shows as damaged bytes, the same in every execution.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Alloc;

struct Kept {
  p: *mut (*mut u8, Layout),
  len: usize,
  cap: usize,
}

thread_local! {
  static GUEST: Cell<bool> = const { Cell::new(false) };
  static KEPT: UnsafeCell<Kept> = const { UnsafeCell::new(Kept { p: std::ptr::null_mut(), len: 0, cap: 0 }) };
}

pub fn guest_mode(on: bool) {
  GUEST.with(|g| g.set(on));
}

/// Gives back everything kept on this OS thread.
pub fn end_run() {
  GUEST.with(|g| g.set(false));
  KEPT.with(|k| unsafe {
    let k = &mut *k.get();
    for i in 0..k.len {
      let (p, l) = *k.p.add(i);
      System.dealloc(p, l);
    }
    k.len = 0;
  });
}

unsafe fn keep(p: *mut u8, l: Layout) {
  std::ptr::write_bytes(p, 0xDD, l.size());
  KEPT.with(|k| {
    let k = &mut *k.get();
    if k.len == k.cap {
      let n = if k.cap == 0 { 1024 } else { k.cap * 2 };
      let lay = Layout::array::<(*mut u8, Layout)>(n).unwrap_unchecked();
      let q = System.alloc(lay) as *mut (*mut u8, Layout);
      if k.cap > 0 {
        std::ptr::copy_nonoverlapping(k.p, q, k.len);
        System.dealloc(k.p as *mut u8, Layout::array::<(*mut u8, Layout)>(k.cap).unwrap_unchecked());
      }
      k.p = q;
      k.cap = n;
    }
    *k.p.add(k.len) = (p, l);
    k.len += 1;
  });
}

unsafe impl GlobalAlloc for Alloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if GUEST.try_with(Cell::get).unwrap_or(false) {
      keep(p, l);
    } else {
      System.dealloc(p, l);
    }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if GUEST.try_with(Cell::get).unwrap_or(false) {
      let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
      if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        keep(p, l);
      }
      q
    } else {
      System.realloc(p, l, n)
    }
  }
}
