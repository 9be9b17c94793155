//! A run that ends this process (an abort, a wild access, an exhausted stack) is a violation too. It
//! cannot be minimised; its replay file names the seed and the number of the run.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

thread_local! {
  static RUN: Cell<u64> = const { Cell::new(u64::MAX) };
}

struct Info {
  prop: String,
  seed: u64,
  dir: String,
  file: Option<String>,
}

static INFO: OnceLock<Info> = OnceLock::new();

pub fn run(i: u64) {
  RUN.with(|r| r.set(i));
}

pub fn current() -> u64 {
  RUN.with(Cell::get)
}

pub fn install(prop: &str, seed: u64, dir: &str, file: Option<&str>) {
  let _ = INFO.set(Info {
    prop: prop.into(),
    seed,
    dir: dir.into(),
    file: file.map(Into::into),
  });
  unsafe {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = handler as extern "C" fn(libc::c_int) as usize;
    a.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
      libc::sigaction(s, &a, std::ptr::null_mut());
    }
  }
}

/// A line built without allocation, and without much of the handler's small stack.
struct Buf([u8; 1024], usize);
static mut OUT: Buf = Buf([0; 1024], 0);
static mut PATH: Buf = Buf([0; 1024], 0);
static BUSY: AtomicBool = AtomicBool::new(false);

impl Buf {
  fn new(&mut self) -> &mut Self {
    self.1 = 0;
    self
  }
  fn s(&mut self, s: &str) -> &mut Self {
    for b in s.bytes() {
      if self.1 < self.0.len() {
        self.0[self.1] = b;
        self.1 += 1;
      }
    }
    self
  }
  fn n(&mut self, mut n: u64) -> &mut Self {
    let mut d = [0u8; 20];
    let mut i = 20;
    loop {
      i -= 1;
      d[i] = b'0' + (n % 10) as u8;
      n /= 10;
      if n == 0 {
        break;
      }
    }
    while i < 20 && self.1 < self.0.len() {
      self.0[self.1] = d[i];
      self.1 += 1;
      i += 1;
    }
    self
  }
  fn to(&self, fd: libc::c_int) {
    unsafe {
      libc::write(fd, self.0.as_ptr().cast(), self.1);
    }
  }
}

extern "C" fn handler(sig: libc::c_int) {
  // The first one speaks.
  while BUSY.swap(true, Ordering::SeqCst) {
    unsafe {
      libc::pause();
    }
  }
  let i = RUN.with(Cell::get);
  let (out, path) = unsafe { (&mut *(&raw mut OUT), &mut *(&raw mut PATH)) };
  let Some(x) = INFO.get() else {
    unsafe { libc::_exit(3) }
  };
  if i == u64::MAX {
    out.new().s("crash outside a run, signal ").n(sig as u64).s("\n").to(2);
    unsafe { libc::_exit(3) }
  }
  match &x.file {
    Some(f) => {
      path.new().s(f);
    }
    None => {
      path.new().s(&x.dir).s("/").s(&x.prop).s("-crash-").n(x.seed).s("-").n(i).s(".json");
      let n = path.1.min(1023);
      path.0[n] = 0;
      let fd = unsafe { libc::open(path.0.as_ptr().cast(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644) };
      if fd >= 0 {
        out
          .new()
          .s("{\"property\": \"")
          .s(&x.prop)
          .s("\", \"signature\": \"crash: signal ")
          .n(sig as u64)
          .s("\", \"seed\": ")
          .n(x.seed)
          .s(", \"index\": ")
          .n(i)
          .s("}\n")
          .to(fd);
        unsafe {
          libc::close(fd);
        }
      }
    }
  }
  out
    .new()
    .s("crash: the code ended the process with signal ")
    .n(sig as u64)
    .s(" in run ")
    .n(i)
    .s(" of seed ")
    .n(x.seed)
    .s("\nVIOLATION property=")
    .s(&x.prop)
    .s(" replay=")
    .s(std::str::from_utf8(&path.0[..path.1]).unwrap_or("?"))
    .s("\n")
    .to(1);
  unsafe { libc::_exit(1) }
}
