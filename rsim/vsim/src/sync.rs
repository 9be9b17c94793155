//! Stand-ins for std::sync: the same types, with a scheduling point at every operation.

pub use std::sync::{Arc, LazyLock, Once, OnceLock, Weak};
pub use std::sync::{LockResult, PoisonError, TryLockError};

pub mod atomic {
  pub use std::sync::atomic::{compiler_fence, fence, Ordering};

  macro_rules! int {
    ($($n:ident $t:ty),*) => {$(
      #[derive(Default, Debug)]
      pub struct $n(std::sync::atomic::$n);
      impl $n {
        pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$n::new(v)) }
        pub fn load(&self, o: Ordering) -> $t { crate::point("load"); self.0.load(o) }
        pub fn store(&self, v: $t, o: Ordering) { crate::point("store"); self.0.store(v, o) }
        pub fn swap(&self, v: $t, o: Ordering) -> $t { crate::point("swap"); self.0.swap(v, o) }
        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_add"); self.0.fetch_add(v, o) }
        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_sub"); self.0.fetch_sub(v, o) }
        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_max"); self.0.fetch_max(v, o) }
        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_min"); self.0.fetch_min(v, o) }
        pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_and"); self.0.fetch_and(v, o) }
        pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { crate::point("fetch_or"); self.0.fetch_or(v, o) }
        pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
          crate::point("cas"); self.0.compare_exchange(a, b, x, y)
        }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> {
          crate::point("cas"); self.0.compare_exchange(a, b, x, y)
        }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, x: Ordering, y: Ordering, f: F) -> Result<$t, $t> {
          crate::point("fetch_update"); self.0.fetch_update(x, y, f)
        }
        pub fn into_inner(self) -> $t { self.0.into_inner() }
        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
      }
      impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
    )*};
  }
  int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

  #[derive(Default, Debug)]
  pub struct AtomicBool(std::sync::atomic::AtomicBool);
  impl AtomicBool {
    pub const fn new(v: bool) -> Self {
      Self(std::sync::atomic::AtomicBool::new(v))
    }
    pub fn load(&self, o: Ordering) -> bool {
      crate::point("load");
      self.0.load(o)
    }
    pub fn store(&self, v: bool, o: Ordering) {
      crate::point("store");
      self.0.store(v, o);
    }
    pub fn swap(&self, v: bool, o: Ordering) -> bool {
      crate::point("swap");
      self.0.swap(v, o)
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
      crate::point("fetch_and");
      self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
      crate::point("fetch_or");
      self.0.fetch_or(v, o)
    }
    pub fn compare_exchange(&self, a: bool, b: bool, x: Ordering, y: Ordering) -> Result<bool, bool> {
      crate::point("cas");
      self.0.compare_exchange(a, b, x, y)
    }
    pub fn into_inner(self) -> bool {
      self.0.into_inner()
    }
  }
}

/// The state of a reader-writer lock: -1 written, n > 0 read by n.
pub struct RawLock {
  state: std::cell::Cell<isize>,
  q: crate::WaitQ,
}

unsafe impl Send for RawLock {}
unsafe impl Sync for RawLock {}

impl Default for RawLock {
  fn default() -> Self {
    Self::new()
  }
}

impl RawLock {
  pub fn new() -> Self {
    RawLock {
      state: std::cell::Cell::new(0),
      q: crate::WaitQ::default(),
    }
  }
  pub fn write(&self) {
    crate::point("lock");
    while self.state.get() != 0 && !crate::ending() {
      self.q.wait("lock");
    }
    self.state.set(-1);
  }
  pub fn try_write(&self) -> bool {
    crate::point("try_lock");
    if self.state.get() != 0 {
      return false;
    }
    self.state.set(-1);
    true
  }
  pub fn unlock_write(&self) {
    self.state.set(0);
    self.q.wake_all();
    crate::point("unlock");
  }
  pub fn read(&self) {
    crate::point("rlock");
    while self.state.get() < 0 && !crate::ending() {
      self.q.wait("rlock");
    }
    self.state.set(self.state.get() + 1);
  }
  pub fn unlock_read(&self) {
    self.state.set(self.state.get() - 1);
    if self.state.get() == 0 {
      self.q.wake_all();
    }
    crate::point("runlock");
  }
  pub fn locked(&self) -> bool {
    self.state.get() != 0
  }
}

macro_rules! guards {
  ($lock:ident, $wg:ident, $rg:ident) => {
    pub struct $wg<'a, T: ?Sized> {
      l: &'a $lock<T>,
      _p: std::marker::PhantomData<*mut ()>,
    }
    impl<T: ?Sized> Drop for $wg<'_, T> {
      fn drop(&mut self) {
        self.l.raw.unlock_write();
      }
    }
    impl<T: ?Sized> std::ops::Deref for $wg<'_, T> {
      type Target = T;
      fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
      }
    }
    impl<T: ?Sized> std::ops::DerefMut for $wg<'_, T> {
      fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
      }
    }
    unsafe impl<T: ?Sized + Sync> Sync for $wg<'_, T> {}
  };
}

/// parking_lot's locks.
pub mod pl {
  use super::RawLock;
  use std::cell::UnsafeCell;

  pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    v: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
  unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
  guards!(Mutex, MutexGuard, X1);

  impl<T> Mutex<T> {
    pub fn new(v: T) -> Self {
      Mutex {
        raw: RawLock::new(),
        v: UnsafeCell::new(v),
      }
    }
    pub fn into_inner(self) -> T {
      self.v.into_inner()
    }
  }
  impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
      self.raw.write();
      MutexGuard {
        l: self,
        _p: std::marker::PhantomData,
      }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
      self.raw.try_write().then(|| MutexGuard {
        l: self,
        _p: std::marker::PhantomData,
      })
    }
    pub fn is_locked(&self) -> bool {
      self.raw.locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
      self.v.get_mut()
    }
  }
  impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
      Self::new(T::default())
    }
  }

  pub struct RwLock<T: ?Sized> {
    raw: RawLock,
    v: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
  unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
  guards!(RwLock, RwLockWriteGuard, RwLockReadGuard);

  pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: std::marker::PhantomData<*mut ()>,
  }
  impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
      self.l.raw.unlock_read();
    }
  }
  impl<T: ?Sized> std::ops::Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.l.v.get() }
    }
  }

  impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
      RwLock {
        raw: RawLock::new(),
        v: UnsafeCell::new(v),
      }
    }
    pub fn into_inner(self) -> T {
      self.v.into_inner()
    }
  }
  impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
      self.raw.read();
      RwLockReadGuard {
        l: self,
        _p: std::marker::PhantomData,
      }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
      // Refused when anybody is inside: that may always happen.
      if self.raw.locked() {
        return None;
      }
      Some(self.read())
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
      self.raw.try_write().then(|| RwLockWriteGuard {
        l: self,
        _p: std::marker::PhantomData,
      })
    }
    pub fn get_mut(&mut self) -> &mut T {
      self.v.get_mut()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
      self.raw.write();
      RwLockWriteGuard {
        l: self,
        _p: std::marker::PhantomData,
      }
    }
  }
  impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
      Self::new(T::default())
    }
  }
}

macro_rules! opaque {
  ($($t:ident)*) => {$(
    impl<T: ?Sized> std::fmt::Debug for $t<T> {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(stringify!($t))
      }
    }
    impl<T> From<T> for $t<T> {
      fn from(v: T) -> Self {
        Self::new(v)
      }
    }
  )*};
}
opaque!(Mutex RwLock);
mod opaque_pl {
  use super::pl::{Mutex, RwLock};
  opaque!(Mutex RwLock);
}

/// std's Mutex and RwLock: never poisoned here (a panic ends the run).
pub struct Mutex<T: ?Sized>(pl::Mutex<T>);
pub use pl::{MutexGuard, RwLockReadGuard, RwLockWriteGuard};
impl<T> Mutex<T> {
  pub fn new(v: T) -> Self {
    Mutex(pl::Mutex::new(v))
  }
  pub fn into_inner(self) -> LockResult<T> {
    Ok(self.0.into_inner())
  }
}
impl<T: ?Sized> Mutex<T> {
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    Ok(self.0.lock())
  }
  pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError<MutexGuard<'_, T>>> {
    self.0.try_lock().ok_or(TryLockError::WouldBlock)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    Ok(self.0.get_mut())
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Self::new(T::default())
  }
}
pub struct RwLock<T: ?Sized>(pl::RwLock<T>);
impl<T> RwLock<T> {
  pub fn new(v: T) -> Self {
    RwLock(pl::RwLock::new(v))
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    Ok(self.0.read())
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    Ok(self.0.write())
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    Self::new(T::default())
  }
}
