//! Stands in for wasmtime: the "module" is the real guest crate built natively, its exports are
//! called on the calling task, its imports come back here. Each instance has a linear memory of its
//! own; the guest's two buffers live at fixed addresses of it and are copied in and out whenever
//! control crosses the boundary, and everything around them is checked for stray writes.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub use anyhow::{Error, Result};

pub const GUEST_BUF: usize = 0x1000;
pub const HOST_BUF: usize = 0x20000;
pub const OPLIST: usize = 0x38000;
pub const MEM: usize = 0x50000;
const FILL: u8 = 0xA5;
/// Follows the memory: nothing may ever be written there.
pub const GUARD: usize = 0x20000;

/// What the harness provides: the guest's exports, as native functions.
#[derive(Clone, Copy)]
pub struct Exports {
  pub start: Option<fn()>,
  pub init: fn(u32, u32, u32),
  pub send: fn(u32),
  pub op_list: Option<fn()>,
}

/// Called around guest code, so that the harness knows on whose behalf memory is used.
pub struct Hooks {
  pub exports: Exports,
  pub guest_mode: fn(bool),
  /// A guest call ended in a trap (a panic of the guest).
  pub trap: fn(String),
  /// Frames are kept back and passed on several at a time: by the guest, and to the guest.
  pub pack: (bool, bool),
  /// Damaged frames that get in between those.
  pub junk: Vec<Vec<u8>>,
  /// The sizes of the buffers the guest is asked for, if not those the host asks for.
  pub sizes: Option<(u32, u32)>,
}

/// A damaged frame, if one is due and fits.
fn junk(b: &mut Vec<u8>, max: usize) {
  let j = HOOKS.with(|h| {
    let h = h.borrow();
    let v = h.as_ref().map_or(&[][..], |h| &h.junk);
    if v.is_empty() || vsim::choose(4) != 0 {
      return vec![];
    }
    v[vsim::choose(v.len())].clone()
  });
  if !j.is_empty() && b.len() + j.len() <= max {
    b.extend_from_slice(&j);
    vsim::stat("fault_damaged_in_batch", 1);
  }
}

thread_local! {
  static HOOKS: RefCell<Option<Hooks>> = const { RefCell::new(None) };
  // The guest calls in progress, by task: a task runs at most one guest at a time.
  static CALLS: RefCell<BTreeMap<usize, Vec<Arc<Call>>>> = const { RefCell::new(BTreeMap::new()) };
  static STATS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub fn set_hooks(h: Hooks) {
  HOOKS.with(|c| *c.borrow_mut() = Some(h));
  CALLS.with(|c| c.borrow_mut().clear());
}

struct Call {
  inst: Arc<Inst>,
  store: *mut (),
  host_panic: RefCell<Option<Box<dyn std::any::Any + Send>>>,
}

type Import = Arc<dyn Fn(*mut (), &Arc<Inst>, &[Val]) -> Result<()> + Send + Sync>;

struct Inst {
  imports: HashMap<String, Import>,
  mem: Cell<*mut u8>,
  guest_native: Cell<*mut u8>,
  host_native: Cell<*mut u8>,
  gsize: Cell<usize>,
  hsize: Cell<usize>,
  inside: Cell<bool>,
  /// What the guest sends and what it is sent, not passed on yet.
  out: RefCell<Vec<u8>>,
  held: RefCell<Vec<u8>>,
  /// What is kept back is being passed on.
  passing: Cell<bool>,
  /// The guest gives any pointers it likes: only the end of its memory is checked.
  wild: Cell<bool>,
}

// The simulation runs on one OS thread.
unsafe impl Send for Inst {}
unsafe impl Sync for Inst {}

impl Drop for Inst {
  fn drop(&mut self) {
    unsafe {
      drop(Vec::from_raw_parts(self.mem.get(), MEM + GUARD, MEM + GUARD));
    }
  }
}

impl Inst {
  fn slice(&self) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(self.mem.get(), MEM) }
  }

  /// Nothing outside the guest's buffer may have been written by the host.
  fn check(&self, when: &str) {
    let g = unsafe { std::slice::from_raw_parts(self.mem.get().add(MEM), GUARD) };
    if let Some(i) = g.iter().position(|b| *b != FILL) {
      vsim::fail("bounds", format!("the host wrote past the end of the guest's memory | {when}: {i} bytes past it"));
    }
    if self.wild.get() {
      return;
    }
    let m = self.slice();
    let bad = |r: std::ops::Range<usize>| r.clone().find(|i| m[*i] != FILL);
    let g = GUEST_BUF + self.gsize.get();
    let h = HOST_BUF + self.hsize.get();
    if let Some(i) = bad(0..GUEST_BUF).or_else(|| bad(g..HOST_BUF)).or_else(|| bad(h..OPLIST)) {
      vsim::fail(
        "bounds",
        format!("the host wrote outside the buffers of the guest | {when}: address {i:#x}, buffer {GUEST_BUF:#x}+{}", self.gsize.get()),
      );
    }
  }

  fn to_guest(&self) {
    self.check("before a guest call");
    let p = self.guest_native.get();
    if !p.is_null() {
      let n = self.gsize.get();
      unsafe { std::ptr::copy_nonoverlapping(self.mem.get().add(GUEST_BUF), p, n) };
    }
  }

  fn from_guest(&self) {
    let p = self.host_native.get();
    if !p.is_null() {
      let n = self.hsize.get();
      unsafe { std::ptr::copy_nonoverlapping(p, self.mem.get().add(HOST_BUF), n) };
    }
  }
}

// ---- imports, called by the guest ----

fn import(name: &str, before: impl FnOnce(&Inst) -> Vec<Val>) {
  let call = CALLS.with(|c| c.borrow().get(&vsim::current()).and_then(|v| v.last().cloned()));
  let Some(call) = call else {
    vsim::harness("a guest import called outside a guest call".into());
  };
  let Some(f) = call.inst.imports.get(name).cloned() else {
    vsim::harness(format!("no import {name}"));
  };
  let args = before(&call.inst);
  mode(false);
  vsim::point("guest -> host");
  let r = catch_unwind(AssertUnwindSafe(|| f(call.store, &call.inst, &args)));
  mode(true);
  match r {
    Ok(Ok(())) => {}
    Ok(Err(e)) => panic!("host function {name} failed: {e}"),
    Err(p) => {
      if !vsim::ending() {
        *call.host_panic.borrow_mut() = Some(p);
        resume_unwind(Box::new(()));
      }
      resume_unwind(p);
    }
  }
}

pub fn import_init(guest: usize, host: usize) {
  import("__init_buffers", |i| {
    i.guest_native.set(guest as *mut u8);
    i.host_native.set(host as *mut u8);
    vec![Val::I32(GUEST_BUF as i32), Val::I32(HOST_BUF as i32)]
  });
}

pub fn import_send(size: usize) {
  if HOOKS.with(|h| h.borrow().as_ref().is_some_and(|h| h.pack.0)) {
    if let Some(c) = CALLS.with(|c| c.borrow().get(&vsim::current()).and_then(|v| v.last().cloned())) {
      let i = &c.inst;
      let p = i.host_native.get();
      if !p.is_null() && size <= i.hsize.get() {
        if i.out.borrow().len() + size > i.hsize.get() {
          send_out();
        }
        let b = unsafe { std::slice::from_raw_parts(p, size) };
        let mut out = i.out.take();
        out.extend_from_slice(b);
        junk(&mut out, i.hsize.get());
        i.out.replace(out);
        if vsim::choose(3) == 0 {
          send_out();
        }
        return;
      }
    }
  }
  import("__send", |i| {
    if size > i.hsize.get() {
      vsim::fail(
        "bounds",
        format!("the guest announced more bytes than its buffer holds | {size} of {}", i.hsize.get()),
      );
    }
    i.from_guest();
    vec![Val::I32(size as i32)]
  });
}

/// Passes on what the guest sent.
fn send_out() {
  let Some(c) = CALLS.with(|c| c.borrow().get(&vsim::current()).and_then(|v| v.last().cloned())) else { return };
  let b = std::mem::take(&mut *c.inst.out.borrow_mut());
  if b.is_empty() {
    return;
  }
  import("__send", |i| {
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), i.mem.get().add(HOST_BUF), b.len()) };
    vsim::stat("packed_sends", 1);
    vec![Val::I32(b.len() as i32)]
  });
}

pub fn import_op_list(ptr: usize, len: usize) {
  import("__op_list", |i| {
    let n = len.min(MEM - OPLIST);
    unsafe { std::ptr::copy_nonoverlapping(ptr as *const u8, i.mem.get().add(OPLIST), n) };
    vec![Val::I32(OPLIST as i32), Val::I32(len as i32)]
  });
}

/// For a guest that is not the real one: any arguments at all.
pub fn import_raw(name: &str, args: &[i32]) {
  let v = args.iter().map(|a| Val::I32(*a)).collect();
  import(name, |i| {
    i.wild.set(true);
    v
  });
}

/// Writes into the memory of the guest that is running.
pub fn poke(at: usize, b: &[u8]) {
  if let Some(c) = CALLS.with(|c| c.borrow().get(&vsim::current()).and_then(|v| v.last().cloned())) {
    let m = c.inst.slice();
    let n = b.len().min(m.len().saturating_sub(at));
    m[at..at + n].copy_from_slice(&b[..n]);
  }
}

pub fn peek(at: usize, n: usize) -> Vec<u8> {
  CALLS.with(|c| c.borrow().get(&vsim::current()).and_then(|v| v.last().cloned())).map_or(vec![], |c| {
    let m = c.inst.slice();
    m[at.min(m.len())..(at + n).min(m.len())].to_vec()
  })
}

fn mode(on: bool) {
  HOOKS.with(|h| {
    if let Some(h) = &*h.borrow() {
      (h.guest_mode)(on);
    }
  });
}

// ---- the API ----

#[derive(Clone, Default)]
pub struct Config;
#[derive(Clone, Copy)]
pub enum Strategy {
  Auto,
  Cranelift,
}
#[derive(Clone, Copy)]
pub enum ProfilingStrategy {
  None,
  JitDump,
}
impl Config {
  pub fn new() -> Self {
    Config
  }
  pub fn epoch_interruption(&mut self, _: bool) -> &mut Self {
    self
  }
  pub fn strategy(&mut self, _: Strategy) -> &mut Self {
    self
  }
  pub fn profiler(&mut self, _: ProfilingStrategy) -> &mut Self {
    self
  }
  pub fn cache_config_load(&mut self, _: impl AsRef<std::path::Path>) -> Result<&mut Self> {
    Ok(self)
  }
  pub fn cache_config_load_default(&mut self) -> Result<&mut Self> {
    Ok(self)
  }
}

#[derive(Clone, Default)]
pub struct Engine;
impl Engine {
  pub fn new(_: &Config) -> Result<Self> {
    Ok(Engine)
  }
}

#[derive(Clone)]
pub struct Module;
impl Module {
  pub fn new(_: &Engine, bytes: impl AsRef<[u8]>) -> Result<Self> {
    if bytes.as_ref().is_empty() {
      return Err(anyhow::anyhow!("unexpected end-of-file"));
    }
    Ok(Module)
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ValType {
  I32,
  I64,
  F32,
  F64,
}
#[derive(Clone, Debug)]
pub struct FuncType(#[allow(dead_code)] Vec<ValType>);
impl FuncType {
  pub fn new(p: impl IntoIterator<Item = ValType>, _: impl IntoIterator<Item = ValType>) -> Self {
    FuncType(p.into_iter().collect())
  }
}
#[derive(Clone, Copy, Debug)]
pub enum Val {
  I32(i32),
  I64(i64),
}
impl Val {
  pub fn i32(&self) -> Option<i32> {
    match self {
      Val::I32(v) => Some(*v),
      Val::I64(_) => None,
    }
  }
  pub fn unwrap_i32(&self) -> i32 {
    self.i32().expect("expected i32")
  }
}

pub struct Store<T>(Box<StoreInner<T>>);
pub struct StoreInner<T> {
  data: T,
}
unsafe impl<T: Send> Send for StoreInner<T> {}

impl<T> Store<T> {
  pub fn new(_: &Engine, data: T) -> Self {
    Store(Box::new(StoreInner { data }))
  }
  pub fn data(&self) -> &T {
    &self.0.data
  }
  pub fn data_mut(&mut self) -> &mut T {
    &mut self.0.data
  }
  pub fn set_epoch_deadline(&mut self, _: u64) {}
}

pub struct StoreContext<'a, T>(&'a StoreInner<T>);
pub struct StoreContextMut<'a, T>(&'a mut StoreInner<T>);
impl<T> Clone for StoreContext<'_, T> {
  fn clone(&self) -> Self {
    *self
  }
}
impl<T> Copy for StoreContext<'_, T> {}

pub trait AsContext {
  type Data;
  fn as_context(&self) -> StoreContext<'_, Self::Data>;
}
pub trait AsContextMut: AsContext {
  fn as_context_mut(&mut self) -> StoreContextMut<'_, Self::Data>;
}
impl<T> AsContext for Store<T> {
  type Data = T;
  fn as_context(&self) -> StoreContext<'_, T> {
    StoreContext(&self.0)
  }
}
impl<T> AsContextMut for Store<T> {
  fn as_context_mut(&mut self) -> StoreContextMut<'_, T> {
    StoreContextMut(&mut self.0)
  }
}
impl<C: AsContext> AsContext for &C {
  type Data = C::Data;
  fn as_context(&self) -> StoreContext<'_, C::Data> {
    C::as_context(self)
  }
}
impl<C: AsContext> AsContext for &mut C {
  type Data = C::Data;
  fn as_context(&self) -> StoreContext<'_, C::Data> {
    C::as_context(self)
  }
}
impl<C: AsContextMut> AsContextMut for &mut C {
  fn as_context_mut(&mut self) -> StoreContextMut<'_, C::Data> {
    C::as_context_mut(self)
  }
}
impl<T> AsContext for Caller<'_, T> {
  type Data = T;
  fn as_context(&self) -> StoreContext<'_, T> {
    StoreContext(self.store)
  }
}
impl<T> AsContextMut for Caller<'_, T> {
  fn as_context_mut(&mut self) -> StoreContextMut<'_, T> {
    StoreContextMut(self.store)
  }
}
impl<'a, T> From<&'a Store<T>> for StoreContext<'a, T> {
  fn from(s: &'a Store<T>) -> Self {
    StoreContext(&s.0)
  }
}
impl<'a, T> From<&'a mut Store<T>> for StoreContext<'a, T> {
  fn from(s: &'a mut Store<T>) -> Self {
    StoreContext(&s.0)
  }
}
impl<T> StoreContext<'_, T> {
  pub fn data(&self) -> &T {
    &self.0.data
  }
}

pub struct Caller<'a, T> {
  store: &'a mut StoreInner<T>,
  inst: Arc<Inst>,
}
impl<T> Caller<'_, T> {
  pub fn data(&self) -> &T {
    &self.store.data
  }
  pub fn data_mut(&mut self) -> &mut T {
    &mut self.store.data
  }
  pub fn get_export(&mut self, name: &str) -> Option<Extern> {
    (name == "memory").then(|| Extern::Memory(mem_handle(&self.inst)))
  }
}

pub enum Extern {
  Memory(Memory),
}
impl Extern {
  pub fn into_memory(self) -> Option<Memory> {
    let Extern::Memory(m) = self;
    Some(m)
  }
}

/// A handle, like wasmtime's: plain data. It stays valid while its instance does.
#[derive(Clone, Copy)]
pub struct Memory(*const Inst);
unsafe impl Send for Memory {}
unsafe impl Sync for Memory {}

fn mem_handle(i: &Arc<Inst>) -> Memory {
  Memory(Arc::as_ptr(i))
}

impl Memory {
  #[allow(clippy::missing_safety_doc)]
  pub fn data<'a, T: 'a>(&self, _: impl Into<StoreContext<'a, T>>) -> &'a [u8] {
    unsafe { &*(*self.0).slice() }
  }
  pub fn data_mut<'a, T: 'a>(&self, _: &'a mut StoreInner<T>) -> &'a mut [u8] {
    unsafe { (*self.0).slice() }
  }
  pub fn data_ptr(&self, _: impl AsContext) -> *mut u8 {
    unsafe { (*self.0).mem.get() }
  }
  pub fn data_size(&self, _: impl AsContext) -> usize {
    MEM
  }
  pub fn write(&self, _: impl AsContextMut, at: usize, b: &[u8]) -> Result<()> {
    let m = unsafe { (*self.0).slice() };
    if at + b.len() > m.len() {
      return Err(anyhow::anyhow!("out of bounds memory access"));
    }
    m[at..at + b.len()].copy_from_slice(b);
    Ok(())
  }
  pub fn read(&self, _: impl AsContext, at: usize, b: &mut [u8]) -> Result<()> {
    let m = unsafe { (*self.0).slice() };
    if at + b.len() > m.len() {
      return Err(anyhow::anyhow!("out of bounds memory access"));
    }
    b.copy_from_slice(&m[at..at + b.len()]);
    Ok(())
  }
}

type HostFn<T> = Arc<dyn Fn(Caller<'_, T>, &[Val], &mut [Val]) -> Result<()> + Send + Sync>;

pub struct Linker<T> {
  fns: HashMap<String, HostFn<T>>,
}
impl<T> Clone for Linker<T> {
  fn clone(&self) -> Self {
    Linker { fns: self.fns.clone() }
  }
}
impl<T: 'static> Linker<T> {
  pub fn new(_: &Engine) -> Self {
    Linker { fns: HashMap::new() }
  }
  pub fn func_new(
    &mut self,
    _module: &str,
    name: &str,
    _ty: FuncType,
    f: impl Fn(Caller<'_, T>, &[Val], &mut [Val]) -> Result<()> + Send + Sync + 'static,
  ) -> Result<&mut Self> {
    self.fns.insert(name.to_string(), Arc::new(f));
    Ok(self)
  }
  pub fn instantiate(&self, _: impl AsContextMut<Data = T>, _: &Module) -> Result<Instance> {
    let mut imports: HashMap<String, Import> = HashMap::new();
    for (k, f) in &self.fns {
      let f = f.clone();
      imports.insert(
        k.clone(),
        Arc::new(move |p, inst: &Arc<Inst>, args: &[Val]| {
          let store = unsafe { &mut *(p as *mut StoreInner<T>) };
          f(
            Caller {
              store,
              inst: inst.clone(),
            },
            args,
            &mut [],
          )
        }),
      );
    }
    let mut v = std::mem::ManuallyDrop::new(vec![FILL; MEM + GUARD]);
    Ok(Instance(Arc::new(Inst {
      imports,
      mem: Cell::new(v.as_mut_ptr()),
      guest_native: Cell::new(std::ptr::null_mut()),
      host_native: Cell::new(std::ptr::null_mut()),
      gsize: Cell::new(0),
      hsize: Cell::new(0),
      inside: Cell::new(false),
      out: RefCell::default(),
      held: RefCell::default(),
      passing: Cell::new(false),
      wild: Cell::new(false),
    })))
  }
}

#[derive(Clone)]
pub struct Instance(Arc<Inst>);

pub struct TypedFunc<P, R> {
  inst: Arc<Inst>,
  name: String,
  _p: PhantomData<fn(P) -> R>,
}
impl<P, R> Clone for TypedFunc<P, R> {
  fn clone(&self) -> Self {
    TypedFunc {
      inst: self.inst.clone(),
      name: self.name.clone(),
      _p: PhantomData,
    }
  }
}

pub trait Args {
  fn args(self) -> Vec<u32>;
}
impl Args for () {
  fn args(self) -> Vec<u32> {
    vec![]
  }
}
impl Args for i32 {
  fn args(self) -> Vec<u32> {
    vec![self as u32]
  }
}
impl Args for u32 {
  fn args(self) -> Vec<u32> {
    vec![self]
  }
}
impl Args for (u32, u32, u32) {
  fn args(self) -> Vec<u32> {
    vec![self.0, self.1, self.2]
  }
}

impl Instance {
  pub fn get_typed_func<P, R>(&self, _: impl AsContextMut, name: &str) -> Result<TypedFunc<P, R>> {
    let e = HOOKS.with(|h| h.borrow().as_ref().map(|h| h.exports)).expect("hooks");
    let ok = match name {
      "_start" => e.start.is_some(),
      "__wasmrs_init" | "__wasmrs_send" => true,
      "__wasmrs_op_list_request" => e.op_list.is_some(),
      _ => false,
    };
    if !ok {
      return Err(anyhow::anyhow!("failed to find function export `{name}`"));
    }
    Ok(TypedFunc {
      inst: self.0.clone(),
      name: name.to_string(),
      _p: PhantomData,
    })
  }
  pub fn get_memory(&self, _: impl AsContextMut, name: &str) -> Option<Memory> {
    (name == "memory").then(|| mem_handle(&self.0))
  }
}

impl<P: Args> TypedFunc<P, ()> {
  pub fn call<S: AsContextMut>(&self, mut store: S, p: P) -> Result<()> {
    let a = p.args();
    let ctx = store.as_context_mut();
    let sp = ctx.0 as *mut StoreInner<S::Data> as *mut ();
    vsim::point("host -> guest");
    if self.name == "__wasmrs_send" && HOOKS.with(|h| h.borrow().as_ref().is_some_and(|h| h.pack.1)) {
      return self.hold(sp, a[0] as usize);
    }
    enter(&self.inst, &self.name, sp, &a, None)
  }

  /// Keeps a frame back, to give it to the guest together with later ones.
  fn hold(&self, sp: *mut (), n: usize) -> Result<()> {
    let i = &self.inst;
    while i.passing.get() {
      vsim::yield_now("the guest is busy");
    }
    i.check("before a guest call");
    let n = n.min(i.gsize.get());
    if i.held.borrow().len() + n > i.gsize.get() {
      let b = i.slice()[GUEST_BUF..GUEST_BUF + n].to_vec();
      pass(i, sp)?;
      *i.held.borrow_mut() = b;
    } else {
      i.held.borrow_mut().extend_from_slice(&i.slice()[GUEST_BUF..GUEST_BUF + n]);
    }
    let mut held = i.held.take();
    junk(&mut held, i.gsize.get());
    i.held.replace(held);
    if vsim::choose(3) == 0 {
      return pass(i, sp);
    }
    let i = i.clone();
    vsim::spawn("passing", move || {
      for _ in 0..vsim::choose(6) {
        vsim::yield_now("later");
      }
      while i.passing.get() || i.inside.get() {
        vsim::yield_now("the guest is busy");
      }
      let _ = pass(&i, sp);
    });
    Ok(())
  }
}

fn pass(i: &Arc<Inst>, sp: *mut ()) -> Result<()> {
  let b = std::mem::take(&mut *i.held.borrow_mut());
  if b.is_empty() {
    return Ok(());
  }
  i.passing.set(true);
  vsim::stat("packed_calls", 1);
  let r = enter(i, "__wasmrs_send", sp, &[b.len() as u32], Some(&b));
  i.passing.set(false);
  r
}

fn enter(inst: &Arc<Inst>, name: &str, sp: *mut (), a: &[u32], frames: Option<&[u8]>) -> Result<()> {
  let (e, pack, sizes) = HOOKS.with(|h| h.borrow().as_ref().map(|h| (h.exports, h.pack.0, h.sizes))).expect("hooks");
  let mut a = a.to_vec();
  vsim::stat("guest_calls", 1);
  if inst.inside.replace(true) {
    vsim::fail("bounds", "two tasks are inside one guest at once".into());
  }
  if name == "__wasmrs_init" {
    if let Some((g, h)) = sizes {
      (a[0], a[1]) = (g, h);
    }
    inst.gsize.set(a[0] as usize);
    inst.hsize.set(a[1] as usize);
  }
  inst.to_guest();
  if let Some(b) = frames {
    // The host may be writing its next frame already.
    let p = inst.guest_native.get();
    if !p.is_null() {
      unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    }
  }
  let call = Arc::new(Call {
    inst: inst.clone(),
    store: sp,
    host_panic: RefCell::new(None),
  });
  let me = vsim::current();
  CALLS.with(|c| c.borrow_mut().entry(me).or_default().push(call.clone()));
  mode(true);
  let r = catch_unwind(AssertUnwindSafe(|| {
    match name {
      "_start" => (e.start.unwrap())(),
      "__wasmrs_init" => (e.init)(a[0], a[1], a[2]),
      "__wasmrs_send" => (e.send)(a[0]),
      _ => (e.op_list.unwrap())(),
    }
    if pack {
      send_out();
    }
  }));
  mode(false);
  CALLS.with(|c| {
    if let Some(v) = c.borrow_mut().get_mut(&me) {
      v.pop();
    }
  });
  inst.inside.set(false);
  match r {
    Ok(()) => {
      vsim::point("guest returned");
      Ok(())
    }
    Err(p) => {
      if vsim::ending() {
        resume_unwind(p);
      }
      if let Some(p) = call.host_panic.borrow_mut().take() {
        resume_unwind(p);
      }
      let m = vsim::take_panic().unwrap_or_default();
      let f = HOOKS.with(|h| h.borrow().as_ref().map(|h| h.trap)).expect("hooks");
      f(m.clone());
      Err(anyhow::anyhow!("wasm trap: wasm `unreachable` instruction executed"))
    }
  }
}
