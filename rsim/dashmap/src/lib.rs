//! DashMap over simulated locks: shards chosen by a fixed hash, guards that hold their shard.

use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

use vsim::sync::RawLock;

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0 ^ (self.0 >> 29)
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
  }
}

type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fnv>>;

pub struct Shard<K, V> {
  lock: RawLock,
  map: UnsafeCell<Map<K, V>>,
}

pub struct DashMap<K, V> {
  shards: Vec<Shard<K, V>>,
}

unsafe impl<K: Send, V: Send> Sync for Shard<K, V> {}
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}

impl<K: Eq + Hash, V> Default for DashMap<K, V> {
  fn default() -> Self {
    Self::new()
  }
}

impl<K, V> std::fmt::Debug for DashMap<K, V> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str("DashMap")
  }
}

impl<K: Eq + Hash, V> DashMap<K, V> {
  pub fn new() -> Self {
    DashMap {
      shards: (0..vsim::shards())
        .map(|_| Shard {
          lock: RawLock::new(),
          map: UnsafeCell::new(Map::default()),
        })
        .collect(),
    }
  }

  pub fn with_capacity(_: usize) -> Self {
    Self::new()
  }

  /// The entries, one shard at a time.
  pub fn iter(&self) -> impl Iterator<Item = mapref::multiple::RefMulti<'_, K, V>> + '_ {
    self.shards.iter().flat_map(|s| {
      s.lock.read();
      let held = std::rc::Rc::new(mapref::multiple::Held(s));
      let all: Vec<(&K, &V)> = Self::m(s).iter().map(|(k, v)| (k, v)).collect();
      all.into_iter().map(move |(k, v)| mapref::multiple::RefMulti { _held: held.clone(), k, v })
    })
  }

  pub fn alter(&self, k: &K, f: impl FnOnce(&K, V) -> V) {
    let s = self.shard(k);
    s.lock.write();
    if let Some((k, v)) = Self::m(s).remove_entry(k) {
      let v = f(&k, v);
      Self::m(s).insert(k, v);
    }
    s.lock.unlock_write();
  }

  fn shard<Q: Hash + ?Sized>(&self, k: &Q) -> &Shard<K, V> {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    k.hash(&mut h);
    &self.shards[(h.finish() % self.shards.len() as u64) as usize]
  }

  #[allow(clippy::mut_from_ref)]
  fn m(s: &Shard<K, V>) -> &mut Map<K, V> {
    unsafe { &mut *s.map.get() }
  }

  pub fn insert(&self, k: K, v: V) -> Option<V> {
    let s = self.shard(&k);
    s.lock.write();
    let r = Self::m(s).insert(k, v);
    s.lock.unlock_write();
    r
  }

  pub fn remove<Q>(&self, k: &Q) -> Option<(K, V)>
  where
    K: Borrow<Q>,
    Q: Hash + Eq + ?Sized,
  {
    let s = self.shard(k);
    s.lock.write();
    let r = Self::m(s).remove_entry(k);
    s.lock.unlock_write();
    r
  }

  pub fn remove_if<Q>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
  where
    K: Borrow<Q>,
    Q: Hash + Eq + ?Sized,
  {
    let s = self.shard(k);
    s.lock.write();
    let ok = Self::m(s).get_key_value(k).is_some_and(|(k, v)| f(k, v));
    let r = if ok { Self::m(s).remove_entry(k) } else { None };
    s.lock.unlock_write();
    r
  }

  pub fn get<Q>(&self, k: &Q) -> Option<mapref::one::Ref<'_, K, V>>
  where
    K: Borrow<Q>,
    Q: Hash + Eq + ?Sized,
  {
    let s = self.shard(k);
    s.lock.read();
    match Self::m(s).get_key_value(k) {
      Some((k, v)) => Some(mapref::one::Ref { s, k, v }),
      None => {
        s.lock.unlock_read();
        None
      }
    }
  }

  pub fn get_mut<Q>(&self, k: &Q) -> Option<mapref::one::RefMut<'_, K, V>>
  where
    K: Borrow<Q>,
    Q: Hash + Eq + ?Sized,
  {
    let s = self.shard(k);
    s.lock.write();
    match Self::m(s).get_mut(k) {
      Some(v) => Some(mapref::one::RefMut { s, v, p: std::marker::PhantomData }),
      None => {
        s.lock.unlock_write();
        None
      }
    }
  }

  pub fn contains_key<Q>(&self, k: &Q) -> bool
  where
    K: Borrow<Q>,
    Q: Hash + Eq + ?Sized,
  {
    self.get(k).is_some()
  }

  pub fn len(&self) -> usize {
    self
      .shards
      .iter()
      .map(|s| {
        s.lock.read();
        let n = Self::m(s).len();
        s.lock.unlock_read();
        n
      })
      .sum()
  }

  pub fn is_empty(&self) -> bool {
    self.len() == 0
  }

  pub fn clear(&self) {
    self.retain(|_, _| false);
  }

  pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
    for s in &self.shards {
      s.lock.write();
      Self::m(s).retain(|k, v| f(k, v));
      s.lock.unlock_write();
    }
  }

  pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
    let s = self.shard(&k);
    s.lock.write();
    if Self::m(s).contains_key(&k) {
      mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { s, k })
    } else {
      mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { s, k })
    }
  }
}

pub mod mapref {
  pub mod one {
    use crate::Shard;
    pub struct Ref<'a, K, V> {
      pub(crate) s: &'a Shard<K, V>,
      pub(crate) k: &'a K,
      pub(crate) v: &'a V,
    }
    impl<K, V> Ref<'_, K, V> {
      pub fn pair(&self) -> (&K, &V) {
        (self.k, self.v)
      }
      pub fn key(&self) -> &K {
        self.k
      }
      pub fn value(&self) -> &V {
        self.v
      }
    }
    impl<K, V> std::ops::Deref for Ref<'_, K, V> {
      type Target = V;
      fn deref(&self) -> &V {
        self.v
      }
    }
    impl<K, V> Drop for Ref<'_, K, V> {
      fn drop(&mut self) {
        self.s.lock.unlock_read();
      }
    }
    pub struct RefMut<'a, K, V> {
      pub(crate) s: &'a Shard<K, V>,
      pub(crate) v: &'a mut V,
      pub(crate) p: std::marker::PhantomData<&'a mut V>,
    }
    impl<K, V> RefMut<'_, K, V> {
      pub fn value(&self) -> &V {
        self.v
      }
      pub fn value_mut(&mut self) -> &mut V {
        self.v
      }
    }
    impl<K, V> std::ops::Deref for RefMut<'_, K, V> {
      type Target = V;
      fn deref(&self) -> &V {
        self.v
      }
    }
    impl<K, V> std::ops::DerefMut for RefMut<'_, K, V> {
      fn deref_mut(&mut self) -> &mut V {
        self.v
      }
    }
    impl<K, V> Drop for RefMut<'_, K, V> {
      fn drop(&mut self) {
        self.s.lock.unlock_write();
      }
    }
  }

  pub mod multiple {
    use crate::Shard;
    pub struct Held<'a, K, V>(pub(crate) &'a Shard<K, V>);
    impl<K, V> Drop for Held<'_, K, V> {
      fn drop(&mut self) {
        self.0.lock.unlock_read();
      }
    }
    pub struct RefMulti<'a, K, V> {
      pub(crate) _held: std::rc::Rc<Held<'a, K, V>>,
      pub(crate) k: &'a K,
      pub(crate) v: &'a V,
    }
    impl<K, V> RefMulti<'_, K, V> {
      pub fn key(&self) -> &K {
        self.k
      }
      pub fn value(&self) -> &V {
        self.v
      }
      pub fn pair(&self) -> (&K, &V) {
        (self.k, self.v)
      }
    }
    impl<K, V> std::ops::Deref for RefMulti<'_, K, V> {
      type Target = V;
      fn deref(&self) -> &V {
        self.v
      }
    }
  }

  pub mod entry {
    use super::one::RefMut;
    use crate::Shard;
    use std::hash::Hash;

    impl<'a, K: Eq + Hash + Clone, V> Entry<'a, K, V> {
      pub fn key(&self) -> &K {
        match self {
          Entry::Occupied(e) => &e.k,
          Entry::Vacant(e) => &e.k,
        }
      }
      pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self {
        match self {
          Entry::Occupied(mut e) => {
            f(e.get_mut());
            Entry::Occupied(e)
          }
          e => e,
        }
      }
      pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        match self {
          Entry::Occupied(e) => e.into_ref(),
          Entry::Vacant(e) => e.insert(f()),
        }
      }
      pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
      }
      pub fn or_default(self) -> RefMut<'a, K, V>
      where
        V: Default,
      {
        self.or_insert_with(V::default)
      }
    }

    pub enum Entry<'a, K, V> {
      Occupied(OccupiedEntry<'a, K, V>),
      Vacant(VacantEntry<'a, K, V>),
    }

    pub struct OccupiedEntry<'a, K, V> {
      pub(crate) s: &'a Shard<K, V>,
      pub(crate) k: K,
    }

    // Like dashmap's, an entry may move to another thread.
    unsafe impl<K: Send, V: Send> Send for OccupiedEntry<'_, K, V> {}
    unsafe impl<K: Sync, V: Sync> Sync for OccupiedEntry<'_, K, V> {}

    impl<'a, K: Eq + Hash + Clone, V> OccupiedEntry<'a, K, V> {
      /// The lock passes on to the reference.
      pub fn into_ref(self) -> RefMut<'a, K, V> {
        let s = self.s;
        let v = unsafe { &mut *s.map.get() }.get_mut(&self.k).expect("entry");
        let me = std::mem::ManuallyDrop::new(self);
        drop(unsafe { std::ptr::read(&me.k) });
        RefMut {
          s,
          v,
          p: std::marker::PhantomData,
        }
      }
    }
    impl<K: Eq + Hash, V> OccupiedEntry<'_, K, V> {
      pub fn get(&self) -> &V {
        unsafe { &*self.s.map.get() }.get(&self.k).expect("entry")
      }
      pub fn get_mut(&mut self) -> &mut V {
        unsafe { &mut *self.s.map.get() }.get_mut(&self.k).expect("entry")
      }
      pub fn key(&self) -> &K {
        &self.k
      }
      pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
      }
      pub fn remove(self) -> V {
        unsafe { &mut *self.s.map.get() }.remove(&self.k).expect("entry")
      }
      pub fn remove_entry(self) -> (K, V) {
        unsafe { &mut *self.s.map.get() }.remove_entry(&self.k).expect("entry")
      }
    }
    impl<K, V> Drop for OccupiedEntry<'_, K, V> {
      fn drop(&mut self) {
        self.s.lock.unlock_write();
      }
    }

    pub struct VacantEntry<'a, K, V> {
      pub(crate) s: &'a Shard<K, V>,
      pub(crate) k: K,
    }
    unsafe impl<K: Send, V: Send> Send for VacantEntry<'_, K, V> {}
    unsafe impl<K: Sync, V: Sync> Sync for VacantEntry<'_, K, V> {}
    impl<'a, K: Eq + Hash + Clone, V> VacantEntry<'a, K, V> {
      /// The lock passes on to the reference.
      pub fn insert(self, v: V) -> RefMut<'a, K, V> {
        let s = self.s;
        let me = std::mem::ManuallyDrop::new(self);
        let k = unsafe { std::ptr::read(&me.k) };
        let m = unsafe { &mut *s.map.get() };
        m.insert(k.clone(), v);
        let v = m.get_mut(&k).expect("entry");
        RefMut {
          s,
          v,
          p: std::marker::PhantomData,
        }
      }
      pub fn key(&self) -> &K {
        &self.k
      }
    }
    impl<K, V> Drop for VacantEntry<'_, K, V> {
      fn drop(&mut self) {
        self.s.lock.unlock_write();
      }
    }
  }
}
