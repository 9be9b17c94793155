pub use vsim::sync::pl::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
