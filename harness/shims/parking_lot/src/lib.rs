//! The real locks, with a point before each request where a driver may stop the thread.
use std::sync::OnceLock;
use lock_api::{RawMutex as M, RawRwLock as R};
static HOOK: OnceLock<fn()> = OnceLock::new();
pub fn hook(f: fn()) { let _ = HOOK.set(f); }
fn stop() { if let Some(f) = HOOK.get() { f() } }
pub struct RawMutex(real::RawMutex);
unsafe impl M for RawMutex {
    const INIT: RawMutex = RawMutex(real::RawMutex::INIT);
    type GuardMarker = <real::RawMutex as M>::GuardMarker;
    fn lock(&self) { stop(); self.0.lock() }
    fn try_lock(&self) -> bool { stop(); self.0.try_lock() }
    unsafe fn unlock(&self) { self.0.unlock() }
    fn is_locked(&self) -> bool { self.0.is_locked() }
}
pub struct RawRwLock(real::RawRwLock);
unsafe impl R for RawRwLock {
    const INIT: RawRwLock = RawRwLock(real::RawRwLock::INIT);
    type GuardMarker = <real::RawRwLock as R>::GuardMarker;
    fn lock_shared(&self) { stop(); self.0.lock_shared() }
    fn try_lock_shared(&self) -> bool { stop(); self.0.try_lock_shared() }
    unsafe fn unlock_shared(&self) { self.0.unlock_shared() }
    fn lock_exclusive(&self) { stop(); self.0.lock_exclusive() }
    fn try_lock_exclusive(&self) -> bool { stop(); self.0.try_lock_exclusive() }
    unsafe fn unlock_exclusive(&self) { self.0.unlock_exclusive() }
    fn is_locked(&self) -> bool { self.0.is_locked() }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub use real::{Condvar, Once, OnceState};
