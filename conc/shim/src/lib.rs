//! Stands in for parking_lot: the same types, built on the same lock_api, with raw locks whose
//! scheduling is decided by the symbolic executor (or, natively, by the tape: see xsrt).
//! Modelled on parking_lot 0.12: a queued writer keeps new shared readers out, recursive reads
//! pass it, downgrading does not let a writer in between.
use std::cell::UnsafeCell;
pub use lock_api;
pub use lock_api::{RawMutex as _, RawRwLock as _};

pub struct RawRwLock(UnsafeCell<u8>);
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}
impl RawRwLock {
    fn a(&self) -> u64 {
        self as *const Self as u64
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    const INIT: RawRwLock = RawRwLock(UnsafeCell::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        xsrt::lock(self.a(), 0)
    }
    fn try_lock_shared(&self) -> bool {
        xsrt::try_lock(self.a(), 0)
    }
    unsafe fn unlock_shared(&self) {
        xsrt::unlock(self.a(), 0)
    }
    fn lock_exclusive(&self) {
        xsrt::lock(self.a(), 1)
    }
    fn try_lock_exclusive(&self) -> bool {
        xsrt::try_lock(self.a(), 1)
    }
    unsafe fn unlock_exclusive(&self) {
        xsrt::unlock(self.a(), 1)
    }
    fn is_locked(&self) -> bool {
        xsrt::locked(self.a())
    }
    fn is_locked_exclusive(&self) -> bool {
        if xsrt::try_lock(self.a(), 2) {
            xsrt::unlock(self.a(), 0);
            false
        } else {
            true
        }
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        xsrt::unlock(self.a(), 0)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        xsrt::unlock(self.a(), 1)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        xsrt::unlock(self.a(), 3)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        xsrt::lock(self.a(), 2)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        xsrt::try_lock(self.a(), 2)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        xsrt::lock(self.a(), 4)
    }
    fn try_lock_upgradable(&self) -> bool {
        xsrt::try_lock(self.a(), 4)
    }
    unsafe fn unlock_upgradable(&self) {
        xsrt::unlock(self.a(), 4)
    }
    unsafe fn upgrade(&self) {
        xsrt::lock(self.a(), 5)
    }
    unsafe fn try_upgrade(&self) -> bool {
        xsrt::try_lock(self.a(), 5)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        xsrt::unlock(self.a(), 6)
    }
    unsafe fn downgrade_to_upgradable(&self) {
        xsrt::unlock(self.a(), 7)
    }
}

// a timed request may give up at once: the time a thread loses before it looks is not bounded
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_shared_for(&self, _: Self::Duration) -> bool {
        xsrt::try_lock(self.a(), 0)
    }
    fn try_lock_shared_until(&self, _: Self::Instant) -> bool {
        xsrt::try_lock(self.a(), 0)
    }
    fn try_lock_exclusive_for(&self, _: Self::Duration) -> bool {
        xsrt::try_lock(self.a(), 1)
    }
    fn try_lock_exclusive_until(&self, _: Self::Instant) -> bool {
        xsrt::try_lock(self.a(), 1)
    }
}

pub struct RawMutex(UnsafeCell<u8>);
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    const INIT: RawMutex = RawMutex(UnsafeCell::new(0));
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        xsrt::lock(self as *const Self as u64, 1)
    }
    fn try_lock(&self) -> bool {
        xsrt::try_lock(self as *const Self as u64, 1)
    }
    unsafe fn unlock(&self) {
        xsrt::unlock(self as *const Self as u64, 1)
    }
    fn is_locked(&self) -> bool {
        xsrt::locked(self as *const Self as u64)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_for(&self, _: Self::Duration) -> bool {
        xsrt::try_lock(self as *const Self as u64, 1)
    }
    fn try_lock_until(&self, _: Self::Instant) -> bool {
        xsrt::try_lock(self as *const Self as u64, 1)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        xsrt::unlock(self as *const Self as u64, 1)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
