//! The part of parking_lot's interface a store may use, on top of `std`, with a scheduling point
//! before every acquisition when the thread runs under `sched`.
pub mod sched;
use sched::Mode;
use std::fmt;
use std::ops::{Deref, DerefMut};

fn grab<T>(r: Result<T, std::sync::PoisonError<T>>) -> T {
    r.unwrap_or_else(|e| e.into_inner())
}
fn try_grab<T>(r: Result<T, std::sync::TryLockError<T>>) -> Option<T> {
    match r {
        Ok(g) => Some(g),
        Err(std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()),
        Err(std::sync::TryLockError::WouldBlock) => None,
    }
}
/// Tells the scheduler of the end of a critical section, after the lock is free.
struct Token(usize);
impl Drop for Token {
    fn drop(&mut self) {
        sched::release(self.0);
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
pub struct RwLockReadGuard<'a, T: ?Sized>(std::sync::RwLockReadGuard<'a, T>, Token);
pub struct RwLockWriteGuard<'a, T: ?Sized>(std::sync::RwLockWriteGuard<'a, T>, Token);
/// Excludes others like a writer.
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(std::sync::RwLockWriteGuard<'a, T>, Token);

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> T {
        grab(self.0.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn id(&self) -> usize {
        &self.0 as *const _ as *const u8 as usize
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        sched::acquire(self.id(), Mode::Read);
        RwLockReadGuard(grab(self.0.read()), Token(self.id()))
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        sched::acquire(self.id(), Mode::ReadRecursive);
        RwLockReadGuard(grab(self.0.read()), Token(self.id()))
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        sched::acquire(self.id(), Mode::Write);
        RwLockWriteGuard(grab(self.0.write()), Token(self.id()))
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        sched::acquire(self.id(), Mode::Write);
        RwLockUpgradableReadGuard(grab(self.0.write()), Token(self.id()))
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if !sched::try_acquire(self.id(), Mode::Read) {
            return None;
        }
        match try_grab(self.0.try_read()) {
            Some(g) => Some(RwLockReadGuard(g, Token(self.id()))),
            None => {
                sched::release(self.id());
                None
            }
        }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if !sched::try_acquire(self.id(), Mode::Write) {
            return None;
        }
        match try_grab(self.0.try_write()) {
            Some(g) => Some(RwLockWriteGuard(g, Token(self.id()))),
            None => {
                sched::release(self.id());
                None
            }
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        grab(self.0.get_mut())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(g: Self) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard(g.0, g.1)
    }
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
pub struct MutexGuard<'a, T: ?Sized>(std::sync::MutexGuard<'a, T>, Token);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        grab(self.0.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize {
        &self.0 as *const _ as *const u8 as usize
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        sched::acquire(self.id(), Mode::Write);
        MutexGuard(grab(self.0.lock()), Token(self.id()))
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if !sched::try_acquire(self.id(), Mode::Write) {
            return None;
        }
        match try_grab(self.0.try_lock()) {
            Some(g) => Some(MutexGuard(g, Token(self.id()))),
            None => {
                sched::release(self.id());
                None
            }
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        grab(self.0.get_mut())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}

macro_rules! guard {
    ($g:ident, $($m:tt)*) => {
        impl<T: ?Sized> Deref for $g<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        guard!(@ $g $($m)*);
    };
    (@ $g:ident mut) => {
        impl<T: ?Sized> DerefMut for $g<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.0
            }
        }
    };
    (@ $g:ident shared) => {};
}
guard!(RwLockReadGuard, shared);
guard!(RwLockUpgradableReadGuard, shared);
guard!(RwLockWriteGuard, mut);
guard!(MutexGuard, mut);
