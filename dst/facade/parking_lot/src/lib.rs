//! `parking_lot` with its locks behind the simulator.
#![allow(clippy::all)]
pub use real::*;

use dam_sim_core as sim;
use sim::raw::{Boot, RawCondvar, RawMutex as Raw, RawRwLock as RawRw};
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use simstd::time::{Duration, Instant};

fn dl(d: Duration) -> u64 {
    sim::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    boot: Boot,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    _n: PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), boot: Boot::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn g(&self) -> MutexGuard<'_, T> {
        MutexGuard { m: self, _n: PhantomData }
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.boot.check(self.data.get());
        self.raw.lock();
        self.g()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.boot.check(self.data.get());
        self.raw.try_lock().then(|| self.g())
    }
    pub fn try_lock_for(&self, d: Duration) -> Option<MutexGuard<'_, T>> {
        self.boot.check(self.data.get());
        self.raw.lock_until(dl(d)).then(|| self.g())
    }
    pub fn try_lock_until(&self, t: Instant) -> Option<MutexGuard<'_, T>> {
        self.boot.check(self.data.get());
        self.raw.lock_until(t.__ns()).then(|| self.g())
    }
    pub fn is_locked(&self) -> bool {
        self.raw.is_locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub unsafe fn force_unlock(&self) {
        self.raw.unlock()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Mutex { .. }")
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized>(s: Self, f: impl FnOnce(&mut T) -> &mut U) -> MappedMutexGuard<'a, U> {
        let m = s.m;
        std::mem::forget(s);
        MappedMutexGuard { raw: &m.raw, data: f(unsafe { &mut *m.data.get() }), _n: PhantomData }
    }
    pub fn bump(_: &mut Self) {}
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
        s.m.raw.unlock();
        let r = f();
        s.m.raw.lock();
        r
    }
    pub fn mutex(s: &Self) -> &'a Mutex<T> {
        s.m
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.raw.unlock()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct MappedMutexGuard<'a, T: ?Sized> {
    raw: &'a Raw,
    data: *mut T,
    _n: PhantomData<&'a mut T>,
}
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.data }
    }
}
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.data }
    }
}
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> {
    fn drop(&mut self) {
        self.raw.unlock()
    }
}

/// As std's, with parking_lot's names.
#[derive(Debug)]
pub struct Once(simstd::sync::Once);
impl Once {
    pub const fn new() -> Self {
        Once(simstd::sync::Once::new())
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        self.0.call_once(f)
    }
}

pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    boot: Boot,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, PhantomData<*const ()>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, PhantomData<*const ()>);
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: RawRw::new(), boot: Boot::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.boot.check(self.data.get());
        self.raw.read();
        RwLockReadGuard(self, PhantomData)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.boot.check(self.data.get());
        self.raw.write();
        RwLockWriteGuard(self, PhantomData)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.boot.check(self.data.get());
        self.raw.try_read().then(|| RwLockReadGuard(self, PhantomData))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.boot.check(self.data.get());
        self.raw.try_write().then(|| RwLockWriteGuard(self, PhantomData))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn is_locked(&self) -> bool {
        match self.try_write() {
            Some(_) => false,
            None => true,
        }
    }
    pub fn is_locked_exclusive(&self) -> bool {
        match self.try_read() {
            Some(_) => false,
            None => true,
        }
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("RwLock { .. }")
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.raw.downgrade();
        RwLockReadGuard(l, PhantomData)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unread()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unwrite()
    }
}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar(RawCondvar);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(RawCondvar::new())
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let m = g.m;
        self.0.wait(None, || m.raw.unlock(), || m.raw.lock());
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let m = g.m;
        WaitTimeoutResult(self.0.wait(Some(dl(d)), || m.raw.unlock(), || m.raw.lock()))
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g)
        }
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        let m = g.m;
        WaitTimeoutResult(self.0.wait(Some(t.__ns()), || m.raw.unlock(), || m.raw.lock()))
    }
    pub fn wait_while_for<T: ?Sized>(
        &self,
        g: &mut MutexGuard<'_, T>,
        mut f: impl FnMut(&mut T) -> bool,
        d: Duration,
    ) -> WaitTimeoutResult {
        let end = dl(d);
        while f(&mut *g) {
            let m = g.m;
            if self.0.wait(Some(end), || m.raw.unlock(), || m.raw.lock()) {
                return WaitTimeoutResult(f(&mut *g));
            }
        }
        WaitTimeoutResult(false)
    }
    pub fn notify_one(&self) -> bool {
        self.0.notify(false) > 0
    }
    pub fn notify_all(&self) -> usize {
        self.0.notify(true)
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Condvar { .. }")
    }
}
