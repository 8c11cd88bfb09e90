pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};

pub mod atomic;
pub mod mpsc;

use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use dam_sim_core as sim;
use sim::raw::*;

use crate::time::Duration;

macro_rules! poisonable {
    ($name:ident) => {
        impl<T: ?Sized> $name<T> {
            pub fn is_poisoned(&self) -> bool {
                self.poison.get()
            }
            pub fn clear_poison(&self) {
                self.poison.set(false)
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                let p = self.poison.get();
                let d = self.data.get_mut();
                if p { Err(PoisonError::new(d)) } else { Ok(d) }
            }
            pub fn into_inner(self) -> LockResult<T>
            where
                T: Sized,
            {
                let p = self.poison.get();
                let d = self.data.into_inner();
                if p { Err(PoisonError::new(d)) } else { Ok(d) }
            }
        }
        impl<T: Default> Default for $name<T> {
            fn default() -> Self {
                Self::new(T::default())
            }
        }
        impl<T> From<T> for $name<T> {
            fn from(t: T) -> Self {
                Self::new(t)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish_non_exhaustive()
            }
        }
        unsafe impl<T: ?Sized + Send> Send for $name<T> {}
        impl<T: ?Sized> ::std::panic::UnwindSafe for $name<T> {}
        impl<T: ?Sized> ::std::panic::RefUnwindSafe for $name<T> {}
    };
}

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    raw: RawMutex,
    boot: Boot,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
poisonable!(Mutex);

pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    unwinding: bool,
    _m: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: RawMutex::new(), boot: Boot::new(), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, unwinding: sim::panicking(), _m: ::std::marker::PhantomData };
        if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        self.raw.lock();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        if self.raw.try_lock() {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.unwinding && sim::panicking() {
            self.lock.poison.set(true);
        }
        self.lock.raw.unlock();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized> {
    raw: RawRwLock,
    boot: Boot,
    poison: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
poisonable!(RwLock);

impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let lock = s.lock;
        ::std::mem::forget(s);
        lock.raw.downgrade();
        RwLockReadGuard { lock, _m: ::std::marker::PhantomData }
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    _m: ::std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    unwinding: bool,
    _m: ::std::marker::PhantomData<*const ()>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: RawRwLock::new(), boot: Boot::new(), poison: Cell::new(false), data: UnsafeCell::new(t) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let g = RwLockReadGuard { lock: self, _m: ::std::marker::PhantomData };
        if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let g = RwLockWriteGuard { lock: self, unwinding: sim::panicking(), _m: ::std::marker::PhantomData };
        if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        self.raw.read();
        self.rg()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        self.raw.write();
        self.wg()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        if self.raw.try_read() { self.rg().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.boot.check(self.data.get()) {
            self.poison.set(false);
        }
        if self.raw.try_write() { self.wg().map_err(TryLockError::Poisoned) } else { Err(TryLockError::WouldBlock) }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.raw.unread();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.unwinding && sim::panicking() {
            self.lock.poison.set(true);
        }
        self.lock.raw.unwrite();
    }
}

// ------------------------------------------------------------------ Condvar, Barrier
#[derive(Default)]
pub struct Condvar {
    raw: RawCondvar,
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Condvar").finish_non_exhaustive()
    }
}
impl ::std::panic::UnwindSafe for Condvar {}
impl ::std::panic::RefUnwindSafe for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { raw: RawCondvar::new() }
    }
    fn w<'a, T>(&self, g: MutexGuard<'a, T>, dl: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = g.lock;
        let t = self.raw.wait(dl, || drop(g), || lock.raw.lock());
        (lock.guard(), t)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.w(g, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, t) = self.w(g, Some(sim::now_ns() + d.as_nanos() as u64));
        match g {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = sim::now_ns() + d.as_nanos() as u64;
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if sim::now_ns() >= dl {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, Duration::from_nanos(dl - sim::now_ns()))?.0;
        }
    }
    pub fn wait_timeout_ms<'a, T>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((g, !t.timed_out())))
            }
        }
    }
    pub fn notify_one(&self) {
        self.raw.notify(false);
    }
    pub fn notify_all(&self) {
        self.raw.notify(true);
    }
}

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    c: Condvar,
    n: usize,
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Barrier").finish_non_exhaustive()
    }
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// ------------------------------------------------------------------ Once & co
pub struct Once {
    raw: RawOnce,
}
pub struct OnceState {
    poisoned: bool,
}
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
impl Once {
    pub const fn new() -> Self {
        Once { raw: RawOnce::new() }
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        self.raw.call(false, f)
    }
    pub fn call_once_force(&self, f: impl FnOnce(&OnceState)) {
        let p = self.raw.poisoned();
        self.raw.call(true, || f(&OnceState { poisoned: p }))
    }
    pub fn is_completed(&self) -> bool {
        self.raw.done()
    }
    pub fn wait(&self) {
        while !self.raw.done() {
            sim::yield_point(sim::Op::Yield)
        }
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Once").finish_non_exhaustive()
    }
}
impl ::std::panic::UnwindSafe for Once {}
impl ::std::panic::RefUnwindSafe for Once {}
impl<T: ::std::panic::UnwindSafe> ::std::panic::UnwindSafe for OnceLock<T> {}
impl<T: ::std::panic::RefUnwindSafe + ::std::panic::UnwindSafe> ::std::panic::RefUnwindSafe for OnceLock<T> {}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = OnceLock::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let c = OnceLock::new();
        let _ = c.set(t);
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("LazyLock").field(&self.once.get()).finish()
    }
}

pub struct OnceLock<T> {
    raw: RawOnce,
    boot: Boot,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { raw: RawOnce::new(), boot: Boot::new(), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        self.boot.check(self.v.get());
        if self.raw.done() { unsafe { (*self.v.get()).as_ref() } } else { None }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        self.boot.check(self.v.get());
        let mut t = Some(t);
        self.raw.call(false, || unsafe { *self.v.get() = t.take() });
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        self.boot.check(self.v.get());
        self.raw.call(false, || unsafe { *self.v.get() = Some(f()) });
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.raw = RawOnce::new();
        self.v.get_mut().take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: OnceLock<T>,
    boot: Boot,
    f: Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { once: OnceLock::new(), boot: Boot::new(), f: Cell::new(Some(f)) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.boot.check(this.f.as_ptr());
        this.once.get_or_init(|| (this.f.take().expect("LazyLock poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
