//! `crossbeam` with its channels, queues and spinning behind the simulator.
#![allow(clippy::all)]
pub use real::*;

pub mod utils {
    pub use real::utils::*;
    use dam_sim_core as sim;

    #[derive(Default, Debug)]
    pub struct Backoff(std::cell::Cell<u32>);
    impl Backoff {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn reset(&self) {
            self.0.set(0)
        }
        pub fn spin(&self) {
            self.0.set(self.0.get().saturating_add(1));
            sim::yield_point(sim::Op::Spin)
        }
        pub fn snooze(&self) {
            self.0.set(self.0.get().saturating_add(1));
            sim::yield_point(sim::Op::Yield)
        }
        pub fn is_completed(&self) -> bool {
            self.0.get() > 10
        }
    }
}

pub mod thread {
    pub use simstd::thread::{Scope, ScopedJoinHandle};
}
pub use thread_scope::scope;
mod thread_scope {
    use simstd::thread as st;
    /// crossbeam's scope passes itself to what it spawns; std's does the rest.
    #[derive(Clone, Copy)]
    pub struct Scope<'scope, 'env: 'scope>(&'scope st::Scope<'scope, 'env>);
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&self, f: F) -> st::ScopedJoinHandle<'scope, T>
        where
            F: FnOnce(&Scope<'scope, 'env>) -> T + Send + 'scope,
            T: Send + 'scope,
        {
            struct Snd<T>(T);
            unsafe impl<T> Send for Snd<T> {}
            let s = Snd(*self);
            self.0.spawn(move || {
                let s = s;
                f(&s.0)
            })
        }
    }
    pub fn scope<'env, F, R>(f: F) -> simstd::thread::Result<R>
    where
        F: for<'scope> FnOnce(&Scope<'scope, 'env>) -> R,
    {
        dam_sim_core::catch(std::panic::AssertUnwindSafe(|| st::scope(|s| f(&Scope(s)))))
    }
}

pub mod sync {
    pub use real::sync::*;
    use simstd::sync::{Arc, Condvar, Mutex};
    use std::fmt;

    /// Waits for all its clones to be dropped.
    pub struct WaitGroup(Arc<(Mutex<usize>, Condvar)>);
    impl WaitGroup {
        pub fn new() -> Self {
            WaitGroup(Arc::new((Mutex::new(1), Condvar::new())))
        }
        pub fn wait(self) {
            let a = self.0.clone();
            drop(self);
            let mut n = a.0.lock().unwrap();
            while *n > 0 {
                n = a.1.wait(n).unwrap();
            }
        }
    }
    impl Default for WaitGroup {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Clone for WaitGroup {
        fn clone(&self) -> Self {
            *self.0 .0.lock().unwrap() += 1;
            WaitGroup(self.0.clone())
        }
    }
    impl Drop for WaitGroup {
        fn drop(&mut self) {
            let mut n = self.0 .0.lock().unwrap();
            *n -= 1;
            if *n == 0 {
                self.0 .1.notify_all();
            }
        }
    }
    impl fmt::Debug for WaitGroup {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("WaitGroup { .. }")
        }
    }

    /// One token between a parker and its unparkers.
    pub struct Parker(Unparker);
    #[derive(Clone)]
    pub struct Unparker(Arc<(Mutex<bool>, Condvar)>);
    impl Parker {
        pub fn new() -> Self {
            Parker(Unparker(Arc::new((Mutex::new(false), Condvar::new()))))
        }
        pub fn park(&self) {
            let a = &self.0 .0;
            let mut t = a.0.lock().unwrap();
            while !*t {
                t = a.1.wait(t).unwrap();
            }
            *t = false;
        }
        pub fn park_timeout(&self, d: std::time::Duration) {
            let a = &self.0 .0;
            let t = a.0.lock().unwrap();
            let (mut t, _) = a.1.wait_timeout_while(t, d, |t| !*t).unwrap();
            *t = false;
        }
        pub fn unparker(&self) -> &Unparker {
            &self.0
        }
    }
    impl Default for Parker {
        fn default() -> Self {
            Self::new()
        }
    }
    impl Unparker {
        pub fn unpark(&self) {
            *self.0 .0.lock().unwrap() = true;
            self.0 .1.notify_one();
        }
    }
    impl fmt::Debug for Parker {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("Parker { .. }")
        }
    }
    impl fmt::Debug for Unparker {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("Unparker { .. }")
        }
    }

    pub use simstd::sync::{
        RwLock as ShardedLock, RwLockReadGuard as ShardedLockReadGuard, RwLockWriteGuard as ShardedLockWriteGuard,
    };
}

pub mod atomic {
    pub use real::atomic::*;
    use dam_sim_core as sim;
    use std::cell::UnsafeCell;

    /// Sequentially consistent cell: every operation is one scheduling point.
    pub struct AtomicCell<T> {
        v: UnsafeCell<T>,
        vc: std::cell::RefCell<sim::VClock>,
    }
    unsafe impl<T: Send> Send for AtomicCell<T> {}
    unsafe impl<T: Send> Sync for AtomicCell<T> {}
    impl<T> std::panic::UnwindSafe for AtomicCell<T> {}
    impl<T> std::panic::RefUnwindSafe for AtomicCell<T> {}
    impl<T> AtomicCell<T> {
        pub const fn new(t: T) -> Self {
            AtomicCell { v: UnsafeCell::new(t), vc: std::cell::RefCell::new(sim::VClock::new()) }
        }
        pub fn into_inner(self) -> T {
            self.v.into_inner()
        }
        fn at(&self) -> &mut T {
            sim::point(sim::Op::Queue);
            if sim::weak() {
                sim::acquire(&self.vc.borrow());
                let p = sim::publish();
                self.vc.borrow_mut().join(&p);
            }
            unsafe { &mut *self.v.get() }
        }
        pub fn store(&self, t: T) {
            let _ = self.swap(t);
        }
        pub fn swap(&self, t: T) -> T {
            std::mem::replace(self.at(), t)
        }
        pub fn as_ptr(&self) -> *mut T {
            self.v.get()
        }
        pub const fn is_lock_free() -> bool {
            true
        }
    }
    impl<T: Copy> AtomicCell<T> {
        pub fn load(&self) -> T {
            *self.at()
        }
    }
    impl<T: Default> AtomicCell<T> {
        pub fn take(&self) -> T {
            self.swap(T::default())
        }
    }
    impl<T: Copy + Eq> AtomicCell<T> {
        pub fn compare_exchange(&self, c: T, n: T) -> Result<T, T> {
            let v = self.at();
            let old = *v;
            if old == c {
                *v = n;
                Ok(old)
            } else {
                Err(old)
            }
        }
        pub fn fetch_update<F: FnMut(T) -> Option<T>>(&self, mut f: F) -> Result<T, T> {
            let mut c = self.load();
            while let Some(n) = f(c) {
                match self.compare_exchange(c, n) {
                    Ok(_) => return Ok(c),
                    Err(x) => c = x,
                }
            }
            Err(c)
        }
    }
    macro_rules! ints {
        ($($t:ty)*) => { $(
            impl AtomicCell<$t> {
                pub fn fetch_add(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o.wrapping_add(x); o }
                pub fn fetch_sub(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o.wrapping_sub(x); o }
                pub fn fetch_max(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o.max(x); o }
                pub fn fetch_min(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o.min(x); o }
                pub fn fetch_and(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o & x; o }
                pub fn fetch_or(&self, x: $t) -> $t { let v = self.at(); let o = *v; *v = o | x; o }
            }
        )* };
    }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    impl<T: Default> Default for AtomicCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for AtomicCell<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: Copy + std::fmt::Debug> std::fmt::Debug for AtomicCell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("AtomicCell { .. }")
        }
    }
}

pub mod queue {
    pub use real::queue::*;
    use dam_sim_core as sim;
    use std::cell::RefCell;
    use std::collections::VecDeque;

    /// Linearizable queue: every operation is one scheduling point.
    #[derive(Debug)]
    pub struct SegQueue<T> {
        q: RefCell<VecDeque<T>>,
        vc: RefCell<sim::VClock>,
    }
    unsafe impl<T: Send> Send for SegQueue<T> {}
    unsafe impl<T: Send> Sync for SegQueue<T> {}
    impl<T> SegQueue<T> {
        pub const fn new() -> Self {
            SegQueue { q: RefCell::new(VecDeque::new()), vc: RefCell::new(sim::VClock::new()) }
        }
        pub fn push(&self, v: T) {
            sim::point(sim::Op::Queue);
            self.put(v)
        }
        fn put(&self, v: T) {
            if sim::weak() {
                let p = sim::publish();
                self.vc.borrow_mut().join(&p);
            }
            self.q.borrow_mut().push_back(v)
        }
        pub fn pop(&self) -> Option<T> {
            sim::point(sim::Op::Queue);
            let r = self.q.borrow_mut().pop_front();
            if r.is_some() && sim::weak() {
                sim::acquire(&self.vc.borrow());
            }
            r
        }
        pub fn is_empty(&self) -> bool {
            sim::point(sim::Op::Queue);
            self.q.borrow().is_empty()
        }
        pub fn len(&self) -> usize {
            sim::point(sim::Op::Queue);
            self.q.borrow().len()
        }
    }
    impl<T> std::panic::UnwindSafe for SegQueue<T> {}
    impl<T> std::panic::RefUnwindSafe for SegQueue<T> {}

    /// The same with a limit.
    #[derive(Debug)]
    pub struct ArrayQueue<T> {
        q: SegQueue<T>,
        cap: usize,
    }
    impl<T> std::panic::UnwindSafe for ArrayQueue<T> {}
    impl<T> std::panic::RefUnwindSafe for ArrayQueue<T> {}
    impl<T> ArrayQueue<T> {
        pub fn new(cap: usize) -> Self {
            assert!(cap > 0, "capacity must be non-zero");
            ArrayQueue { q: SegQueue::new(), cap }
        }
        pub fn push(&self, v: T) -> Result<(), T> {
            sim::point(sim::Op::Queue);
            if self.q.q.borrow().len() == self.cap {
                return Err(v);
            }
            self.q.put(v);
            Ok(())
        }
        pub fn force_push(&self, v: T) -> Option<T> {
            sim::point(sim::Op::Queue);
            let mut old = None;
            if self.q.q.borrow().len() == self.cap {
                old = self.q.q.borrow_mut().pop_front();
            }
            self.q.put(v);
            old
        }
        pub fn pop(&self) -> Option<T> {
            self.q.pop()
        }
        pub fn is_empty(&self) -> bool {
            self.q.is_empty()
        }
        pub fn is_full(&self) -> bool {
            self.q.len() == self.cap
        }
        pub fn len(&self) -> usize {
            self.q.len()
        }
        pub fn capacity(&self) -> usize {
            self.cap
        }
    }
    impl<T> IntoIterator for ArrayQueue<T> {
        type Item = T;
        type IntoIter = std::collections::vec_deque::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.q.into_iter()
        }
    }
    impl<T> Default for SegQueue<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> IntoIterator for SegQueue<T> {
        type Item = T;
        type IntoIter = std::collections::vec_deque::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.q.into_inner().into_iter()
        }
    }
    impl<T> FromIterator<T> for SegQueue<T> {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
            let q = SegQueue::new();
            for x in i {
                q.push(x)
            }
            q
        }
    }
}

pub mod channel {
    pub use real::channel::*;

    use dam_sim_core as sim;
    use sim::raw::{Chan, RecvFail, SendFail};
    use std::sync::Arc;
    use simstd::time::{Duration, Instant};

    struct Shared<T>(Chan<T>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> std::panic::UnwindSafe for Sender<T> {}
    impl<T> std::panic::RefUnwindSafe for Sender<T> {}
    impl<T> std::panic::UnwindSafe for Receiver<T> {}
    impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

    pub struct Sender<T>(Arc<Shared<T>>);
    pub struct Receiver<T> {
        c: Arc<Shared<T>>,
        /// Fixed message time of `after`/`at` channels.
        never: bool,
    }

    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        make(None)
    }
    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        make(Some(cap))
    }
    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Shared(Chan::new(cap)));
        (Sender(c.clone()), Receiver { c, never: false })
    }
    pub fn never<T>() -> Receiver<T> {
        let (s, mut r) = make(None);
        std::mem::forget(s);
        r.never = true;
        r
    }
    pub fn after(d: Duration) -> Receiver<Instant> {
        at(Instant::now() + d)
    }
    /// Both are channels fed by a thread that sleeps.
    pub fn at(t: Instant) -> Receiver<Instant> {
        let (s, r) = make(Some(1));
        simstd::thread::spawn(move || {
            simstd::thread::sleep(t - Instant::now());
            let _ = s.send(t);
            // Never disconnected.
            std::mem::forget(s);
        });
        r
    }
    pub fn tick(d: Duration) -> Receiver<Instant> {
        let (s, r) = make(Some(1));
        simstd::thread::spawn(move || loop {
            simstd::thread::sleep(d);
            if s.send(Instant::now()).is_err() {
                break;
            }
        });
        r
    }
    fn until(t: Instant) -> u64 {
        t.__ns()
    }
    fn dl(d: Duration) -> u64 {
        sim::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
    }

    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            match self.0 .0.send(v, None) {
                Ok(()) => Ok(()),
                Err(SendFail::Disconnected(v) | SendFail::Full(v) | SendFail::Timeout(v)) => Err(SendError(v)),
            }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            match self.0 .0.try_send(v) {
                Ok(()) => Ok(()),
                Err(SendFail::Disconnected(v)) => Err(TrySendError::Disconnected(v)),
                Err(SendFail::Full(v) | SendFail::Timeout(v)) => Err(TrySendError::Full(v)),
            }
        }
        pub fn send_timeout(&self, v: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
            match self.0 .0.send(v, Some(dl(d))) {
                Ok(()) => Ok(()),
                Err(SendFail::Disconnected(v)) => Err(SendTimeoutError::Disconnected(v)),
                Err(SendFail::Full(v) | SendFail::Timeout(v)) => Err(SendTimeoutError::Timeout(v)),
            }
        }
        pub fn send_deadline(&self, v: T, t: Instant) -> Result<(), SendTimeoutError<T>> {
            match self.0 .0.send(v, Some(until(t))) {
                Ok(()) => Ok(()),
                Err(SendFail::Disconnected(v)) => Err(SendTimeoutError::Disconnected(v)),
                Err(SendFail::Full(v) | SendFail::Timeout(v)) => Err(SendTimeoutError::Timeout(v)),
            }
        }
        pub fn is_empty(&self) -> bool {
            self.0 .0.len() == 0
        }
        pub fn is_full(&self) -> bool {
            Some(self.0 .0.len()) == self.0 .0.cap()
        }
        pub fn len(&self) -> usize {
            self.0 .0.len()
        }
        pub fn capacity(&self) -> Option<usize> {
            self.0 .0.cap()
        }
        pub fn same_channel(&self, o: &Sender<T>) -> bool {
            Arc::ptr_eq(&self.0, &o.0)
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0 .0.add_sender();
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0 .0.drop_sender()
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("Sender { .. }")
        }
    }

    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.c.0.recv(None).map_err(|_| RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.c.0.try_recv().map_err(|e| match e {
                RecvFail::Disconnected => TryRecvError::Disconnected,
                _ => TryRecvError::Empty,
            })
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            self.c.0.recv(Some(dl(d))).map_err(|e| match e {
                RecvFail::Disconnected => RecvTimeoutError::Disconnected,
                _ => RecvTimeoutError::Timeout,
            })
        }
        pub fn recv_deadline(&self, t: Instant) -> Result<T, RecvTimeoutError> {
            self.c.0.recv(Some(until(t))).map_err(|e| match e {
                RecvFail::Disconnected => RecvTimeoutError::Disconnected,
                _ => RecvTimeoutError::Timeout,
            })
        }
        pub fn is_empty(&self) -> bool {
            self.c.0.len() == 0
        }
        pub fn is_full(&self) -> bool {
            Some(self.c.0.len()) == self.c.0.cap()
        }
        pub fn len(&self) -> usize {
            self.c.0.len()
        }
        pub fn capacity(&self) -> Option<usize> {
            self.c.0.cap()
        }
        pub fn same_channel(&self, o: &Receiver<T>) -> bool {
            Arc::ptr_eq(&self.c, &o.c)
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.c.0.add_receiver();
            Receiver { c: self.c.clone(), never: self.never }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.c.0.drop_receiver()
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("Receiver { .. }")
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
