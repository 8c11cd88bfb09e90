//! A stand-in for `may`, which is not available here: coroutines are tasks of the simulator, whose scheduler
//! takes the place of may's workers. Written from may's documented interface, as far as the crate may use it.
#![allow(clippy::all)]

use dam_sim_std as simstd;
pub use simstd::thread_local as coroutine_local;

pub mod coroutine {
    use simstd::thread as st;
    use std::io;
    use std::sync::Arc;

    use crate::simstd;

    pub use simstd::thread::{park, park_timeout, sleep, yield_now, JoinHandle, ScopedJoinHandle};

    /// A handle of a coroutine.
    #[derive(Clone, Debug)]
    pub struct Coroutine(Arc<st::Thread>);
    impl Coroutine {
        pub fn unpark(&self) {
            self.0.unpark()
        }
        pub fn name(&self) -> Option<&str> {
            self.0.name()
        }
    }
    pub fn current() -> Coroutine {
        Coroutine(Arc::new(st::current()))
    }
    pub fn try_current() -> Option<Coroutine> {
        Some(current())
    }
    pub fn is_coroutine() -> bool {
        true
    }

    #[derive(Debug, Default)]
    pub struct Builder {
        name: Option<String>,
    }
    impl Builder {
        pub fn new() -> Self {
            Builder { name: None }
        }
        pub fn name(mut self, n: String) -> Self {
            self.name = Some(n);
            self
        }
        pub fn stack_size(self, _: usize) -> Self {
            self
        }
        pub fn id(self, _: usize) -> Self {
            self
        }
        fn std(self) -> st::Builder {
            let b = st::Builder::new();
            match self.name {
                Some(n) => b.name(n),
                None => b,
            }
        }
        pub unsafe fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            self.std().spawn(f)
        }
    }
    pub unsafe fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        st::spawn(f)
    }

    /// may's scope joins what it spawned when it is left; a panic of a child goes on there.
    #[derive(Clone, Copy)]
    pub struct Scope<'scope, 'env: 'scope>(&'scope st::Scope<'scope, 'env>);
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub unsafe fn spawn<F, T>(&self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            self.spawn_with_builder(f, Builder::new())
        }
        /// There is no way for this to fail but to panic.
        pub unsafe fn spawn_with_builder<F, T>(&self, f: F, b: Builder) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            b.std().spawn_scoped(self.0, f).expect("failed to spawn coroutine")
        }
    }
    pub fn scope<'env, F, R>(f: F) -> R
    where
        F: for<'scope> FnOnce(&Scope<'scope, 'env>) -> R,
    {
        st::scope(|s| f(&Scope(s)))
    }
}

pub mod config {
    use crate::simstd::sync::atomic::{AtomicUsize, Ordering};

    pub struct Config;
    static WORKERS: AtomicUsize = AtomicUsize::new(4);
    static CONFIG: Config = Config;
    impl Config {
        pub fn set_workers(&self, n: usize) -> &Self {
            WORKERS.store(n, Ordering::Relaxed);
            self
        }
        pub fn get_workers(&self) -> usize {
            WORKERS.load(Ordering::Relaxed)
        }
        pub fn set_stack_size(&self, _: usize) -> &Self {
            self
        }
        pub fn set_pool_capacity(&self, _: usize) -> &Self {
            self
        }
    }
    pub fn config() -> &'static Config {
        &CONFIG
    }
}
pub use config::config;

pub mod sync {
    pub use crate::simstd::sync::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use crate::simstd::sync::mpsc;

    pub mod spsc {
        use crate::simstd::sync::mpsc as m;
        pub use m::{RecvError, RecvTimeoutError, SendError, TryRecvError};
        use std::fmt;
        use std::time::Duration;

        /// The crate holds these in what must be `Sync`; no two tasks of the simulator run at once.
        pub struct Sender<T>(m::Sender<T>);
        pub struct Receiver<T>(m::Receiver<T>);
        unsafe impl<T: Send> Send for Sender<T> {}
        unsafe impl<T: Send> Sync for Sender<T> {}
        unsafe impl<T: Send> Send for Receiver<T> {}
        unsafe impl<T: Send> Sync for Receiver<T> {}
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (s, r) = m::channel();
            (Sender(s), Receiver(r))
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                self.0.recv()
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                self.0.try_recv()
            }
            pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
                self.0.recv_timeout(d)
            }
        }
        impl<T> fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("Sender { .. }")
            }
        }
        impl<T> fmt::Debug for Receiver<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad("Receiver { .. }")
            }
        }
    }
}
