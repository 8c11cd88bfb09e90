//! `futures` with its executors parking simulated threads.
#![allow(clippy::all)]
pub use real::*;

pub mod executor {
    pub use real::executor::*;

    use dam_sim_core as sim;
    use real::future::Future;
    use real::task::{ArcWake, Context, FutureObj, LocalFutureObj, LocalSpawn, Poll, Spawn, SpawnError};
    use std::cell::{Cell, RefCell};
    use std::pin::pin;
    use std::rc::{Rc, Weak};
    use std::sync::Arc;

    struct Flag {
        woken: Cell<bool>,
        task: sim::TaskId,
        vc: RefCell<sim::VClock>,
    }
    unsafe impl Send for Flag {}
    unsafe impl Sync for Flag {}
    impl Flag {
        fn new(on: bool) -> Arc<Flag> {
            Arc::new(Flag { woken: Cell::new(on), task: sim::current(), vc: Default::default() })
        }
        fn take(&self) -> bool {
            if sim::weak() {
                sim::acquire(&self.vc.borrow());
            }
            self.woken.replace(false)
        }
    }
    impl ArcWake for Flag {
        fn wake_by_ref(a: &Arc<Self>) {
            if sim::weak() {
                let p = sim::publish();
                a.vc.borrow_mut().join(&p);
            }
            a.woken.set(true);
            sim::unpark(a.task);
        }
    }

    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = pin!(f);
        let flag = Flag::new(true);
        let w = real::task::waker(flag.clone());
        let mut cx = Context::from_waker(&w);
        loop {
            if flag.take() {
                if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
            } else {
                sim::park(None);
            }
        }
    }

    type Incoming = RefCell<Vec<LocalFutureObj<'static, ()>>>;
    #[derive(Default)]
    pub struct LocalPool {
        pool: Vec<(LocalFutureObj<'static, ()>, Arc<Flag>)>,
        incoming: Rc<Incoming>,
    }
    #[derive(Clone)]
    pub struct LocalSpawner {
        incoming: Weak<Incoming>,
    }
    impl std::fmt::Debug for LocalPool {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("LocalPool { .. }")
        }
    }
    impl LocalPool {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn spawner(&self) -> LocalSpawner {
            LocalSpawner { incoming: Rc::downgrade(&self.incoming) }
        }
        fn adopt(&mut self) {
            for f in self.incoming.borrow_mut().drain(..) {
                self.pool.push((f, Flag::new(true)));
            }
        }
        /// Polls one woken task. None: nothing woken.
        fn once(&mut self) -> Option<bool> {
            self.adopt();
            // FuturesUnordered gives no order guarantee among woken tasks
            let woken: Vec<usize> =
                (0..self.pool.len()).filter(|i| self.pool[*i].1.woken.get()).collect();
            if woken.is_empty() {
                return None;
            }
            let i = woken[sim::choose(woken.len() as u32) as usize];
            let (f, flag) = &mut self.pool[i];
            flag.take();
            let w = real::task::waker(flag.clone());
            let r = std::pin::Pin::new(f).poll(&mut Context::from_waker(&w));
            if r.is_ready() {
                self.pool.remove(i);
            }
            Some(r.is_ready())
        }
        pub fn run_until_stalled(&mut self) {
            while self.once().is_some() {}
        }
        pub fn try_run_one(&mut self) -> bool {
            while let Some(done) = self.once() {
                if done {
                    return true;
                }
            }
            false
        }
        pub fn run(&mut self) {
            loop {
                self.run_until_stalled();
                self.adopt();
                if self.pool.is_empty() {
                    return;
                }
                if !self.pool.iter().any(|t| t.1.woken.get()) {
                    sim::park(None);
                }
            }
        }
        pub fn run_until<F: Future>(&mut self, f: F) -> F::Output {
            let mut f = pin!(f);
            let flag = Flag::new(true);
            let w = real::task::waker(flag.clone());
            loop {
                if flag.take() {
                    if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                        return v;
                    }
                }
                self.run_until_stalled();
                if !flag.woken.get() {
                    sim::park(None);
                }
            }
        }
    }
    impl LocalSpawn for LocalSpawner {
        fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            match self.incoming.upgrade() {
                Some(i) => {
                    i.borrow_mut().push(f);
                    Ok(())
                }
                None => Err(SpawnError::shutdown()),
            }
        }
    }
    impl Spawn for LocalSpawner {
        fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
            self.spawn_local_obj(f.into())
        }
    }
}
