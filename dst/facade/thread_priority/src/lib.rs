//! `thread-priority` whose builder starts simulated threads. Setting a real-time priority fails in the
//! simulation when the process lacks the privilege, exactly as the careless wrapper tolerates.
#![allow(clippy::all)]
pub use real::*;

use dam_sim_std::thread;
use std::io;

#[derive(Default, Debug)]
pub struct ThreadBuilder {
    name: Option<String>,
    stack_size: Option<usize>,
    priority: Option<ThreadPriority>,
    policy: Option<unix::ThreadSchedulePolicy>,
}

impl ThreadBuilder {
    pub fn name<V: Into<String>>(mut self, v: V) -> Self {
        self.name = Some(v.into());
        self
    }
    pub fn stack_size<V: Into<usize>>(mut self, v: V) -> Self {
        self.stack_size = Some(v.into());
        self
    }
    pub fn priority<V: Into<ThreadPriority>>(mut self, v: V) -> Self {
        self.priority = Some(v.into());
        self
    }
    pub fn policy<V: Into<unix::ThreadSchedulePolicy>>(mut self, v: V) -> Self {
        self.policy = Some(v.into());
        self
    }
    fn wrap<F, T>(&mut self, f: F) -> (thread::Builder, impl FnOnce() -> T)
    where
        F: FnOnce(Result<(), Error>) -> T,
    {
        let mut b = thread::Builder::new();
        if let Some(n) = self.name.take() {
            b = b.name(n);
        }
        let wants = self.priority.is_some() || self.policy.is_some();
        (b, move || f(if wants { Err(Error::OS(1)) } else { Ok(()) }))
    }
    pub fn spawn<F, T>(mut self, f: F) -> io::Result<thread::JoinHandle<T>>
    where
        F: FnOnce(Result<(), Error>) -> T + Send + 'static,
        T: Send + 'static,
    {
        let (b, g) = self.wrap(f);
        b.spawn(g)
    }
    pub fn spawn_careless<F, T>(self, f: F) -> io::Result<thread::JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        self.spawn(move |_| f())
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        mut self,
        scope: &'scope thread::Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<thread::ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce(Result<(), Error>) -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let (b, g) = self.wrap(f);
        b.spawn_scoped(scope, g)
    }
    pub fn spawn_scoped_careless<'scope, 'env, F, T>(
        self,
        scope: &'scope thread::Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<thread::ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_scoped(scope, move |_| f())
    }
}
