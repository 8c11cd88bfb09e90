pub use ::std::thread::{available_parallelism, AccessError, Result};

use ::std::any::Any;
use ::std::cell::{Cell, RefCell, UnsafeCell};
use ::std::io;
use ::std::marker::PhantomData;
use ::std::num::NonZeroU64;
use ::std::sync::Arc;
use dam_sim_core as sim;
use sim::Fault;

use crate::time::Duration;

pub fn yield_now() {
    sim::yield_point(sim::Op::Yield)
}
pub fn sleep(d: Duration) {
    sim::sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn panicking() -> bool {
    sim::panicking()
}
pub fn park() {
    sim::park(None)
}
pub fn park_timeout(d: Duration) {
    sim::park(Some(sim::now_ns().saturating_add(d.as_nanos() as u64)))
}
pub fn park_timeout_ms(ms: u32) {
    park_timeout(Duration::from_millis(ms as u64))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(NonZeroU64);
impl ThreadId {
    pub fn as_u64(&self) -> NonZeroU64 {
        self.0
    }
}

#[derive(Clone)]
pub struct Thread {
    task: sim::TaskId,
    epoch: u64,
    name: Arc<Option<String>>,
}
impl ::std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_struct("Thread").field("id", &self.id()).field("name", &self.name()).finish_non_exhaustive()
    }
}
impl Thread {
    pub fn unpark(&self) {
        if sim::active() && self.epoch == sim::epoch() {
            sim::unpark(self.task)
        }
    }
    pub fn id(&self) -> ThreadId {
        ThreadId(NonZeroU64::new(self.task as u64 + 1).unwrap())
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
}
pub fn current() -> Thread {
    let task = sim::current();
    Thread { task, epoch: sim::epoch(), name: Arc::new(Some(sim::task_name(task))) }
}

struct Packet<T> {
    result: UnsafeCell<Option<Result<T>>>,
}
unsafe impl<T> Sync for Packet<T> {}
unsafe impl<T> Send for Packet<T> {}

struct ScopeData {
    running: Cell<usize>,
    panicked: Cell<bool>,
    vc: RefCell<sim::VClock>,
}
unsafe impl Sync for ScopeData {}
unsafe impl Send for ScopeData {}

fn key<T>(a: &Arc<T>) -> usize {
    Arc::as_ptr(a) as *const u8 as usize
}

/// Starts `f` as a simulated thread; the packet is filled and the scope told before thread-locals die.
fn start<'a, T: 'a>(
    name: Option<String>,
    f: impl FnOnce() -> T + 'a,
    scope: Option<Arc<ScopeData>>,
) -> io::Result<(sim::TaskId, Arc<Packet<T>>)> {
    if sim::fault(Fault::SpawnFail) {
        return Err(io::Error::from_raw_os_error(11)); // EAGAIN
    }
    let packet = Arc::new(Packet { result: UnsafeCell::new(None) });
    let theirs = packet.clone();
    if let Some(s) = &scope {
        s.running.set(s.running.get() + 1);
    }
    let body = move || {
        sim::point(sim::Op::Start);
        let r = sim::catch(f);
        let bad = r.is_err();
        unsafe { *theirs.result.get() = Some(r) };
        if let Some(s) = scope {
            // as in std: a panic counts against the scope unless somebody took the result by joining
            let unhandled = bad && Arc::strong_count(&theirs) == 1;
            if unhandled {
                s.panicked.set(true);
            } else if bad {
                drop(theirs);
            }
            if sim::weak() {
                let p = sim::publish();
                s.vc.borrow_mut().join(&p);
            }
            s.running.set(s.running.get() - 1);
            if s.running.get() == 0 {
                sim::wake_all(key(&s));
            }
        }
    };
    let boxed: Box<dyn FnOnce() + 'a> = Box::new(body);
    // Scoped threads are joined before 'a ends; 'static ones do not borrow.
    let boxed: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(boxed) };
    let t = sim::spawn(name.unwrap_or_default(), boxed);
    Ok((t, packet))
}

pub struct JoinHandle<T> {
    task: sim::TaskId,
    thread: Thread,
    packet: Arc<Packet<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        sim::join(self.task);
        unsafe { (*self.packet.result.get()).take().unwrap() }
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        sim::point(sim::Op::Load);
        unsafe { (*self.packet.result.get()).is_some() }
    }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_struct("JoinHandle").finish_non_exhaustive()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let name = Arc::new(self.name.clone());
        let (task, packet) = start(self.name, f, None)?;
        Ok(JoinHandle { task, thread: Thread { task, epoch: sim::epoch(), name }, packet })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let name = Arc::new(self.name.clone());
        let (task, packet) = start(self.name, f, Some(scope.data.clone()))?;
        Ok(ScopedJoinHandle {
            task,
            thread: Thread { task, epoch: sim::epoch(), name },
            packet,
            data: scope.data.clone(),
            _m: PhantomData,
        })
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    data: Arc<ScopeData>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}
unsafe impl Send for Scope<'_, '_> {}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}

pub struct ScopedJoinHandle<'scope, T> {
    task: sim::TaskId,
    thread: Thread,
    packet: Arc<Packet<T>>,
    data: Arc<ScopeData>,
    _m: PhantomData<&'scope ()>,
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        sim::join(self.task);
        unsafe { (*self.packet.result.get()).take().unwrap() }
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        sim::point(sim::Op::Load);
        unsafe { (*self.packet.result.get()).is_some() }
    }
}
impl<T> Drop for ScopedJoinHandle<'_, T> {
    fn drop(&mut self) {
        // The handle went away with an unclaimed panic inside: the scope reports it.
        if Arc::strong_count(&self.packet) == 1 {
            if let Some(Err(_)) = unsafe { &*self.packet.result.get() } {
                self.data.panicked.set(true);
            }
        }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let data = Arc::new(ScopeData {
        running: Cell::new(0),
        panicked: Cell::new(false),
        vc: Default::default(),
    });
    let scope = Scope { data: data.clone(), scope: PhantomData, env: PhantomData };
    let r = sim::catch(|| f(&scope));
    sim::point(sim::Op::Join);
    while data.running.get() > 0 {
        sim::block(key(&data), None, "thread scope");
    }
    if sim::weak() {
        sim::acquire(&data.vc.borrow());
    }
    match r {
        Err(e) => sim::resume(e),
        Ok(_) if data.panicked.get() => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
    id: &'static u8,
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn __new(init: fn() -> T, id: &'static u8) -> Self {
        LocalKey { init, id }
    }
    fn slot(&'static self) -> *const T {
        let k = self as *const _ as usize ^ (self.id as *const u8 as usize).rotate_left(32);
        if let Some(p) = sim::local_get(k) {
            return unsafe { (*p).downcast_ref::<T>().expect("thread-local type") };
        }
        let v: Box<dyn Any> = Box::new((self.init)());
        sim::local_set(k, v);
        unsafe { (*sim::local_get(k).unwrap()).downcast_ref::<T>().unwrap() }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(unsafe { &*self.slot() })
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> ::std::result::Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
