//! Deterministic cooperative simulator.
//!
//! One run = one OS thread. Every simulated thread is a stackful coroutine; every visible operation of
//! the code under test (lock, atomic, channel, park, spawn, clock, ...) calls [`point`], where a seeded
//! scheduler decides who runs next and which fault fires. All decisions are recorded as small integers
//! (0 = "carry on, no fault"), so a run is a pure function of (program, [`Config`], decisions).

use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering as O};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub mod clock;
pub mod raw;
pub mod rng;
pub use clock::VClock;
pub use rng::Rng;

pub type TaskId = usize;

// ---------------------------------------------------------------- configuration

/// What a fault decision is about. Each kind has its own rate and counters.
#[repr(usize)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// `park` returns without an `unpark` (allowed by its contract).
    SpuriousUnpark = 0,
    /// `compare_exchange_weak` fails although the value matched.
    WeakCas = 1,
    /// A relaxed/acquire load returns an older value the memory model still allows.
    StaleLoad = 2,
    /// A channel's emptiness / disconnection is observed late, as the memory model allows.
    StaleChannel = 3,
    /// `try_lock` on a free lock fails (stale view of a lock word).
    TryLock = 4,
    /// Creating a thread fails (EAGAIN).
    SpawnFail = 5,
    /// The clock jumps forward.
    ClockJump = 6,
    /// A task stalls for a long while.
    Stall = 7,
    /// A condvar wakes up by itself.
    SpuriousCond = 8,
    /// A database operation is delayed.
    DbDelay = 9,
    /// A database operation fails.
    DbError = 10,
    /// The channel implementation makes a sender/receiver briefly spin.
    DbReorder = 11,
}
pub const NFAULT: usize = 12;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "spurious_unpark",
    "weak_cas_failure",
    "stale_atomic_load",
    "stale_channel_view",
    "try_lock_failure",
    "thread_spawn_failure",
    "clock_jump",
    "task_stall",
    "spurious_condvar_wakeup",
    "db_delay",
    "db_error",
    "db_reorder",
];

/// How the next runnable task is picked when the decision is not replayed.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Keep running the current task, but switch to a random other with probability `p`/1000.
    Random { p: u32 },
    /// Probabilistic concurrency testing: random priorities, `changes` random priority drops.
    Pct { changes: u32, horizon: u32 },
    /// Run a task until it blocks; then pick randomly.
    RunToBlock,
    /// Round robin with a fixed quantum.
    RoundRobin { quantum: u32 },
    /// Like Random, but the tasks whose id bit is set in `mask` run only rarely.
    Starve { mask: u64, p: u32 },
    /// Tasks have random weights (slow and fast nodes).
    Weighted { p: u32 },
    /// Alternates between calm stretches and storms of switching.
    Bursty { len: u32 },
    /// All decisions come from the list given; when it ends, always 0.
    Replay,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// Fault rates in parts per million of opportunities.
    pub rates: [u32; NFAULT],
    /// Faults stop and scheduling turns fair after this many steps.
    pub calm_after: u64,
    /// A run that has not finished after this many further steps is a liveness violation.
    pub give_up_after: u64,
    /// Decisions to replay (used with Policy::Replay).
    pub replay: Vec<u32>,
    /// Simulated ns that pass per step.
    pub step_ns: u64,
    pub trace: bool,
}

impl Config {
    pub fn new(seed: u64) -> Self {
        Config {
            seed,
            policy: Policy::Random { p: 200 },
            rates: [0; NFAULT],
            calm_after: 60_000,
            give_up_after: 400_000,
            replay: vec![],
            step_ns: 100,
            trace: false,
        }
    }
    pub fn weak(&self) -> bool {
        self.rates[Fault::StaleLoad as usize] > 0 || self.rates[Fault::StaleChannel as usize] > 0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Completed,
    /// Nothing can run and no timer is pending.
    Deadlock(String),
    /// Not finished although scheduling was fair and fault free for `give_up_after` steps.
    Livelock(String),
    /// The main task panicked.
    MainPanic(String),
    /// [`abort_run`] was called.
    Aborted(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub steps: u64,
    pub switches: u64,
    pub tasks: usize,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub faults: [u64; NFAULT],
    pub choices: Vec<u32>,
    pub trace: Vec<String>,
    pub stdout: Vec<(TaskId, String)>,
    /// Tasks other than main that had not finished when main did.
    pub unfinished: usize,
}

// ---------------------------------------------------------------- state

#[derive(Clone, Debug, PartialEq)]
enum State {
    Runnable,
    Blocked { key: usize, deadline: Option<u64>, why: &'static str },
    Done,
}

pub struct Task {
    name: String,
    state: State,
    coro: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    park_token: bool,
    park_vc: VClock,
    timed_out: bool,
    stalled_until: u64,
    panicking: u32,
    locals: Vec<(usize, Box<dyn Any>)>,
    vc: VClock,
    end_vc: VClock,
    prio: u64,
    weight: u32,
    ops: u64,
    rand_calls: u64,
}

struct Sim {
    cfg: Config,
    weak: bool,
    tasks: Vec<Task>,
    runnable: Vec<TaskId>, // sorted
    cur: TaskId,
    rng: Rng,
    fault_rng: Rng,
    steps: u64,
    switches: u64,
    run_len: u64,
    now: u64,
    hash: u64,
    choices: Vec<u32>,
    pos: usize,
    faults: [u64; NFAULT],
    calm: bool,
    abort: Option<Status>,
    trace: Vec<String>,
    stdout: Vec<(TaskId, String)>,
    pct_changes: Vec<u64>,
    pct_low: u64,
    sched_next: Option<TaskId>,
    data: BTreeMap<&'static str, Box<dyn Any>>,
    aborting: bool,
}

thread_local! {
    static CUR: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: UnsafeCell<Vec<DefaultStack>> = const { UnsafeCell::new(Vec::new()) };
}

/// Bumped once per run: facade objects that outlive a run (statics) reset themselves when it changes.
static EPOCH: AtomicU64 = AtomicU64::new(1);
/// Bumped by every step: a watchdog thread uses it to notice code that loops without touching any seam.
pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

const STACK: usize = 256 * 1024;
const MAIN_STACK: usize = 1024 * 1024;

#[inline(always)]
fn sim() -> &'static mut Sim {
    let p = CUR.with(|c| c.get());
    assert!(!p.is_null(), "simulated operation outside a simulation run");
    unsafe { &mut *p }
}

#[inline(always)]
pub fn active() -> bool {
    CUR.with(|c| !c.get().is_null())
}

pub fn epoch() -> u64 {
    EPOCH.load(O::Relaxed)
}

/// Quantum after which a task that never blocks is preempted even if no decision said so.
const FAIR_QUANTUM: u64 = 4000;
const CALM_QUANTUM: u64 = 24;

impl Sim {
    fn set_runnable(&mut self, t: TaskId) {
        if let Err(i) = self.runnable.binary_search(&t) {
            self.runnable.insert(i, t);
        }
        self.tasks[t].state = State::Runnable;
    }
    fn unset_runnable(&mut self, t: TaskId) {
        if let Ok(i) = self.runnable.binary_search(&t) {
            self.runnable.remove(i);
        }
    }

    /// One decision among `n` options, 0 being the default one. `f` draws it when not replaying.
    fn decide(&mut self, n: u32, f: impl FnOnce(&mut Sim) -> u32) -> u32 {
        debug_assert!(n > 1);
        let v = if matches!(self.cfg.policy, Policy::Replay) {
            let v = self.cfg.replay.get(self.pos).copied().unwrap_or(0);
            if v < n { v } else { v % n }
        } else {
            f(self)
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }

    /// Picks who runs next among the runnable tasks.
    fn pick(&mut self, yielding: bool) -> Option<TaskId> {
        let n = self.runnable.len();
        if n == 0 {
            return None;
        }
        if n == 1 {
            return Some(self.runnable[0]);
        }
        let cur = self.cur;
        let here = self.runnable.binary_search(&cur);
        let base = match here {
            Ok(i) if !yielding => i,
            Ok(i) => (i + 1) % n,
            Err(i) => i % n,
        };
        if self.calm {
            let stay = here.is_ok() && !yielding && self.run_len < CALM_QUANTUM;
            let i = if stay || here.is_err() || yielding { base } else { (base + 1) % n };
            return Some(self.runnable[i]);
        }
        if here.is_ok() && !yielding && self.run_len >= FAIR_QUANTUM {
            if let Policy::Pct { .. } = self.cfg.policy {
                self.pct_low = self.pct_low.saturating_sub(1);
                self.tasks[cur].prio = self.pct_low;
            }
            return Some(self.runnable[(base + 1) % n]);
        }
        let forced = here.is_err() || yielding;
        let v = self.decide(n as u32, |s| s.draw(base, n, forced, yielding));
        Some(self.runnable[(base + v as usize) % n])
    }

    fn draw(&mut self, base: usize, n: usize, forced: bool, yielding: bool) -> u32 {
        let rot = |i: usize| ((i + n - base) % n) as u32;
        let others = |s: &mut Sim| 1 + s.rng.below(n as u64 - 1) as u32;
        let any = |s: &mut Sim| {
            let m = if yielding && s.rng.below(8) != 0 { n - 1 } else { n };
            s.rng.below(m as u64) as u32
        };
        match self.cfg.policy.clone() {
            Policy::Random { p } => {
                if forced {
                    any(self)
                } else if self.rng.below(1000) < p as u64 {
                    others(self)
                } else {
                    0
                }
            }
            Policy::RunToBlock => {
                if forced { any(self) } else { 0 }
            }
            Policy::RoundRobin { quantum } => {
                if forced {
                    0
                } else if self.run_len >= quantum as u64 {
                    1
                } else {
                    0
                }
            }
            Policy::Pct { .. } => {
                if self.pct_changes.last().is_some_and(|c| *c <= self.steps) {
                    self.pct_changes.pop();
                    self.pct_low -= 1;
                    let c = self.cur;
                    self.tasks[c].prio = self.pct_low;
                }
                if yielding {
                    // someone else has to make the progress the current task waits for
                    self.pct_low = self.pct_low.saturating_sub(1);
                    let c = self.cur;
                    self.tasks[c].prio = self.pct_low;
                }
                let (i, _) = self
                    .runnable
                    .iter()
                    .enumerate()
                    .max_by_key(|(_, t)| self.tasks[**t].prio)
                    .unwrap();
                rot(i)
            }
            Policy::Starve { mask, p } => {
                let awake: Vec<usize> = (0..n)
                    .filter(|i| mask & (1 << (self.runnable[*i] % 64)) == 0)
                    .collect();
                let pool: Vec<usize> =
                    if awake.is_empty() || self.rng.below(400) == 0 { (0..n).collect() } else { awake };
                if !forced && pool.contains(&base) && self.rng.below(1000) >= p as u64 {
                    return 0;
                }
                let k = self.rng.below(pool.len() as u64) as usize;
                rot(pool[k])
            }
            Policy::Weighted { p } => {
                if !forced && self.rng.below(1000) >= p as u64 {
                    return 0;
                }
                let tot: u64 = self.runnable.iter().map(|t| self.tasks[*t].weight as u64).sum();
                let mut x = self.rng.below(tot);
                for i in 0..n {
                    let w = self.tasks[self.runnable[i]].weight as u64;
                    if x < w {
                        return rot(i);
                    }
                    x -= w;
                }
                0
            }
            Policy::Bursty { len } => {
                let storm = (self.steps / len.max(1) as u64) % 2 == 1;
                if forced {
                    any(self)
                } else if storm && self.rng.below(2) == 0 {
                    others(self)
                } else {
                    0
                }
            }
            Policy::Replay => unreachable!(),
        }
    }

    /// Fires timers that are due. When nothing is runnable, jumps to the next one. False: none pending.
    fn timers(&mut self, jump: bool) -> bool {
        let mut next: Option<u64> = None;
        for t in &self.tasks {
            if let State::Blocked { deadline: Some(d), .. } = t.state {
                next = Some(next.map_or(d, |n: u64| n.min(d)));
            }
        }
        let Some(n) = next else { return false };
        if jump && self.now < n {
            self.now = n;
        }
        let now = self.now;
        for i in 0..self.tasks.len() {
            if let State::Blocked { deadline: Some(d), .. } = self.tasks[i].state {
                if d <= now {
                    self.tasks[i].timed_out = true;
                    self.set_runnable(i);
                }
            }
        }
        true
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tasks.iter().enumerate() {
            match &t.state {
                State::Done => {}
                State::Runnable => s += &format!("[{i}:{} runnable ops={}] ", t.name, t.ops),
                State::Blocked { why, .. } => s += &format!("[{i}:{} blocked in {why}] ", t.name),
            }
        }
        s.trim_end().to_string()
    }

    fn step(&mut self, op: Op) {
        self.steps += 1;
        self.run_len += 1;
        self.now += self.cfg.step_ns;
        let c = self.cur;
        self.tasks[c].ops += 1;
        self.hash = (self.hash ^ ((c as u64) << 8 | op as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.hash ^= self.hash >> 29;
        if self.steps & 0x3f == 0 {
            HEARTBEAT.fetch_add(1, O::Relaxed);
        }
        if self.cfg.trace && self.trace.len() < 20_000 {
            self.trace.push(format!("{} {}:{} {:?}", self.steps, c, self.tasks[c].name, op));
        }
        if !self.calm && self.steps >= self.cfg.calm_after {
            self.calm = true;
        }
        if self.steps >= self.cfg.calm_after + self.cfg.give_up_after {
            let d = self.describe();
            self.abort = Some(Status::Livelock(d));
        }
    }
}

/// What a scheduling point is about (part of the interleaving measure).
#[repr(u8)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Start = 1,
    Spawn,
    Join,
    Lock,
    TryLock,
    Unlock,
    RLock,
    WLock,
    Cond,
    Notify,
    Barrier,
    Load,
    Store,
    Rmw,
    Send,
    TrySend,
    Recv,
    TryRecv,
    ChanDrop,
    Park,
    Unpark,
    Yield,
    Spin,
    Sleep,
    Once,
    Queue,
    Time,
    Db,
    User,
    Exit,
    Wake,
}

fn suspend() {
    let s = sim();
    let c = s.cur;
    let y = s.tasks[c].yielder;
    unsafe { (*y).suspend(()) };
}

fn switch_to(next: TaskId) {
    let s = sim();
    if next == s.cur {
        return;
    }
    s.sched_next = Some(next);
    suspend();
}

fn check_abort() {
    let s = sim();
    if s.abort.is_some() {
        s.sched_next = None;
        suspend();
        unreachable!("aborted run resumed");
    }
}

/// A scheduling point: called immediately before every visible operation.
#[inline]
pub fn point(op: Op) {
    if !active() {
        return;
    }
    point_inner(op, false)
}

/// A scheduling point at which the current task says that it waits for somebody else.
pub fn yield_point(op: Op) {
    if !active() {
        return;
    }
    point_inner(op, true)
}

fn point_inner(op: Op, yielding: bool) {
    let s = sim();
    s.step(op);
    check_abort();
    if s.steps & 0x7 == 0 {
        s.timers(false);
    }
    if s.cfg.rates[Fault::Stall as usize] > 0 && !yielding && fault(Fault::Stall) {
        let ns = s.cfg.step_ns * 400;
        stall(ns);
        return;
    }
    if let Some(next) = s.pick(yielding) {
        switch_to(next);
    }
}

/// Takes the current task off the processor for `ns` of simulated time, or until nobody else can run.
fn stall(ns: u64) {
    let s = sim();
    if s.runnable.len() <= 1 {
        return;
    }
    let c = s.cur;
    let dl = s.now + ns;
    s.tasks[c].stalled_until = dl;
    block_inner(usize::MAX - c, Some(dl), "injected stall");
}

/// Blocks the current task until `wake_all(key)`, or the deadline. Returns true if it timed out.
pub fn block(key: usize, deadline: Option<u64>, why: &'static str) -> bool {
    block_inner(key, deadline, why)
}

fn block_inner(key: usize, deadline: Option<u64>, why: &'static str) -> bool {
    let s = sim();
    s.step(Op::Wake);
    check_abort();
    let c = s.cur;
    if let Some(d) = deadline {
        if d <= s.now {
            return true;
        }
    }
    s.tasks[c].timed_out = false;
    s.tasks[c].state = State::Blocked { key, deadline, why };
    s.unset_runnable(c);
    loop {
        if let Some(next) = s.pick(false) {
            switch_to(next);
            break;
        }
        if !s.timers(true) {
            let d = s.describe();
            s.abort = Some(Status::Deadlock(d));
            check_abort();
        }
        if s.tasks[c].state == State::Runnable && s.runnable.len() == 1 {
            break;
        }
    }
    let s = sim();
    std::mem::take(&mut s.tasks[c].timed_out)
}

pub fn wake_all(key: usize) {
    if !active() {
        return;
    }
    let s = sim();
    for i in 0..s.tasks.len() {
        if let State::Blocked { key: k, .. } = s.tasks[i].state {
            if k == key {
                s.set_runnable(i);
            }
        }
    }
}

/// Unbiased decision in 0..n recorded in the trace; 0 is the default used when shrinking.
pub fn choose(n: u32) -> u32 {
    let s = sim();
    if n <= 1 || s.calm {
        return 0;
    }
    s.decide(n, |s| s.fault_rng.below(n as u64) as u32)
}

/// Does this fault fire here?
pub fn fault(kind: Fault) -> bool {
    let s = sim();
    let rate = s.cfg.rates[kind as usize];
    if rate == 0 || s.calm {
        return false;
    }
    let v = s.decide(2, |s| (s.fault_rng.below(1_000_000) < rate as u64) as u32);
    if v == 1 {
        s.faults[kind as usize] += 1;
    }
    v == 1
}

pub fn count_fault(kind: Fault) {
    sim().faults[kind as usize] += 1;
}

pub fn fault_enabled(kind: Fault) -> bool {
    active() && sim().cfg.rates[kind as usize] > 0
}

/// Random bits for the *environment* of the program (e.g. an unseeded RNG inside it). Seeded, not shrunk.
pub fn env_random() -> u64 {
    if !active() {
        return 0x1234_5678_9abc_def0;
    }
    let s = sim();
    // independent of the schedule: derived from the seed and a per-task count
    let c = s.cur as u64;
    s.tasks[c as usize].rand_calls += 1;
    let n = s.tasks[s.cur].rand_calls;
    let mut r = Rng::new(s.cfg.seed ^ c.wrapping_mul(0xA24B_AED4_963E_E407) ^ n.rotate_left(32));
    r.next()
}

pub fn now_ns() -> u64 {
    if active() { sim().now } else { 0 }
}

pub fn advance_ns(ns: u64) {
    sim().now += ns;
}

pub fn steps() -> u64 {
    sim().steps
}

pub fn current() -> TaskId {
    if active() { sim().cur } else { 0 }
}

pub fn task_name(t: TaskId) -> String {
    if active() { sim().tasks[t].name.clone() } else { String::new() }
}

pub fn is_done(t: TaskId) -> bool {
    sim().tasks[t].state == State::Done
}

pub fn is_calm() -> bool {
    active() && sim().calm
}

/// Stops the run at once (used by invariants checked while the run proceeds).
pub fn abort_run(msg: String) -> ! {
    let s = sim();
    s.abort = Some(Status::Aborted(msg));
    check_abort();
    unreachable!()
}

pub fn note(msg: impl FnOnce() -> String) {
    if active() {
        let s = sim();
        if s.cfg.trace && s.trace.len() < 20_000 {
            let m = msg();
            s.trace.push(format!("{} {}:{} | {}", s.steps, s.cur, s.tasks[s.cur].name, m));
        }
    }
}

pub fn print(text: &str) {
    if active() {
        let s = sim();
        let t = s.cur;
        if s.stdout.len() < 1 << 14 {
            s.stdout.push((t, text.to_string()));
        }
    }
}

/// Per-run storage for facades (e.g. the simulated database).
pub fn data<T: Any + Default>(name: &'static str) -> &'static mut T {
    let s = sim();
    s.data
        .entry(name)
        .or_insert_with(|| Box::new(T::default()))
        .downcast_mut()
        .expect("sim data type")
}

// ---------------------------------------------------------------- panics

/// Called by the panic hook: the current task started unwinding.
pub fn on_panic() {
    if active() {
        let s = sim();
        let c = s.cur;
        s.tasks[c].panicking += 1;
    }
}

pub fn panicking() -> bool {
    active() && {
        let s = sim();
        s.tasks[s.cur].panicking > 0
    }
}

/// catch_unwind that keeps the per-task panic count right.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    let depth = if active() { sim().tasks[sim().cur].panicking } else { 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() && active() {
        let s = sim();
        let c = s.cur;
        s.tasks[c].panicking = depth;
    }
    r
}

pub fn resume(payload: Box<dyn Any + Send>) -> ! {
    on_panic();
    std::panic::resume_unwind(payload)
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic payload".to_string()
    }
}

// ---------------------------------------------------------------- tasks

fn get_stack(size: usize) -> DefaultStack {
    if size == STACK {
        if let Some(s) = STACKS.with(|p| unsafe { (*p.get()).pop() }) {
            return s;
        }
    }
    DefaultStack::new(size).expect("coroutine stack")
}

fn put_stack(s: DefaultStack) {
    STACKS.with(|p| unsafe {
        let p = &mut *p.get();
        if p.len() < 256 {
            p.push(s)
        }
    })
}

/// Lets worker threads hand their stack pool on to the next run's thread.
pub struct StackPool(Vec<DefaultStack>);
unsafe impl Send for StackPool {}
pub fn take_stacks() -> StackPool {
    StackPool(STACKS.with(|p| unsafe { std::mem::take(&mut *p.get()) }))
}
pub fn give_stacks(s: StackPool) {
    STACKS.with(|p| unsafe { *p.get() = s.0 })
}
impl Default for StackPool {
    fn default() -> Self {
        StackPool(vec![])
    }
}

fn new_task(name: String, f: Box<dyn FnOnce()>, size: usize) -> TaskId {
    let s = sim();
    let id = s.tasks.len();
    let body = move |y: &Yielder<(), ()>, _: ()| {
        sim().tasks[id].yielder = y as *const _;
        f();
        finish(id);
    };
    // The closure only ever runs inside this run; `finish` or force_reset end it before the run ends.
    let coro = unsafe { Coroutine::with_stack_unchecked(get_stack(size), body) };
    let (prio, weight) = match s.cfg.policy {
        Policy::Pct { .. } => ((1 << 40) + s.rng.below(1 << 30), 1),
        Policy::Weighted { .. } => (0, [1u32, 1, 4, 16, 64][s.rng.below(5) as usize]),
        _ => (0, 1),
    };
    let vc = if id > 0 && s.weak {
        let c = s.cur;
        s.tasks[c].vc.bump(c);
        s.tasks[c].vc.clone()
    } else {
        VClock::default()
    };
    s.tasks.push(Task {
        name,
        state: State::Runnable,
        coro: Some(coro),
        yielder: std::ptr::null(),
        park_token: false,
        park_vc: VClock::default(),
        timed_out: false,
        stalled_until: 0,
        panicking: 0,
        locals: vec![],
        vc,
        end_vc: VClock::default(),
        prio,
        weight,
        ops: 0,
        rand_calls: 0,
    });
    s.set_runnable(id);
    id
}

fn finish(id: TaskId) {
    // thread-locals die on the thread itself, after the thread's closure
    loop {
        let l = sim().tasks[id].locals.pop();
        match l {
            Some(x) => {
                let r = catch(move || drop(x));
                let _ = r;
            }
            None => break,
        }
    }
    point(Op::Exit);
    let s = sim();
    s.tasks[id].end_vc = s.tasks[id].vc.clone();
    s.tasks[id].state = State::Done;
    s.unset_runnable(id);
    wake_all(exit_key(id));
    // choose the successor here, so that the choice is recorded in order
    if id != 0 {
        loop {
            if let Some(n) = s.pick(false) {
                s.sched_next = Some(n);
                break;
            }
            if !s.timers(true) {
                let d = s.describe();
                s.abort = Some(Status::Deadlock(d));
                s.sched_next = None;
                break;
            }
        }
    }
}

fn exit_key(id: TaskId) -> usize {
    usize::MAX / 2 - id
}
fn park_key(id: TaskId) -> usize {
    usize::MAX / 4 - id
}

/// Starts a simulated thread. The closure must not unwind.
pub fn spawn(name: String, f: Box<dyn FnOnce()>) -> TaskId {
    let id = new_task(name, f, STACK);
    point(Op::Spawn);
    id
}

/// Waits until the task has finished (including its thread-locals).
pub fn join(t: TaskId) {
    point(Op::Join);
    while !is_done(t) {
        block(exit_key(t), None, "join");
    }
    let s = sim();
    if s.weak {
        let e = s.tasks[t].end_vc.clone();
        let c = s.cur;
        s.tasks[c].vc.join(&e);
    }
}

pub fn park(deadline: Option<u64>) {
    point(Op::Park);
    let c = current();
    loop {
        let s = sim();
        if s.tasks[c].park_token {
            s.tasks[c].park_token = false;
            if s.weak {
                let v = std::mem::take(&mut s.tasks[c].park_vc);
                s.tasks[c].vc.join(&v);
            }
            return;
        }
        if fault(Fault::SpuriousUnpark) {
            return;
        }
        if block(park_key(c), deadline, "park") {
            return;
        }
    }
}

pub fn unpark(t: TaskId) {
    point(Op::Unpark);
    let s = sim();
    s.tasks[t].park_token = true;
    if s.weak {
        let c = s.cur;
        s.tasks[c].vc.bump(c);
        let v = s.tasks[c].vc.clone();
        s.tasks[t].park_vc.join(&v);
    }
    wake_all(park_key(t));
}

pub fn sleep_ns(ns: u64) {
    point(Op::Sleep);
    if ns == 0 {
        return;
    }
    let dl = sim().now.saturating_add(ns);
    while sim().now < dl {
        block(usize::MAX - 1_000_000 - current(), Some(dl), "sleep");
    }
}

// ---------------------------------------------------------------- memory model bookkeeping

pub fn weak() -> bool {
    active() && sim().weak
}
/// Current task's clock (after bumping its own component): call when publishing.
pub fn publish() -> VClock {
    let s = sim();
    let c = s.cur;
    s.tasks[c].vc.bump(c);
    s.tasks[c].vc.clone()
}
pub fn acquire(v: &VClock) {
    let s = sim();
    let c = s.cur;
    s.tasks[c].vc.join(v);
}
/// Does the event (task, tick) happen before the current task's present?
pub fn happened_before(task: TaskId, tick: u32) -> bool {
    let s = sim();
    task == s.cur || s.tasks[s.cur].vc.get(task) >= tick
}
pub fn own_tick() -> u32 {
    let s = sim();
    s.tasks[s.cur].vc.get(s.cur)
}

// ---------------------------------------------------------------- thread locals

/// Pointer to the current task's slot for `key`, if initialised.
pub fn local_get(key: usize) -> Option<*mut dyn Any> {
    let s = sim();
    let c = s.cur;
    s.tasks[c].locals.iter_mut().find(|(k, _)| *k == key).map(|(_, b)| &mut **b as *mut dyn Any)
}
pub fn local_set(key: usize, v: Box<dyn Any>) {
    let s = sim();
    let c = s.cur;
    s.tasks[c].locals.push((key, v));
}

// ---------------------------------------------------------------- the run

/// Runs `f` as the main task of a fresh simulation, to the end.
pub fn run(cfg: Config, f: impl FnOnce() + 'static) -> Outcome {
    assert!(!active(), "nested simulation");
    EPOCH.fetch_add(1, O::Relaxed);
    let mut rng = Rng::new(cfg.seed ^ 0x5c4e_d01e_0000_0001);
    let fault_rng = Rng::new(cfg.seed ^ 0xfa17_0000_0000_0003);
    let pct_changes = if let Policy::Pct { changes, horizon } = cfg.policy {
        let mut v: Vec<u64> = (0..changes).map(|_| rng.below(horizon.max(1) as u64)).collect();
        v.sort_unstable_by(|a, b| b.cmp(a));
        v
    } else {
        vec![]
    };
    let weak = cfg.weak();
    let s = Box::new(Sim {
        weak,
        cfg,
        tasks: vec![],
        runnable: vec![],
        cur: 0,
        rng,
        fault_rng,
        steps: 0,
        switches: 0,
        run_len: 0,
        now: 1_000_000_000,
        hash: 0xcbf2_9ce4_8422_2325,
        choices: vec![],
        pos: 0,
        faults: [0; NFAULT],
        calm: false,
        abort: None,
        trace: vec![],
        stdout: vec![],
        pct_changes,
        pct_low: 1 << 39,
        sched_next: None,
        data: BTreeMap::new(),
        aborting: false,
    });
    let p = Box::into_raw(s);
    CUR.with(|c| c.set(p));
    let panic_text: std::rc::Rc<std::cell::RefCell<Option<String>>> = Default::default();
    let pt = panic_text.clone();
    new_task(
        "main".into(),
        Box::new(move || {
            if let Err(e) = catch(f) {
                *pt.borrow_mut() = Some(payload_text(&*e));
            }
        }),
        MAIN_STACK,
    );
    let mut next = 0;
    let mut main_done = false;
    loop {
        let s = sim();
        if s.cur != next {
            s.switches += 1;
            s.run_len = 0;
        }
        s.cur = next;
        let mut coro = s.tasks[next].coro.take().expect("task already running");
        let r = coro.resume(());
        let s = sim();
        match r {
            CoroutineResult::Yield(()) => s.tasks[next].coro = Some(coro),
            CoroutineResult::Return(()) => {
                let st = coro.into_stack();
                if next != 0 {
                    put_stack(st);
                }
            }
        }
        if s.abort.is_some() {
            break;
        }
        if s.tasks[0].state == State::Done {
            main_done = true;
            break;
        }
        next = s.sched_next.take().expect("no successor");
    }
    let s = sim();
    let unfinished = s.tasks.iter().skip(1).filter(|t| t.state != State::Done).count();
    s.aborting = true;
    for t in s.tasks.iter_mut() {
        if let Some(mut c) = t.coro.take() {
            // Threads still alive are abandoned where they stand, as at process exit.
            if !c.done() {
                unsafe { c.force_reset() };
            }
            let st = c.into_stack();
            put_stack(st);
        }
    }
    for t in s.tasks.iter_mut() {
        std::mem::forget(std::mem::take(&mut t.locals));
    }
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let s = unsafe { *Box::from_raw(p) };
    let status = if let Some(a) = s.abort {
        a
    } else if let Some(t) = panic_text.borrow_mut().take() {
        Status::MainPanic(t)
    } else {
        debug_assert!(main_done);
        Status::Completed
    };
    Outcome {
        status,
        steps: s.steps,
        switches: s.switches,
        tasks: s.tasks.len(),
        sim_ns: s.now - 1_000_000_000,
        sched_hash: s.hash,
        faults: s.faults,
        choices: s.choices,
        trace: s.trace,
        stdout: s.stdout,
        unfinished,
    }
}

/// Re-raises a payload whose panic was already counted and then caught.
pub fn resume_keep(payload: Box<dyn Any + Send>) -> ! {
    resume(payload)
}

pub(crate) fn fence_all() {
    let s = sim();
    let mut all = VClock::default();
    for t in &s.tasks {
        all.join(&t.vc);
    }
    let c = s.cur;
    s.tasks[c].vc.join(&all);
}
