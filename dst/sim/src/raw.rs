//! Building blocks shared by the facade crates. All of them are used by one OS thread at a time (the
//! thread of the run), so plain cells are enough; the simulator decides when tasks switch.

use crate::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::VecDeque;

/// What a static held when it was first used: later runs in the same process start from it again.
pub struct Boot {
    epoch: Cell<u64>,
    bytes: UnsafeCell<Option<Box<[u8]>>>,
}
unsafe impl Send for Boot {}
unsafe impl Sync for Boot {}

fn in_static(p: *const u8) -> bool {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    let at = p as usize;
    unsafe { at >= &raw const __data_start as usize && at < &raw const _end as usize }
}

impl Boot {
    pub const fn new() -> Self {
        Boot { epoch: Cell::new(0), bytes: UnsafeCell::new(None) }
    }
    /// Whatever replaced the first value is leaked: nobody is left who could use it. True if this is a new run's first use.
    #[inline]
    pub fn check<T: ?Sized>(&self, v: *mut T) -> bool {
        let e = epoch();
        if self.epoch.get() == e || !active() {
            return false;
        }
        self.epoch.set(e);
        let p = v as *mut u8;
        if !in_static(p) {
            return false;
        }
        unsafe {
            let n = std::mem::size_of_val(&*v);
            match &*self.bytes.get() {
                None => *self.bytes.get() = Some(std::slice::from_raw_parts(p as *const u8, n).into()),
                Some(b) => std::ptr::copy_nonoverlapping(b.as_ptr(), p, n),
            }
        }
        true
    }
}

/// Lock word shared by every mutex flavour.
pub struct RawMutex {
    locked: Cell<bool>,
    epoch: Cell<u64>,
    vc: RefCell<Option<VClock>>,
    last: Cell<(usize, u32)>,
}
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}

impl RawMutex {
    pub const fn new() -> Self {
        RawMutex {
            locked: Cell::new(false),
            epoch: Cell::new(0),
            vc: RefCell::new(None),
            last: Cell::new((0, 0)),
        }
    }
    fn fresh(&self) {
        let e = epoch();
        if self.epoch.get() != e {
            self.epoch.set(e);
            self.locked.set(false);
            *self.vc.borrow_mut() = None;
            self.last.set((0, 0));
        }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn taken(&self) {
        self.locked.set(true);
        if weak() {
            if let Some(v) = &*self.vc.borrow() {
                acquire(v);
            }
        }
    }
    pub fn lock(&self) {
        if !active() {
            assert!(!self.locked.replace(true), "lock would block outside the simulation");
            return;
        }
        self.fresh();
        point(Op::Lock);
        while self.locked.get() {
            block(self.key(), None, "mutex lock");
        }
        self.taken();
    }
    pub fn try_lock(&self) -> bool {
        if !active() {
            return !self.locked.replace(true);
        }
        self.fresh();
        point(Op::TryLock);
        if self.locked.get() {
            return false;
        }
        let (t, k) = self.last.get();
        if fault_enabled(Fault::TryLock) && (!weak() || !happened_before(t, k)) && fault(Fault::TryLock) {
            return false;
        }
        self.taken();
        true
    }
    /// False on timeout.
    pub fn lock_until(&self, deadline: u64) -> bool {
        self.fresh();
        point(Op::Lock);
        while self.locked.get() {
            if block(self.key(), Some(deadline), "mutex lock") {
                return false;
            }
        }
        self.taken();
        true
    }
    pub fn unlock(&self) {
        if active() {
            self.fresh();
            point(Op::Unlock);
            if weak() {
                *self.vc.borrow_mut() = Some(publish());
                self.last.set((current(), own_tick()));
            }
            self.locked.set(false);
            wake_all(self.key());
        } else {
            self.locked.set(false);
        }
    }
    pub fn is_locked(&self) -> bool {
        if active() {
            self.fresh();
            point(Op::Load);
        }
        self.locked.get()
    }
}

pub struct RawRwLock {
    readers: Cell<usize>,
    writer: Cell<bool>,
    waiting_writers: Cell<usize>,
    epoch: Cell<u64>,
    vc: RefCell<Option<VClock>>,
    rvc: RefCell<Option<VClock>>,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}

impl RawRwLock {
    pub const fn new() -> Self {
        RawRwLock {
            readers: Cell::new(0),
            writer: Cell::new(false),
            waiting_writers: Cell::new(0),
            epoch: Cell::new(0),
            vc: RefCell::new(None),
            rvc: RefCell::new(None),
        }
    }
    fn fresh(&self) {
        let e = epoch();
        if self.epoch.get() != e {
            self.epoch.set(e);
            self.readers.set(0);
            self.writer.set(false);
            self.waiting_writers.set(0);
            *self.vc.borrow_mut() = None;
            *self.rvc.borrow_mut() = None;
        }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn acq(&self, write: bool) {
        if weak() {
            if let Some(v) = &*self.vc.borrow() {
                acquire(v);
            }
            if write {
                if let Some(v) = &*self.rvc.borrow() {
                    acquire(v);
                }
            }
        }
    }
    pub fn read(&self) {
        if active() {
            self.fresh();
            point(Op::RLock);
            // A waiting writer may hold new readers off (std and parking_lot both may do so).
            while self.writer.get() {
                block(self.key(), None, "rwlock read");
            }
            self.acq(false);
        }
        self.readers.set(self.readers.get() + 1);
    }
    pub fn write(&self) {
        if active() {
            self.fresh();
            point(Op::WLock);
            while self.writer.get() || self.readers.get() > 0 {
                block(self.key(), None, "rwlock write");
            }
            self.acq(true);
        }
        self.writer.set(true);
    }
    pub fn try_read(&self) -> bool {
        if active() {
            self.fresh();
            point(Op::RLock);
        }
        if self.writer.get() {
            return false;
        }
        if active() {
            self.acq(false);
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    pub fn try_write(&self) -> bool {
        if active() {
            self.fresh();
            point(Op::WLock);
        }
        if self.writer.get() || self.readers.get() > 0 {
            return false;
        }
        if active() {
            self.acq(true);
        }
        self.writer.set(true);
        true
    }
    pub fn unread(&self) {
        if active() {
            self.fresh();
            point(Op::Unlock);
            if weak() {
                let mut p = publish();
                let mut r = self.rvc.borrow_mut();
                if let Some(o) = &*r {
                    p.join(o);
                }
                *r = Some(p);
            }
            self.readers.set(self.readers.get().saturating_sub(1));
            wake_all(self.key());
        } else {
            self.readers.set(self.readers.get() - 1);
        }
    }
    pub fn unwrite(&self) {
        if active() {
            self.fresh();
            point(Op::Unlock);
            if weak() {
                *self.vc.borrow_mut() = Some(publish());
            }
            self.writer.set(false);
            wake_all(self.key());
        } else {
            self.writer.set(false);
        }
    }
    pub fn downgrade(&self) {
        self.writer.set(false);
        self.readers.set(self.readers.get() + 1);
        if active() {
            if weak() {
                *self.vc.borrow_mut() = Some(publish());
            }
            wake_all(self.key());
        }
    }
}

#[derive(Default)]
pub struct RawCondvar {
    waiters: RefCell<Vec<(u64, bool)>>, // (ticket, notified)
    next: Cell<u64>,
    vc: RefCell<Option<VClock>>,
}
unsafe impl Send for RawCondvar {}
unsafe impl Sync for RawCondvar {}

impl RawCondvar {
    pub const fn new() -> Self {
        RawCondvar { waiters: RefCell::new(Vec::new()), next: Cell::new(0), vc: RefCell::new(None) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    /// `release`/`reacquire` drop and take the associated lock. Returns true on timeout.
    pub fn wait(&self, deadline: Option<u64>, release: impl FnOnce(), reacquire: impl FnOnce()) -> bool {
        let t = self.next.get();
        self.next.set(t + 1);
        self.waiters.borrow_mut().push((t, false));
        release();
        point(Op::Cond);
        let mut timeout = false;
        loop {
            let notified = self.waiters.borrow().iter().any(|w| w.0 == t && w.1);
            if notified || fault(Fault::SpuriousCond) {
                break;
            }
            if block(self.key(), deadline, "condvar wait") {
                timeout = true;
                break;
            }
        }
        self.waiters.borrow_mut().retain(|w| w.0 != t);
        if weak() {
            if let Some(v) = &*self.vc.borrow() {
                acquire(v);
            }
        }
        reacquire();
        timeout
    }
    pub fn notify(&self, all: bool) -> usize {
        point(Op::Notify);
        if weak() {
            let mut p = publish();
            if let Some(o) = &*self.vc.borrow() {
                p.join(o);
            }
            *self.vc.borrow_mut() = Some(p);
        }
        let idle: Vec<u64> =
            self.waiters.borrow().iter().filter(|w| !w.1).map(|w| w.0).collect();
        let n = if all {
            for w in self.waiters.borrow_mut().iter_mut() {
                w.1 = true;
            }
            idle.len()
        } else if idle.is_empty() {
            0
        } else {
            let i = choose(idle.len() as u32) as usize;
            for w in self.waiters.borrow_mut().iter_mut() {
                if w.0 == idle[i] {
                    w.1 = true;
                }
            }
            1
        };
        wake_all(self.key());
        n
    }
}

// ------------------------------------------------------------------------------------- atomics

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ord {
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}
impl Ord {
    fn acq(self) -> bool {
        matches!(self, Ord::Acquire | Ord::AcqRel | Ord::SeqCst)
    }
    fn rel(self) -> bool {
        matches!(self, Ord::Release | Ord::AcqRel | Ord::SeqCst)
    }
}

struct Store<T> {
    val: T,
    rel: Option<VClock>,
    by: usize,
    at: u32,
}

struct Hist<T> {
    stores: VecDeque<Store<T>>,
    base: usize,           // index of stores[0] in modification order
    seen: Vec<usize>,      // per task: newest index it has observed
    stale_run: Vec<u8>,    // per task: consecutive stale reads
}

/// An atomic cell with the store history the memory model allows readers to see.
pub struct Atom<T: Copy + 'static> {
    v: Cell<T>,
    init: T,
    epoch: Cell<u64>,
    hist: UnsafeCell<Option<Box<Hist<T>>>>,
}
unsafe impl<T: Copy> Send for Atom<T> {}
unsafe impl<T: Copy> Sync for Atom<T> {}

const KEEP: usize = 8;
const MAX_STALE: u8 = 6;

impl<T: Copy + PartialEq> Atom<T> {
    pub const fn new(v: T) -> Self {
        Atom { v: Cell::new(v), init: v, epoch: Cell::new(0), hist: UnsafeCell::new(None) }
    }
    #[inline]
    fn fresh(&self) {
        let e = epoch();
        if self.epoch.get() != e {
            if self.epoch.get() != 0 {
                // a static that outlived its run
                self.v.set(self.init);
            }
            self.epoch.set(e);
            unsafe { *self.hist.get() = None };
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn hist(&self) -> &mut Hist<T> {
        let h = unsafe { &mut *self.hist.get() };
        h.get_or_insert_with(|| {
            let mut q = VecDeque::new();
            // initialisation happens before everything
            q.push_back(Store { val: self.v.get(), rel: None, by: current(), at: 0 });
            Box::new(Hist { stores: q, base: 0, seen: vec![], stale_run: vec![] })
        })
    }
    pub fn load(&self, o: Ord) -> T {
        if !active() {
            return self.v.get();
        }
        self.fresh();
        point(Op::Load);
        if !weak() {
            return self.v.get();
        }
        let h = self.hist();
        let c = current();
        if h.seen.len() <= c {
            h.seen.resize(c + 1, 0);
            h.stale_run.resize(c + 1, 0);
        }
        let newest = h.base + h.stores.len() - 1;
        let mut lo = h.seen[c].max(h.base);
        for i in (lo..=newest).rev() {
            let s = &h.stores[i - h.base];
            if happened_before(s.by, s.at) {
                lo = lo.max(i);
                break;
            }
        }
        let mut pick = newest;
        if lo < newest && o != Ord::SeqCst && h.stale_run[c] < MAX_STALE && fault(Fault::StaleLoad) {
            let h = self.hist();
            let back = 1 + choose((newest - lo) as u32) as usize;
            pick = newest - back;
            h.stale_run[c] += 1;
        } else {
            self.hist().stale_run[c] = 0;
        }
        let h = self.hist();
        h.seen[c] = pick;
        let s = &h.stores[pick - h.base];
        if o.acq() {
            if let Some(v) = &s.rel {
                acquire(v);
            }
        }
        s.val
    }
    fn push(&self, val: T, o: Ord, rmw: bool) {
        self.v.set(val);
        if !weak() {
            return;
        }
        let h = self.hist();
        let prev = if rmw { h.stores.back().and_then(|s| s.rel.clone()) } else { None };
        let mut rel = if o.rel() { Some(publish()) } else { let _ = publish(); None };
        if let Some(p) = prev {
            // release sequence
            match &mut rel {
                Some(r) => r.join(&p),
                None => rel = Some(p),
            }
        }
        let c = current();
        h.stores.push_back(Store { val, rel, by: c, at: own_tick() });
        if h.stores.len() > KEEP {
            h.stores.pop_front();
            h.base += 1;
        }
        if h.seen.len() <= c {
            h.seen.resize(c + 1, 0);
            h.stale_run.resize(c + 1, 0);
        }
        h.seen[c] = h.base + h.stores.len() - 1;
    }
    pub fn store(&self, val: T, o: Ord) {
        if !active() {
            self.v.set(val);
            return;
        }
        self.fresh();
        point(Op::Store);
        self.push(val, o, false);
    }
    fn newest_read(&self, o: Ord) -> T {
        if weak() {
            let h = self.hist();
            let c = current();
            if h.seen.len() <= c {
                h.seen.resize(c + 1, 0);
                h.stale_run.resize(c + 1, 0);
            }
            h.seen[c] = h.base + h.stores.len() - 1;
            if o.acq() {
                if let Some(v) = &h.stores.back().unwrap().rel {
                    acquire(v);
                }
            }
        }
        self.v.get()
    }
    pub fn rmw(&self, o: Ord, f: impl FnOnce(T) -> T) -> T {
        if !active() {
            let old = self.v.get();
            self.v.set(f(old));
            return old;
        }
        self.fresh();
        point(Op::Rmw);
        let old = self.newest_read(o);
        self.push(f(old), o, true);
        old
    }
    pub fn cas(&self, cur: T, new: T, ok: Ord, bad: Ord, weak_cas: bool) -> Result<T, T> {
        if !active() {
            let old = self.v.get();
            return if old == cur {
                self.v.set(new);
                Ok(old)
            } else {
                Err(old)
            };
        }
        self.fresh();
        point(Op::Rmw);
        let old = self.v.get();
        if old != cur || (weak_cas && fault(Fault::WeakCas)) {
            return Err(self.newest_read(bad));
        }
        let old = self.newest_read(ok);
        self.push(new, ok, true);
        Ok(old)
    }
    pub fn get_mut(&mut self) -> &mut T {
        if active() {
            self.fresh();
        }
        *self.hist.get_mut() = None;
        self.v.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.v.get()
    }
    pub fn peek(&self) -> T {
        self.v.get()
    }
    pub fn as_ptr(&self) -> *mut T {
        self.v.as_ptr()
    }
}

/// Conservative fence: synchronises with everything so far (never invents behaviours).
pub fn fence() {
    if active() {
        point(Op::Load);
        if weak() {
            fence_all();
        }
    }
}

// ------------------------------------------------------------------------------------- channels

struct Msg<T> {
    val: T,
    vc: Option<VClock>,
    by: usize,
    at: u32,
}

/// Queue behind every channel flavour (crossbeam, std::sync::mpsc, ...).
pub struct Chan<T> {
    q: RefCell<VecDeque<Msg<T>>>,
    cap: Option<usize>,
    senders: Cell<usize>,
    receivers: Cell<usize>,
    recv_waiting: Cell<usize>, // receivers currently willing to take a rendezvous message
    taken: Cell<u64>,
    put: Cell<u64>,
    free_vc: RefCell<VClock>,
    send_end: RefCell<VClock>,
    recv_end: RefCell<VClock>,
    stale: Cell<u8>,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvFail {
    Empty,
    Disconnected,
    Timeout,
}
#[derive(Debug)]
pub enum SendFail<T> {
    Full(T),
    Disconnected(T),
    Timeout(T),
}

impl<T> Chan<T> {
    pub fn new(cap: Option<usize>) -> Self {
        Chan {
            q: RefCell::new(VecDeque::new()),
            cap,
            senders: Cell::new(1),
            receivers: Cell::new(1),
            recv_waiting: Cell::new(0),
            taken: Cell::new(0),
            put: Cell::new(0),
            free_vc: Default::default(),
            send_end: Default::default(),
            recv_end: Default::default(),
            stale: Cell::new(0),
        }
    }
    fn rkey(&self) -> usize {
        self as *const _ as usize
    }
    fn skey(&self) -> usize {
        self as *const _ as usize + 1
    }
    fn full(&self) -> bool {
        match self.cap {
            None => false,
            Some(0) => !self.q.borrow().is_empty(),
            Some(c) => self.q.borrow().len() >= c,
        }
    }
    fn msg(&self, val: T) -> Msg<T> {
        if weak() {
            let vc = publish();
            Msg { val, vc: Some(vc), by: current(), at: own_tick() }
        } else {
            Msg { val, vc: None, by: 0, at: 0 }
        }
    }
    pub fn send(&self, val: T, deadline: Option<u64>) -> Result<(), SendFail<T>> {
        point(Op::Send);
        loop {
            if self.receivers.get() == 0 {
                return Err(SendFail::Disconnected(val));
            }
            if !self.full() {
                break;
            }
            if block(self.skey(), deadline, "channel send (full)") {
                return Err(SendFail::Timeout(val));
            }
        }
        if weak() && self.cap.is_some() {
            acquire(&self.free_vc.borrow());
        }
        let m = self.msg(val);
        self.q.borrow_mut().push_back(m);
        self.put.set(self.put.get() + 1);
        self.stale.set(0);
        wake_all(self.rkey());
        if self.cap == Some(0) {
            // rendezvous: done when the message is taken
            let me = self.put.get();
            while self.taken.get() < me {
                let expired = deadline.is_some_and(|d| d <= now_ns());
                if self.receivers.get() == 0 || expired {
                    self.taken.set(me);
                    let back = self.q.borrow_mut().pop_front();
                    if let Some(m) = back {
                        wake_all(self.skey());
                        let gone = self.receivers.get() == 0;
                        return Err(if gone { SendFail::Disconnected(m.val) } else { SendFail::Timeout(m.val) });
                    }
                    break;
                }
                block(self.skey(), deadline, "channel send (rendezvous)");
            }
        }
        Ok(())
    }
    pub fn try_send(&self, val: T) -> Result<(), SendFail<T>> {
        point(Op::TrySend);
        if self.receivers.get() == 0 {
            return Err(SendFail::Disconnected(val));
        }
        if self.full() || (self.cap == Some(0) && self.recv_waiting.get() == 0) {
            return Err(SendFail::Full(val));
        }
        if weak() && self.cap.is_some() {
            acquire(&self.free_vc.borrow());
        }
        let m = self.msg(val);
        self.q.borrow_mut().push_back(m);
        self.put.set(self.put.get() + 1);
        self.stale.set(0);
        wake_all(self.rkey());
        Ok(())
    }
    fn take(&self) -> Option<T> {
        let m = self.q.borrow_mut().pop_front()?;
        if let Some(v) = &m.vc {
            acquire(v);
        }
        self.taken.set(self.taken.get() + 1);
        if weak() && self.cap.is_some() {
            let p = publish();
            self.free_vc.borrow_mut().join(&p);
        }
        wake_all(self.skey());
        Some(m.val)
    }
    pub fn recv(&self, deadline: Option<u64>) -> Result<T, RecvFail> {
        point(Op::Recv);
        loop {
            if let Some(v) = self.take() {
                return Ok(v);
            }
            if self.senders.get() == 0 {
                if weak() {
                    acquire(&self.send_end.borrow());
                }
                return Err(RecvFail::Disconnected);
            }
            if self.cap == Some(0) {
                self.recv_waiting.set(self.recv_waiting.get() + 1);
                wake_all(self.skey());
            }
            let t = block(self.rkey(), deadline, "channel recv (empty)");
            if self.cap == Some(0) {
                self.recv_waiting.set(self.recv_waiting.get() - 1);
            }
            if t && self.q.borrow().is_empty() {
                return Err(RecvFail::Timeout);
            }
        }
    }
    pub fn try_recv(&self) -> Result<T, RecvFail> {
        point(Op::TryRecv);
        let hidden = {
            let q = self.q.borrow();
            match q.front() {
                Some(m) => weak() && !happened_before(m.by, m.at),
                None => false,
            }
        };
        if hidden && self.stale.get() < MAX_STALE && fault(Fault::StaleChannel) {
            self.stale.set(self.stale.get() + 1);
            return Err(RecvFail::Empty);
        }
        self.stale.set(0);
        if let Some(v) = self.take() {
            return Ok(v);
        }
        if self.senders.get() == 0 {
            if weak() {
                acquire(&self.send_end.borrow());
            }
            return Err(RecvFail::Disconnected);
        }
        Err(RecvFail::Empty)
    }
    pub fn len(&self) -> usize {
        point(Op::Load);
        self.q.borrow().len()
    }
    pub fn cap(&self) -> Option<usize> {
        self.cap
    }
    pub fn add_sender(&self) {
        self.senders.set(self.senders.get() + 1);
    }
    pub fn add_receiver(&self) {
        self.receivers.set(self.receivers.get() + 1);
    }
    pub fn drop_sender(&self) {
        if !active() {
            return;
        }
        point(Op::ChanDrop);
        self.senders.set(self.senders.get() - 1);
        if weak() {
            let p = publish();
            self.send_end.borrow_mut().join(&p);
        }
        if self.senders.get() == 0 {
            wake_all(self.rkey());
        }
    }
    /// When the last receiver goes, undelivered messages are dropped with it.
    pub fn drop_receiver(&self) {
        if !active() {
            return;
        }
        point(Op::ChanDrop);
        self.receivers.set(self.receivers.get() - 1);
        if weak() {
            let p = publish();
            self.recv_end.borrow_mut().join(&p);
        }
        if self.receivers.get() == 0 {
            wake_all(self.skey());
            if self.cap == Some(0) {
                return; // the blocked sender takes its message back
            }
            let old = std::mem::take(&mut *self.q.borrow_mut());
            drop(old);
        }
    }
}

// ------------------------------------------------------------------------------------- once

pub struct RawOnce {
    state: Cell<u8>, // 0 new, 1 running, 2 done, 3 poisoned
    epoch: Cell<u64>,
    vc: RefCell<Option<VClock>>,
}
unsafe impl Send for RawOnce {}
unsafe impl Sync for RawOnce {}
impl RawOnce {
    pub const fn new() -> Self {
        RawOnce { state: Cell::new(0), epoch: Cell::new(0), vc: RefCell::new(None) }
    }
    fn fresh(&self) {
        let e = epoch();
        if active() && self.epoch.get() != e {
            if self.epoch.get() != 0 && in_static(self as *const _ as *const u8) {
                self.state.set(0);
                *self.vc.borrow_mut() = None;
            }
            self.epoch.set(e);
        }
    }
    pub fn done(&self) -> bool {
        self.fresh();
        if active() {
            point(Op::Once);
        }
        if self.state.get() == 2 && weak() {
            if let Some(v) = &*self.vc.borrow() {
                acquire(v);
            }
        }
        self.state.get() == 2
    }
    pub fn poisoned(&self) -> bool {
        self.fresh();
        self.state.get() == 3
    }
    /// Runs `f` if nobody has yet; waits for whoever is running it.
    pub fn call(&self, force: bool, f: impl FnOnce()) {
        self.fresh();
        if active() {
            point(Op::Once);
        }
        loop {
            match self.state.get() {
                2 => {
                    if weak() {
                        if let Some(v) = &*self.vc.borrow() {
                            acquire(v);
                        }
                    }
                    return;
                }
                3 if !force => panic!("Once instance has previously been poisoned"),
                1 => {
                    block(self as *const _ as usize, None, "once");
                }
                _ => break,
            }
        }
        self.state.set(1);
        let r = catch(f);
        if weak() {
            *self.vc.borrow_mut() = Some(publish());
        }
        self.state.set(if r.is_ok() { 2 } else { 3 });
        wake_all(self as *const _ as usize);
        if let Err(e) = r {
            resume_keep(e)
        }
    }
}
