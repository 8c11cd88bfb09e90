//! Builds a [`Prog`] with the real library and runs it inside the simulator, recording every operation.
use crate::api::{interpret, Api};
use crate::case::*;
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::utils::*;
use dam::channel::*;
use dam::context::{Context, ContextSummary, ExplicitConnections, ProxyContext, RuntimeError};
use dam::context_tools::{context_macro, ContextView};
use dam::simulation::*;
use dam::structures::*;
use dam::templates::datastore::Behavior;
use dam::templates::ops::*;
use dam::templates::pcu::*;
use dam::templates::pmu::*;
use dam::logging::{copy_log, initialize_log};
use crate::elem::El;
use dam::types::{Cleanable, DAMType};
use dam::utility_contexts::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Drop1 {
    pub start: Option<u64>,
    pub end: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EvRec {
    pub ctx: usize,
    pub n: u64,
    pub tick: u64,
    pub ok: bool,
    /// Simulated real time before and after.
    pub ns: (u64, u64),
}

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub recs: Vec<Vec<Rec>>,
    pub peeks: Vec<PeekRec>,
    pub ends: Vec<Option<End>>,
    pub fin: Vec<u64>,
    pub ids: Vec<usize>,
    /// The identifier under which the program knows each context (a composite's for its parts).
    pub units: Vec<usize>,
    pub chan_ids: Vec<String>,
    /// Names of the contexts, and identifiers of the composites that exist.
    pub names: Vec<String>,
    pub gids: Vec<Option<usize>>,
    pub txd: Vec<Drop1>,
    pub rxd: Vec<Drop1>,
    /// Laws broken that are noticed on the spot.
    pub local: Vec<(String, String)>,
    pub evs: Vec<EvRec>,
    pub order: Vec<(u64, usize)>,
    pub begun: Vec<bool>,
    pub views: Vec<ViewRec>,
    /// Step at which each script was done.
    pub done_at: Vec<u64>,
    /// The text of the error each context returned.
    pub errs: Vec<Option<String>>,
}

/// An answer of another context's view.
#[derive(Clone, Debug)]
pub struct ViewRec {
    pub by: usize,
    pub of: usize,
    pub wait: Option<u64>,
    pub res: u64,
    pub s1: u64,
}

#[derive(Clone, Debug)]
pub struct Final {
    pub elapsed: Option<u64>,
    pub passed: bool,
    pub failures: Vec<String>,
    pub steps: u64,
}

thread_local! {
    static LOGS: RefCell<Vec<Log>> = const { RefCell::new(Vec::new()) };
    static FINALS: RefCell<Vec<Option<Final>>> = const { RefCell::new(Vec::new()) };
    static CONVERTED: RefCell<HashMap<dam_sim_core::TaskId, (u64, u64)>> = RefCell::new(HashMap::new());
    static VIEWS: RefCell<Vec<Vec<Option<TimeView>>>> = const { RefCell::new(Vec::new()) };
}

/// The record of one of the programs of this run.
pub fn log<R>(prog: usize, f: impl FnOnce(&mut Log) -> R) -> R {
    LOGS.with(|l| f(&mut l.borrow_mut()[prog]))
}
pub fn logs() -> Vec<Log> {
    LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn finals() -> Vec<Option<Final>> {
    FINALS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn law(class: &str, msg: String) {
    log(0, |l| {
        if l.local.len() < 20 {
            l.local.push((class.to_string(), msg));
        }
    })
}

/// What the typed adapters convert to and from.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wrap(u64);
const MASK: u64 = 0x5a5a_0f0f_3c3c;
impl From<El> for Wrap {
    fn from(x: El) -> Self {
        converted(|c| c.0 += 1);
        Wrap(x.0 as u64 ^ MASK)
    }
}
impl From<Wrap> for El {
    fn from(x: Wrap) -> Self {
        converted(|c| c.1 += 1);
        El((x.0 ^ MASK) as usize)
    }
}

/// How often the running task has converted, in either direction.
fn converted<R>(f: impl FnOnce(&mut (u64, u64)) -> R) -> R {
    CONVERTED.with(|c| f(c.borrow_mut().entry(dam_sim_core::current()).or_default()))
}
/// Each value is converted exactly once.
fn once<T, E>(what: &str, back: bool, f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
    let n = || converted(|c| if back { c.1 } else { c.0 });
    let before = n();
    let r = f();
    let k = n() - before;
    if k > 1 || r.is_ok() && k != 1 {
        law("adapter", format!("{what} through the adapter converted {k} times"));
    }
    r
}

/// A channel's end, used directly or through the adapter.
struct Tx {
    s: Sender<El>,
    adapt: bool,
}
struct Rx {
    r: Receiver<El>,
    adapt: bool,
}
fn unwrap(e: ChannelElement<Wrap>) -> ChannelElement<usize> {
    plain(ChannelElement::new(e.time, e.data.into()))
}
fn plain(e: ChannelElement<El>) -> ChannelElement<usize> {
    ChannelElement::new(e.time, e.data.0)
}
impl Tx {
    fn attach(&self, c: &dyn Context) {
        if self.adapt {
            SendAdapter::<Wrap>::attach_sender(&self.s, c)
        } else {
            self.s.attach_sender(c)
        }
    }
    fn enqueue(&self, m: &TimeManager, e: ChannelElement<usize>) -> Result<(), EnqueueError> {
        if self.adapt {
            let e = ChannelElement::new(e.time, El(e.data).into());
            once("enqueue", true, || SendAdapter::<Wrap>::enqueue(&self.s, m, e))
        } else {
            self.s.enqueue(m, ChannelElement::new(e.time, El(e.data)))
        }
    }
    fn wait_until_available(&self, m: &TimeManager) -> Result<(), EnqueueError> {
        if self.adapt {
            SendAdapter::<Wrap>::wait_until_available(&self.s, m)
        } else {
            self.s.wait_until_available(m)
        }
    }
}
impl Rx {
    fn attach(&self, c: &dyn Context) {
        if self.adapt {
            RecvAdapter::<Wrap>::attach_receiver(&self.r, c)
        } else {
            self.r.attach_receiver(c)
        }
    }
    fn dequeue(&self, m: &TimeManager) -> Result<ChannelElement<usize>, DequeueError> {
        if self.adapt {
            once("dequeue", false, || RecvAdapter::<Wrap>::dequeue(&self.r, m)).map(unwrap)
        } else {
            self.r.dequeue(m).map(plain)
        }
    }
    fn peek_next(&self, m: &TimeManager) -> Result<ChannelElement<usize>, DequeueError> {
        if self.adapt {
            once("peek_next", false, || RecvAdapter::<Wrap>::peek_next(&self.r, m)).map(unwrap)
        } else {
            self.r.peek_next(m).map(plain)
        }
    }
    fn peek(&self) -> PeekResult<usize> {
        if self.adapt {
            let found = once("peek", false, || match RecvAdapter::<Wrap>::peek(&self.r) {
                PeekResult::Something(e) => Ok(e),
                PeekResult::Nothing(t) => Err(PeekResult::Nothing(t)),
                PeekResult::Closed => Err(PeekResult::Closed),
            });
            found.map_or_else(|none| none, |e| PeekResult::Something(unwrap(e)))
        } else {
            match self.r.peek() {
                PeekResult::Something(e) => PeekResult::Something(plain(e)),
                PeekResult::Nothing(t) => PeekResult::Nothing(t),
                PeekResult::Closed => PeekResult::Closed,
            }
        }
    }
}

struct RealApi<'a> {
    prog: usize,
    idx: usize,
    time: &'a TimeManager,
    tx: BTreeMap<Ch, Tx>,
    rx: BTreeMap<Ch, Rx>,
    taken: BTreeMap<Ch, usize>,
    why: Option<Why>,
    quiet: bool,
}

/// The library's error a context stopped at.
enum Why {
    Enq(EnqueueError),
    Deq(DequeueError),
}

/// Panics in one of the ways a context may.
fn fail(idx: usize, what: &str) -> ! {
    match idx % 7 {
        0 => panic!("scripted {what}"),
        1 => panic!("scripted {what} of context {idx}"),
        2 => std::panic::panic_any(idx),
        3 => std::panic::panic_any(idx as i32 - 1),
        4 => std::panic::panic_any(anyhow::anyhow!("scripted {what}")),
        5 => std::panic::resume_unwind(Box::new((idx, what.to_string()))),
        _ => None::<usize>.expect("scripted expectation"),
    };
    unreachable!()
}

fn t64(t: Time) -> u64 {
    if t.is_infinite() {
        u64::MAX
    } else {
        t.time()
    }
}

impl RealApi<'_> {
    fn note(&self, k: K, ch: Ch, ok: bool, val: usize, ts: u64, t0: u64, s0: u64) {
        let t1 = t64(self.time.tick());
        let r = Rec { k, ch, ok, val, ts, t0, t1, hi: t1, s0, s1: dam_sim_core::steps() };
        dam_sim_core::note(|| format!("[context {}] {}", self.idx, r.show()));
        log(self.prog, |l| l.recs[self.idx].push(r))
    }
    fn observe(&self, ch: Ch) -> EventTime {
        let t0 = t64(self.time.tick());
        let rx = &self.rx[&ch];
        let alt = self.taken.get(&ch).copied().unwrap_or(0) % 2 == 1;
        // the two ways to look
        let (res, ev) = if alt {
            let ev = rx.r.next_event();
            match ev {
                EventTime::Ready(t) => (Some(Pk::Some(t64(t), usize::MAX)), ev),
                EventTime::Nothing(t) => (Some(Pk::Nothing(t64(t))), ev),
                EventTime::Closed => (Some(Pk::Closed), ev),
            }
        } else {
            match rx.peek() {
                PeekResult::Something(e) => (Some(Pk::Some(t64(e.time), e.data)), EventTime::Ready(e.time)),
                PeekResult::Nothing(t) if t.is_infinite() => (None, EventTime::Closed),
                PeekResult::Nothing(t) => (Some(Pk::Nothing(t64(t))), EventTime::Nothing(t)),
                PeekResult::Closed => (Some(Pk::Closed), EventTime::Closed),
            }
        };
        let t1 = t64(self.time.tick());
        if let Some(res) = res {
            let p = PeekRec { ctx: self.idx, ch, consumed: self.taken.get(&ch).copied().unwrap_or(0), res, t0, t1 };
            dam_sim_core::note(|| format!("peek(ch{}) = {:?} at {}", p.ch, p.res, p.t0));
            log(self.prog, |l| l.peeks.push(p));
        }
        ev
    }
    /// Once a sender was told that its receiver is gone, that does not change.
    fn tx_stays_closed(&self, ch: Ch, asked: bool) {
        if !self.quiet {
            return;
        }
        let (t0, tx) = (self.tick(), &self.tx[&ch]);
        if asked && tx.wait_until_available(self.time).is_ok() {
            law("close", format!("wait_until_available(ch{ch}) failed, and then succeeded"));
        }
        if tx.enqueue(self.time, ChannelElement::new(Time::new(0), 5)).is_ok() {
            law("close", format!("a send on ch{ch} succeeded after an error"));
        }
        if self.tick() != t0 {
            law("tick", format!("operations on the closed ch{ch} moved the clock from {t0} to {}", self.tick()));
        }
    }
    /// Once a channel is closed for its receiver, that does not change.
    fn rx_stays_closed(&self, ch: Ch) {
        if !self.quiet {
            return;
        }
        let (t0, rx) = (self.tick(), &self.rx[&ch]);
        if !matches!(rx.peek(), PeekResult::Closed) || rx.r.next_event() != EventTime::Closed {
            law("close", format!("ch{ch} was closed, but a peek does not say so"));
        }
        if rx.peek_next(self.time).is_ok() || rx.dequeue(self.time).is_ok() {
            law("close", format!("ch{ch} was closed, but something was received from it"));
        }
        if self.tick() != t0 {
            law("tick", format!("operations on the closed ch{ch} moved the clock from {t0} to {}", self.tick()));
        }
    }
}

impl Api for RealApi<'_> {
    fn tick(&self) -> u64 {
        t64(self.time.tick())
    }
    fn incr(&mut self, n: u64) {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        self.time.incr_cycles(n);
        if self.tick() != t0 + n {
            law("clock", format!("context {}: incr_cycles({n}) took the clock from {t0} to {}", self.idx, self.tick()));
        }
        self.note(K::Clock, 0, true, 0, 0, t0, s0);
    }
    fn advance(&mut self, t: u64) {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        self.time.advance(Time::new(t));
        if self.tick() != t0.max(t) {
            law("clock", format!("context {}: advance({t}) took the clock from {t0} to {}", self.idx, self.tick()));
        }
        self.note(K::Clock, 0, true, 0, 0, t0, s0);
    }
    fn enq(&mut self, ch: Ch, time: u64, v: usize) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = self.tx[&ch].enqueue(self.time, ChannelElement::new(Time::new(time), v));
        let ok = r.is_ok();
        self.why = r.err().map(Why::Enq);
        self.note(K::Enq, ch, ok, v, time, t0, s0);
        if !ok {
            self.tx_stays_closed(ch, false);
        }
        ok
    }
    fn avail(&mut self, ch: Ch) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = self.tx[&ch].wait_until_available(self.time);
        let ok = r.is_ok();
        self.why = r.err().map(Why::Enq);
        self.note(K::Avail, ch, ok, 0, 0, t0, s0);
        if !ok {
            self.tx_stays_closed(ch, true);
        }
        ok
    }
    fn deq(&mut self, ch: Ch) -> Option<usize> {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = self.rx[&ch].dequeue(self.time);
        match r {
            Ok(e) => {
                *self.taken.entry(ch).or_default() += 1;
                self.note(K::Deq, ch, true, e.data, t64(e.time), t0, s0);
                Some(e.data)
            }
            Err(e) => {
                self.why = Some(Why::Deq(e));
                self.note(K::Deq, ch, false, 0, 0, t0, s0);
                self.rx_stays_closed(ch);
                None
            }
        }
    }
    fn peek_next(&mut self, ch: Ch) -> Option<usize> {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        match self.rx[&ch].peek_next(self.time) {
            Ok(e) => {
                self.note(K::PeekNext, ch, true, e.data, t64(e.time), t0, s0);
                Some(e.data)
            }
            Err(e) => {
                self.why = Some(Why::Deq(e));
                self.note(K::PeekNext, ch, false, 0, 0, t0, s0);
                self.rx_stays_closed(ch);
                None
            }
        }
    }
    fn peek(&mut self, ch: Ch) {
        self.observe(ch);
    }
    fn ready(&mut self, ch: Ch) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = matches!(self.observe(ch), EventTime::Ready(t) if t <= self.time.tick());
        self.note(K::Mark, ch, true, r as usize, 0, t0, s0);
        r
    }
    fn earliest(&mut self, chs: &[Ch]) -> Option<usize> {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = loop {
            let evs: Vec<EventTime> = chs.iter().map(|c| self.observe(*c)).collect();
            match evs.iter().enumerate().min_by_key(|(_, e)| **e) {
                None | Some((_, EventTime::Closed)) => break None,
                Some((i, EventTime::Ready(t))) => {
                    self.time.advance(*t);
                    break Some(i);
                }
                Some((_, EventTime::Nothing(t))) => self.time.advance(*t + 1),
            }
        };
        self.note(K::Mark, 0, r.is_some(), r.unwrap_or(99), 0, t0, s0);
        r
    }
    fn any(&mut self, chs: &[Ch]) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = loop {
            match chs.iter().map(|c| &self.rx[c].r).collect::<Vec<_>>().any_event().next_event() {
                EventTime::Closed => break false,
                EventTime::Ready(t) => {
                    self.time.advance(t);
                    break true;
                }
                EventTime::Nothing(t) => self.time.advance(t + 1),
            }
        };
        self.note(K::Mark, 0, r, 0, 0, t0, s0);
        r
    }
    fn all(&mut self, chs: &[Ch]) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = loop {
            match chs.iter().map(|c| &self.rx[c].r).collect::<Vec<_>>().all_events().next_event() {
                EventTime::Closed => break false,
                EventTime::Ready(t) => {
                    self.time.advance(t);
                    break true;
                }
                EventTime::Nothing(t) => self.time.advance(t + 1),
            }
        };
        self.note(K::Mark, 0, r, 0, 0, t0, s0);
        r
    }
    fn choose(&mut self, groups: &[Vec<Ch>]) -> bool {
        let (t0, s0) = (self.tick(), dam_sim_core::steps());
        let r = loop {
            let event = groups
                .iter()
                .map(|g| g.iter().map(|c| &self.rx[c].r).collect::<Vec<_>>().all_events())
                .collect::<Vec<_>>()
                .any_event()
                .next_event();
            match event {
                EventTime::Closed => break false,
                EventTime::Ready(t) => {
                    self.time.advance(t);
                    break true;
                }
                EventTime::Nothing(t) => self.time.advance(t + 1),
            }
        };
        self.note(K::Mark, 0, r, 0, 0, t0, s0);
        r
    }
    fn taken(&self, ch: Ch) -> usize {
        self.taken.get(&ch).copied().unwrap_or(0)
    }
    fn drop_tx(&mut self, ch: Ch) {
        if let Some(t) = self.tx.remove(&ch) {
            dam_sim_core::note(|| format!("drops the sender of ch{ch}"));
            dropped(self.prog, false, ch, || drop(t));
        }
    }
    fn drop_rx(&mut self, ch: Ch) {
        if let Some(t) = self.rx.remove(&ch) {
            dam_sim_core::note(|| format!("drops the receiver of ch{ch}"));
            dropped(self.prog, true, ch, || drop(t));
        }
    }
    fn view_wait(&mut self, ctx: usize, t: u64) {
        let Some(v) = VIEWS.with(|v| v.borrow()[self.prog].get(ctx).cloned().flatten()) else { return };
        let t0 = self.tick();
        let when = if t == u64::MAX { Time::infinite() } else { Time::new(t) };
        let r = v.wait_until(when);
        dam_sim_core::note(|| format!("wait_until(context {ctx}, {when}) = {r}"));
        if r < when {
            law("view", format!("context {}: wait_until(context {ctx}, {t}) returned early, at {r}", self.idx));
        }
        if self.tick() != t0 {
            law("view", format!("context {}: wait_until moved its own clock", self.idx));
        }
        let rec = ViewRec { by: self.idx, of: ctx, wait: Some(t), res: t64(r), s1: dam_sim_core::steps() };
        log(self.prog, |l| l.views.push(rec));
    }
    fn view_tlb(&mut self, ctx: usize) {
        let Some(v) = VIEWS.with(|v| v.borrow()[self.prog].get(ctx).cloned().flatten()) else { return };
        let r = v.tick_lower_bound();
        let rec = ViewRec { by: self.idx, of: ctx, wait: None, res: t64(r), s1: dam_sim_core::steps() };
        log(self.prog, |l| l.views.push(rec));
    }
    fn log_ev(&mut self, n: u64, cb: bool, more: u32) {
        let tick = self.tick();
        let first = (n << 16) + n % 4;
        for n in first..=first + more as u64 {
            let begun = dam_sim_core::now_ns();
            let ok = crate::events::emit(self.idx, n, cb);
            let ns = (begun, dam_sim_core::now_ns());
            log(self.prog, |l| l.evs.push(EvRec { ctx: self.idx, n, tick, ok, ns }));
        }
    }
    fn pause(&mut self) {
        dam_sim_core::yield_point(dam_sim_core::Op::Yield);
    }
    fn boom(&mut self) -> ! {
        log(self.prog, |l| {
            l.ends[self.idx] = Some(End::Panic);
            let s = dam_sim_core::steps();
            for c in self.tx.keys() {
                l.txd[*c].start = l.txd[*c].start.or(Some(s));
            }
            for c in self.rx.keys() {
                l.rxd[*c].start = l.rxd[*c].start.or(Some(s));
            }
        });
        fail(self.idx, "panic")
    }
}

fn dropped(prog: usize, rx: bool, ch: Ch, f: impl FnOnce()) {
    let s = dam_sim_core::steps();
    log(prog, |l| {
        let d = if rx { &mut l.rxd[ch] } else { &mut l.txd[ch] };
        d.start = d.start.or(Some(s));
    });
    f();
    let s = dam_sim_core::steps();
    log(prog, |l| {
        if rx {
            l.rxd[ch].end = Some(s)
        } else {
            l.txd[ch].end = Some(s)
        }
    });
}

struct Body {
    prog: usize,
    idx: usize,
    ops: Vec<Op>,
    hold: bool,
    linger: u8,
    /// Nothing is logged, so that more may be asked than the program says.
    quiet: bool,
    declares: bool,
    tx: BTreeMap<Ch, Tx>,
    rx: BTreeMap<Ch, Rx>,
    kept: (BTreeMap<Ch, Tx>, BTreeMap<Ch, Rx>),
    why: Option<Why>,
}

impl Body {
    fn attach(&self, x: &dyn Context, mis: Option<Mis>) {
        for (c, t) in &self.tx {
            if mis != Some(Mis::NoTx(*c)) && mis != Some(Mis::NoEnds(*c)) {
                t.attach(x);
            }
        }
        for (c, r) in &self.rx {
            if mis != Some(Mis::NoRx(*c)) && mis != Some(Mis::NoEnds(*c)) {
                r.attach(x);
            }
        }
    }
    /// What inference assumes anyway, said in as many words: everything sent depends on everything received.
    fn connections(&self, id: Identifier) -> Option<ExplicitConnections> {
        if !self.declares {
            return None;
        }
        let srcs = || self.rx.values().map(|r| r.r.id()).collect();
        let mut v: Vec<(HashSet<_>, HashSet<_>)> = self.tx.values().map(|t| (srcs(), HashSet::from([t.s.id()]))).collect();
        if v.is_empty() {
            v.push((srcs(), HashSet::new()));
        }
        Some(HashMap::from([(id, v)]))
    }
    fn exec(&mut self, time: &TimeManager) -> End {
        let idx = self.idx;
        log(self.prog, |l| l.begun[idx] = true);
        let mut api = RealApi {
            prog: self.prog,
            idx,
            time,
            tx: std::mem::take(&mut self.tx),
            rx: std::mem::take(&mut self.rx),
            taken: BTreeMap::new(),
            why: None,
            quiet: self.quiet,
        };
        if t64(time.tick()) != 0 {
            law("clock", format!("context {idx} started at {}", time.tick()));
        }
        let end = interpret(idx, &self.ops, &mut api);
        // nothing that reaches the scheduler may happen while the record is borrowed
        let fin = t64(time.tick());
        log(self.prog, |l| {
            l.ends[idx] = Some(end);
            l.fin[idx] = fin;
            let s = dam_sim_core::steps();
            l.done_at[idx] = s;
            for c in api.tx.keys() {
                l.txd[*c].start = l.txd[*c].start.or(Some(s));
            }
            for c in api.rx.keys() {
                l.rxd[*c].start = l.rxd[*c].start.or(Some(s));
            }
        });
        let RealApi { tx, rx, why, .. } = api;
        self.why = why;
        if self.hold {
            self.kept = (tx, rx);
        } else {
            for (c, t) in tx {
                dropped(self.prog, false, c, || drop(t));
            }
            for (c, r) in rx {
                dropped(self.prog, true, c, || drop(r));
            }
        }
        end
    }
    /// Its clock is at its end, but its channels are still there.
    fn linger(&mut self, time: &mut TimeManager) {
        if self.linger > 0 {
            time.cleanup();
            for _ in 0..self.linger {
                dam::shim::yield_now();
            }
        }
    }
    fn error(&self, e: anyhow::Error) -> anyhow::Result<()> {
        let text = e.to_string();
        log(self.prog, |l| l.errs[self.idx] = Some(text));
        Err(e)
    }
}

#[context_macro]
struct RunCtx {
    body: Body,
    err: bool,
}
impl Context for RunCtx {
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        self.body.connections(self.id())
    }
    fn run(&mut self) {
        let end = self.body.exec(&self.context_info.time);
        if end == End::Fail || (end == End::Closed && self.err) {
            match self.body.why.take() {
                Some(Why::Enq(e)) if end == End::Closed => Err(e).unwrap(),
                Some(Why::Deq(e)) if end == End::Closed => Err(e).expect("the channel should be open"),
                _ => fail(self.body.idx, "failure"),
            }
        }
        self.body.linger(&mut self.context_info.time);
    }
}

#[context_macro]
struct FallCtx {
    body: Body,
    err: bool,
}
impl Context for FallCtx {
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        self.body.connections(self.id())
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let end = self.body.exec(&self.context_info.time);
        if end == End::Fail || (end == End::Closed && self.err) {
            match self.body.why.take() {
                Some(Why::Enq(e)) if end == End::Closed => return self.body.error(e.into()),
                Some(Why::Deq(e)) if end == End::Closed => return self.body.error(e.into()),
                _ => {}
            }
            let e = anyhow::anyhow!("scripted failure of context {}", self.body.idx);
            return self.body.error(match self.body.idx % 3 {
                0 => e.context(format!("context {} could not go on", self.body.idx)),
                _ => e,
            });
        }
        self.body.linger(&mut self.context_info.time);
        Ok(())
    }
}

dam::RegisterALUOp!(AccOp, |(i0), (o0)| [i0 + o0], T: std::ops::Add<T, Output = T> + Copy);
dam::RegisterALUOp!(PairOp, |(i0), (o0, o1)| [i0 + o1, o0], T: std::ops::Add<T, Output = T> + Copy);
dam::RegisterALUOp!(SwapOp, |(i0, i1), ()| [i1, i0], T: Copy);

fn alu(op: u8) -> ALUOp<El> {
    match op {
        0 => ALUAddOp::<El>(),
        1 => ALUMulOp::<El>(),
        2 => AccOp::<El>(),
        3 => ALUSubOp::<El>(),
        4 => ALUDivOp::<El>(),
        6 => PairOp::<El>(),
        _ => SwapOp::<El>(),
    }
}

pub type Ends = (BTreeMap<Ch, Sender<El>>, BTreeMap<Ch, Receiver<El>>);

pub fn channels(b: &mut ProgramBuilder<'_>, specs: &[ChanSpec]) -> Ends {
    let mut tx = BTreeMap::new();
    let mut rx = BTreeMap::new();
    for (i, s) in specs.iter().enumerate() {
        if s.void {
            tx.insert(i, b.void::<El>());
            continue;
        }
        let (t, r) = match (s.cap, s.plain) {
            (Some(c), true) => b.bounded(c),
            (Some(c), false) => b.bounded_with_latency(c, s.lat, s.resp),
            (None, true) => b.unbounded(),
            (None, false) => b.unbounded_with_latency(s.lat, s.resp),
        };
        tx.insert(i, t);
        rx.insert(i, r);
    }
    (tx, rx)
}

fn add<'a, C: Context + 'a>(c: C) -> Slot<'a> {
    Slot {
        id: c.id().id,
        name: c.name(),
        view: Some(c.view()),
        add: Box::new(move |b: Option<&mut ProgramBuilder<'a>>| match b {
            Some(b) => {
                b.add_child(c);
                None
            }
            None => Some(Dyn(Box::new(c))),
        }),
    }
}

pub struct Slot<'a> {
    id: usize,
    name: String,
    view: Option<TimeView>,
    /// Adds it to a program, or hands it out to become part of a composite.
    add: Box<dyn FnOnce(Option<&mut ProgramBuilder<'a>>) -> Option<Dyn<'a>> + 'a>,
}

/// Any context, as a part of a composite.
pub struct Dyn<'a>(Box<dyn Context + 'a>);
#[allow(deprecated)]
impl Context for Dyn<'_> {
    fn init(&mut self) {
        self.0.init()
    }
    fn run(&mut self) {
        self.0.run()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        self.0.run_falliable()
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        self.0.ids()
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        self.0.edge_connections()
    }
    fn summarize(&self) -> ContextSummary {
        self.0.summarize()
    }
}
impl Identifiable for Dyn<'_> {
    fn id(&self) -> Identifier {
        self.0.id()
    }
    fn name(&self) -> String {
        self.0.name()
    }
}
impl TimeViewable for Dyn<'_> {
    fn view(&self) -> TimeView {
        self.0.view()
    }
}

/// A context made of others, each on a thread of its own, in the manner of the library's PMU.
struct Composite<'a> {
    kids: Vec<ProxyContext<Dyn<'a>>>,
    identifier: Identifier,
    fallible: bool,
}
struct Guard<'a, 'b>(&'b mut ProxyContext<Dyn<'a>>, bool);
impl Drop for Guard<'_, '_> {
    fn drop(&mut self) {
        if self.1 {
            self.0.cleanup();
        } else {
            // could not be started, so its own parts have no summaries
            let s = ContextSummary { id: self.0.verbose(), time: self.0.view(), children: vec![] };
            *self.0 = ProxyContext::Cleaned(s);
        }
    }
}
impl Composite<'_> {
    fn go(&mut self) {
        let mut kids: Vec<_> = self.kids.iter_mut().map(|k| (copy_log(), Guard(k, false))).collect();
        dam::shim::scope(|s| {
            for (log, kid) in kids.drain(..) {
                dam::shim::spawn!(s, move || {
                    let mut kid = kid;
                    kid.1 = true;
                    if let Some(mut logger) = log {
                        logger.id = kid.0.id();
                        initialize_log(logger);
                    }
                    kid.0.run_falliable().unwrap();
                })
                .unwrap();
            }
        });
    }
}
impl Context for Composite<'_> {
    fn init(&mut self) {
        self.kids.iter_mut().for_each(|k| k.init());
    }
    fn run(&mut self) {
        self.go()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        dam_sim_core::catch(|| self.go()).map_err(|e| {
            if self.fallible {
                anyhow::anyhow!("a part failed: {}", dam_sim_core::payload_text(&*e))
            } else {
                RuntimeError::ContextError.into()
            }
        })
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut m = HashMap::from([(self.verbose(), self.kids.iter().map(|k| k.verbose()).collect())]);
        self.kids.iter().for_each(|k| m.extend(k.ids()));
        m
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        let mut m = ExplicitConnections::default();
        let mut any = false;
        for c in self.kids.iter().filter_map(|k| k.edge_connections()) {
            any = true;
            m.extend(c);
        }
        any.then_some(m)
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.kids.iter().map(|k| k.summarize()).collect(),
        }
    }
}
impl Identifiable for Composite<'_> {
    fn id(&self) -> Identifier {
        self.identifier
    }
    fn name(&self) -> String {
        "Composite".to_string()
    }
}
impl TimeViewable for Composite<'_> {
    fn view(&self) -> TimeView {
        ParentView { child_views: self.kids.iter().map(|k| k.view()).collect() }.into()
    }
}

fn composite<'a>(prog: usize, p: &Prog, g: usize, slots: &mut [Option<Slot<'a>>]) -> Composite<'a> {
    let mut kids = vec![];
    for i in 0..slots.len() {
        if p.nest.get(i) == Some(&Some(g)) && p.mis != Some(Mis::Unregistered(i)) {
            kids.extend(slots[i].take().and_then(|s| (s.add)(None)).map(ProxyContext::from));
        }
    }
    for h in 0..p.gnest.len() {
        if p.gnest[h] == Some(g) && (0..p.ctxs.len()).any(|i| p.inside(i, h)) {
            kids.push(Dyn(Box::new(composite(prog, p, h, slots))).into());
        }
    }
    let identifier = Identifier::new();
    log(prog, |l| l.gids[g] = Some(identifier.id));
    Composite { kids, identifier, fallible: g % 2 == 1 }
}

pub fn build<'a>(prog: usize, p: &Prog) -> ProgramBuilder<'a> {
    let mut b = ProgramBuilder::default();
    let (mut tx, mut rx) = channels(&mut b, &p.chans);
    let chan_ids: Vec<String> = tx.values().map(|t| format!("{:?}", t.id())).collect();
    let mut slots: Vec<Option<Slot<'a>>> = vec![];
    for (i, c) in p.ctxs.iter().enumerate() {
        let mut t = |ch: &Ch| tx.remove(ch).expect("sender used twice");
        let mut r = |ch: &Ch| rx.remove(ch).expect("receiver used twice");
        let slot = match c {
            Ctx::Script { ops, style, err, hold, linger } => {
                let (a, z) = c.ports();
                let mut body = Body {
                    prog,
                    idx: i,
                    ops: ops.clone(),
                    hold: *hold,
                    linger: if p.log.is_none() { *linger } else { 0 },
                    quiet: p.log.is_none(),
                    declares: p.conns >> (i % 64) & 1 == 1,
                    tx: a.iter().map(|c| (*c, Tx { s: t(c), adapt: p.chans[*c].adapt })).collect(),
                    rx: z.iter().map(|c| (*c, Rx { r: r(c), adapt: p.chans[*c].adapt })).collect(),
                    kept: Default::default(),
                    why: None,
                };
                match style {
                    Style::Run => {
                        let x = RunCtx { body, err: *err, context_info: Default::default() };
                        x.body.attach(&x, p.mis);
                        add(x)
                    }
                    Style::Fallible => {
                        let x = FallCtx { body, err: *err, context_info: Default::default() };
                        x.body.attach(&x, p.mis);
                        add(x)
                    }
                    Style::Func => {
                        let mut x = FunctionContext::<Box<dyn FnOnce(&mut TimeManager) + Send + Sync>>::new();
                        body.attach(&x, p.mis);
                        x.set_run(Box::new(move |time| {
                            body.exec(time);
                            body.linger(time);
                        }));
                        add(x)
                    }
                }
            }
            Ctx::Gen { ch, vals } => {
                let vals = vals.clone();
                add(GeneratorContext::new(move || vals.into_iter().map(El), t(ch)))
            }
            Ctx::Trace { ch, items } => {
                let items = items.clone();
                let (lo, hi) = (items.len() as u64 % 3, items.len() as u64 % 3 + (i % 4) as u64);
                random_trace_law(items.len() + i, lo, hi);
                add(TraceContext::new(move || items.into_iter().map(|(v, t)| (El(v), t)), t(ch)))
            }
            Ctx::Bcast { src, dsts } => {
                let mut x = BroadcastContext::new(r(src));
                for d in dsts {
                    x.add_target(t(d));
                }
                add(x)
            }
            Ctx::Cons { ch } => add(ConsumerContext::new(r(ch))),
            Ctx::Printer { ch } => add(PrinterContext::new(r(ch))),
            Ctx::Check { ch, vals } => {
                let vals = vals.clone();
                add(CheckerContext::new(move || vals.into_iter().map(El), r(ch)))
            }
            Ctx::Approx { ch, vals, tol } => {
                let (vals, tol) = (vals.clone(), *tol);
                add(ApproxCheckerContext::new(
                    move || vals.into_iter().map(El),
                    r(ch),
                    move |a: &El, b: &El| near(a.0, b.0, tol),
                ))
            }
            Ctx::Pcu { ins, outs, depth, regs, stages } => {
                let mut x = PCU::<El>::new(
                    PCUConfig { pipeline_depth: *depth, num_registers: *regs },
                    PCU::<El>::READ_ALL_INPUTS,
                    PCU::<El>::WRITE_ALL_RESULTS,
                );
                for s in stages {
                    x.push_stage(PipelineStage {
                        op: alu(s.op),
                        forward: s.forward.clone(),
                        prev_register_ids: s.prev.clone(),
                        next_register_ids: s.next.clone(),
                        output_register_ids: s.out.clone(),
                    });
                }
                ins.iter().for_each(|c| x.add_input_channel(r(c)));
                outs.iter().for_each(|c| x.add_output_channel(t(c)));
                add(x)
            }
            Ctx::Pmu { cap, modulo, dflt, readers, writers } => {
                let mut x = PMU::<El, El, El>::new(
                    *cap,
                    Behavior { mod_address: *modulo, use_default_value: *dflt },
                );
                for (a, z) in readers {
                    x.add_reader(PMUReadBundle { addr: r(a), resp: t(z) });
                }
                for (a, d, k) in writers {
                    x.add_writer(PMUWriteBundle { addr: r(a), data: r(d), ack: t(k) });
                }
                add(x)
            }
            Ctx::Dram { requests, bw, latency, cap, fill, ports, behavior } => {
                crate::dram::make(*requests, *bw, *latency, *cap, *fill, *behavior, ports, &mut t, &mut r, DramAdd)
            }
        };
        slots.push(Some(slot));
    }
    log(prog, |l| {
        *l = Log {
            recs: vec![vec![]; p.ctxs.len()],
            ends: vec![None; p.ctxs.len()],
            fin: vec![0; p.ctxs.len()],
            done_at: vec![0; p.ctxs.len()],
            errs: vec![None; p.ctxs.len()],
            begun: vec![false; p.ctxs.len()],
            chan_ids,
            names: slots.iter().map(|s| s.as_ref().unwrap().name.clone()).collect(),
            gids: vec![None; p.gnest.len()],
            ids: slots.iter().map(|s| s.as_ref().unwrap().id).collect(),
            units: slots.iter().map(|s| s.as_ref().unwrap().id).collect(),
            txd: vec![Drop1::default(); p.chans.len()],
            rxd: vec![Drop1::default(); p.chans.len()],
            ..Default::default()
        };
    });
    VIEWS.with(|v| v.borrow_mut()[prog] = slots.iter_mut().map(|s| s.as_mut().unwrap().view.take()).collect());
    for i in &p.order {
        if p.mis == Some(Mis::Unregistered(*i)) {
            continue;
        }
        if let Some(g) = p.root(*i) {
            if slots[*i].is_some() {
                let x = composite(prog, p, g, &mut slots);
                let id = x.id().id;
                log(prog, |l| (0..p.ctxs.len()).filter(|j| p.root(*j) == Some(g)).for_each(|j| l.units[j] = id));
                b.add_child(x);
            }
        } else if let Some(s) = slots[*i].take() {
            (s.add)(Some(&mut b));
        }
    }
    b
}

pub struct DramAdd;
impl DramAdd {
    pub fn add<'a, C: Context + 'a>(self, c: C) -> Slot<'a> {
        add(c)
    }
}
pub type DramSlot<'a> = Slot<'a>;

pub fn options(p: &Prog) -> RunOptions {
    #[cfg(not(feature = "coro"))]
    let mode = if p.fifo { RunMode::FIFO } else { RunMode::Simple };
    // coroutines on a fixed number of workers is their other mode
    #[cfg(feature = "coro")]
    let mode = if p.fifo { RunMode::Constrained(1 + p.ctxs.len() % 5) } else { RunMode::Simple };
    let o = RunOptionsBuilder::default().mode(mode);
    #[cfg(feature = "mongo")]
    let o = crate::events::log_options(p, o);
    o.build().unwrap()
}

/// What the library offers to make traces from: indices in order, and steps within the bounds.
fn random_trace_law(n: usize, lo: u64, hi: u64) {
    let (mut k, mut last) = (0, Time::new(0));
    for (i, t) in random_trace(n, lo, hi) {
        if i != k || t < last + lo || t > last + hi {
            law("trace", format!("random_trace({n}, {lo}, {hi}): item {k} is ({i}, {t:?}) after {last:?}"));
        }
        (k, last) = (k + 1, t);
    }
    if k != n {
        law("trace", format!("random_trace({n}, {lo}, {hi}) has {k} items"));
    }
}

/// Outside of contexts there is nothing to log to: that is no error, and nothing is stored.
fn outside(n: u64) {
    for cb in [false, true] {
        if !crate::events::emit(999, n, cb) {
            law("log-lost", "logging outside of a context failed".into());
        }
    }
}

/// The whole life of a program; runs inside the simulator.
pub fn execute(prog: usize, p: &Prog) {
    let b = build(prog, p);
    let lone = |i| (0..p.ctxs.len()).all(|j| j == i || p.unit(j) != p.unit(i));
    let n = p.units() - matches!(p.mis, Some(Mis::Unregistered(i)) if lone(i)) as usize;
    if b.num_children() != n {
        law("wiring", format!("num_children() is {} after {n} contexts were added", b.num_children()));
    }
    let init = b.initialize(InitializationOptionsBuilder::default().run_flavor_inference(p.infer).build().unwrap());
    let init = match (init, p.mis) {
        (Ok(i), None) => i,
        (Ok(_), Some(m)) => return law("wiring", format!("a program with the fault {m:?} was accepted")),
        (Err(e), None) => {
            law("wiring", format!("a whole program was rejected: {e}"));
            panic!("program rejected: {e}");
        }
        (Err(e), Some(m)) => {
            // it has to name the culprit
            let (ids, chans) = log(prog, |l| (l.ids.clone(), l.chan_ids.clone()));
            let ok = match (&e, m) {
                (InitializationError::DisconnectedSender(id), Mis::NoTx(c)) => format!("{id:?}") == chans[c],
                (InitializationError::DisconnectedSender(id), Mis::NoEnds(c))
                | (InitializationError::DisconnectedReceiver(id), Mis::NoEnds(c) | Mis::NoRx(c)) => format!("{id:?}") == chans[c],
                // the parts of a PMU have identifiers of their own
                (InitializationError::UnregisteredNode(id), Mis::Unregistered(i)) => {
                    id.id == ids[i] || (matches!(p.ctxs[i], Ctx::Pmu { .. }) && !ids.contains(&id.id))
                }
                _ => false,
            };
            if !ok {
                law("wiring", format!("a program with the fault {m:?} was rejected for another reason: {e}"));
            }
            return;
        }
    };
    let opts = options(p);
    outside(1);
    #[cfg(feature = "dot")]
    crate::dotcheck::initialized(prog, p, &init);
    let done = init.run(opts);
    outside(2);
    #[cfg(feature = "mongo")]
    crate::logcheck::snapshot();
    let f = Final {
        elapsed: done.elapsed_cycles(),
        passed: done.passed(),
        failures: done.run_failures(|f| f.iter().map(|e| e.to_string()).collect()),
        steps: dam_sim_core::steps(),
    };
    FINALS.with(|x| x.borrow_mut()[prog] = Some(f));
    #[cfg(feature = "dot")]
    crate::dotcheck::executed(prog, p, &done);
    drop(done);
}

/// Forgets the previous run and makes room for the records of `n` programs.
pub fn reset(n: usize) {
    #[cfg(feature = "mongo")]
    crate::logcheck::clear();
    LOGS.with(|l| *l.borrow_mut() = (0..n).map(|_| Log::default()).collect());
    FINALS.with(|f| *f.borrow_mut() = vec![None; n]);
    CONVERTED.with(|c| c.borrow_mut().clear());
    VIEWS.with(|v| *v.borrow_mut() = vec![vec![]; n]);
}
