//! The reference model: a conservative sequential discrete-event simulation of the same program, written
//! from the documented semantics. It has no threads and no schedule; a context that must know whether
//! something will arrive is only answered when no other context can still produce it.
use crate::api::{interpret, Api};
use crate::case::*;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

const INF: u64 = u64::MAX / 4;

#[derive(Clone, Debug)]
enum Wait {
    No,
    Deq(Ch),
    Enq(Ch),
    Poll,
    Select(Vec<Vec<Ch>>),
    Past(usize, u64),
}

struct RChan {
    spec: ChanSpec,
    q: VecDeque<(u64, usize)>,
    sent: usize,
    vals: Vec<usize>,
    recv: Vec<u64>,
    tx: usize,
    rx: usize,
    tx_done: bool,
    rx_done: bool,
}

#[derive(Clone)]
struct Actor {
    tick: u64,
    hi: u64,
    wait: Wait,
    granted: bool,
    done: bool,
    /// Contexts whose final clock bounds this actor's.
    late: Vec<usize>,
}

/// Added to the upper bound of a clock that other contexts' later progress may carry along.
const FAR: u64 = 1 << 50;

#[derive(Default, Clone, Debug)]
pub struct RefOut {
    pub recs: Vec<Vec<Rec>>,
    pub ends: Vec<Option<End>>,
    pub failed: Vec<bool>,
    pub fin: Vec<(u64, u64)>,
    pub printed: Vec<Vec<String>>,
    pub sent: Vec<usize>,
    /// Contexts whose `run_falliable` panics.
    pub panicked: Vec<bool>,
    /// Values sent on each channel.
    pub vals: Vec<Vec<usize>>,
    /// The program leaves the territory where the model is exact.
    pub inexact: Option<String>,
    pub deadlock: Option<String>,
}

struct World {
    chans: Vec<RChan>,
    actors: Vec<Actor>,
    out: RefOut,
    /// Steps taken, to bound runaway programs.
    work: u64,
}

type W = Rc<RefCell<World>>;

#[derive(Clone)]
struct Me {
    w: W,
    id: usize,
    y: *const Yielder<(), ()>,
    rec: Option<usize>,
}

impl Me {
    /// Returns whether the wait ended because nobody can act before this actor does; holds for one answer.
    fn wait(&self, on: Wait) -> bool {
        self.w.borrow_mut().actors[self.id].wait = on;
        unsafe { (*self.y).suspend(()) };
        let mut w = self.w.borrow_mut();
        w.actors[self.id].wait = Wait::No;
        std::mem::take(&mut w.actors[self.id].granted)
    }
    fn tick(&self) -> u64 {
        self.w.borrow().actors[self.id].tick
    }
    fn advance(&self, t: u64) {
        let mut w = self.w.borrow_mut();
        let a = &mut w.actors[self.id];
        a.tick = a.tick.max(t);
        a.hi = a.hi.max(t);
    }
    fn incr(&self, n: u64) {
        let mut w = self.w.borrow_mut();
        let a = &mut w.actors[self.id];
        a.tick += n;
        a.hi += n;
    }
    fn note(&self, k: K, ch: Ch, ok: bool, val: usize, ts: u64, t0: u64) {
        let mut w = self.w.borrow_mut();
        let (t1, hi) = (w.actors[self.id].tick, w.actors[self.id].hi);
        if let Some(i) = self.rec {
            w.out.recs[i].push(Rec { k, ch, ok, val, ts, t0, t1, hi, s0: 0, s1: 0 });
        }
    }
    /// Called before an operation whose outcome depends on the own clock.
    fn exact(&self, what: &str) {
        let mut w = self.w.borrow_mut();
        let a = &w.actors[self.id];
        if a.hi > a.tick && w.out.inexact.is_none() {
            w.out.inexact = Some(format!("{what} with an uncertain clock"));
        }
        w.work += 1;
    }
    fn fuzz(&self, chs: &[Ch]) {
        let mut w = self.w.borrow_mut();
        let mut hi = w.actors[self.id].hi;
        let mut late = vec![];
        for c in chs {
            let tx = w.chans[*c].tx;
            hi = hi.max(w.actors[tx].hi + 1);
            if !w.chans[*c].tx_done {
                late.push(tx);
            }
        }
        if !late.is_empty() && hi < FAR {
            hi += FAR;
        }
        w.actors[self.id].hi = hi;
        w.actors[self.id].late = late;
    }
    fn room(&self, ch: Ch) -> Option<bool> {
        let w = self.w.borrow();
        let c = &w.chans[ch];
        if c.spec.void {
            return Some(true);
        }
        if c.rx_done {
            return Some(false);
        }
        match c.spec.cap {
            Some(cap) if c.sent >= cap && c.recv.len() <= c.sent - cap => None,
            _ => Some(true),
        }
    }
    fn wait_room(&self, ch: Ch) -> bool {
        self.exact("send");
        loop {
            match self.room(ch) {
                Some(true) => {
                    let w = self.w.borrow();
                    let c = &w.chans[ch];
                    if c.spec.void {
                        return true;
                    }
                    if let Some(cap) = c.spec.cap {
                        if c.sent >= cap {
                            let t = c.recv[c.sent - cap] + c.spec.resp;
                            drop(w);
                            self.advance(t);
                        }
                    }
                    return true;
                }
                Some(false) => {
                    let mut w = self.w.borrow_mut();
                    w.out.inexact.get_or_insert("send to a receiver that may have left".into());
                    return false;
                }
                None => {
                    self.wait(Wait::Enq(ch));
                }
            }
        }
    }
    fn enq(&self, ch: Ch, time: u64, v: usize) -> bool {
        let t0 = self.tick();
        let ok = self.wait_room(ch);
        if ok {
            let mut w = self.w.borrow_mut();
            let tick = w.actors[self.id].tick;
            let c = &mut w.chans[ch];
            if !c.spec.void {
                c.q.push_back((time.max(tick + c.spec.lat), v));
                c.sent += 1;
                c.vals.push(v);
            }
        }
        self.note(K::Enq, ch, ok, v, time, t0);
        ok
    }
    fn avail(&self, ch: Ch) -> bool {
        let t0 = self.tick();
        let ok = self.wait_room(ch);
        self.note(K::Avail, ch, ok, 0, 0, t0);
        ok
    }
    fn head(&self, ch: Ch, peek: bool) -> Option<(u64, usize)> {
        {
            // When it is received must not matter to anybody else.
            let w = self.w.borrow();
            let c = &w.chans[ch];
            let harmless = c.spec.cap.is_none() || c.tx_done || peek;
            drop(w);
            if !harmless {
                self.exact("receive");
            }
        }
        let t0 = self.tick();
        loop {
            let h = {
                let mut w = self.w.borrow_mut();
                let c = &mut w.chans[ch];
                match c.q.front().copied() {
                    Some(h) => Some(Some(h)),
                    None if c.tx_done => Some(None),
                    None => None,
                }
            };
            match h {
                Some(Some((ts, v))) => {
                    self.advance(ts);
                    let tick = self.tick();
                    if !peek {
                        let mut w = self.w.borrow_mut();
                        let c = &mut w.chans[ch];
                        c.q.pop_front();
                        c.recv.push(tick);
                    }
                    self.note(if peek { K::PeekNext } else { K::Deq }, ch, true, v, ts, t0);
                    return Some((ts, v));
                }
                Some(None) => {
                    self.fuzz(&[ch]);
                    self.note(if peek { K::PeekNext } else { K::Deq }, ch, false, 0, 0, t0);
                    return None;
                }
                None => {
                    self.wait(Wait::Deq(ch));
                }
            }
        }
    }
    fn deq(&self, ch: Ch) -> Option<(u64, usize)> {
        self.head(ch, false)
    }
    fn ready(&self, ch: Ch) -> bool {
        self.exact("poll");
        let mut granted = false;
        loop {
            {
                let w = self.w.borrow();
                let c = &w.chans[ch];
                let a = &w.actors[self.id];
                match c.q.front() {
                    Some((ts, _)) => return *ts <= a.tick,
                    None if c.tx_done || granted => return false,
                    None => {}
                }
            }
            granted = self.wait(Wait::Poll);
        }
    }
    /// Position of the group that is complete first; None when every group has a closed member.
    fn select(&self, groups: &[Vec<Ch>]) -> Option<usize> {
        self.exact("select");
        let mut granted = false;
        loop {
            {
                let w = self.w.borrow();
                let mut best: Option<(u64, usize)> = None;
                let mut open = false;
                for (i, g) in groups.iter().enumerate() {
                    let mut ready = 0;
                    let (mut full, mut closed) = (!g.is_empty(), g.is_empty());
                    for c in g {
                        match w.chans[*c].q.front() {
                            Some((ts, _)) => ready = ready.max(*ts),
                            None => {
                                full = false;
                                closed |= w.chans[*c].tx_done;
                            }
                        }
                    }
                    open |= !closed;
                    if full && best.map_or(true, |b| (ready, i) < b) {
                        best = Some((ready, i));
                    }
                }
                if !open {
                    drop(w);
                    let all: Vec<Ch> = groups.iter().flatten().copied().collect();
                    self.fuzz(&all);
                    return None;
                }
                if granted {
                    drop(w);
                    let Some((t, i)) = best else {
                        self.w.borrow_mut().out.inexact.get_or_insert("undecided selection".into());
                        return None;
                    };
                    self.advance(t);
                    return Some(i);
                }
            }
            granted = self.wait(Wait::Select(groups.to_vec()));
        }
    }
    fn past(&self, actor: usize, t: u64) {
        self.wait(Wait::Past(actor, t));
    }
    fn close(&self, tx: &[Ch], rx: &[Ch]) {
        let mut w = self.w.borrow_mut();
        for c in tx {
            w.chans[*c].tx_done = true;
        }
        for c in rx {
            w.chans[*c].rx_done = true;
            // its sender could as well have been slower and have met a closed channel
            if !w.chans[*c].q.is_empty() {
                w.out.inexact.get_or_insert("elements left behind".into());
            }
        }
    }
}

impl Api for Me {
    fn tick(&self) -> u64 {
        Me::tick(self)
    }
    fn incr(&mut self, n: u64) {
        let t0 = Me::tick(self);
        Me::incr(self, n);
        self.note(K::Clock, 0, true, 0, 0, t0);
    }
    fn advance(&mut self, t: u64) {
        let t0 = Me::tick(self);
        Me::advance(self, t);
        self.note(K::Clock, 0, true, 0, 0, t0);
    }
    fn enq(&mut self, ch: Ch, time: u64, v: usize) -> bool {
        Me::enq(self, ch, time, v)
    }
    fn avail(&mut self, ch: Ch) -> bool {
        Me::avail(self, ch)
    }
    fn deq(&mut self, ch: Ch) -> Option<usize> {
        Me::deq(self, ch).map(|x| x.1)
    }
    fn peek_next(&mut self, ch: Ch) -> Option<usize> {
        self.head(ch, true).map(|x| x.1)
    }
    fn peek(&mut self, _ch: Ch) {}
    fn ready(&mut self, ch: Ch) -> bool {
        let t0 = Me::tick(self);
        let r = Me::ready(self, ch);
        self.note(K::Mark, ch, true, r as usize, 0, t0);
        r
    }
    fn earliest(&mut self, chs: &[Ch]) -> Option<usize> {
        let t0 = Me::tick(self);
        let g: Vec<Vec<Ch>> = chs.iter().map(|c| vec![*c]).collect();
        let r = self.select(&g);
        self.note(K::Mark, 0, r.is_some(), r.unwrap_or(99), 0, t0);
        r
    }
    fn any(&mut self, chs: &[Ch]) -> bool {
        let t0 = Me::tick(self);
        let g: Vec<Vec<Ch>> = chs.iter().map(|c| vec![*c]).collect();
        let r = self.select(&g).is_some();
        self.note(K::Mark, 0, r, 0, 0, t0);
        r
    }
    fn all(&mut self, chs: &[Ch]) -> bool {
        let t0 = Me::tick(self);
        let r = self.select(&[chs.to_vec()]).is_some();
        self.note(K::Mark, 0, r, 0, 0, t0);
        r
    }
    fn choose(&mut self, groups: &[Vec<Ch>]) -> bool {
        let t0 = Me::tick(self);
        let r = self.select(groups).is_some();
        self.note(K::Mark, 0, r, 0, 0, t0);
        r
    }
    fn taken(&self, ch: Ch) -> usize {
        self.w.borrow().chans[ch].recv.len()
    }
    fn drop_tx(&mut self, ch: Ch) {
        self.close(&[ch], &[]);
    }
    fn drop_rx(&mut self, ch: Ch) {
        self.close(&[], &[ch]);
    }
    fn view_wait(&mut self, _: usize, _: u64) {}
    fn view_tlb(&mut self, _: usize) {}
    fn log_ev(&mut self, _: u64, _: bool, _: u32) {}
    fn pause(&mut self) {}
    fn boom(&mut self) -> ! {
        unreachable!("handled before")
    }
}

// ---------------------------------------------------------------- library contexts, as documented

/// None where the arithmetic leaves the type (the program is then not judged by this model).
fn pcu_stage(op: u8, prev: &[usize], next: &[usize]) -> Option<Vec<usize>> {
    Some(match op {
        0 => vec![prev[0].checked_add(prev[1])?],
        1 => vec![prev[0].checked_mul(prev[1])?],
        2 => vec![prev[0].checked_add(next[0])?],
        3 => vec![prev[0].checked_sub(prev[1])?],
        4 => vec![prev[0].checked_div(prev[1])?],
        6 => vec![prev[0].checked_add(next[1])?, next[0]],
        _ => vec![prev[1], prev[0]],
    })
}

/// The registers of all stages, once the first ones are set.
fn pcu_pass(r: &mut [Vec<usize>], depth: usize, stages: &[Stage]) -> Option<()> {
    for s in 0..depth {
        r[s + 1] = match stages.get(s) {
            None => r[s].clone(),
            Some(st) => {
                let p: Vec<usize> = st.prev.iter().map(|i| r[s][*i]).collect();
                let n: Vec<usize> = st.next.iter().map(|i| r[s + 1][*i]).collect();
                let o = pcu_stage(st.op, &p, &n)?;
                let mut new = r[s + 1].clone();
                for (src, dst) in st.out.iter().enumerate() {
                    new[*dst] = o[src];
                }
                for (src, dst) in &st.forward {
                    new[*dst] = r[s][*src];
                }
                new
            }
        };
    }
    Some(())
}

/// The final registers for every complete set of inputs.
pub fn pcu(ins: &[Vec<usize>], depth: usize, regs: usize, stages: &[Stage]) -> Option<Vec<Vec<usize>>> {
    let mut r = vec![vec![0usize; regs]; depth + 1];
    let n = ins.iter().map(|v| v.len()).min()?;
    (0..n)
        .map(|k| {
            for (i, v) in ins.iter().enumerate() {
                r[0][i] = v[k];
            }
            pcu_pass(&mut r, depth, stages)?;
            Some(r[depth].clone())
        })
        .collect()
}

struct Store {
    hist: Vec<Vec<(u64, usize)>>,
    modulo: bool,
}
impl Store {
    fn at(&self, a: usize) -> usize {
        if a >= self.hist.len() {
            assert!(self.modulo);
            a % self.hist.len()
        } else {
            a
        }
    }
    fn write(&mut self, a: usize, v: usize, t: u64) {
        let i = self.at(a);
        self.hist[i].push((t, v));
    }
    fn read(&self, a: usize, t: u64) -> usize {
        self.hist[self.at(a)].iter().rev().find(|(w, _)| *w <= t).map_or(0, |x| x.1)
    }
}

/// Returns whether the context reports failure.
fn library(ctx: &Ctx, me: &Me, idx: usize) -> bool {
    match ctx {
        Ctx::Script { .. } | Ctx::Pmu { .. } => unreachable!(),
        Ctx::Gen { ch, vals } => {
            for v in vals {
                let t = me.tick() + 1;
                if !me.enq(*ch, t, *v) {
                    return true;
                }
                me.incr(1);
            }
            false
        }
        Ctx::Trace { ch, items } => {
            for (v, t) in items {
                me.advance(t.saturating_sub(1));
                let at = me.tick() + 1;
                if !me.enq(*ch, at, *v) {
                    return true;
                }
            }
            false
        }
        Ctx::Bcast { src, dsts } => {
            while let Some((_, v)) = me.deq(*src) {
                for d in dsts {
                    if !me.avail(*d) {
                        return true;
                    }
                }
                let at = me.tick() + 1;
                for d in dsts {
                    if !me.enq(*d, at, v) {
                        return true;
                    }
                }
            }
            false
        }
        Ctx::Cons { ch } => {
            while me.deq(*ch).is_some() {
                me.incr(1);
            }
            false
        }
        Ctx::Printer { ch } => {
            while let Some((ts, v)) = me.deq(*ch) {
                me.w.borrow_mut().out.printed[idx].push(format!("{ts}:{v}"));
                me.incr(1);
            }
            false
        }
        Ctx::Check { ch, vals } => {
            for v in vals {
                match me.deq(*ch) {
                    Some((_, x)) if x == *v => {}
                    Some(_) => return true,
                    None => return true,
                }
            }
            false
        }
        Ctx::Approx { ch, vals, tol } => {
            for v in vals {
                match me.deq(*ch) {
                    Some((_, x)) if near(*v, x, *tol) => {}
                    Some(_) => {
                        me.w.borrow_mut().out.panicked[idx] = true;
                        return true;
                    }
                    None => return true,
                }
            }
            false
        }
        Ctx::Pcu { ins, outs, depth, regs, stages } => {
            let mut r = vec![vec![0usize; *regs]; depth + 1];
            loop {
                for c in ins {
                    me.head(*c, true);
                }
                let got: Vec<_> = ins.iter().map(|c| me.deq(*c)).collect();
                for (i, g) in got.iter().enumerate() {
                    match g {
                        Some((_, v)) => r[0][i] = *v,
                        None => return false,
                    }
                }
                if pcu_pass(&mut r, *depth, stages).is_none() {
                    me.w.borrow_mut().out.inexact.get_or_insert("arithmetic leaves the type".into());
                    return true;
                }
                let at = me.tick() + *depth as u64;
                for (i, o) in outs.iter().enumerate() {
                    if !me.enq(*o, at, r[*depth][i]) {
                        return true;
                    }
                }
                me.incr(1);
            }
        }
        Ctx::Dram { requests, bw, latency, cap, fill, ports, .. } => {
            let mut store = Store { hist: vec![vec![]; *cap], modulo: true };
            if *fill {
                for a in 0..*cap {
                    store.write(a, dram_fill(a), 0);
                }
            }
            let mut windows: VecDeque<u64> = VecDeque::new();
            let groups: Vec<Vec<Ch>> = ports
                .iter()
                .map(|p| match p {
                    DramPort::Read { addr, size, .. } => vec![*addr, *size],
                    DramPort::Write { addr, size, data, .. } => vec![*addr, *data, *size],
                })
                .collect();
            loop {
                if windows.len() == *requests {
                    let t = windows.pop_front().unwrap();
                    me.advance(t);
                }
                let Some(i) = me.select(&groups) else { return false };
                let prev_end = windows.back().copied().unwrap_or(0);
                match &ports[i] {
                    DramPort::Write { addr, size, data, ack } => {
                        let a = me.deq(*addr).unwrap().1;
                        let n = me.deq(*size).unwrap().1;
                        let mut buf = vec![];
                        for _ in 0..n {
                            match me.deq(*data) {
                                Some((_, v)) => buf.push(v),
                                None => return true,
                            }
                        }
                        let start = (me.tick() + latency).max(prev_end);
                        let w = start + buf.iter().map(|v| bits(*v) as u64).sum::<u64>();
                        for (k, v) in buf.into_iter().enumerate() {
                            store.write(a + k, v, w);
                        }
                        if !me.enq(*ack, w + 1, 0) {
                            return true;
                        }
                        windows.push_back(me.tick().max(w) + 1);
                    }
                    DramPort::Read { addr, size, data } => {
                        let a = me.deq(*addr).unwrap().1;
                        let n = me.deq(*size).unwrap().1;
                        let rt = (me.tick() + latency).max(prev_end);
                        let vals: Vec<usize> = (a..a + n).map(|k| store.read(k, rt)).collect();
                        let mut t = rt + (vals.iter().map(|v| bits(*v)).sum::<usize>() / bw) as u64;
                        for v in vals {
                            t = (me.tick() + 1).max(t + 1);
                            if !me.enq(*data, t, v) {
                                return true;
                            }
                        }
                        windows.push_back(t);
                    }
                }
            }
        }
    }
}

pub fn dram_fill(a: usize) -> usize {
    500_000 + a * 7
}

// ---------------------------------------------------------------- engine

thread_local! {
    static POOL: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

pub fn run(p: &Prog) -> RefOut {
    let ends = p.ends();
    // actors: one per context, plus the second half of each PMU
    let mut extra: Vec<(usize, usize)> = vec![];
    let mut n = p.ctxs.len();
    for (i, c) in p.ctxs.iter().enumerate() {
        if matches!(c, Ctx::Pmu { .. }) {
            extra.push((i, n));
            n += 1;
        }
    }
    let mut chans: Vec<RChan> = p
        .chans
        .iter()
        .zip(&ends)
        .map(|(s, e)| RChan {
            spec: s.clone(),
            q: VecDeque::new(),
            sent: 0,
            vals: vec![],
            recv: vec![],
            tx: e.0.unwrap_or(0),
            rx: e.1.unwrap_or(0),
            tx_done: false,
            rx_done: false,
        })
        .collect();
    for (i, w) in &extra {
        if let Ctx::Pmu { writers, .. } = &p.ctxs[*i] {
            for (a, d, k) in writers {
                chans[*a].rx = *w;
                chans[*d].rx = *w;
                chans[*k].tx = *w;
            }
        }
    }
    let world: W = Rc::new(RefCell::new(World {
        chans,
        actors: vec![Actor { tick: 0, hi: 0, wait: Wait::No, granted: false, done: false, late: vec![] }; n],
        out: RefOut {
            recs: vec![vec![]; p.ctxs.len()],
            ends: vec![None; p.ctxs.len()],
            failed: vec![false; p.ctxs.len()],
            fin: vec![(0, 0); p.ctxs.len()],
            printed: vec![vec![]; p.ctxs.len()],
            panicked: vec![false; p.ctxs.len()],
            ..Default::default()
        },
        work: 0,
    }));

    let mut coros: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = vec![];
    let mut bodies: Vec<Option<Box<dyn FnOnce(Me)>>> = (0..n).map(|_| None).collect();
    for (i, c) in p.ctxs.iter().enumerate() {
        let ctx = c.clone();
        match c {
            Ctx::Script { style, err, .. } => {
                let (style, err) = (*style, *err);
                bodies[i] = Some(Box::new(move |mut me: Me| {
                    let Ctx::Script { ops, .. } = &ctx else { unreachable!() };
                    let cut = ops.iter().position(|o| matches!(o, Op::Panic));
                    let mut end = interpret(i, &ops[..cut.unwrap_or(ops.len())], &mut me);
                    if cut.is_some() && end == End::Done {
                        end = End::Panic;
                    }
                    let mut w = me.w.borrow_mut();
                    w.out.ends[i] = Some(end);
                    w.out.failed[i] = match end {
                        End::Done => false,
                        End::Closed => err && style != Style::Func,
                        End::Fail => style != Style::Func,
                        End::Panic => true,
                    };
                    w.out.panicked[i] = end == End::Panic && style != Style::Run;
                    drop(w);
                    let (tx, rx) = ctx.ports();
                    me.close(&tx, &rx);
                }));
            }
            Ctx::Pmu { cap, modulo, readers, writers, .. } => {
                let wid = extra.iter().find(|e| e.0 == i).unwrap().1;
                let store = Rc::new(RefCell::new(Store { hist: vec![vec![]; *cap], modulo: *modulo }));
                let st2 = store.clone();
                let readers = readers.clone();
                let writers = writers.clone();
                bodies[i] = Some(Box::new(move |me: Me| {
                    let groups: Vec<Vec<Ch>> = readers.iter().map(|r| vec![r.0]).collect();
                    loop {
                        let Some(k) = me.select(&groups) else { break };
                        let t = me.tick();
                        me.past(wid, t);
                        let (a, r) = readers[k];
                        let addr = me.deq(a).unwrap().1;
                        let now = me.tick();
                        let v = store.borrow().read(addr, now);
                        if !me.enq(r, now, v) {
                            break;
                        }
                        me.incr(1);
                    }
                    let tx: Vec<Ch> = readers.iter().map(|r| r.1).collect();
                    let rx: Vec<Ch> = readers.iter().map(|r| r.0).collect();
                    me.close(&tx, &rx);
                }));
                bodies[wid] = Some(Box::new(move |me: Me| {
                    let groups: Vec<Vec<Ch>> = writers.iter().map(|w| vec![w.0, w.1]).collect();
                    loop {
                        let Some(k) = me.select(&groups) else { break };
                        let (a, d, ack) = writers[k];
                        let addr = me.deq(a).unwrap().1;
                        let v = me.deq(d).unwrap().1;
                        let now = me.tick();
                        st2.borrow_mut().write(addr, v, now);
                        if !me.enq(ack, now, 0) {
                            break;
                        }
                        me.incr(1);
                    }
                    let tx: Vec<Ch> = writers.iter().map(|w| w.2).collect();
                    let rx: Vec<Ch> = writers.iter().flat_map(|w| [w.0, w.1]).collect();
                    me.close(&tx, &rx);
                }));
            }
            _ => {
                bodies[i] = Some(Box::new(move |me: Me| {
                    let failed = library(&ctx, &me, i);
                    me.w.borrow_mut().out.failed[i] = failed;
                    let (tx, rx) = ctx.ports();
                    me.close(&tx, &rx);
                }));
            }
        }
    }
    for (id, body) in bodies.into_iter().enumerate() {
        let w = world.clone();
        let script = id < p.ctxs.len() && !p.ctxs[id].library();
        let body = body.unwrap();
        let stack = POOL
            .with(|p| p.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(128 * 1024).expect("stack"));
        coros.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            let me = Me { w: w.clone(), id, y, rec: if script { Some(id) } else { None } };
            body(me);
            w.borrow_mut().actors[id].done = true;
        })));
    }

    let resume = |id: usize, coros: &mut Vec<Option<Coroutine<(), (), (), DefaultStack>>>| {
        let mut c = coros[id].take().unwrap();
        match c.resume(()) {
            CoroutineResult::Yield(()) => coros[id] = Some(c),
            CoroutineResult::Return(()) => POOL.with(|p| p.borrow_mut().push(c.into_stack())),
        }
        world.borrow_mut().actors[id].granted = false;
    };

    // first steps
    for id in 0..n {
        resume(id, &mut coros);
    }
    loop {
        let mut moved = false;
        for id in 0..n {
            let go = {
                let w = world.borrow();
                let a = &w.actors[id];
                !a.done
                    && match &a.wait {
                        Wait::No => true,
                        Wait::Deq(c) => !w.chans[*c].q.is_empty() || w.chans[*c].tx_done,
                        Wait::Enq(c) => {
                            let ch = &w.chans[*c];
                            ch.rx_done || ch.spec.cap.map_or(true, |k| ch.sent < k || ch.recv.len() > ch.sent - k)
                        }
                        Wait::Poll | Wait::Past(..) => false,
                        Wait::Select(gs) => gs
                            .iter()
                            .all(|g| g.iter().any(|c| w.chans[*c].q.is_empty() && w.chans[*c].tx_done)),
                    }
            };
            if go {
                resume(id, &mut coros);
                moved = true;
            }
        }
        {
            let w = world.borrow();
            if w.out.inexact.is_some() || w.work > 200_000 {
                break;
            }
            if w.actors.iter().all(|a| a.done) {
                break;
            }
        }
        if moved {
            continue;
        }
        // Nobody can move on his own: who can be the next to act, and when at the earliest?
        let e = earliest(&world.borrow());
        let pick = {
            let w = world.borrow();
            let min = (0..n).filter(|i| !w.actors[*i].done).map(|i| e[i]).min().unwrap();
            if min >= INF {
                None
            } else {
                let mut best = None;
                for i in 0..n {
                    if w.actors[i].done || e[i] != min {
                        continue;
                    }
                    match &w.actors[i].wait {
                        Wait::Poll | Wait::Select(_) => {
                            best = Some(i);
                            break;
                        }
                        Wait::Past(o, t) if e[*o] > *t => best = best.or(Some(i)),
                        _ => {}
                    }
                }
                best
            }
        };
        match pick {
            Some(i) => {
                world.borrow_mut().actors[i].granted = true;
                resume(i, &mut coros);
            }
            None => {
                let w = world.borrow();
                let t: Vec<String> = (0..n)
                    .filter(|i| !w.actors[*i].done)
                    .map(|i| format!("{i}:{:?}@{}", w.actors[i].wait, w.actors[i].tick))
                    .collect();
                drop(w);
                world.borrow_mut().out.deadlock = Some(t.join(" "));
                break;
            }
        }
    }
    for c in coros.into_iter().flatten() {
        let mut c = c;
        if !c.done() {
            unsafe { c.force_reset() };
        }
        POOL.with(|p| p.borrow_mut().push(c.into_stack()));
    }
    let mut w = world.borrow_mut();
    if w.work > 200_000 {
        w.out.inexact = Some("too long".into());
    }
    for _ in 0..=n {
        for i in 0..n {
            let script = i < p.ctxs.len() && !p.ctxs[i].library();
            let a = &w.actors[i];
            if a.late.is_empty() || script {
                continue;
            }
            let hi = a.late.iter().map(|j| w.actors[*j].hi + 1).max().unwrap();
            if hi < FAR {
                let tick = a.tick;
                let a = &mut w.actors[i];
                // the peers that were already through are in the bound, too
                a.hi = (a.hi - FAR).max(hi).max(tick);
                a.late.clear();
            }
        }
    }
    for i in 0..p.ctxs.len() {
        let a = w.actors[i].clone();
        w.out.fin[i] = (a.tick, a.hi);
    }
    for (i, x) in &extra {
        let a = w.actors[*x].clone();
        let f = &mut w.out.fin[*i];
        *f = (f.0.max(a.tick), f.1.max(a.hi));
    }
    w.out.sent = w.chans.iter().map(|c| c.sent).collect();
    w.out.vals = w.chans.iter_mut().map(|c| std::mem::take(&mut c.vals)).collect();
    std::mem::take(&mut w.out)
}

/// Lower bound of the clock at which each actor can next do something visible.
fn earliest(w: &World) -> Vec<u64> {
    let n = w.actors.len();
    let mut e = vec![INF; n];
    let mut settled = vec![false; n];
    for i in 0..n {
        settled[i] = w.actors[i].done;
    }
    loop {
        let mut best: Option<(u64, usize)> = None;
        for i in 0..n {
            if settled[i] {
                continue;
            }
            let a = &w.actors[i];
            let from = |c: &Ch| e[w.chans[*c].tx].saturating_add(w.chans[*c].spec.lat);
            let v = match &a.wait {
                Wait::No | Wait::Poll | Wait::Past(..) => a.tick,
                Wait::Deq(c) => a.tick.max(from(c)),
                Wait::Enq(c) => a.tick.max(e[w.chans[*c].rx].saturating_add(w.chans[*c].spec.resp)),
                Wait::Select(gs) => gs
                    .iter()
                    .map(|g| {
                        g.iter()
                            .map(|c| match w.chans[*c].q.front() {
                                Some((ts, _)) => *ts,
                                None if w.chans[*c].tx_done => INF,
                                None => from(c),
                            })
                            .max()
                            .unwrap_or(INF)
                    })
                    .min()
                    .unwrap_or(INF)
                    .max(a.tick),
            }
            .min(INF);
            if v < INF && best.map_or(true, |b| v < b.0) {
                best = Some((v, i));
            }
        }
        match best {
            Some((v, i)) => {
                e[i] = v;
                settled[i] = true;
            }
            None => return e,
        }
    }
}
