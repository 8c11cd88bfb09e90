//! Generates programs that are known to terminate: the generator plays a linear, untimed execution of the
//! program while it writes it, so that every receive has an element to receive and every send has room.
use crate::case::*;
use dam_sim_core::Rng;
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lib {
    Gen,
    Trace,
    Bcast,
    Cons,
    Printer,
    Check,
    Approx,
    Pcu,
    Pmu,
    Dram,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub scripts: (u64, u64),
    pub chans: (u64, u64),
    pub steps: (u64, u64),
    pub libs: Vec<Lib>,
    pub nlibs: (u64, u64),
    /// Share of bounded channels, and of those that are tight, in percent.
    pub bounded: u64,
    pub tight: u64,
    pub plain: u64,
    pub big: u64,
    pub infer: u64,
    /// Share of looking operations among the steps.
    pub peeks: u64,
    pub merge: u64,
    pub fails: u64,
    pub selfloop: u64,
    pub views: u64,
    pub events: u64,
    pub drains: u64,
    pub void: u64,
    pub chaos: bool,
    pub fifo: u64,
    /// Share of channels whose ends scripts use through the typed adapters.
    pub adapt: u64,
    /// Share of programs in which some contexts are parts of composites.
    pub nest: u64,
    /// Share of sends preceded by a wait for room.
    pub avail: u64,
    /// Share of programs some of whose times are far larger than the others.
    pub stretch: u64,
    /// Share of programs in which a channel holds many elements at once.
    pub burst: u64,
    /// Share of programs with many contexts.
    pub wide: u64,
    /// Share of programs in which scripts are slow and what library contexts send them has little room.
    pub slow: u64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            scripts: (2, 5),
            chans: (1, 7),
            steps: (6, 60),
            libs: vec![],
            nlibs: (0, 0),
            bounded: 65,
            tight: 60,
            plain: 20,
            big: 8,
            infer: 40,
            peeks: 8,
            merge: 10,
            fails: 4,
            selfloop: 4,
            views: 3,
            events: 0,
            drains: 35,
            void: 3,
            chaos: false,
            fifo: 10,
            adapt: 8,
            nest: 6,
            avail: 6,
            stretch: 6,
            burst: 3,
            wide: 3,
            slow: 3,
        }
    }
}

#[derive(Clone, Debug)]
struct Port {
    cap: Option<usize>,
    tx: usize,
    rx: usize,
    q: VecDeque<usize>,
    sent: usize,
    taken: usize,
    tx_closed: bool,
    rx_closed: bool,
    polled: bool,
    /// Values must lie in this range.
    val: Option<(u64, u64)>,
    void: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    p: &'a Profile,
    ch: Vec<Port>,
    specs: Vec<ChanSpec>,
    ctxs: Vec<Ctx>,
    ended: Vec<bool>,
    /// (inputs, output) of arbiters
    merges: Vec<Option<(Vec<Ch>, Option<Ch>)>>,
    served: Vec<usize>,
    time: Vec<u64>,
    slow: bool,
}

impl G<'_> {
    fn pct(&mut self, n: u64) -> bool {
        self.r.below(100) < n
    }
    fn range(&mut self, x: (u64, u64)) -> u64 {
        self.r.range(x.0, x.1)
    }
    fn chan(&mut self, tx: usize, rx: usize, val: Option<(u64, u64)>, need: usize) -> Ch {
        let p = self.p;
        let cap = if self.pct(p.bounded) {
            let c = if self.pct(p.tight) {
                self.r.range(1, 3)
            } else if self.pct(6) {
                self.r.range(13, 140)
            } else {
                self.r.range(2, 12)
            };
            Some((c as usize).max(need))
        } else {
            None
        };
        let plain = self.pct(p.plain);
        let mut lat = |g: &mut Self| match g.r.below(10) {
            _ if plain => 1,
            0..=3 => 1,
            4..=7 => g.r.range(1, 6),
            8 => g.r.range(4, 16),
            _ if g.pct(p.big) => g.r.range(20, 120),
            _ => 2,
        };
        let (a, b) = (lat(self), lat(self));
        let adapt = self.pct(p.adapt);
        self.specs.push(ChanSpec { cap, lat: a, resp: b, plain, void: false, adapt });
        self.ch.push(Port {
            cap,
            tx,
            rx,
            q: VecDeque::new(),
            sent: 0,
            taken: 0,
            tx_closed: false,
            rx_closed: false,
            polled: false,
            val,
            void: false,
        });
        self.ch.len() - 1
    }
    /// Mostly from the first range, now and then up to `far`.
    fn few(&mut self, lo: u64, hi: u64, far: u64) -> u64 {
        if self.pct(8) {
            self.r.range(hi, far)
        } else {
            self.r.range(lo, hi)
        }
    }
    fn ctx(&mut self, c: Ctx) -> usize {
        self.ctxs.push(c);
        self.ended.push(false);
        self.merges.push(None);
        self.served.push(0);
        self.time.push(0);
        self.ctxs.len() - 1
    }
    fn script(&mut self) -> usize {
        let style = match self.r.below(5) {
            0 | 1 => Style::Run,
            2 | 3 => Style::Fallible,
            _ => Style::Func,
        };
        let err = self.pct(30);
        let hold = self.pct(30);
        let linger = if hold && self.pct(15) { self.r.range(1, 24) as u8 } else { 0 };
        self.ctx(Ctx::Script { ops: vec![], style, err, hold, linger })
    }
    fn ops(&mut self, i: usize) -> &mut Vec<Op> {
        match &mut self.ctxs[i] {
            Ctx::Script { ops, .. } => ops,
            _ => unreachable!(),
        }
    }
    fn is_script(&self, i: usize) -> bool {
        !self.ctxs[i].library()
    }
    fn room(&self, c: Ch) -> bool {
        let h = &self.ch[c];
        h.void || (h.cap.map_or(true, |k| h.q.len() < k) && !h.rx_closed && !h.tx_closed)
    }
    fn put(&mut self, c: Ch, v: usize) {
        if self.ch[c].void {
            return;
        }
        self.ch[c].q.push_back(v);
        self.ch[c].sent += 1;
    }
    fn take(&mut self, c: Ch) -> usize {
        self.ch[c].taken += 1;
        self.ch[c].q.pop_front().unwrap()
    }
    /// A script or generator sends one element.
    fn supply(&mut self, c: Ch) -> bool {
        if !self.room(c) {
            return false;
        }
        let i = self.ch[c].tx;
        if self.ended[i] {
            return false;
        }
        let val = self.ch[c].val;
        let v = match val {
            Some((a, b)) => self.r.range(a, b) as usize,
            None => self.r.below(1000) as usize,
        };
        if self.merges[i].is_some() {
            return false;
        }
        match &self.ctxs[i] {
            Ctx::Script { .. } => {
                let d = match self.r.below(8) {
                    0..=3 => 0,
                    4..=6 => self.r.below(8),
                    _ => self.r.below(25),
                };
                let explicit = val.is_some() || self.pct(10);
                if self.pct(self.p.avail) {
                    self.ops(i).push(Op::Avail { ch: c });
                }
                self.ops(i).push(Op::Enq { ch: c, d, v: if explicit { Some(v) } else { None } });
                self.put(c, v);
            }
            Ctx::Gen { .. } => {
                if let Ctx::Gen { vals, .. } = &mut self.ctxs[i] {
                    vals.push(v);
                }
                self.put(c, v);
            }
            Ctx::Trace { .. } => {
                let step = self.r.below(6);
                self.time[i] += step;
                let t = self.time[i];
                if let Ctx::Trace { items, .. } = &mut self.ctxs[i] {
                    items.push((v, t));
                }
                self.put(c, v);
            }
            _ => return false,
        }
        true
    }
    /// One action of a library context or arbiter, if it can act.
    fn act(&mut self, i: usize) -> bool {
        if self.ended[i] {
            return false;
        }
        if let Some((ins, out)) = self.merges[i].clone() {
            let able: Vec<Ch> = ins.iter().copied().filter(|c| !self.ch[*c].q.is_empty()).collect();
            if able.is_empty() || out.map_or(false, |o| !self.room(o)) {
                return false;
            }
            let c = *self.r.pick(&able);
            self.take(c);
            if let Some(o) = out {
                self.put(o, 0);
            }
            self.served[i] += 1;
            return true;
        }
        match self.ctxs[i].clone() {
            Ctx::Bcast { src, dsts } => {
                if self.ch[src].q.is_empty() || dsts.iter().any(|d| !self.room(*d)) {
                    return false;
                }
                let v = self.take(src);
                for d in dsts {
                    self.put(d, v);
                }
                true
            }
            Ctx::Cons { ch } | Ctx::Printer { ch } | Ctx::Check { ch, .. } | Ctx::Approx { ch, .. } => {
                if self.ch[ch].q.is_empty() {
                    return false;
                }
                self.take(ch);
                true
            }
            Ctx::Pcu { ins, outs, .. } => {
                if ins.iter().any(|c| self.ch[*c].q.is_empty()) || outs.iter().any(|c| !self.room(*c)) {
                    return false;
                }
                for c in ins {
                    self.take(c);
                }
                for c in outs {
                    self.put(c, 0);
                }
                true
            }
            Ctx::Pmu { readers, writers, .. } => {
                let mut able = vec![];
                for (a, r) in &readers {
                    if !self.ch[*a].q.is_empty() && self.room(*r) {
                        able.push((vec![*a], *r));
                    }
                }
                for (a, d, k) in &writers {
                    if !self.ch[*a].q.is_empty() && !self.ch[*d].q.is_empty() && self.room(*k) {
                        able.push((vec![*a, *d], *k));
                    }
                }
                if able.is_empty() {
                    return false;
                }
                let (ins, out) = self.r.pick(&able).clone();
                for c in ins {
                    self.take(c);
                }
                self.put(out, 0);
                true
            }
            Ctx::Dram { ports, .. } => {
                let mut able = vec![];
                for (k, p) in ports.iter().enumerate() {
                    match p {
                        DramPort::Read { addr, size, data } => {
                            if let (Some(_), Some(n)) = (self.ch[*addr].q.front(), self.ch[*size].q.front()) {
                                if self.ch[*data].cap.map_or(true, |c| self.ch[*data].q.len() + n <= c) {
                                    able.push(k);
                                }
                            }
                        }
                        DramPort::Write { addr, size, data, ack } => {
                            if let (Some(_), Some(n)) = (self.ch[*addr].q.front(), self.ch[*size].q.front()) {
                                if self.ch[*data].q.len() >= *n && self.room(*ack) {
                                    able.push(k);
                                }
                            }
                        }
                    }
                }
                if able.is_empty() {
                    return false;
                }
                let k = *self.r.pick(&able);
                match &ports[k] {
                    DramPort::Read { addr, size, data } => {
                        self.take(*addr);
                        let n = self.take(*size);
                        for _ in 0..n {
                            self.put(*data, 0);
                        }
                    }
                    DramPort::Write { addr, size, data, ack } => {
                        self.take(*addr);
                        let n = self.take(*size);
                        for _ in 0..n {
                            self.take(*data);
                        }
                        self.put(*ack, 0);
                    }
                }
                true
            }
            _ => false,
        }
    }
    /// Inputs of a context that lack an element while their companions have one.
    fn lacking(&self, i: usize) -> Vec<Ch> {
        let group = |cs: &[Ch]| -> Vec<Ch> {
            if cs.iter().any(|c| !self.ch[*c].q.is_empty()) {
                cs.iter().copied().filter(|c| self.ch[*c].q.is_empty()).collect()
            } else {
                vec![]
            }
        };
        match &self.ctxs[i] {
            Ctx::Pcu { ins, .. } => group(ins),
            Ctx::Pmu { writers, .. } => writers.iter().flat_map(|(a, d, _)| group(&[*a, *d])).collect(),
            Ctx::Dram { ports, .. } => ports
                .iter()
                .flat_map(|p| match p {
                    DramPort::Read { addr, size, .. } => group(&[*addr, *size]),
                    DramPort::Write { addr, size, data, .. } => {
                        let mut v = group(&[*addr, *size, *data]);
                        if v.is_empty() {
                            if let Some(n) = self.ch[*size].q.front() {
                                if self.ch[*data].q.len() < *n {
                                    v.push(*data);
                                }
                            }
                        }
                        v
                    }
                })
                .collect(),
            _ => vec![],
        }
    }
    /// A context sends many elements before anybody takes one.
    fn burst(&mut self) {
        let able: Vec<Ch> = (0..self.ch.len())
            .filter(|c| {
                let h = &self.ch[*c];
                let feeds = matches!(self.ctxs[h.tx], Ctx::Script { .. } | Ctx::Gen { .. } | Ctx::Trace { .. });
                feeds && self.merges[h.tx].is_none() && self.room(*c) && !h.void
            })
            .collect();
        if able.is_empty() {
            return;
        }
        let c = *self.r.pick(&able);
        let n = match self.r.below(20) {
            0..=7 => self.r.range(16, 70),
            8..=14 => self.r.range(64, 300),
            15..=18 => self.r.range(250, 1100),
            _ => self.r.range(1000, 4400),
        } as usize;
        if let Some(k) = self.ch[c].cap {
            let need = self.ch[c].q.len() + n;
            let cap = if self.pct(30) { None } else { Some(k.max(need)) };
            self.ch[c].cap = cap;
            self.specs[c].cap = cap;
        }
        for _ in 0..n {
            if !self.supply(c) {
                break;
            }
        }
    }
    fn inputs(&self, i: usize) -> Vec<Ch> {
        (0..self.ch.len()).filter(|c| self.ch[*c].rx == i && !self.ch[*c].void).collect()
    }
    fn outputs(&self, i: usize) -> Vec<Ch> {
        (0..self.ch.len()).filter(|c| self.ch[*c].tx == i).collect()
    }

    fn script_step(&mut self, i: usize) {
        let ins: Vec<Ch> = self.inputs(i).into_iter().filter(|c| !self.ch[*c].rx_closed).collect();
        let full: Vec<Ch> = ins.iter().copied().filter(|c| !self.ch[*c].q.is_empty()).collect();
        let outs: Vec<Ch> = self.outputs(i).into_iter().filter(|c| self.room(*c)).collect();
        let p = self.p;
        if !ins.is_empty() && self.pct(p.peeks) {
            let c = *self.r.pick(&ins);
            match self.r.below(10) {
                0..=2 => self.ops(i).push(Op::Peek { ch: c }),
                3 => {
                    self.ch[c].polled = true;
                    self.ops(i).push(Op::Poll { ch: c });
                }
                4 if self.pct(50) && !p.chaos => self.choose(i, &ins),
                4 | 5 => {
                    let ok: Vec<Ch> = full.iter().copied().filter(|c| !self.ch[*c].polled).collect();
                    if !ok.is_empty() && !p.chaos {
                        let mut chs: Vec<Ch> = ins.clone();
                        self.r.shuffle(&mut chs);
                        let must = *self.r.pick(&ok);
                        let keep = self.r.range(1, chs.len() as u64) as usize;
                        chs.truncate(keep);
                        if !chs.contains(&must) {
                            chs[0] = must;
                        }
                        self.ops(i).push(Op::Any { chs });
                    }
                }
                6 | 7 => {
                    let mut ok: Vec<Ch> = full.iter().copied().filter(|c| !self.ch[*c].polled).collect();
                    if !ok.is_empty() {
                        self.r.shuffle(&mut ok);
                        let keep = self.r.range(1, ok.len() as u64) as usize;
                        ok.truncate(keep);
                        self.ops(i).push(Op::All { chs: ok });
                    }
                }
                _ => {
                    let ok: Vec<Ch> = full.iter().copied().filter(|c| !self.ch[*c].polled).collect();
                    if !ok.is_empty() {
                        let c = *self.r.pick(&ok);
                        self.ops(i).push(Op::PeekNext { ch: c });
                    }
                }
            }
            return;
        }
        if p.views > 0 && self.pct(p.views) {
            let n = self.ctxs.len();
            let ctx = self.r.below(n as u64) as usize;
            if ctx != i {
                if self.pct(50) {
                    let back = self.r.below(4);
                            self.ops(i).push(Op::ViewWait { ctx, back });
                } else {
                    self.ops(i).push(Op::ViewTlb { ctx });
                }
            }
            return;
        }
        if p.events > 0 && self.pct(p.events) {
            let n = self.ops(i).len() as u64;
            let cb = self.pct(40);
            self.ops(i).push(Op::LogEv { n, cb, more: 0 });
            return;
        }
        match self.r.below(20) {
            0..=6 if !outs.is_empty() => {
                let c = *self.r.pick(&outs);
                self.supply(c);
            }
            7..=13 if !full.is_empty() => {
                let c = *self.r.pick(&full);
                let k = self.r.range(1, self.ch[c].q.len().min(3) as u64);
                for _ in 0..k {
                    self.take(c);
                }
                let upto = self.ch[c].taken;
                self.ops(i).push(Op::Deq { ch: c, upto });
            }
            14..=16 => {
                let n = match self.r.below(6) {
                    0..=3 if self.slow => self.r.range(20, 400),
                    0..=3 => self.r.range(1, 6),
                    4 => self.r.range(1, 30),
                    _ if self.pct(p.big) => self.r.range(50, 300),
                    _ => 1,
                };
                self.ops(i).push(Op::Incr { n });
            }
            17 => {
                let n = self.r.below(8);
                self.ops(i).push(Op::AdvBy { n });
            }
            18 => {
                let t = self.r.below(40);
                self.ops(i).push(Op::AdvTo { t });
            }
            _ => {
                if !outs.is_empty() && self.pct(30) {
                    let c = *self.r.pick(&outs);
                    if !self.ch[c].void {
                        self.ops(i).push(Op::Avail { ch: c });
                    }
                } else if self.pct(40) {
                    self.ops(i).push(Op::Yield);
                }
            }
        }
    }

    /// Waits for one of several groups, at least one of which is there.
    fn choose(&mut self, i: usize, ins: &[Ch]) {
        let ok: Vec<Ch> = ins.iter().copied().filter(|c| !self.ch[*c].q.is_empty() && !self.ch[*c].polled).collect();
        if ok.is_empty() {
            return;
        }
        let mut groups = vec![self.some(&ok)];
        for _ in 0..self.r.below(3) {
            groups.push(self.some(ins));
        }
        // of nothing, there is no event
        if self.pct(4) {
            groups.clear();
        }
        if self.pct(4) {
            groups.push(vec![]);
        }
        self.r.shuffle(&mut groups);
        self.ops(i).push(Op::Choose { groups });
    }
    fn some(&mut self, of: &[Ch]) -> Vec<Ch> {
        let mut v = of.to_vec();
        self.r.shuffle(&mut v);
        let n = self.r.range(1, v.len() as u64) as usize;
        v.truncate(n);
        v
    }
    /// A context nothing reaches any more may end while the others go on.
    fn early(&mut self) {
        let i = self.r.below(self.ctxs.len() as u64) as usize;
        let dry = self.inputs(i).iter().all(|c| self.ch[*c].tx_closed && self.ch[*c].q.is_empty());
        let feeds = matches!(self.ctxs[i], Ctx::Script { .. } | Ctx::Gen { .. } | Ctx::Trace { .. });
        if feeds && dry && self.merges[i].is_none() {
            self.finish(i);
        }
    }

    /// Ends a context in the game.
    fn finish(&mut self, i: usize) -> bool {
        if self.ended[i] {
            return false;
        }
        match self.ctxs[i].clone() {
            Ctx::Gen { .. } | Ctx::Trace { .. } => {}
            Ctx::Check { .. } | Ctx::Approx { .. } => {}
            Ctx::Bcast { .. } | Ctx::Cons { .. } | Ctx::Printer { .. } | Ctx::Pcu { .. } | Ctx::Pmu { .. } | Ctx::Dram { .. } => {
                if self.inputs(i).iter().any(|c| !self.ch[*c].tx_closed) {
                    return false;
                }
            }
            Ctx::Script { .. } => {
                if let Some((ins, out)) = self.merges[i].clone() {
                    let open = ins.iter().any(|c| !self.ch[*c].tx_closed);
                    let total = if open || self.pct(50) { Some(self.served[i]) } else { None };
                    let inc = self.r.below(4);
                    let d = self.r.below(4);
                    self.ops(i).push(Op::Merge { chs: ins, total, inc, out: out.map(|o| (o, d)) });
                } else {
                    let p = self.p;
                    let ins: Vec<Ch> = self.inputs(i).into_iter().filter(|c| !self.ch[*c].rx_closed).collect();
                    let closed: Vec<Ch> =
                        ins.iter().copied().filter(|c| self.ch[*c].tx_closed).collect();
                    if self.pct(p.fails) {
                        let o = if self.pct(50) { Op::Fail } else { Op::Panic };
                        self.ops(i).push(o);
                    } else if !closed.is_empty() && self.pct(p.drains) {
                        let c = *self.r.pick(&closed);
                        match self.r.below(5) {
                            0 | 1 => {
                                let inc = self.r.below(3);
                                self.ops(i).push(Op::Drain { ch: c, inc })
                            }
                            4 if p.peeks > 0 => {
                                // every group lacks something for good
                                let mut groups = vec![];
                                for _ in 0..self.r.range(1, 3) {
                                    let mut g = self.some(&ins);
                                    if !g.iter().any(|x| closed.contains(x)) {
                                        g.push(c);
                                    }
                                    self.r.shuffle(&mut g);
                                    groups.push(g);
                                }
                                self.ops(i).push(Op::Choose { groups })
                            }
                            2 => {
                                let upto = self.ch[c].taken + 1;
                                self.ops(i).push(Op::Deq { ch: c, upto })
                            }
                            _ if !self.ch[c].polled => self.ops(i).push(Op::PeekNext { ch: c }),
                            _ => {}
                        }
                    } else if self.pct(30) {
                        let n = self.r.below(20);
                        self.ops(i).push(Op::Incr { n });
                    }
                }
            }
        }
        self.ended[i] = true;
        for c in self.outputs(i) {
            self.ch[c].tx_closed = true;
        }
        true
    }

    fn sender(&mut self, need: Option<(u64, u64)>, rx: usize, room: usize) -> Ch {
        // who feeds a library context
        let scripts: Vec<usize> = (0..self.ctxs.len()).filter(|i| self.is_script(*i) && self.merges[*i].is_none()).collect();
        if self.pct(70) && !scripts.is_empty() {
            let s = *self.r.pick(&scripts);
            return self.chan(s, rx, need, room);
        }
        if self.pct(60) {
            let g = self.ctx(Ctx::Gen { ch: 0, vals: vec![] });
            let c = self.chan(g, rx, need, room);
            self.ctxs[g] = Ctx::Gen { ch: c, vals: vec![] };
            c
        } else {
            let g = self.ctx(Ctx::Trace { ch: 0, items: vec![] });
            self.time[g] = self.r.below(5);
            let c = self.chan(g, rx, need, room);
            self.ctxs[g] = Ctx::Trace { ch: c, items: vec![] };
            c
        }
    }
    fn target(&mut self, tx: usize, room: usize) -> Ch {
        let scripts: Vec<usize> = (0..self.ctxs.len()).filter(|i| self.is_script(*i) && self.merges[*i].is_none()).collect();
        if (self.slow || self.pct(75)) && !scripts.is_empty() {
            let s = *self.r.pick(&scripts);
            let c = self.chan(tx, s, None, room);
            if self.slow && self.pct(85) {
                self.specs[c].cap = Some(room);
                self.ch[c].cap = Some(room);
            }
            return c;
        }
        let k = self.ctx(Ctx::Cons { ch: 0 });
        let c = self.chan(tx, k, None, room);
        self.ctxs[k] = match self.r.below(3) {
            0 => Ctx::Printer { ch: c },
            _ => Ctx::Cons { ch: c },
        };
        c
    }
    fn lib(&mut self, kind: Lib) {
        match kind {
            Lib::Gen | Lib::Trace => {
                let g = self.ctx(Ctx::Cons { ch: 0 });
                let c = self.target(g, 1);
                if kind == Lib::Trace {
                    self.time[g] = self.r.below(5);
                }
                self.ctxs[g] =
                    if kind == Lib::Gen { Ctx::Gen { ch: c, vals: vec![] } } else { Ctx::Trace { ch: c, items: vec![] } };
            }
            Lib::Bcast => {
                let b = self.ctx(Ctx::Cons { ch: 0 });
                let src = self.sender(None, b, 1);
                let n = self.few(1, 4, 9);
                let dsts = (0..n).map(|_| self.target(b, 1)).collect();
                self.ctxs[b] = Ctx::Bcast { src, dsts };
            }
            Lib::Cons | Lib::Printer | Lib::Check | Lib::Approx => {
                let b = self.ctx(Ctx::Cons { ch: 0 });
                let ch = self.sender(if kind == Lib::Approx || kind == Lib::Check { Some((10, 500)) } else { None }, b, 1);
                self.ctxs[b] = match kind {
                    Lib::Cons => Ctx::Cons { ch },
                    Lib::Printer => Ctx::Printer { ch },
                    Lib::Check => Ctx::Check { ch, vals: vec![] },
                    _ => Ctx::Approx { ch, vals: vec![], tol: self.r.below(5) as usize },
                };
            }
            Lib::Pcu => {
                let b = self.ctx(Ctx::Cons { ch: 0 });
                let n = self.few(1, 3, 5) as usize;
                let m = self.few(1, 3, 5) as usize;
                let ins: Vec<Ch> = (0..n)
                    .map(|k| self.sender(Some(if k == 0 { (100, 200) } else { (1, 20) }), b, 1))
                    .collect();
                let outs: Vec<Ch> = (0..m).map(|_| self.target(b, 1)).collect();
                let regs = n.max(m).max(2) + self.r.below(2) as usize;
                let depth = self.few(0, 4, 11) as usize;
                let k = self.r.below(depth as u64 + 1) as usize;
                let mut stages = vec![];
                for s in 0..k {
                    let mut reg = |g: &mut Self| g.r.below(regs as u64) as usize;
                    let (op, prev, next, nout) = match self.r.below(if s == 0 && n >= 2 { 7 } else { 5 }) {
                        0 => (0u8, vec![reg(self), reg(self)], vec![], 1),
                        1 => (1, vec![reg(self), reg(self)], vec![], 1),
                        2 => {
                            let o = reg(self);
                            (2, vec![reg(self)], vec![o], 1)
                        }
                        3 => (5, vec![reg(self), reg(self)], vec![], 2),
                        4 => {
                            let a = reg(self);
                            let b = (a + 1 + self.r.below(regs as u64 - 1) as usize) % regs;
                            (6, vec![reg(self)], vec![a, b], 2)
                        }
                        5 => (3, vec![0, 1], vec![], 1),
                        _ => (4, vec![0, 1], vec![], 1),
                    };
                    let mut ids: Vec<usize> = (0..regs).collect();
                    self.r.shuffle(&mut ids);
                    let out: Vec<usize> = if !next.is_empty() { next.clone() } else { ids[..nout].to_vec() };
                    let mut forward = vec![];
                    for d in 0..regs {
                        if self.pct(if out.contains(&d) { 4 } else { 75 }) {
                            let s = if self.pct(70) { d } else { self.r.below(regs as u64) as usize };
                            forward.push((s, d));
                        }
                    }
                    stages.push(Stage { op, forward, prev, next, out });
                }
                self.ctxs[b] = Ctx::Pcu { ins, outs, depth, regs, stages };
            }
            Lib::Pmu => {
                let b = self.ctx(Ctx::Cons { ch: 0 });
                let cap = self.few(1, 12, 300) as usize;
                let modulo = self.pct(40);
                let top = if modulo { cap as u64 * 2 } else { cap as u64 - 1 };
                let one = self.p.chaos;
                let nr = if one { 1 } else { self.few(1, 3, 6) };
                let nw = if one { 1 } else { self.few(1, 2, 4) };
                let mut readers: Vec<(Ch, Ch)> = vec![];
                let mut writers: Vec<(Ch, Ch, Ch)> = vec![];
                let mut todo: Vec<bool> = (0..nr).map(|_| true).chain((0..nw).map(|_| false)).collect();
                self.r.shuffle(&mut todo);
                for rd in todo {
                    let a = self.sender(Some((0, top)), b, 1);
                    if rd {
                        let t = self.target(b, 1);
                        readers.push((a, t));
                    } else {
                        let d = self.sender(None, b, 1);
                        let t = self.target(b, 1);
                        writers.push((a, d, t));
                    }
                }
                self.ctxs[b] = Ctx::Pmu { cap, modulo, dflt: true, readers, writers };
                }
            Lib::Dram => {
                let b = self.ctx(Ctx::Cons { ch: 0 });
                let cap = self.few(4, 16, 90) as usize;
                let n = if self.p.chaos { 1 } else if self.slow { self.r.range(1, 2) } else { self.few(1, 3, 5) };
                let mut ports = vec![];
                for _ in 0..n {
                    let addr = self.sender(Some((0, cap as u64 + 2)), b, 1);
                    let read = self.pct(50);
                    // a write waits for data even if it needs none: it may wait in vain
                    let sizes = if (read || !self.p.chaos) && self.pct(25) { *self.r.pick(&[(0, 0), (0, 1), (0, 4)]) } else { (1, 3) };
                    let size = self.sender(Some(sizes), b, 1);
                    if read {
                        let data = self.target(b, 3);
                        ports.push(DramPort::Read { addr, size, data });
                    } else {
                        let data = self.sender(None, b, 3);
                        let ack = self.target(b, 1);
                        ports.push(DramPort::Write { addr, size, data, ack });
                    }
                }
                let requests = if self.slow { self.r.range(1, 2) } else { self.few(1, 4, 12) } as usize;
                let bw = *self.r.pick(&[8u64, 32, 64, 128]) as usize;
                let latency = if self.slow { self.r.below(3) } else { self.few(0, 19, 400) };
                let fill = self.pct(50);
                self.ctxs[b] = Ctx::Dram { requests, bw, latency, cap, fill, ports, behavior: (true, true) };
                }
        }
    }
}

/// Strongly connected components of the context graph.
/// Per channel, whether flavor inference sees it on a cycle. A PMU is two nodes, of which the reader depends
/// on whatever the writer gets.
pub fn on_cycle(p: &Prog) -> Vec<bool> {
    let mut n = p.ctxs.len();
    let ends = p.ends();
    let mut ends: Vec<(usize, usize)> =
        ends.iter().map(|(a, b)| (a.unwrap_or(usize::MAX), b.unwrap_or(usize::MAX))).collect();
    let mut edges = vec![];
    for (i, c) in p.ctxs.iter().enumerate() {
        if let Ctx::Pmu { writers, .. } = c {
            for (a, d, k) in writers {
                ends[*a].1 = n;
                ends[*d].1 = n;
                ends[*k].0 = n;
            }
            edges.push((n, i));
            n += 1;
        }
    }
    let mut reach = vec![vec![false; n]; n];
    for (a, b) in ends.iter().chain(&edges) {
        if *a != usize::MAX && *b != usize::MAX {
            reach[*a][*b] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    ends.iter()
        .map(|(a, b)| *a != usize::MAX && *b != usize::MAX && reach[*b][*a])
        .collect()
}

/// Puts contexts into composites, and composites into one another.
fn nesting(r: &mut Rng, n: usize) -> (Vec<Option<usize>>, Vec<Option<usize>>) {
    let k = r.range(1, 3) as usize;
    let out = r.range(0, 3);
    let nest = (0..n).map(|_| if r.below(4) < out { None } else { Some(r.below(k as u64) as usize) }).collect();
    let gnest = (0..k).map(|g| if g == 0 || r.chance(1, 4) { None } else { Some(r.below(g as u64) as usize) }).collect();
    (nest, gnest)
}

pub fn program(r: &mut Rng, p: &Profile) -> Option<Prog> {
    let mut g = G {
        r,
        p,
        ch: vec![],
        specs: vec![],
        ctxs: vec![],
        ended: vec![],
        merges: vec![],
        served: vec![],
        time: vec![],
        slow: false,
    };
    g.slow = g.pct(p.slow);
    let wide = g.pct(p.wide);
    let huge = wide && g.pct(8);
    let ns = match (wide, huge) {
        (_, true) => g.r.range(60, 180),
        (true, _) => g.r.range(10, 45),
        _ => g.range(p.scripts),
    } as usize;
    for _ in 0..ns {
        g.script();
    }
    let nl = if p.libs.is_empty() { 0 } else { g.range(p.nlibs) };
    for _ in 0..nl {
        let k = *g.r.pick(&p.libs);
        g.lib(k);
    }
    if ns > 0 {
        let nc = if wide { g.r.range(ns as u64, 2 * ns as u64) } else { g.range(p.chans) };
        for _ in 0..nc {
            let a = g.r.below(ns as u64) as usize;
            let mut b = g.r.below(ns as u64) as usize;
            if a == b && !g.pct(p.selfloop) {
                if ns == 1 {
                    continue;
                }
                b = (a + 1 + g.r.below(ns as u64 - 1) as usize) % ns;
            }
            g.chan(a, b, None, 1);
        }
        if g.pct(p.merge) && !p.chaos {
            let m = g.script();
            let n = g.r.range(2, 3);
            let mut ins = vec![];
            for _ in 0..n {
                let s = g.r.below(ns as u64) as usize;
                ins.push(g.chan(s, m, None, 1));
            }
            let out = if g.pct(60) {
                let s = g.r.below(ns as u64) as usize;
                Some(g.chan(m, s, None, 1))
            } else {
                None
            };
            g.merges[m] = Some((ins, out));
        }
        if g.pct(p.void) {
            let s = g.r.below(ns as u64) as usize;
            g.specs.push(ChanSpec { cap: None, lat: 1, resp: 1, plain: true, void: true, adapt: false });
            g.ch.push(Port {
                cap: None,
                tx: s,
                rx: usize::MAX,
                q: VecDeque::new(),
                sent: 0,
                taken: 0,
                tx_closed: false,
                rx_closed: false,
                polled: false,
                val: None,
                void: true,
            });
        }
    }
    if g.ch.is_empty() {
        return None;
    }
    let steps = g.range(p.steps) * if huge { 10 } else if wide { 4 } else { 1 };
    let burst = if g.pct(p.burst) { Some(g.r.below(steps.max(1))) } else { None };
    for k in 0..steps {
        if burst == Some(k) {
            g.burst();
        }
        let i = g.r.below(g.ctxs.len() as u64) as usize;
        if g.pct(2) {
            g.early();
        }
        if g.ended[i] {
            continue;
        }
        if g.merges[i].is_some() || g.ctxs[i].library() {
            match &g.ctxs[i] {
                Ctx::Gen { ch, .. } | Ctx::Trace { ch, .. } => {
                    let c = *ch;
                    g.supply(c);
                }
                _ => {
                    g.act(i);
                }
            }
        } else {
            g.script_step(i);
        }
    }
    // consume what is left, topping up where a partner is missing
    for _ in 0..if burst.is_some() { 6000 } else { 400 } {
        let mut any = false;
        for i in 0..g.ctxs.len() {
            while g.act(i) {
                any = true;
            }
            if g.is_script(i) && g.merges[i].is_none() {
                for c in g.inputs(i) {
                    if !g.ch[c].q.is_empty() {
                        while !g.ch[c].q.is_empty() {
                            g.take(c);
                        }
                        let upto = g.ch[c].taken;
                        g.ops(i).push(Op::Deq { ch: c, upto });
                        any = true;
                    }
                }
            }
        }
        if any {
            continue;
        }
        for i in 0..g.ctxs.len() {
            for c in g.lacking(i) {
                any |= g.supply(c);
            }
        }
        if !any {
            break;
        }
    }
    if g.ch.iter().any(|c| !c.q.is_empty()) {
        return None;
    }
    // ends: early closing of single channels, then whole contexts
    let mut order: Vec<usize> = (0..g.ctxs.len()).collect();
    for _ in 0..3 {
        g.r.shuffle(&mut order);
        for i in order.clone() {
            if g.is_script(i) && g.merges[i].is_none() && !g.ended[i] && g.pct(25) {
                let outs: Vec<Ch> = g.outputs(i).into_iter().filter(|c| !g.ch[*c].tx_closed).collect();
                let ins: Vec<Ch> =
                    g.inputs(i).into_iter().filter(|c| g.ch[*c].tx_closed && !g.ch[*c].rx_closed).collect();
                if !outs.is_empty() && g.pct(60) {
                    let c = *g.r.pick(&outs);
                    g.ch[c].tx_closed = true;
                    g.ops(i).push(Op::DropTx { ch: c });
                } else if !ins.is_empty() {
                    let c = *g.r.pick(&ins);
                    g.ch[c].rx_closed = true;
                    g.ops(i).push(Op::DropRx { ch: c });
                }
            } else if g.pct(50) {
                g.finish(i);
            }
        }
    }
    for _ in 0..g.ctxs.len() + 1 {
        for i in order.clone() {
            g.finish(i);
        }
    }
    if g.ended.iter().any(|e| !e) {
        return None;
    }
    // A bystander sees others through to their end, or some way.
    if p.views > 0 && g.pct(15) {
        let n = g.ctxs.len() as u64;
        let j = g.script();
        g.ended[j] = true;
        for _ in 0..g.r.range(1, 4) {
            let ctx = g.r.below(n) as usize;
            let t = if g.pct(50) { u64::MAX } else { g.r.below(120) };
            g.ops(j).push(Op::ViewJoin { ctx, t });
            let n = g.r.below(9);
            g.ops(j).push(Op::Incr { n });
        }
    }
    // Every channel end must be known to its script even if never used.
    for c in 0..g.ch.len() {
        for (i, tx) in [(g.ch[c].tx, true), (g.ch[c].rx, false)] {
            if i == usize::MAX || !g.is_script(i) {
                continue;
            }
            let (a, b) = g.ctxs[i].ports();
            if tx && !a.contains(&c) {
                // a drop at the start closes it at once; nobody ever waits for an element
                g.ops(i).insert(0, Op::DropTx { ch: c });
            }
            if !tx && !b.contains(&c) {
                g.ops(i).push(Op::DropRx { ch: c });
            }
        }
    }
    let infer = g.pct(p.infer);
    let fifo = g.pct(p.fifo);
    let mut order: Vec<usize> = (0..g.ctxs.len()).collect();
    if g.pct(80) {
        g.r.shuffle(&mut order);
    }
    let sent: Vec<usize> = g.ch.iter().map(|c| c.sent).collect();
    let (nest, gnest) = if g.pct(p.nest) { nesting(g.r, g.ctxs.len()) } else { Default::default() };
    let conns = if g.pct(20) { g.r.next() } else { 0 };
    let mut prog =
        Prog { chans: g.specs, ctxs: g.ctxs, order, infer, fifo, log: None, chaos: p.chaos, mis: None, nest, gnest, conns };
    if prog.infer && view_cycle(&prog) {
        prog.infer = false;
    }
    roomy(&mut prog, &sent, r);
    // contexts that look at each other's clocks may creep through time in small steps
    if r.below(100) < p.stretch && !peeky(&prog) {
        stretch(&mut prog, r);
    }
    Some(prog)
}

/// Makes some of a program's times larger by orders of magnitude.
fn stretch(p: &mut Prog, r: &mut Rng) {
    // the cycle-by-cycle variant takes a step for every cycle
    let by = if cfg!(feature = "cycle") {
        *r.pick(&[2, 4, 10])
    } else {
        *r.pick(&[10, 250, (1 << 16) + 1, 1 << 20, 1 << 31, (1 << 32) + 3, 1 << 34])
    };
    let share = *r.pick(&[15, 50, 100]);
    let mut up = |x: &mut u64| {
        if r.below(100) < share {
            *x *= by;
        }
    };
    for c in p.chans.iter_mut().filter(|c| !c.plain && !c.void) {
        up(&mut c.lat);
        up(&mut c.resp);
    }
    for c in p.ctxs.iter_mut() {
        match c {
            Ctx::Script { ops, .. } => {
                for o in ops {
                    match o {
                        Op::Enq { d, .. } => up(d),
                        Op::Incr { n } | Op::AdvBy { n } => up(n),
                        Op::AdvTo { t } => up(t),
                        Op::Drain { inc, .. } => up(inc),
                        Op::Merge { inc, out, .. } => {
                            up(inc);
                            if let Some((_, d)) = out {
                                up(d);
                            }
                        }
                        Op::ViewWait { back, .. } => up(back),
                        _ => {}
                    }
                }
            }
            Ctx::Trace { items, .. } => {
                let (mut last, mut at) = (0, 0);
                for (_, t) in items.iter_mut() {
                    let mut step = *t - last;
                    last = *t;
                    up(&mut step);
                    at += step;
                    *t = at;
                }
            }
            _ => {}
        }
    }
}

/// A context waits for the clock of one that depends on it: flavor inference only knows about channels, so
/// such a program must run without it.
fn view_cycle(p: &Prog) -> bool {
    let mut edges: Vec<(usize, usize)> = p
        .ends()
        .iter()
        .filter_map(|(a, b)| Some(((*a)?, (*b)?)))
        .collect();
    let mut views = vec![];
    for (i, c) in p.ctxs.iter().enumerate() {
        if let Ctx::Script { ops, .. } = c {
            for o in ops {
                if let Op::ViewWait { ctx, .. } = o {
                    views.push((*ctx, i));
                }
            }
        }
    }
    edges.extend(&views);
    let n = p.ctxs.len();
    let mut reach = vec![vec![false; n]; n];
    for (a, b) in edges {
        reach[a][b] = true;
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                reach[i][j] |= reach[i][k] && reach[k][j];
            }
        }
    }
    views.iter().any(|(a, b)| reach[*b][*a])
}

/// Whether the program is one that flavor inference supports, or does without it.
pub fn supported(p: &Prog, sent: &[usize]) -> bool {
    if !p.infer {
        return true;
    }
    !view_cycle(p) && cramped(p, sent).is_empty()
}

fn peeky(p: &Prog) -> bool {
    p.ctxs.iter().any(|c| match c {
        Ctx::Pmu { .. } | Ctx::Dram { .. } => true,
        Ctx::Script { ops, .. } => ops.iter().any(|o| o.peeks() || matches!(o, Op::ViewWait { .. })),
        _ => false,
    })
}

/// A program as the flavor inference supports it: an acyclic channel that may block its sender stops that
/// sender's clock, so nobody may depend on that clock (see the known findings).
fn roomy(p: &mut Prog, sent: &[usize], r: &mut Rng) {
    for c in cramped(p, sent) {
        p.chans[c].cap = if r.chance(1, 2) { None } else { Some(sent[c] + 1 + r.below(3) as usize) };
    }
}

/// The channels which may block their sender although flavor inference makes them acyclic.
fn cramped(p: &Prog, sent: &[usize]) -> Vec<Ch> {
    let cyclic = on_cycle(p);
    let ends = p.ends();
    if !p.infer || !(peeky(p) || cyclic.contains(&true)) {
        return vec![];
    }
    // waiting for room without sending needs room as well
    let asks = |i: usize, c: Ch| match &p.ctxs[i] {
        Ctx::Script { ops, .. } => ops.iter().any(|o| matches!(o, Op::Avail { ch } if *ch == c)) as usize,
        _ => 0,
    };
    (0..p.chans.len())
        .filter(|c| match (ends[*c], p.chans[*c].cap) {
            ((Some(a), Some(_)), Some(k)) => !cyclic[*c] && k < sent[*c] + asks(a, *c),
            _ => false,
        })
        .collect()
}

/// Sets the expectation of checkers from what the reference saw on their channels, sometimes wrongly.
pub fn expectations(p: &mut Prog, vals: &[Vec<usize>], wrong: bool, r: &mut Rng) {
    for c in p.ctxs.iter_mut() {
        match c {
            Ctx::Check { ch, vals: v } => {
                *v = vals[*ch].clone();
                if wrong && r.below(5) == 0 {
                    if r.below(2) == 0 || v.is_empty() {
                        v.push(77);
                    } else {
                        *v.last_mut().unwrap() += 1;
                    }
                }
            }
            Ctx::Approx { ch, vals: v, tol } => {
                let t = *tol as u64;
                *v = vals[*ch].iter().map(|x| (x + r.below(t + t / 2 + 1) as usize).saturating_sub(*tol / 2)).collect();
                if wrong && r.below(5) == 0 {
                    if r.below(2) == 0 || v.is_empty() {
                        v.push(77);
                    } else {
                        *v.last_mut().unwrap() += 3 * *tol + 1;
                    }
                }
            }
            _ => {}
        }
    }
}

/// Turns a program into one whose contexts may stop anywhere.
pub fn spoil(p: &mut Prog, r: &mut Rng) {
    p.chaos = true;
    let ends = p.ends();
    for (c, (tx, _)) in ends.iter().enumerate() {
        if let Some(t) = tx {
            if matches!(p.ctxs[*t], Ctx::Pmu { .. } | Ctx::Dram { .. }) {
                p.chans[c].cap = None;
            }
        }
    }
    let mut strict = false;
    for c in &mut p.ctxs {
        // memories that refuse some of what they are asked for
        let (cap, modulo, dflt) = match c {
            Ctx::Pmu { cap, modulo, dflt, .. } => (cap, modulo, dflt),
            Ctx::Dram { cap, behavior, .. } => (cap, &mut behavior.0, &mut behavior.1),
            _ => continue,
        };
        if r.below(5) < 2 {
            strict = true;
            *modulo = r.below(3) == 0;
            *dflt = r.below(3) > 0;
            if r.below(2) == 0 {
                *cap = r.range(*cap as u64 / 2 + 1, *cap as u64) as usize;
            }
        }
    }
    let n = if strict { r.below(2) } else { r.range(1, 2) };
    let scripts: Vec<usize> = (0..p.ctxs.len()).filter(|i| !p.ctxs[*i].library()).collect();
    if scripts.is_empty() {
        return;
    }
    for _ in 0..n {
        let i = *r.pick(&scripts);
        let Ctx::Script { ops, .. } = &mut p.ctxs[i] else { continue };
        let at = r.below(ops.len() as u64 + 1) as usize;
        // ends used after the cut must stay with the context
        let (mut tx, mut rx) = (vec![], vec![]);
        for o in ops.iter() {
            let (a, b) = o.chans();
            tx.extend(a);
            rx.extend(b);
        }
        tx.sort_unstable();
        tx.dedup();
        rx.sort_unstable();
        rx.dedup();
        match r.below(6) {
            0 | 1 => {
                ops.truncate(at);
                ops.push(Op::Fail);
                keep(ops, &tx, &rx);
            }
            2 => {
                ops.truncate(at);
                ops.push(Op::Panic);
                keep(ops, &tx, &rx);
            }
            3 => {
                ops.truncate(at);
                keep(ops, &tx, &rx);
            }
            k => {
                let (set, is_tx) = if k == 4 { (&tx, true) } else { (&rx, false) };
                if set.is_empty() {
                    continue;
                }
                let c = *r.pick(set);
                let mut i = 0;
                let mut new: Vec<Op> = vec![];
                for o in ops.drain(..) {
                    if i == at {
                        new.push(if is_tx { Op::DropTx { ch: c } } else { Op::DropRx { ch: c } });
                    }
                    i += 1;
                    let (a, b) = o.chans();
                    if i > at && ((is_tx && a.contains(&c)) || (!is_tx && b.contains(&c))) {
                        continue;
                    }
                    new.push(o);
                }
                if at >= i {
                    new.push(if is_tx { Op::DropTx { ch: c } } else { Op::DropRx { ch: c } });
                }
                *ops = new;
                keep(ops, &tx, &rx);
            }
        }
    }
}

/// The context still owns the ends it no longer uses: it drops them when it stops.
pub fn keep(ops: &mut Vec<Op>, tx: &[Ch], rx: &[Ch]) {
    let (mut a, mut b) = (vec![], vec![]);
    for o in ops.iter() {
        let (x, y) = o.chans();
        a.extend(x);
        b.extend(y);
    }
    // unreachable operations after the end: they only name the ends
    let stop = !matches!(ops.last(), Some(Op::Fail | Op::Panic));
    let mut extra = vec![];
    for c in tx {
        if !a.contains(c) {
            extra.push(Op::DropTx { ch: *c });
        }
    }
    for c in rx {
        if !b.contains(c) {
            extra.push(Op::DropRx { ch: *c });
        }
    }
    let _ = stop;
    ops.extend(extra);
}
