//! What a simulated program looks like: plain data, so that it can be generated, shrunk and replayed.
use serde::{Deserialize, Serialize};

pub type Ch = usize;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ChanSpec {
    pub cap: Option<usize>,
    pub lat: u64,
    pub resp: u64,
    /// Built with the constructor that takes no latencies (which then are 1).
    #[serde(default)]
    pub plain: bool,
    #[serde(default)]
    pub void: bool,
    /// Scripts use its ends through the typed adapters.
    #[serde(default)]
    pub adapt: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Enqueue with requested time = own clock + d (d may be 0), value v or one that depends on everything received.
    Enq { ch: Ch, d: u64, v: Option<usize> },
    /// Dequeue until `upto` elements were taken from ch in all.
    Deq { ch: Ch, upto: usize },
    /// Dequeue until the channel is closed, waiting `inc` cycles after each.
    Drain { ch: Ch, inc: u64 },
    PeekNext { ch: Ch },
    Peek { ch: Ch },
    /// Take the head if it is there at the own clock.
    Poll { ch: Ch },
    Any { chs: Vec<Ch> },
    All { chs: Vec<Ch> },
    /// Wait until every member of one of the groups has a head, or none can any more.
    Choose { groups: Vec<Vec<Ch>> },
    /// Arbiter: always serve the earliest head (ties: lowest position), until `total` were served or all closed.
    Merge { chs: Vec<Ch>, total: Option<usize>, inc: u64, out: Option<(Ch, u64)> },
    Avail { ch: Ch },
    Incr { n: u64 },
    AdvBy { n: u64 },
    AdvTo { t: u64 },
    DropTx { ch: Ch },
    DropRx { ch: Ch },
    /// Wait until the clock of another context has reached the own clock minus `back`.
    ViewWait { ctx: usize, back: u64 },
    ViewTlb { ctx: usize },
    /// Wait until the clock of another context has reached `t`, or (at u64::MAX) until that has ended. Nobody
    /// waits for a context that does this.
    ViewJoin { ctx: usize, t: u64 },
    /// Log one event, and so many `more` right behind it.
    LogEv {
        n: u64,
        cb: bool,
        #[serde(default)]
        more: u32,
    },
    Yield,
    Fail,
    Panic,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    /// Implements `run`.
    Run,
    /// Implements `run_falliable`.
    Fallible,
    /// A `FunctionContext`.
    Func,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stage {
    pub op: u8,
    pub forward: Vec<(usize, usize)>,
    pub prev: Vec<usize>,
    pub next: Vec<usize>,
    pub out: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DramPort {
    Read { addr: Ch, size: Ch, data: Ch },
    Write { addr: Ch, size: Ch, data: Ch, ack: Ch },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ctx {
    Script {
        ops: Vec<Op>,
        style: Style,
        /// A closed channel is an error of this context (else it just ends).
        err: bool,
        /// Keeps its channel ends until the library drops the context.
        hold: bool,
        /// Ends its clock itself, this many pauses before it returns.
        #[serde(default, skip_serializing_if = "zero")]
        linger: u8,
    },
    Gen { ch: Ch, vals: Vec<usize> },
    Trace { ch: Ch, items: Vec<(usize, u64)> },
    Bcast { src: Ch, dsts: Vec<Ch> },
    Cons { ch: Ch },
    Printer { ch: Ch },
    Check { ch: Ch, vals: Vec<usize> },
    Approx { ch: Ch, vals: Vec<usize>, tol: usize },
    Pcu { ins: Vec<Ch>, outs: Vec<Ch>, depth: usize, regs: usize, stages: Vec<Stage> },
    Pmu { cap: usize, modulo: bool, dflt: bool, readers: Vec<(Ch, Ch)>, writers: Vec<(Ch, Ch, Ch)> },
    Dram {
        requests: usize,
        bw: usize,
        latency: u64,
        cap: usize,
        fill: bool,
        ports: Vec<DramPort>,
        /// Whether addresses wrap, and what was never written can be read.
        #[serde(default = "lenient")]
        behavior: (bool, bool),
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LogSpec {
    /// None: everything; else the names allowed.
    pub allow: Option<Vec<String>>,
    /// Applied per context rather than as a blanket filter.
    pub per_child: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Prog {
    pub chans: Vec<ChanSpec>,
    pub ctxs: Vec<Ctx>,
    /// Registration order (a permutation of the contexts).
    pub order: Vec<usize>,
    pub infer: bool,
    pub fifo: bool,
    #[serde(default)]
    pub log: Option<LogSpec>,
    /// Ends of contexts may be early: no exact model, only the laws that hold in every run.
    #[serde(default)]
    pub chaos: bool,
    /// A fault in the wiring, which initialization must report.
    #[serde(default)]
    pub mis: Option<Mis>,
    /// The composite context each context is part of (shorter: the rest stands alone).
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub nest: Vec<Option<usize>>,
    /// The composite context each composite is part of: one with a lower number.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub gnest: Vec<Option<usize>>,
    /// Scripts that declare which of their channels depend on which (a bit each, by number modulo 64).
    #[serde(default, skip_serializing_if = "none")]
    pub conns: u64,
}

fn zero(x: &u8) -> bool {
    *x == 0
}

fn none(x: &u64) -> bool {
    *x == 0
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mis {
    /// The context does not attach itself to this end.
    NoTx(Ch),
    NoRx(Ch),
    /// Nobody is attached to either end.
    NoEnds(Ch),
    /// The context is never added to the program.
    Unregistered(usize),
}

impl Prog {
    /// The outermost composite a context is part of.
    pub fn root(&self, i: usize) -> Option<usize> {
        let mut g = self.nest.get(i).copied().flatten()?;
        while let Some(h) = self.gnest.get(g).copied().flatten() {
            g = h;
        }
        Some(g)
    }
    pub fn inside(&self, i: usize, g: usize) -> bool {
        let mut at = self.nest.get(i).copied().flatten();
        while let Some(h) = at {
            if h == g {
                return true;
            }
            at = self.gnest.get(h).copied().flatten();
        }
        false
    }
    /// A number shared by the contexts that the program knows as one: its result, failures and filter are theirs together.
    pub fn unit(&self, i: usize) -> usize {
        self.root(i).map_or(i, |g| self.ctxs.len() + g)
    }
    /// How many contexts the program itself knows.
    pub fn units(&self) -> usize {
        let mut v: Vec<usize> = (0..self.ctxs.len()).map(|i| self.unit(i)).collect();
        v.sort_unstable();
        v.dedup();
        v.len()
    }
    /// Whether each context is part of a unit with one of these.
    pub fn spread(&self, bad: &[bool]) -> Vec<bool> {
        let hit: Vec<usize> = (0..self.ctxs.len()).filter(|i| bad.get(*i) == Some(&true)).map(|i| self.unit(i)).collect();
        (0..self.ctxs.len()).map(|i| hit.contains(&self.unit(i))).collect()
    }
    /// (sender context, receiver context) of every channel.
    pub fn ends(&self) -> Vec<(Option<usize>, Option<usize>)> {
        let mut e = vec![(None, None); self.chans.len()];
        for (i, c) in self.ctxs.iter().enumerate() {
            let (tx, rx) = c.ports();
            for t in tx {
                if t < e.len() {
                    e[t].0 = Some(i);
                }
            }
            for r in rx {
                if r < e.len() {
                    e[r].1 = Some(i);
                }
            }
        }
        e
    }

    /// Whether the contexts, linked by their channels and the clocks they watch, form a forest. In a forest
    /// no set of contexts can wait for one another, whichever others have gone; elsewhere contexts that are
    /// cut off from a failed one may wait for each other, or creep through time together, for ever.
    pub fn forest(&self) -> bool {
        let mut links: Vec<(usize, usize)> =
            self.ends().iter().filter_map(|(a, b)| Some(((*a)?, (*b)?))).collect();
        for (i, c) in self.ctxs.iter().enumerate() {
            if let Ctx::Script { ops, .. } = c {
                for o in ops {
                    if let Op::ViewWait { ctx, .. } = o {
                        links.push((i, *ctx));
                    }
                }
            }
        }
        let mut tree: Vec<usize> = (0..self.ctxs.len()).collect();
        links.iter().all(|(a, b)| {
            let (a, b) = (tree[*a], tree[*b]);
            for t in tree.iter_mut() {
                if *t == a {
                    *t = b;
                }
            }
            a != b
        })
    }
}

fn lenient() -> (bool, bool) {
    (true, true)
}

/// How large an element is, in bits.
pub fn bits(v: usize) -> usize {
    [64, 8, 64, 1, 128, 33, 0, 200][v % 8]
}

/// What the approximate checkers accept: half as much above as below, so that the arguments' order matters.
pub fn near(expected: usize, got: usize, tol: usize) -> bool {
    if got > expected {
        got - expected <= tol / 2
    } else {
        expected - got <= tol
    }
}

impl Op {
    pub fn chans(&self) -> (Vec<Ch>, Vec<Ch>) {
        match self {
            Op::Enq { ch, .. } | Op::Avail { ch } | Op::DropTx { ch } => (vec![*ch], vec![]),
            Op::Deq { ch, .. }
            | Op::Drain { ch, .. }
            | Op::PeekNext { ch }
            | Op::Peek { ch }
            | Op::Poll { ch }
            | Op::DropRx { ch } => (vec![], vec![*ch]),
            Op::Any { chs } | Op::All { chs } => (vec![], chs.clone()),
            Op::Choose { groups } => (vec![], groups.concat()),
            Op::Merge { chs, out, .. } => (out.iter().map(|o| o.0).collect(), chs.clone()),
            _ => (vec![], vec![]),
        }
    }
    pub fn peeks(&self) -> bool {
        matches!(
            self,
            Op::Peek { .. } | Op::Poll { .. } | Op::Any { .. } | Op::All { .. } | Op::Choose { .. } | Op::Merge { .. }
        )
    }
}

impl Ctx {
    pub fn ports(&self) -> (Vec<Ch>, Vec<Ch>) {
        let (mut tx, mut rx) = (vec![], vec![]);
        match self {
            Ctx::Script { ops, .. } => {
                for o in ops {
                    let (a, b) = o.chans();
                    tx.extend(a);
                    rx.extend(b);
                }
            }
            Ctx::Gen { ch, .. } | Ctx::Trace { ch, .. } => tx.push(*ch),
            Ctx::Bcast { src, dsts } => {
                rx.push(*src);
                tx.extend(dsts);
            }
            Ctx::Cons { ch } | Ctx::Printer { ch } | Ctx::Check { ch, .. } | Ctx::Approx { ch, .. } => rx.push(*ch),
            Ctx::Pcu { ins, outs, .. } => {
                rx.extend(ins);
                tx.extend(outs);
            }
            Ctx::Pmu { readers, writers, .. } => {
                for (a, r) in readers {
                    rx.push(*a);
                    tx.push(*r);
                }
                for (a, d, k) in writers {
                    rx.extend([*a, *d]);
                    tx.push(*k);
                }
            }
            Ctx::Dram { ports, .. } => {
                for p in ports {
                    match p {
                        DramPort::Read { addr, size, data } => {
                            rx.extend([*addr, *size]);
                            tx.push(*data);
                        }
                        DramPort::Write { addr, size, data, ack } => {
                            rx.extend([*addr, *size, *data]);
                            tx.push(*ack);
                        }
                    }
                }
            }
        }
        for v in [&mut tx, &mut rx] {
            v.sort_unstable();
            v.dedup();
        }
        (tx, rx)
    }
    pub fn library(&self) -> bool {
        !matches!(self, Ctx::Script { .. })
    }
}

// ---------------------------------------------------------------- what is observed

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum K {
    Enq,
    Avail,
    Deq,
    PeekNext,
    /// Outcome of a time-dependent decision (val).
    Mark,
    /// Own clock moved by the context itself.
    Clock,
}

/// One operation of a scripted context.
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub k: K,
    pub ch: Ch,
    pub ok: bool,
    pub val: usize,
    /// Timestamp received, or requested when sending.
    pub ts: u64,
    /// Clock before and after.
    pub t0: u64,
    pub t1: u64,
    /// Upper bound of t1 in the model (= t1 unless the channel was closed).
    pub hi: u64,
    /// Simulator steps (real runs only).
    pub s0: u64,
    pub s1: u64,
}

impl Rec {
    pub fn show(&self) -> String {
        match self.k {
            K::Enq => format!(
                "enqueue(ch{}, value {}, time {}) = {} clock {}->{}",
                self.ch, self.val, self.ts, if self.ok { "Ok" } else { "Err(Closed)" }, self.t0, self.t1
            ),
            K::Avail => format!(
                "wait_until_available(ch{}) = {} clock {}->{}",
                self.ch, if self.ok { "Ok" } else { "Err(Closed)" }, self.t0, self.t1
            ),
            K::Deq | K::PeekNext => {
                let n = if self.k == K::Deq { "dequeue" } else { "peek_next" };
                if self.ok {
                    format!("{n}(ch{}) = value {} @{} clock {}->{}", self.ch, self.val, self.ts, self.t0, self.t1)
                } else {
                    format!("{n}(ch{}) = Err(Closed) clock {}->{}", self.ch, self.t0, self.t1)
                }
            }
            K::Mark => format!("decision(ch{}) = {} clock {}->{}", self.ch, self.val, self.t0, self.t1),
            K::Clock => format!("clock {}->{}", self.t0, self.t1),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// Ran to its end.
    Done,
    /// Stopped at a closed channel.
    Closed,
    /// Returned an error on purpose.
    Fail,
    /// Panicked on purpose.
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pk {
    Some(u64, usize),
    Nothing(u64),
    Closed,
}

#[derive(Clone, Debug)]
pub struct PeekRec {
    pub ctx: usize,
    pub ch: Ch,
    pub consumed: usize,
    pub res: Pk,
    pub t0: u64,
    pub t1: u64,
}
