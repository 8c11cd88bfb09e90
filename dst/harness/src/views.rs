//! Clocks and views of them, used directly: movers own clocks, watchers look at them.
use crate::laws::{viol, Viol};
use dam::context_tools::ContextView;
use dam::structures::*;
use dam_sim_core as sim;
use serde::{Deserialize, Serialize};
use sim::Rng;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum VOp {
    Incr(u64),
    Advance(u64),
    AdvanceInf,
    Cleanup,
    /// Wait for another clock (watchers and movers alike; movers only up to their own clock).
    Wait { view: usize, t: u64 },
    WaitInf { view: usize },
    Tlb { view: usize },
    Yield,
}

/// Views 0..clocks are the clocks themselves; the rest are aggregates.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ViewCase {
    pub movers: Vec<Vec<VOp>>,
    pub watchers: Vec<Vec<VOp>>,
    pub parents: Vec<Vec<usize>>,
}

const INF: u64 = u64::MAX;

#[derive(Default)]
struct Shadow {
    /// (value, is it certainly visible to all who hear of it, own tick of the mover before the change)
    hist: Vec<(u64, u32)>,
    /// Highest value that may be visible.
    hi: u64,
    /// Highest value whose update is complete.
    lo: u64,
    task: usize,
}

struct World {
    clocks: Vec<Shadow>,
    viols: Vec<Viol>,
    seen: Vec<Vec<u64>>,
}
thread_local! {
    static W: RefCell<Option<Rc<RefCell<World>>>> = const { RefCell::new(None) };
}
fn w() -> Rc<RefCell<World>> {
    W.with(|w| w.borrow().clone().unwrap())
}
fn t64(t: Time) -> u64 {
    if t.is_infinite() {
        INF
    } else {
        t.time()
    }
}
fn time(t: u64) -> Time {
    if t == INF {
        Time::infinite()
    } else {
        Time::new(t)
    }
}

fn bad(class: &str, msg: String) {
    let w = w();
    let mut w = w.borrow_mut();
    if w.viols.len() < 10 {
        w.viols.push(viol(class, msg));
    }
}

fn members(c: &ViewCase, v: usize) -> Vec<usize> {
    if v < c.movers.len() {
        vec![v]
    } else {
        let mut m: Vec<usize> =
            c.parents[v - c.movers.len()].iter().flat_map(|x| members(c, *x)).collect();
        m.sort_unstable();
        m.dedup();
        m
    }
}

/// Is there an aggregate of nothing in it?
fn hollow(c: &ViewCase, v: usize) -> bool {
    v >= c.movers.len() && {
        let p = &c.parents[v - c.movers.len()];
        p.is_empty() || p.iter().any(|x| hollow(c, *x))
    }
}

/// Judges a value that a view of clocks `m` returned.
fn judge(who: usize, v: usize, m: &[usize], hollow: bool, lo: &[u64], r: u64, at_least: Option<u64>, what: &str) {
    let wr = w();
    let bounds = {
        let w = wr.borrow();
        let hi = m.iter().map(|i| w.clocks[*i].hi).min();
        let lo = lo.iter().copied().min();
        (lo, hi)
    };
    if m.is_empty() {
        let want = at_least.unwrap_or(INF);
        if r != want {
            bad("view", format!("{what} on an empty aggregate returned {r}"));
        }
        return;
    }
    if let Some(t) = at_least {
        if r < t {
            bad("view-early", format!("{what} returned {r}"));
        }
    }
    if r > bounds.1.unwrap() {
        bad("view-high", format!("{what} returned {r} but the clock has only reached {}", bounds.1.unwrap()));
    }
    // waiting for nothing is over at once
    let hollow = hollow && at_least.is_some();
    if hollow {
        return;
    }
    if !sim::weak() && r < bounds.0.unwrap() {
        bad("view-low", format!("{what} returned {r} although the clock had reached {} before", bounds.0.unwrap()));
    }
    let before = {
        let w = wr.borrow();
        w.seen[who][v]
    };
    if r < before {
        bad("view-low", format!("{what} returned {r} after {before} had been seen"));
    }
    wr.borrow_mut().seen[who][v] = r.max(before);
    // Everything the owners did before their clocks reached r must be visible now.
    let w = wr.borrow();
    for i in m {
        let c = &w.clocks[*i];
        if let Some((val, tick)) = c.hist.iter().find(|(x, _)| *x >= r && r > 0) {
            if !sim::happened_before(c.task, *tick) {
                let msg = format!("{what} returned {r}, but what the owner did before setting its clock to {val} is not visible to the caller");
                drop(w);
                bad("view-order", msg);
                return;
            }
        }
    }
}

fn look(c: &ViewCase, who: usize, name: &str, views: &[TimeView], op: &VOp) {
    let (v, t) = match op {
        VOp::Wait { view, t } => (*view, Some(*t)),
        VOp::WaitInf { view } => (*view, Some(INF)),
        VOp::Tlb { view } => (*view, None),
        _ => return,
    };
    let m = members(c, v);
    let lo: Vec<u64> = m.iter().map(|i| w().borrow().clocks[*i].lo).collect();
    let (r, what) = match t {
        Some(t) => (t64(views[v].wait_until(time(t))), format!("{name}: wait_until(view {v}, {t})")),
        None => (t64(views[v].tick_lower_bound()), format!("{name}: tick_lower_bound(view {v})")),
    };
    sim::note(|| format!("{what} = {r}"));
    judge(who, v, &m, hollow(c, v), &lo, r, t, &what);
}

pub fn execute(c: &ViewCase) {
    let nv = c.movers.len() + c.parents.len();
    let world = Rc::new(RefCell::new(World {
        clocks: c.movers.iter().map(|_| Shadow::default()).collect(),
        viols: vec![],
        seen: vec![vec![0; nv]; c.movers.len() + c.watchers.len()],
    }));
    W.with(|w| *w.borrow_mut() = Some(world));
    let managers: Vec<TimeManager> = c.movers.iter().map(|_| TimeManager::new()).collect();
    let mut views: Vec<TimeView> = managers.iter().map(|m| m.view().into()).collect();
    for p in &c.parents {
        let v = ParentView { child_views: p.iter().map(|i| views[*i].clone()).collect() };
        views.push(v.into());
    }
    let mut tasks = vec![];
    for (i, (ops, mut mgr)) in c.movers.iter().zip(managers).enumerate() {
        let (ops, views, c) = (ops.clone(), views.clone(), c.clone());
        tasks.push(sim::spawn(
            format!("mover{i}"),
            Box::new(move || {
                w().borrow_mut().clocks[i].task = sim::current();
                let mut now = 0u64;
                for op in &ops {
                    let next = match op {
                        VOp::Incr(n) if now != INF => now + n,
                        VOp::Advance(t) => now.max(*t),
                        VOp::AdvanceInf | VOp::Cleanup => INF,
                        VOp::Incr(_) => now,
                        VOp::Yield => {
                            sim::yield_point(sim::Op::Yield);
                            continue;
                        }
                        VOp::Wait { view, t } => {
                            let t = (*t).min(now);
                            look(&c, i, &format!("mover {i} at {now}"), &views, &VOp::Wait { view: *view, t });
                            continue;
                        }
                        other => {
                            look(&c, i, &format!("mover {i} at {now}"), &views, other);
                            continue;
                        }
                    };
                    set(i, next, || match op {
                        VOp::Incr(n) => mgr.incr_cycles(*n),
                        VOp::Advance(t) => mgr.advance(Time::new(*t)),
                        VOp::AdvanceInf => mgr.advance(Time::infinite()),
                        _ => mgr.cleanup(),
                    });
                    now = next;
                    let own = t64(mgr.tick());
                    if own != now {
                        bad("clock", format!("mover {i}: after {op:?} the clock shows {own}, expected {now}"));
                    }
                }
                set(i, INF, || drop(mgr));
            }),
        ));
    }
    for (k, ops) in c.watchers.iter().enumerate() {
        let (ops, views, c) = (ops.clone(), views.clone(), c.clone());
        let who = c.movers.len() + k;
        tasks.push(sim::spawn(
            format!("watcher{k}"),
            Box::new(move || {
                for op in &ops {
                    if *op == VOp::Yield {
                        sim::yield_point(sim::Op::Yield);
                    }
                    look(&c, who, &format!("watcher {k}"), &views, op);
                }
            }),
        ));
    }
    for t in tasks {
        sim::join(t);
    }
}

fn set(i: usize, next: u64, f: impl FnOnce()) {
    {
        let w = w();
        let mut w = w.borrow_mut();
        let tick = sim::own_tick();
        let c = &mut w.clocks[i];
        if next > c.hi || c.hist.is_empty() {
            c.hist.push((next, tick));
        }
        c.hi = c.hi.max(next);
    }
    f();
    w().borrow_mut().clocks[i].lo = next;
    sim::note(|| format!("clock {i} is now {next}"));
}

pub fn verdict() -> Vec<Viol> {
    W.with(|w| w.borrow_mut().take().map(|w| std::mem::take(&mut w.borrow_mut().viols)).unwrap_or_default())
}

pub fn generate(r: &mut Rng) -> ViewCase {
    let crowd = r.chance(1, 8);
    let nm = if crowd { r.range(1, 6) } else { r.range(1, 3) } as usize;
    let nw = if crowd { r.range(4, 12) } else { r.range(1, 3) } as usize;
    let mut parents: Vec<Vec<usize>> = vec![];
    for _ in 0..r.below(3) {
        let n = if crowd { r.below(9) } else { r.below(4) };
        let top = nm + parents.len();
        parents.push((0..n).map(|_| r.below(top as u64) as usize).collect());
    }
    let nv = nm + parents.len();
    let big = r.chance(1, 10);
    let mut movers = vec![];
    for i in 0..nm {
        let n = r.range(1, 10);
        let mut v = vec![];
        for _ in 0..n {
            v.push(match r.below(14) {
                0..=4 => VOp::Incr(r.range(1, 4)),
                5..=8 => VOp::Advance(r.below(if big { 1 << 40 } else { 20 })),
                9 => VOp::Incr(0),
                10 => {
                    let view = r.below(nm as u64) as usize;
                    if view == i {
                        VOp::Yield
                    } else {
                        VOp::Wait { view, t: r.below(12) }
                    }
                }
                11 => VOp::Tlb { view: r.below(nv as u64) as usize },
                12 => VOp::Yield,
                _ if r.chance(1, 4) => {
                    if r.chance(1, 2) {
                        VOp::AdvanceInf
                    } else {
                        VOp::Cleanup
                    }
                }
                _ => VOp::Incr(1),
            });
        }
        movers.push(v);
    }
    let watchers = (0..nw)
        .map(|_| {
            (0..r.range(1, 6))
                .map(|_| {
                    let view = r.below(nv as u64) as usize;
                    match r.below(10) {
                        0..=5 => VOp::Wait { view, t: r.below(24) },
                        6 => VOp::WaitInf { view },
                        7 => VOp::Yield,
                        _ => VOp::Tlb { view },
                    }
                })
                .collect()
        })
        .collect();
    ViewCase { movers, watchers, parents }
}
