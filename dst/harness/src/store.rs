//! The time-travelling datastore, used directly: a single writer per address, readers who synchronise with
//! the writer's clock (or do not, and then may only see something older).
use crate::laws::{viol, Viol};
use dam::context_tools::ContextView;
use dam::structures::*;
use dam::templates::datastore::{Behavior, Datastore};
use dam_sim_core as sim;
use serde::{Deserialize, Serialize};
use sim::Rng;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    /// Write at the own clock, then move on by `inc` (at least 1).
    Write { addr: usize, val: usize, inc: u64 },
    /// Write `back` cycles before what was last written there: refused, or recorded at that time.
    Back { addr: usize, val: usize, back: u64 },
    Incr(u64),
    /// Read at time t, after all writers have passed t if `wait`.
    Read { addr: usize, t: u64, wait: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct StoreCase {
    pub cap: usize,
    pub modulo: bool,
    pub dflt: bool,
    pub writers: Vec<Vec<SOp>>,
    pub readers: Vec<Vec<SOp>>,
}

#[derive(Default)]
struct World {
    /// Per cell: (time, value, step at which the write had returned or None)
    hist: Vec<Vec<(u64, usize, Option<u64>)>>,
    /// Cells somebody tried to write into the past of.
    past: Vec<bool>,
    viols: Vec<Viol>,
}
thread_local! {
    static W: RefCell<Option<Rc<RefCell<World>>>> = const { RefCell::new(None) };
}
fn w() -> Rc<RefCell<World>> {
    W.with(|w| w.borrow().clone().unwrap())
}
fn bad(class: &str, msg: String) {
    let w = w();
    let mut w = w.borrow_mut();
    if w.viols.len() < 10 {
        w.viols.push(viol(class, msg));
    }
}

pub fn execute(c: &StoreCase) {
    W.with(|w| {
        *w.borrow_mut() = Some(Rc::new(RefCell::new(World { hist: vec![vec![]; c.cap], past: vec![false; c.cap], viols: vec![] })));
    });
    let ds = Arc::new(Datastore::<usize>::new(
        c.cap,
        Behavior { mod_address: c.modulo, use_default_value: c.dflt },
    ));
    let managers: Vec<TimeManager> = c.writers.iter().map(|_| TimeManager::new()).collect();
    let views: Vec<TimeView> = managers.iter().map(|m| m.view().into()).collect();
    let mut tasks = vec![];
    for (i, (ops, mgr)) in c.writers.iter().zip(managers).enumerate() {
        let (ops, ds, c) = (ops.clone(), ds.clone(), c.clone());
        tasks.push(sim::spawn(
            format!("writer{i}"),
            Box::new(move || {
                for op in &ops {
                    match op {
                        SOp::Write { addr, val, inc } => {
                            let t = mgr.tick().time();
                            let cell = addr % c.cap;
                            let out = *addr >= c.cap && !c.modulo;
                            if !out {
                                w().borrow_mut().hist[cell].push((t, *val, None));
                            }
                            let r = sim::catch(|| ds.write(*addr, *val, Time::new(t)));
                            sim::note(|| format!("write({addr}, {val}) at {t}"));
                            match (r, out) {
                                (Ok(()), false) => {
                                    let s = sim::steps();
                                    w().borrow_mut().hist[cell].last_mut().unwrap().2 = Some(s);
                                }
                                (Err(_), true) => {}
                                (Ok(()), true) => bad("store-range", format!("write to address {addr} of {} succeeded", c.cap)),
                                // the refusal of a write into the past may cost the cell
                                (Err(_), false) if w().borrow().past[cell] => {
                                    w().borrow_mut().hist[cell].pop();
                                }
                                (Err(e), false) => {
                                    bad("store-panic", format!("write({addr}) at {t} panicked: {}", sim::payload_text(&*e)))
                                }
                            }
                            mgr.incr_cycles((*inc).max(1));
                        }
                        SOp::Back { addr, val, back } => {
                            let cell = addr % c.cap;
                            let last = w().borrow().hist[cell].last().map(|x| x.0);
                            let Some(t) = last.map(|x| x.saturating_sub(*back)) else { continue };
                            w().borrow_mut().past[cell] = true;
                            if sim::catch(|| ds.write(*addr, *val, Time::new(t))).is_ok() {
                                bad("store-past", format!("a write to {addr} at {t} was accepted; the last one was at {}", last.unwrap_or(0)));
                            }
                        }
                        SOp::Incr(n) => mgr.incr_cycles(*n),
                        SOp::Read { .. } => {}
                    }
                }
                drop(mgr);
            }),
        ));
    }
    for (k, ops) in c.readers.iter().enumerate() {
        let (ops, ds, c, views) = (ops.clone(), ds.clone(), c.clone(), views.clone());
        tasks.push(sim::spawn(
            format!("reader{k}"),
            Box::new(move || {
                for op in &ops {
                    let SOp::Read { addr, t, wait } = op else { continue };
                    if *wait {
                        for v in &views {
                            v.wait_until(Time::new(*t + 1));
                        }
                    }
                    let s0 = sim::steps();
                    let cell = addr % c.cap;
                    let r = sim::catch(|| ds.read(*addr, Time::new(*t)));
                    if *addr >= c.cap && !c.modulo {
                        if r.is_ok() {
                            bad("store-range", format!("read of address {addr} of {} succeeded", c.cap));
                        }
                        continue;
                    }
                    let world = w();
                    if world.borrow().past[cell] {
                        continue;
                    }
                    let h: Vec<(u64, usize, Option<u64>)> =
                        world.borrow().hist[cell].iter().filter(|x| x.0 <= *t).cloned().collect();
                    drop(world);
                    // what had certainly been written before, and everything written meanwhile
                    let sure = if *wait { h.len() } else { h.iter().take_while(|x| x.2.map_or(false, |s| s < s0)).count() };
                    let weak = sim::weak() && !*wait;
                    let low = if weak { 0 } else { sure };
                    let allowed: Vec<Option<usize>> = (low..=h.len())
                        .map(|n| if n == 0 { None } else { Some(h[n - 1].1) })
                        .collect();
                    let got = match &r {
                        Ok(v) => Some(*v),
                        Err(_) => None,
                    };
                    let fits = |a: &Option<usize>| match (a, &r) {
                        (Some(v), Ok(x)) => v == x,
                        (None, Ok(x)) => c.dflt && *x == 0,
                        (None, Err(_)) => !c.dflt,
                        (Some(_), Err(_)) => false,
                    };
                    sim::note(|| format!("read({addr}) at {t} = {got:?}"));
                    if !allowed.iter().any(fits) {
                        bad(
                            "store",
                            format!(
                                "reader {k}: read({addr}) at {t}{} gave {got:?}; written up to then: {:?}, so one of {allowed:?} (None: nothing written{})",
                                if *wait { " after waiting for the writers" } else { "" },
                                h.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(),
                                if c.dflt { ", reads as 0" } else { "" },
                            ),
                        );
                    }
                }
            }),
        ));
    }
    for t in tasks {
        sim::join(t);
    }
    // the whole history once more, with everybody gone
    for cell in 0..c.cap {
        let (h, past) = {
            let w = w();
            let w = w.borrow();
            (w.hist[cell].clone(), w.past[cell])
        };
        let mut times: Vec<u64> = h.iter().flat_map(|x| [x.0.saturating_sub(1), x.0, x.0 + 1]).collect();
        times.push(u64::MAX / 4);
        times.dedup();
        let thin = times.len() / 40 + 1;
        for t in times.into_iter().step_by(thin) {
            let want = h.iter().filter(|x| x.0 <= t).last().map(|x| x.1);
            match (sim::catch(|| ds.read(cell, Time::new(t))), want) {
                (Ok(x), Some(v)) if x == v => {}
                (Ok(0), None) if c.dflt => {}
                (Err(_), None) if !c.dflt => {}
                (Err(_), _) if past => {}
                (got, _) => bad(
                    "store",
                    format!(
                        "in the end, read({cell}) at {t} gave {:?}, not {want:?}; written: {:?}",
                        got.ok(),
                        h.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()
                    ),
                ),
            }
        }
    }
}

pub fn verdict() -> Vec<Viol> {
    W.with(|w| w.borrow_mut().take().map(|w| std::mem::take(&mut w.borrow_mut().viols)).unwrap_or_default())
}

pub fn generate(r: &mut Rng) -> StoreCase {
    let cap = if r.chance(1, 12) { r.range(6, 70) } else { r.range(1, 5) } as usize;
    let modulo = r.chance(1, 3);
    let dflt = r.chance(2, 3);
    let nw = r.range(1, 2.min(cap as u64));
    // now and then a history far longer than a reader looks at
    let long = r.chance(1, 6);
    let top = if modulo { cap as u64 * 3 } else { cap as u64 };
    let past = r.chance(1, 8);
    let mut writers = vec![];
    let mut val = 1;
    for i in 0..nw {
        let mut v = vec![];
        let len = if long { r.range(60, 400) } else { r.range(1, 12) };
        for _ in 0..len {
            if r.chance(1, 4) {
                v.push(SOp::Incr(r.range(1, 5)));
                continue;
            }
            // writers own disjoint cells
            let mut addr;
            loop {
                addr = r.below(top) as usize;
                if (addr % cap) as u64 % nw == i {
                    break;
                }
            }
            if !modulo && r.chance(1, 40) {
                addr = cap + r.below(3) as usize;
            }
            val += 1;
            if past && (modulo || addr < cap) && r.chance(1, 5) {
                v.push(SOp::Back { addr: addr % cap, val, back: r.below(8) });
                continue;
            }
            v.push(SOp::Write { addr, val, inc: r.range(1, 4) });
        }
        writers.push(v);
    }
    let readers = (0..r.range(1, 3))
        .map(|_| {
            (0..if long { r.range(4, 24) } else { r.range(1, 8) })
                .map(|_| SOp::Read {
                    addr: if !modulo && r.chance(1, 40) { cap + 1 } else { r.below(top) as usize },
                    t: {
                        let top = if long { *r.pick(&[30, 200, 1200]) } else { 30 };
                        r.below(top)
                    },
                    wait: r.chance(2, 3),
                })
                .collect()
        })
        .collect();
    StoreCase { cap, modulo, dflt, writers, readers }
}
