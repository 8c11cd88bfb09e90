//! A unit of work: something to simulate, and the judgement of one simulated run of it.
use crate::case::*;
use crate::laws::{self, viol, Mode, Viol};
use crate::refm::{self, RefOut};
use crate::{real, store, views};
use dam_sim_core as sim;
use serde::{Deserialize, Serialize};
use sim::{Config, Outcome, Status};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Work {
    Prog(Prog),
    /// Several programs at once in one process, each on a thread of its own; the flag: in each other's threads.
    Multi(Vec<Prog>),
    Views(views::ViewCase),
    Store(store::StoreCase),
}

impl Work {
    /// Roughly how many operations it takes.
    pub fn size(&self) -> u64 {
        let prog = |p: &Prog| -> u64 {
            p.ctxs
                .iter()
                .map(|c| match c {
                    Ctx::Script { ops, .. } => ops
                        .iter()
                        .map(|o| match o {
                            Op::Deq { upto, .. } => 1 + *upto as u64,
                            Op::LogEv { more, .. } => 1 + *more as u64,
                            _ => 1,
                        })
                        .sum(),
                    Ctx::Gen { vals, .. } => vals.len() as u64 * 2,
                    Ctx::Trace { items, .. } => items.len() as u64 * 2,
                    _ => 10,
                })
                .sum()
        };
        match self {
            Work::Prog(p) => prog(p),
            Work::Multi(ps) => ps.iter().map(prog).sum(),
            _ => 0,
        }
    }
}

/// What the reference has to say about a work, computed once.
pub enum Truth {
    Progs(Vec<RefOut>),
    None,
}

pub struct Verdict {
    pub viols: Vec<Viol>,
    /// What must be the same under every schedule.
    pub normal: Vec<String>,
    pub outcome: Outcome,
    pub cycles: u64,
    pub ops: u64,
    /// run() said it passed although the database failed and entries are missing (a known finding, not judged).
    pub silent_loss: bool,
}

pub fn truth(w: &Work) -> Result<Truth, String> {
    match w {
        Work::Prog(p) => one(p).map(|r| Truth::Progs(vec![r])),
        Work::Multi(ps) => Ok(Truth::Progs(ps.iter().map(one).collect::<Result<_, _>>()?)),
        _ => Ok(Truth::None),
    }
}

fn one(p: &Prog) -> Result<RefOut, String> {
    if p.chaos || p.mis.is_some() {
        return Ok(RefOut { recs: vec![vec![]; p.ctxs.len()], ..Default::default() });
    }
    let r = refm::run(p);
    if let Some(x) = &r.inexact {
        return Err(format!("inexact: {x}"));
    }
    if let Some(x) = &r.deadlock {
        return Err(format!("reference deadlock: {x}"));
    }
    if !crate::gen::supported(p, &r.sent) {
        return Err("flavor inference does not support this".into());
    }
    Ok(r)
}

pub fn unbounded_build() -> bool {
    cfg!(feature = "unbounded")
}

/// Runs the work once, in a thread of its own.
pub fn simulate(w: &Work, truth: &Truth, cfg: &Config) -> Verdict {
    let (tx, rx) = std::sync::mpsc::channel();
    let stacks = sim::take_stacks();
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || {
                sim::give_stacks(stacks);
                let v = inside(w, truth, cfg.clone());
                let _ = tx.send((v, sim::take_stacks()));
            })
            .expect("thread");
        if let Err(e) = h.join() {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("the harness itself failed: {}", m.unwrap_or_default());
            std::process::exit(3);
        }
    });
    let (v, stacks) = rx.recv().expect("the simulator itself failed");
    sim::give_stacks(stacks);
    v
}

fn inside(w: &Work, truth: &Truth, cfg: Config) -> Verdict {
    crate::entropy::seed(cfg.seed);
    let weak = cfg.weak();
    let spawn_faults = cfg.rates[sim::Fault::SpawnFail as usize] > 0;
    let n = match w {
        Work::Multi(v) => v.len(),
        _ => 1,
    };
    real::reset(n);
    let ww = w.clone();
    let outcome = sim::run(cfg, move || match &ww {
        Work::Prog(p) => real::execute(0, p),
        Work::Multi(ps) => {
            let hs: Vec<_> = ps
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, p)| sim::spawn(format!("program{i}"), Box::new(move || {
                        // a run() that panics leaves no result behind, which is what is judged
                        let _ = sim::catch(|| real::execute(i, &p));
                    })))
                .collect();
            for h in hs {
                sim::join(h);
            }
        }
        Work::Views(c) => views::execute(c),
        Work::Store(c) => store::execute(c),
    });
    let logs = real::logs();
    let finals = real::finals();
    let mode = Mode {
        weak,
        unbounded: unbounded_build(),
        complete: matches!(outcome.status, Status::Completed),
    };
    let mut viols = vec![];
    let mut normal = vec![];
    let mut cycles = 0;
    let mut ops = 0;
    #[cfg_attr(not(feature = "mongo"), allow(unused_mut))]
    let mut silent_loss = false;
    let progs: Vec<&Prog> = match w {
        Work::Prog(p) => vec![p],
        Work::Multi(ps) => ps.iter().collect(),
        Work::Views(_) => {
            viols = views::verdict();
            viols.extend(laws::status(&outcome));
            if let Status::MainPanic(m) = &outcome.status {
                viols.push(viol("panic", m.clone()));
            }
            vec![]
        }
        Work::Store(_) => {
            viols = store::verdict();
            viols.extend(laws::status(&outcome));
            if let Status::MainPanic(m) = &outcome.status {
                viols.push(viol("panic", m.clone()));
            }
            vec![]
        }
    };
    let empty = vec![];
    let refs = match truth {
        Truth::Progs(r) => r,
        Truth::None => &empty,
    };
    for (i, p) in progs.iter().enumerate() {
        let (l, f) = (&logs[i], finals[i].as_ref());
        if l.recs.is_empty() {
            // never got as far as building
            if !matches!(outcome.status, Status::Completed) {
                viols.extend(laws::status(&outcome));
                if let Status::MainPanic(m) = &outcome.status {
                    viols.push(viol("panic", format!("while building: {m}")));
                }
            }
            continue;
        }
        if outcome.faults[sim::Fault::DbError as usize] > 0 {
            // the database failed: contexts may fail with it, which must be reported, and nothing may hang
            viols.extend(laws::degraded(p, l, f, &outcome));
            #[cfg(feature = "mongo")]
            {
                viols.extend(crate::logcheck::check(p, l, &outcome));
                silent_loss |= crate::logcheck::missing() > 0 && f.is_some_and(|f| f.passed);
            }
            continue;
        }
        viols.extend(laws::local(p, l, mode));
        if p.mis.is_some() {
            viols.extend(laws::status(&outcome));
            if let Status::MainPanic(m) = &outcome.status {
                viols.push(viol("wiring", format!("initialization panicked: {m}")));
            }
            continue;
        }
        if p.chaos {
            viols.extend(laws::chaos(p, l, f, &outcome, mode));
        } else if spawn_faults && outcome.faults[sim::Fault::SpawnFail as usize] > 0 {
            viols.extend(laws::cut_short(p, &outcome));
        } else {
            viols.extend(laws::against(p, &refs[i], l, f, &outcome, progs.len() > 1));
        }
        #[cfg(feature = "mongo")]
        viols.extend(crate::logcheck::check(p, l, &outcome));
        if !p.chaos {
            normal.extend(laws::normal(p, &refs[i], l, f, &outcome));
        }
        cycles += f.and_then(|f| f.elapsed).unwrap_or(0);
        ops += l.recs.iter().map(|r| r.len() as u64).sum::<u64>();
    }
    #[cfg(feature = "dot")]
    viols.extend(crate::dotcheck::texts());
    if progs.len() > 1 {
        let mut ids: Vec<usize> = logs.iter().flat_map(|l| {
            let mut v: Vec<usize> = l.units.iter().copied().filter(|u| !l.ids.contains(u)).collect();
            v.sort_unstable();
            v.dedup();
            v.extend(&l.ids);
            v
        }).collect();
        let n = ids.len();
        ids.sort_unstable();
        ids.dedup();
        if ids.len() != n {
            viols.push(viol("ids", format!("two contexts share an identifier: {:?}", logs.iter().map(|l| &l.ids).collect::<Vec<_>>())));
        }
        let mut ids: Vec<&String> = logs.iter().flat_map(|l| l.chan_ids.iter()).collect();
        let n = ids.len();
        ids.sort_unstable();
        ids.dedup();
        if ids.len() != n {
            viols.push(viol("ids", "two channels share an identifier".into()));
        }
    }
    viols.truncate(12);
    Verdict { viols, normal, outcome, cycles, ops, silent_loss }
}
