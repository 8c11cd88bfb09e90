//! What each property's check simulates, under which schedules and faults, and which findings are its own.
use crate::case::*;
use crate::gen::{self, Lib, Profile};
use crate::work::{truth, Truth, Work};
use crate::{refm, store, views};
use dam_sim_core as sim;
use sim::{Config, Fault, Policy, Rng};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C22", "C23",
];

fn hash(x: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in x {
        h ^= v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h = h.rotate_left(27).wrapping_mul(0x94D0_49BB_1331_11EB);
        h ^= h >> 31;
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    hash(&[seed, p, i])
}

/// A source of programs and its weight.
enum Src {
    Gen(Profile),
    Chaos(Profile),
    Multi(Profile),
    /// Programs with one fault in their wiring.
    Wiring(Profile),
    Views,
    Store,
}

fn sources(prop: &str) -> Vec<(u64, Src)> {
    let d = Profile::default;
    use Lib::*;
    let all = vec![Gen, Trace, Bcast, Cons, Printer, Check, Approx, Pcu, Pmu];
    // nothing looks at clocks or goes round, so that inferred channels may stay tight
    let straight = || Profile { infer: 100, peeks: 0, merge: 0, views: 0, selfloop: 0, scripts: (2, 4), chans: (1, 4), ..d() };
    let mixed = || Profile { libs: all.clone(), nlibs: (1, 3), scripts: (1, 4), ..d() };
    let mut v = match prop {
        "C01" => vec![
            (4, Src::Gen(d())),
            (2, Src::Gen(mixed())),
            (2, Src::Gen(Profile { peeks: 25, merge: 40, views: 8, ..d() })),
            (1, Src::Gen(Profile { libs: vec![Pmu, Dram], nlibs: (1, 1), scripts: (1, 3), ..d() })),
        ],
        "C02" => vec![
            (3, Src::Gen(Profile { chans: (1, 4), scripts: (2, 4), steps: (6, 50), peeks: 3, views: 0, ..d() })),
            (2, Src::Gen(Profile { chans: (1, 2), scripts: (2, 3), steps: (20, 80), peeks: 12, ..d() })),
            (1, Src::Gen(Profile { chans: (3, 8), selfloop: 40, ..d() })),
            (1, Src::Chaos(Profile { chans: (1, 5), ..d() })),
        ],
        "C03" => vec![
            (3, Src::Gen(Profile { big: 35, plain: 5, views: 0, ..d() })),
            (1, Src::Gen(Profile { big: 35, plain: 5, peeks: 20, ..d() })),
            (1, Src::Gen(Profile { big: 20, selfloop: 30, ..d() })),
        ],
        "C04" => vec![
            (3, Src::Gen(Profile { bounded: 100, tight: 85, big: 25, peeks: 4, ..d() })),
            (1, Src::Gen(Profile { bounded: 100, tight: 95, big: 25, avail: 50, ..d() })),
            (1, Src::Gen(Profile { bounded: 100, tight: 95, big: 25, avail: 40, ..straight() })),
            (2, Src::Gen(Profile { bounded: 100, tight: 95, chans: (1, 3), scripts: (2, 3), steps: (20, 80), ..d() })),
            (1, Src::Gen(Profile { bounded: 100, tight: 85, libs: vec![Bcast, Cons, Gen], nlibs: (1, 2), ..d() })),
        ],
        "C05" => vec![
            (3, Src::Gen(Profile { peeks: 40, merge: 20, ..d() })),
            (2, Src::Gen(Profile { peeks: 20, merge: 100, chans: (1, 4), ..d() })),
            (1, Src::Gen(Profile { peeks: 55, chans: (1, 3), scripts: (2, 3), ..d() })),
        ],
        "C06" => vec![
            (5, Src::Views),
            (2, Src::Gen(Profile { views: 35, ..d() })),
            (1, Src::Gen(Profile { views: 20, libs: vec![Pmu, Gen, Cons], nlibs: (1, 2), ..d() })),
        ],
        "C07" => vec![
            (2, Src::Gen(d())),
            (2, Src::Gen(mixed())),
            (1, Src::Gen(Profile { peeks: 30, merge: 50, views: 10, ..d() })),
            (1, Src::Chaos(mixed())),
            (2, Src::Gen(Profile { bounded: 100, tight: 95, chans: (2, 9), ..d() })),
            (1, Src::Chaos(Profile { bounded: 100, tight: 95, avail: 20, ..straight() })),
        ],
        "C08" => vec![
            (3, Src::Gen(Profile { infer: 100, ..d() })),
            (2, Src::Gen(Profile { infer: 100, ..mixed() })),
            (2, Src::Gen(Profile { infer: 100, peeks: 35, merge: 50, ..d() })),
            (2, Src::Gen(Profile { infer: 100, peeks: 0, merge: 0, views: 0, bounded: 100, tight: 90, chans: (1, 4), ..d() })),
            (1, Src::Gen(Profile { infer: 100, libs: vec![Pmu, Bcast], nlibs: (1, 2), scripts: (1, 3), ..d() })),
        ],
        "C09" => vec![
            (2, Src::Gen(Profile { fails: 60, ..d() })),
            (1, Src::Gen(Profile { fails: 40, ..mixed() })),
            (1, Src::Gen(Profile { fails: 60, nest: 100, ..d() })),
            (1, Src::Chaos(Profile { fails: 20, nest: 100, ..mixed() })),
            (3, Src::Chaos(Profile { fails: 20, ..d() })),
            (2, Src::Chaos(Profile { fails: 20, ..mixed() })),
            (1, Src::Chaos(Profile { libs: vec![Pmu, Dram, Pcu], nlibs: (1, 1), scripts: (1, 3), ..d() })),
        ],
        "C10" => vec![
            (3, Src::Gen(Profile { drains: 95, steps: (4, 30), ..d() })),
            (2, Src::Chaos(Profile { drains: 60, fails: 0, ..d() })),
            (1, Src::Gen(Profile { drains: 95, peeks: 25, merge: 40, steps: (4, 30), ..d() })),
            (2, Src::Chaos(Profile { drains: 60, fails: 0, bounded: 100, tight: 95, ..d() })),
            (2, Src::Chaos(Profile { drains: 60, fails: 0, bounded: 100, tight: 95, avail: 60, chans: (1, 4), ..straight() })),
        ],
        "C11" => vec![
            (4, Src::Gen(Profile { libs: vec![Pmu], nlibs: (1, 1), scripts: (1, 3), chans: (0, 2), steps: (20, 120), ..d() })),
            (2, Src::Gen(Profile { libs: vec![Pmu], nlibs: (1, 2), scripts: (1, 3), chans: (0, 2), infer: 100, ..d() })),
            (1, Src::Gen(Profile { libs: vec![Pmu], nlibs: (1, 1), scripts: (1, 3), chans: (0, 1), steps: (20, 90), slow: 100, ..d() })),
            (1, Src::Chaos(Profile { libs: vec![Pmu], nlibs: (1, 1), scripts: (1, 3), chans: (0, 2), ..d() })),
        ],
        "C12" => vec![
            (3, Src::Gen(Profile { libs: vec![Dram], nlibs: (1, 1), scripts: (1, 3), chans: (0, 2), steps: (20, 100), ..d() })),
            // consumers slow enough to hold back acknowledgements and data
            (2, Src::Gen(Profile { libs: vec![Dram], nlibs: (1, 1), scripts: (1, 2), chans: (0, 1), steps: (30, 120), big: 45, ..d() })),
            (3, Src::Gen(Profile { libs: vec![Dram], nlibs: (1, 1), scripts: (1, 3), chans: (0, 1), steps: (20, 90), slow: 100, stretch: 0, ..d() })),
            (1, Src::Chaos(Profile { libs: vec![Dram], nlibs: (1, 1), scripts: (1, 3), chans: (0, 2), steps: (20, 60), ..d() })),
        ],
        "C13" => vec![(1, Src::Store)],
        "C14" => vec![
            (3, Src::Gen(Profile {
                libs: vec![Gen, Trace, Bcast, Cons, Printer, Check, Approx],
                nlibs: (1, 4),
                scripts: (1, 3),
                chans: (0, 3),
                ..d()
            })),
            (1, Src::Chaos(Profile {
                libs: vec![Gen, Trace, Bcast, Cons, Printer, Check, Approx],
                nlibs: (1, 3),
                scripts: (1, 3),
                chans: (0, 3),
                ..d()
            })),
            (1, Src::Gen(Profile { libs: vec![Bcast], nlibs: (1, 2), scripts: (1, 3), chans: (0, 2), infer: 100, ..d() })),
            (1, Src::Gen(Profile { libs: vec![Gen, Trace, Bcast], nlibs: (1, 3), scripts: (1, 3), chans: (0, 2), slow: 100, ..d() })),
        ],
        "C15" => vec![
            (3, Src::Gen(Profile { events: 30, fails: 10, ..d() })),
            (1, Src::Gen(Profile { events: 55, scripts: (2, 6), chans: (1, 3), ..d() })),
            (1, Src::Gen(Profile { events: 20, ..mixed() })),
            (1, Src::Gen(Profile { events: 30, nest: 100, ..d() })),
            (1, Src::Chaos(Profile { events: 30, fails: 20, ..d() })),
        ],
        "C16" => vec![
            (3, Src::Gen(Profile { libs: vec![Pcu], nlibs: (1, 2), scripts: (1, 3), chans: (0, 2), steps: (20, 100), ..d() })),
            (1, Src::Gen(Profile { libs: vec![Pcu], nlibs: (1, 2), scripts: (1, 3), chans: (0, 1), steps: (20, 90), slow: 100, ..d() })),
            (1, Src::Chaos(Profile { libs: vec![Pcu], nlibs: (1, 1), scripts: (1, 3), chans: (0, 2), ..d() })),
        ],
        "C17" => vec![
            (2, Src::Gen(Profile { fails: 25, big: 40, ..d() })),
            (3, Src::Gen(Profile { fails: 10, big: 40, nest: 100, ..d() })),
            (1, Src::Gen(Profile { fails: 10, nest: 100, ..mixed() })),
            (1, Src::Chaos(Profile { fails: 20, big: 40, nest: 100, ..d() })),
            (1, Src::Gen(Profile { fails: 10, ..mixed() })),
            (1, Src::Gen(Profile { fails: 10, libs: vec![Pmu, Dram], nlibs: (1, 1), scripts: (1, 3), ..d() })),
            (2, Src::Chaos(Profile { fails: 30, big: 40, ..d() })),
        ],
        "C23" => vec![
            (2, Src::Gen(Profile { fails: 25, big: 40, ..d() })),
            (3, Src::Gen(Profile { fails: 10, nest: 100, ..mixed() })),
            (2, Src::Gen(Profile { libs: vec![Pmu, Dram, Pcu], nlibs: (1, 2), scripts: (1, 3), nest: 50, ..d() })),
            (2, Src::Chaos(Profile { fails: 25, nest: 60, ..d() })),
            (1, Src::Chaos(Profile { libs: vec![Pmu, Bcast, Pcu], nlibs: (1, 2), scripts: (1, 3), nest: 30, ..d() })),
        ],
        "C20" => vec![
            (3, Src::Wiring(Profile { chans: (1, 5), void: 15, nest: 25, ..d() })),
            (3, Src::Wiring(Profile { chans: (1, 5), void: 10, nest: 25, ..mixed() })),
            (1, Src::Gen(Profile { void: 15, nest: 50, ..mixed() })),
        ],
        "C22" => vec![
            (4, Src::Gen(Profile { adapt: 85, peeks: 20, merge: 15, ..d() })),
            (2, Src::Gen(Profile { adapt: 85, bounded: 90, tight: 85, ..d() })),
            (1, Src::Gen(Profile { adapt: 85, libs: vec![Pmu], nlibs: (1, 1), scripts: (1, 3), ..d() })),
            (1, Src::Chaos(Profile { adapt: 85, ..d() })),
        ],
        "C18" => vec![
            (3, Src::Multi(Profile { scripts: (1, 3), chans: (1, 4), steps: (4, 25), fails: 12, ..d() })),
            (1, Src::Multi(Profile { libs: all.clone(), nlibs: (1, 1), scripts: (1, 2), chans: (0, 2), steps: (4, 25), ..d() })),
        ],
        _ => vec![
            (3, Src::Gen(d())),
            (2, Src::Gen(mixed())),
            (1, Src::Gen(Profile { peeks: 25, merge: 40, views: 8, ..d() })),
            (2, Src::Gen(Profile { bounded: 100, tight: 90, ..d() })),
            (1, Src::Chaos(mixed())),
        ],
    };
    if !cfg!(feature = "dram") {
        for (_, s) in v.iter_mut() {
            if let Src::Gen(p) | Src::Chaos(p) | Src::Multi(p) | Src::Wiring(p) = s {
                p.libs.retain(|l| *l != Dram);
            }
        }
    }
    v
}

/// The i-th case of a property's check: what to simulate and what the reference says about it.
pub fn case(prop: &str, seed: u64) -> Result<(Work, Truth), String> {
    let mut r = Rng::new(seed);
    let src = sources(prop);
    let total: u64 = src.iter().map(|s| s.0).sum();
    let mut k = r.below(total);
    let mut pick = 0;
    for (i, s) in src.iter().enumerate() {
        if k < s.0 {
            pick = i;
            break;
        }
        k -= s.0;
    }
    let w = match &src[pick].1 {
        Src::Views => Work::Views(views::generate(&mut r)),
        Src::Store => Work::Store(store::generate(&mut r)),
        Src::Gen(p) => Work::Prog(one(prop, p, false, &mut r)?),
        Src::Chaos(p) => Work::Prog(one(prop, p, true, &mut r)?),
        Src::Wiring(p) => {
            let mut q = one(prop, p, false, &mut r)?;
            let ends = q.ends();
            let script = |x: Option<usize>| x.is_some_and(|i| !q.ctxs[i].library());
            let mut all = vec![];
            for (c, (tx, rx)) in ends.iter().enumerate() {
                if script(*tx) {
                    all.push(Mis::NoTx(c));
                }
                if script(*rx) {
                    all.push(Mis::NoRx(c));
                }
                if script(*tx) && script(*rx) {
                    all.push(Mis::NoEnds(c));
                }
            }
            for (i, c) in q.ctxs.iter().enumerate() {
                let (tx, rx) = c.ports();
                if !tx.is_empty() || !rx.is_empty() {
                    all.push(Mis::Unregistered(i));
                }
            }
            if all.is_empty() {
                return Err("nothing to miswire".into());
            }
            q.mis = Some(*r.pick(&all));
            Work::Prog(q)
        }
        Src::Multi(p) => {
            let n = r.range(2, 3);
            let mut v = vec![];
            for _ in 0..n {
                let chaos = r.chance(1, 5);
                let mut q = Err("no program".to_string());
                for _ in 0..6 {
                    q = one(prop, p, chaos, &mut r).and_then(|q| truth(&Work::Prog(q.clone())).map(|_| q));
                    if q.is_ok() {
                        break;
                    }
                }
                v.push(q?);
            }
            Work::Multi(v)
        }
    };
    let t = truth(&w)?;
    Ok((w, t))
}

fn one(prop: &str, p: &Profile, chaos: bool, r: &mut Rng) -> Result<Prog, String> {
    let mut p = p.clone();
    p.chaos = chaos;
    let mut g = gen::program(r, &p).ok_or("no program")?;
    let checkers = g.ctxs.iter().any(|c| matches!(c, Ctx::Check { .. } | Ctx::Approx { .. }));
    if checkers {
        let t = refm::run(&g);
        gen::expectations(&mut g, &t.vals, r.chance(1, 3), r);
    }
    if prop == "C15" {
        let names = crate::events::NAMES;
        let allow = match r.below(4) {
            0 | 1 => None,
            _ => Some(names.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect()),
        };
        let spec = LogSpec { per_child: allow.is_some() && r.chance(1, 3), allow };
        g.log = Some(spec).filter(|_| r.chance(19, 20));
        if r.chance(1, 60) {
            burst(&mut g, r);
        }
    }
    if chaos {
        gen::spoil(&mut g, r);
    }
    Ok(g)
}

/// Makes one of the events logged a flood of them.
fn burst(g: &mut Prog, r: &mut Rng) {
    let mut all: Vec<&mut u32> = vec![];
    for c in g.ctxs.iter_mut() {
        if let Ctx::Script { ops, .. } = c {
            all.extend(ops.iter_mut().filter_map(|o| if let Op::LogEv { more, .. } = o { Some(more) } else { None }));
        }
    }
    if !all.is_empty() {
        let i = r.below(all.len() as u64) as usize;
        *all[i] = *r.pick(&[70, 300, 1_100, 4_200, 11_000, 34_000]);
    }
}

/// The k-th schedule of a case.
pub fn schedule(prop: &str, case: u64, k: u64, w: &Work) -> Config {
    let chaos = matches!(w, Work::Prog(p) if p.chaos);
    let mut r = Rng::new(hash(&[case, k, 77]));
    let mut c = Config::new(r.next());
    c.give_up_after += 400 * w.size();
    if k == 0 {
        // the plain one: no faults, no preemption
        c.policy = Policy::RunToBlock;
        return c;
    }
    c.policy = match r.below(12) {
        0..=2 => Policy::Random { p: *r.pick(&[10, 50, 200, 500]) },
        3 | 4 => Policy::Pct { changes: r.range(1, 6) as u32, horizon: *r.pick(&[200, 1000, 4000]) },
        5 => Policy::RunToBlock,
        6 => Policy::RoundRobin { quantum: *r.pick(&[1, 2, 7, 30]) },
        7 | 8 => Policy::Starve { mask: r.next(), p: 300 },
        9 | 10 => Policy::Weighted { p: 300 },
        _ => Policy::Bursty { len: *r.pick(&[20, 100, 400]) },
    };
    if r.chance(7, 8) {
        let level = *r.pick(&[500u32, 5_000, 20_000, 50_000]);
        for f in [Fault::SpuriousUnpark, Fault::WeakCas, Fault::TryLock, Fault::SpuriousCond] {
            if r.chance(1, 2) {
                c.rates[f as usize] = level;
            }
        }
        for f in [Fault::Stall, Fault::ClockJump] {
            if r.chance(1, 2) {
                c.rates[f as usize] = level.min(20_000);
            }
        }
        if r.chance(1, 4) {
            let x = *r.pick(&[20_000u32, 80_000, 200_000]);
            c.rates[Fault::StaleLoad as usize] = x;
            c.rates[Fault::StaleChannel as usize] = x;
        }
        let spawn = match prop {
            "C09" | "C17" => chaos && r.chance(1, 3),
            "C07" | "C15" => chaos && r.chance(1, 8),
            _ => false,
        };
        if spawn {
            c.rates[Fault::SpawnFail as usize] = 60_000;
        }
        if prop == "C15" {
            if r.chance(1, 2) {
                c.rates[Fault::DbDelay as usize] = 100_000;
            }
            if r.chance(1, 4) {
                c.rates[Fault::DbReorder as usize] = 100_000;
            }
            if r.chance(1, 5) {
                c.rates[Fault::DbError as usize] = 30_000;
            }
        }
    }
    c
}

pub fn schedules_per_case(prop: &str) -> u64 {
    match prop {
        "C06" | "C13" => 10,
        "C20" => 2,
        "C18" => 6,
        _ => 7,
    }
}

/// Does a finding of this class speak about this property?
pub fn accepts(prop: &str, class: &str) -> bool {
    let is = |l: &[&str]| l.contains(&class);
    let hang = is(&["deadlock", "livelock", "abort", "crash", "stuck"]);
    match prop {
        "C01" => is(&["schedule"]),
        "C02" => {
            hang || is(&["fifo", "value", "extra", "missing", "close", "closed", "outcome", "order", "end", "panic"])
        }
        "C03" => hang || is(&["time", "stamp", "tick", "clock", "value", "decision", "missing", "extra", "closed", "outcome", "panic"]),
        "C04" => hang || is(&["capacity", "backpressure", "tick", "stamp", "outcome", "closed", "missing", "extra", "panic", "value"]),
        "C07" => hang || is(&["panic", "missing", "end", "closed", "outcome"]),
        "C09" => {
            hang || is(&["failures", "swallowed", "panic", "end", "elapsed", "missing", "closed", "outcome", "close", "extra"])
        }
        "C10" => {
            hang || is(&[
                "capacity",
                "close", "closed", "outcome", "end", "missing", "extra", "fifo", "value", "order", "failures", "panic", "tick", "elapsed",
            ])
        }
        "C20" => is(&["wiring", "deadlock", "livelock", "abort", "crash", "stuck"]),
        "C17" => hang || is(&["elapsed", "failures", "swallowed", "panic", "end", "tick"]),
        _ => !is(&["schedule"]),
    }
}
