//! Makes a finding small: first the program, then the schedule and its faults.
use crate::case::*;
use crate::laws::Viol;
use crate::work::{simulate, truth, Truth, Work};
use crate::{config_json, config_of, difference, own};
use dam_sim_core as sim;
use serde_json::{json, Value};
use sim::{Config, Policy, Rng};
use std::time::Instant;

fn check(prop: &str, w: &Work, t: &Truth, runs: &[Config]) -> Option<(Viol, Vec<Config>, Vec<String>)> {
    let mut first: Option<(Config, Vec<String>)> = None;
    for c in runs {
        let v = simulate(w, t, c);
        let mut rec = c.clone();
        rec.policy = Policy::Replay;
        rec.replay = v.outcome.choices.clone();
        if let Some(x) = own(prop, &v) {
            return Some((x.clone(), vec![rec], v.outcome.trace));
        }
        if prop == "C01" {
            match &first {
                None => first = Some((rec, v.normal)),
                Some((a, n)) => {
                    if let Some(d) = difference(n, &v.normal) {
                        return Some((crate::laws::viol("schedule", d), vec![a.clone(), rec], v.outcome.trace));
                    }
                }
            }
        }
    }
    None
}

pub fn reproduce(v: &Value, trace: bool) -> Option<(Viol, Vec<String>)> {
    let prop = v["property"].as_str().unwrap();
    let w: Work = serde_json::from_value(v["work"].clone()).ok()?;
    let t = truth(&w).ok()?;
    let mut runs: Vec<Config> = v["runs"].as_array()?.iter().map(config_of).collect();
    for r in runs.iter_mut() {
        r.trace = trace;
    }
    check(prop, &w, &t, &runs).map(|(x, _, t)| (x, t))
}

pub fn minimise(v: &mut Value, deadline: Instant) {
    let prop = v["property"].as_str().unwrap().to_string();
    let mut class = v["class"].as_str().unwrap().to_string();
    let Ok(mut w) = serde_json::from_value::<Work>(v["work"].clone()) else { return };
    let mut runs: Vec<Config> = v["runs"].as_array().unwrap().iter().map(config_of).collect();
    let original = runs.clone();
    let start = Instant::now();
    let half = start + (deadline - start) * 2 / 3;
    // does the original reproduce in this process at all?
    let Ok(t) = truth(&w) else { return };
    let Some((x, _, _)) = check(&prop, &w, &t, &runs) else {
        v["unreproducible"] = json!(true);
        return;
    };
    class = if x.class == class { class } else { x.class.clone() };
    let mut msg = x.msg;
    // 1. the program
    let mut rng = Rng::new(v["case_seed"].as_u64().unwrap_or(1));
    let mut progress = true;
    while progress && Instant::now() < half {
        progress = false;
        let n = candidates(&w).len();
        let mut k = 0;
        while k < n && Instant::now() < half {
            let cs = candidates(&w);
            let Some(cand) = cs.into_iter().nth(k) else { break };
            k += 1;
            let Ok(t) = truth(&cand) else { continue };
            if let Some((x, r)) = hunt(&prop, &class, &cand, &t, &runs, &original, &mut rng) {
                w = cand;
                runs = r;
                msg = x.msg;
                progress = true;
                k = k.saturating_sub(1);
            }
        }
    }
    // 2. the decisions
    let Ok(t) = truth(&w) else { return };
    let last = runs.len() - 1;
    let mut ok = |runs: &[Config]| -> Option<String> {
        check(&prop, &w, &t, runs).and_then(|(x, _, _)| if x.class == class { Some(x.msg) } else { None })
    };
    for c in runs.iter_mut() {
        while c.replay.last() == Some(&0) {
            c.replay.pop();
        }
    }
    for target in (0..=last).rev() {
        // shorter
        let (mut lo, mut hi) = (0, runs[target].replay.len());
        while lo < hi && Instant::now() < deadline {
            let mid = (lo + hi) / 2;
            let mut r = runs.clone();
            r[target].replay.truncate(mid);
            if let Some(m) = ok(&r) {
                runs = r;
                msg = m;
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        // fewer
        let mut chunk = runs[target].replay.iter().filter(|x| **x != 0).count().max(1);
        loop {
            let idx: Vec<usize> =
                runs[target].replay.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0).collect();
            let mut at = 0;
            let mut any = false;
            while at < idx.len() && Instant::now() < deadline {
                let mut r = runs.clone();
                for i in &idx[at..(at + chunk).min(idx.len())] {
                    r[target].replay[*i] = 0;
                }
                if let Some(m) = ok(&r) {
                    runs = r;
                    msg = m;
                    any = true;
                }
                at += chunk;
            }
            if Instant::now() >= deadline || (chunk == 1 && !any) {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        while runs[target].replay.last() == Some(&0) {
            runs[target].replay.pop();
        }
    }
    let mut traced = runs.clone();
    for r in traced.iter_mut() {
        r.trace = true;
    }
    if let Some((x, _, trace)) = check(&prop, &w, &t, &traced) {
        if x.class == class {
            msg = x.msg;
        }
        let n = trace.len();
        v["trace"] = json!(trace.into_iter().skip(n.saturating_sub(400)).collect::<Vec<_>>());
    }
    v["class"] = json!(class);
    v["message"] = json!(msg);
    v["work"] = json!(w);
    v["runs"] = json!(runs.iter().map(config_json).collect::<Vec<_>>());
}

fn hunt(
    prop: &str,
    class: &str,
    w: &Work,
    t: &Truth,
    runs: &[Config],
    original: &[Config],
    rng: &mut Rng,
) -> Option<(Viol, Vec<Config>)> {
    let good = |r: Option<(Viol, Vec<Config>, Vec<String>)>| r.filter(|x| x.0.class == class).map(|x| (x.0, x.1));
    if let Some(x) = good(check(prop, w, t, runs)) {
        return Some(x);
    }
    let base = original.last().unwrap();
    for n in 0..12u64 {
        let mut c = base.clone();
        c.replay = vec![];
        c.seed = rng.next();
        c.policy = match n % 6 {
            0 => Policy::RunToBlock,
            1 => Policy::Random { p: 200 },
            2 => Policy::Random { p: 50 },
            3 => Policy::Pct { changes: 3, horizon: 500 },
            4 => Policy::Starve { mask: rng.next(), p: 300 },
            _ => Policy::RoundRobin { quantum: 1 + n as u32 % 7 },
        };
        if n % 4 == 0 {
            c.rates = [0; sim::NFAULT];
        }
        let set = if runs.len() > 1 { vec![runs[0].clone(), c] } else { vec![c] };
        if let Some(x) = good(check(prop, w, t, &set)) {
            return Some(x);
        }
    }
    None
}

fn candidates(w: &Work) -> Vec<Work> {
    match w {
        Work::Prog(p) => progs(p).into_iter().map(Work::Prog).collect(),
        Work::Multi(ps) => {
            let mut v = vec![];
            if ps.len() > 2 {
                for i in 0..ps.len() {
                    let mut q = ps.clone();
                    q.remove(i);
                    v.push(Work::Multi(q));
                }
            }
            for i in 0..ps.len() {
                for p in progs(&ps[i]) {
                    let mut q = ps.clone();
                    q[i] = p;
                    v.push(Work::Multi(q));
                }
            }
            v
        }
        Work::Views(c) => {
            let mut v = vec![];
            for (side, n) in [(0, c.movers.len()), (1, c.watchers.len())] {
                for i in 0..n {
                    let len = if side == 0 { c.movers[i].len() } else { c.watchers[i].len() };
                    for k in std::iter::once(usize::MAX).chain(0..len) {
                        let mut d = c.clone();
                        let l = if side == 0 { &mut d.movers[i] } else { &mut d.watchers[i] };
                        if k == usize::MAX {
                            if l.is_empty() {
                                continue;
                            }
                            l.clear();
                        } else {
                            l.remove(k);
                        }
                        v.push(Work::Views(d));
                    }
                }
            }
            if c.watchers.len() > 1 {
                for i in 0..c.watchers.len() {
                    let mut d = c.clone();
                    d.watchers.remove(i);
                    v.push(Work::Views(d));
                }
            }
            v
        }
        Work::Store(c) => {
            let mut v = vec![];
            for (side, n) in [(0, c.writers.len()), (1, c.readers.len())] {
                for i in 0..n {
                    let len = if side == 0 { c.writers[i].len() } else { c.readers[i].len() };
                    for k in std::iter::once(usize::MAX).chain(0..len) {
                        let mut d = c.clone();
                        let l = if side == 0 { &mut d.writers[i] } else { &mut d.readers[i] };
                        if k == usize::MAX {
                            if l.is_empty() {
                                continue;
                            }
                            l.clear();
                        } else {
                            l.remove(k);
                        }
                        v.push(Work::Store(d));
                    }
                }
            }
            v
        }
    }
}

fn progs(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    if p.mis.is_some() {
        // cutting anything would be a second wiring fault
        return v;
    }
    // contexts that nothing is connected to
    for i in 0..p.ctxs.len() {
        let (a, b) = p.ctxs[i].ports();
        if a.is_empty() && b.is_empty() && p.ctxs.len() > 1 {
            if let Some(q) = without_ctx(p, i) {
                v.push(q);
            }
        }
    }
    // whole channels between scripts
    if !p.chaos {
        for c in 0..p.chans.len() {
            if let Some(q) = without_chan(p, c) {
                v.push(q);
            }
        }
    }
    for i in 0..p.ctxs.len() {
        match &p.ctxs[i] {
            Ctx::Script { ops, linger, .. } => {
                if *linger > 0 {
                    for x in [0, linger / 2] {
                        let mut q = p.clone();
                        if let Ctx::Script { linger, .. } = &mut q.ctxs[i] {
                            *linger = x;
                        }
                        v.push(q);
                    }
                }
                let n = ops.len();
                // cuts keep even a chaotic program a legal one
                for at in [0, n / 4, n / 2, 3 * n / 4, n.saturating_sub(1)] {
                    if at < n {
                        v.push(edit(p, i, |o| o.truncate(at)));
                    }
                }
                if !p.chaos {
                    let mut size = n / 2;
                    while size >= 1 {
                        let mut at = 0;
                        while at < n {
                            let end = (at + size).min(n);
                            v.push(edit(p, i, |o| {
                                o.drain(at..end);
                            }));
                            at += size;
                        }
                        size /= 2;
                    }
                    for k in 0..n {
                        let small = match &ops[k] {
                            Op::Enq { ch, d, v } if *d > 0 => Some(Op::Enq { ch: *ch, d: 0, v: *v }),
                            Op::LogEv { n, cb, more } if *more > 0 => Some(Op::LogEv { n: *n, cb: *cb, more: *more / 2 }),
                            Op::Incr { n } if *n > 1 => Some(Op::Incr { n: 1 }),
                            Op::AdvTo { t } if *t > 1 => Some(Op::AdvTo { t: t / 2 }),
                            _ => None,
                        };
                        if let Some(s) = small {
                            v.push(edit(p, i, |o| o[k] = s.clone()));
                        }
                    }
                }
            }
            Ctx::Gen { ch, vals } if !p.chaos => {
                for k in [0, vals.len() / 2, vals.len().saturating_sub(1)] {
                    if k < vals.len() {
                        let mut q = p.clone();
                        q.ctxs[i] = Ctx::Gen { ch: *ch, vals: vals[..k].to_vec() };
                        v.push(q);
                    }
                }
            }
            Ctx::Trace { ch, items } if !p.chaos => {
                for k in [0, items.len() / 2, items.len().saturating_sub(1)] {
                    if k < items.len() {
                        let mut q = p.clone();
                        q.ctxs[i] = Ctx::Trace { ch: *ch, items: items[..k].to_vec() };
                        v.push(q);
                    }
                }
            }
            _ => {}
        }
    }
    for c in 0..p.chans.len() {
        let s = &p.chans[c];
        let mut alt = vec![];
        if !p.chaos && s.cap.is_some() {
            alt.push(ChanSpec { cap: None, ..s.clone() });
        }
        if s.lat > 1 {
            alt.push(ChanSpec { lat: 1, ..s.clone() });
        }
        if s.adapt {
            alt.push(ChanSpec { adapt: false, ..s.clone() });
        }
        if s.resp > 1 {
            alt.push(ChanSpec { resp: 1, ..s.clone() });
        }
        for a in alt {
            let mut q = p.clone();
            q.chans[c] = a;
            v.push(q);
        }
    }
    let mut q = p.clone();
    q.order = (0..p.ctxs.len()).collect();
    q.fifo = false;
    if q != *p {
        v.push(q);
    }
    if !p.nest.is_empty() {
        v.push(Prog { nest: vec![], gnest: vec![], ..p.clone() });
        for i in 0..p.nest.len() {
            if p.nest[i].is_some() {
                let mut q = p.clone();
                q.nest[i] = None;
                v.push(q);
            }
        }
        for g in 0..p.gnest.len() {
            if p.gnest[g].is_some() {
                let mut q = p.clone();
                q.gnest[g] = None;
                v.push(q);
            }
        }
    }
    if p.infer {
        v.push(Prog { infer: false, ..p.clone() });
    }
    if p.conns != 0 {
        v.push(Prog { conns: 0, ..p.clone() });
    }
    v
}

fn edit(p: &Prog, i: usize, f: impl FnOnce(&mut Vec<Op>)) -> Prog {
    let mut q = p.clone();
    let (tx, rx) = p.ctxs[i].ports();
    if let Ctx::Script { ops, .. } = &mut q.ctxs[i] {
        f(ops);
        crate::gen::keep(ops, &tx, &rx);
    }
    q
}

fn without_ctx(p: &Prog, i: usize) -> Option<Prog> {
    let mut q = p.clone();
    let down = |x: usize| if x > i { x - 1 } else { x };
    for c in q.ctxs.iter_mut() {
        if let Ctx::Script { ops, .. } = c {
            for o in ops {
                match o {
                    Op::ViewWait { ctx, .. } | Op::ViewJoin { ctx, .. } | Op::ViewTlb { ctx } => {
                        if *ctx == i {
                            return None;
                        }
                        *ctx = down(*ctx);
                    }
                    _ => {}
                }
            }
        }
    }
    q.ctxs.remove(i);
    if i < q.nest.len() {
        q.nest.remove(i);
    }
    q.order.retain(|x| *x != i);
    if i < 64 {
        let low = (1u64 << i) - 1;
        q.conns = (q.conns & low) | (q.conns >> 1 & !low);
    }
    q.order.iter_mut().for_each(|x| *x = down(*x));
    Some(q)
}

fn without_chan(p: &Prog, c: usize) -> Option<Prog> {
    let (a, b) = p.ends()[c];
    for x in [a, b].into_iter().flatten() {
        if p.ctxs[x].library() {
            return None;
        }
    }
    let mut q = p.clone();
    for x in q.ctxs.iter_mut() {
        if let Ctx::Script { ops, .. } = x {
            ops.retain_mut(|o| match o {
                Op::Any { chs } | Op::All { chs } => {
                    chs.retain(|y| *y != c);
                    !chs.is_empty()
                }
                Op::Merge { chs, .. } => {
                    chs.retain(|y| *y != c);
                    !chs.is_empty()
                }
                Op::Choose { groups } => {
                    groups.iter_mut().for_each(|g| g.retain(|y| *y != c));
                    groups.retain(|g| !g.is_empty());
                    !groups.is_empty()
                }
                _ => {
                    let (t, r) = o.chans();
                    !t.contains(&c) && !r.contains(&c)
                }
            });
            for o in ops.iter_mut() {
                if let Op::Merge { out, .. } = o {
                    if out.map_or(false, |z| z.0 == c) {
                        *out = None;
                    }
                }
            }
        }
    }
    q.chans.remove(c);
    let down = |x: &mut usize| {
        if *x > c {
            *x -= 1
        }
    };
    for x in q.ctxs.iter_mut() {
        match x {
            Ctx::Script { ops, .. } => {
                for o in ops {
                    match o {
                        Op::Enq { ch, .. }
                        | Op::Avail { ch }
                        | Op::DropTx { ch }
                        | Op::Deq { ch, .. }
                        | Op::Drain { ch, .. }
                        | Op::PeekNext { ch }
                        | Op::Peek { ch }
                        | Op::Poll { ch }
                        | Op::DropRx { ch } => down(ch),
                        Op::Any { chs } | Op::All { chs } => chs.iter_mut().for_each(down),
                        Op::Choose { groups } => groups.iter_mut().flatten().for_each(down),
                        Op::Merge { chs, out, .. } => {
                            chs.iter_mut().for_each(down);
                            if let Some((z, _)) = out {
                                down(z);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Ctx::Gen { ch, .. }
            | Ctx::Trace { ch, .. }
            | Ctx::Cons { ch }
            | Ctx::Printer { ch }
            | Ctx::Check { ch, .. }
            | Ctx::Approx { ch, .. } => down(ch),
            Ctx::Bcast { src, dsts } => {
                down(src);
                dsts.iter_mut().for_each(down);
            }
            Ctx::Pcu { ins, outs, .. } => ins.iter_mut().chain(outs).for_each(down),
            Ctx::Pmu { readers, writers, .. } => {
                for (a, b) in readers {
                    down(a);
                    down(b);
                }
                for (a, b, c) in writers {
                    down(a);
                    down(b);
                    down(c);
                }
            }
            Ctx::Dram { ports, .. } => {
                for p in ports {
                    match p {
                        DramPort::Read { addr, size, data } => [addr, size, data].into_iter().for_each(down),
                        DramPort::Write { addr, size, data, ack } => {
                            [addr, size, data, ack].into_iter().for_each(down)
                        }
                    }
                }
            }
        }
    }
    Some(q)
}
