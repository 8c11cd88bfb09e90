//! Judges one run: laws that hold in every run, and agreement with the reference model.
use crate::case::*;
use crate::real::{Final, Log};
use crate::refm::RefOut;
use dam_sim_core as sim;
use sim::{Outcome, Status};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub fn viol(class: &str, msg: String) -> Viol {
    Viol { class: class.into(), msg }
}

/// What the checker of a run knows about the build.
#[derive(Clone, Copy)]
pub struct Mode {
    pub weak: bool,
    pub unbounded: bool,
    /// The run came to an end, so that every operation is on record.
    pub complete: bool,
}

/// No view is ahead of the clock it shows, or runs backwards.
fn views(p: &Prog, log: &Log, m: Mode, out: &mut Vec<Viol>) {
    for (i, v) in log.views.iter().enumerate() {
        if let Some(w) = log.views[..i].iter().rev().find(|w| w.by == v.by && w.of == v.of) {
            if v.res < w.res {
                out.push(viol("view", format!("context {}'s view of context {} goes back from {} to {}", v.by, v.of, w.res, v.res)));
            }
        }
        // what a context that never came to its end had under way is not on record
        if p.ctxs[v.of].library() || !m.complete || log.ends[v.of].is_none() || log.ends[v.of] == Some(End::Panic) {
            continue;
        }
        if v.res == u64::MAX {
            if log.done_at[v.of] > v.s1 {
                out.push(viol("view", format!("context {}'s view of context {} is infinite before that ended", v.by, v.of)));
            }
            continue;
        }
        let true_clock = log.recs[v.of].iter().filter(|r| r.s0 <= v.s1).map(|r| r.t1).max().unwrap_or(0);
        if v.res > true_clock {
            out.push(viol("view", format!(
                "context {}'s view of context {} says {} (waiting for {:?}), whose clock was at most {true_clock}", v.by, v.of, v.res, v.wait
            )));
        }
    }
}

/// Laws that every run must obey, complete or not.
pub fn local(p: &Prog, log: &Log, m: Mode) -> Vec<Viol> {
    let mut out: Vec<Viol> = log.local.iter().map(|(c, x)| viol(c, x.clone())).collect();
    let ends = p.ends();
    let script = |i: Option<usize>| i.filter(|i| !p.ctxs[*i].library());
    views(p, log, m, &mut out);
    for (ch, spec) in p.chans.iter().enumerate() {
        let (tx, rx) = (script(ends[ch].0), script(ends[ch].1));
        let of = |i: Option<usize>, ks: [K; 2]| -> Vec<&Rec> {
            i.map(|i| log.recs[i].iter().filter(|r| r.ch == ch && ks.contains(&r.k)).collect()).unwrap_or_default()
        };
        let a = of(tx, [K::Enq, K::Avail]);
        let b = of(rx, [K::Deq, K::PeekNext]);
        let sends: Vec<&Rec> = a.iter().filter(|r| r.k == K::Enq && r.ok).copied().collect();
        let recvs: Vec<&Rec> = b.iter().filter(|r| r.k == K::Deq && r.ok).copied().collect();
        let whole = tx.is_some() && rx.is_some();
        if spec.void {
            for r in a.iter().filter(|r| !r.ok) {
                out.push(viol("capacity", format!("a void channel refuses: {}", r.show())));
            }
            for r in &a {
                if r.t1 != r.t0 {
                    out.push(viol("time", format!("sending into a void channel moved the clock: {}", r.show())));
                }
            }
            continue;
        }
        // receiver
        let mut taken = 0;
        for r in &b {
            match r.k {
                K::Deq | K::PeekNext if r.ok => {
                    if r.t1 != r.t0.max(r.ts) {
                        out.push(viol("time", format!("context {}: {} (expected clock {})", rx.unwrap(), r.show(), r.t0.max(r.ts))));
                    }
                    if whole {
                        match sends_all(&a, taken) {
                            // A send that is still under way has no record yet.
                            None => {}
                            Some(s) => {
                                if s.val != r.val {
                                    out.push(viol("fifo", format!("element {taken} of ch{ch}: sent as {}, received as {}", s.show(), r.show())));
                                }
                                let want = s.ts.max(s.t1 + spec.lat);
                                if s.ok && r.ts != want {
                                    out.push(viol("time", format!("element {taken} of ch{ch}: sent by {}, latency {}, received by {}: expected time {want}", s.show(), spec.lat, r.show())));
                                }
                            }
                        }
                    }
                    if r.k == K::Deq {
                        taken += 1;
                    }
                }
                K::Deq | K::PeekNext if whole => {
                    if taken < sends.len() {
                        out.push(viol("close", format!("ch{ch} reports closed after {taken} of {} elements were received", sends.len())));
                    }
                    let d = &log.txd[ch];
                    if log.begun[tx.unwrap()] && d.start.map_or(true, |s| s > r.s1) {
                        out.push(viol("close", format!("ch{ch} reports closed while its sender is alive: {}", r.show())));
                    }
                }
                _ => {}
            }
        }
        for w in recvs.windows(2) {
            if w[1].t0 < w[0].t1 {
                out.push(viol("clock", format!("clock of context {} ran backwards: {} then {}", rx.unwrap(), w[0].show(), w[1].show())));
            }
        }
        // sender
        let mut k = 0;
        for r in &a {
            if r.ok {
                let mut want = Some(r.t0);
                if let Some(cap) = spec.cap {
                    if k >= cap {
                        want = if !whole {
                            None
                        } else if k - cap < recvs.len() {
                            Some(r.t0.max(recvs[k - cap].t1 + spec.resp))
                        } else if !m.complete {
                            None
                        } else {
                            out.push(viol("capacity", format!("send {k} on ch{ch} (capacity {cap}) succeeded with {} elements received: {}", recvs.len(), r.show())));
                            None
                        };
                        if whole && k - cap < recvs.len() && recvs[k - cap].s0 > r.s1 {
                            out.push(viol("capacity", format!("send {k} on ch{ch} (capacity {cap}) finished before element {} was received: {}", k - cap, r.show())));
                        }
                    }
                }
                if let Some(w) = want {
                    if r.t1 != w {
                        out.push(viol("backpressure", format!("ch{ch} (capacity {:?}, response latency {}), send {k}: {}: expected clock {w}", spec.cap, spec.resp, r.show())));
                    }
                }
                if let Some(rx) = rx {
                    let d = &log.rxd[ch];
                    if r.k == K::Enq && !m.weak && log.begun[rx] && d.end.map_or(false, |e| e < r.s0) {
                        out.push(viol("close", format!("{} succeeded although the receiver had been dropped", r.show())));
                    }
                }
                if r.k == K::Enq {
                    k += 1;
                }
            } else if let Some(rx) = rx {
                let d = &log.rxd[ch];
                if log.begun[rx] && d.start.map_or(true, |s| s > r.s1) {
                    out.push(viol("close", format!("{} although the receiver is alive", r.show())));
                }
            }
            if out.len() > 30 {
                return out;
            }
        }
        // looks
        if let Some(rxi) = rx {
            for pk in log.peeks.iter().filter(|x| x.ctx == rxi && x.ch == ch) {
                let next = if whole { sends_all(&a, pk.consumed) } else { None };
                let next_ts = next.filter(|s| s.ok).map(|s| s.ts.max(s.t1 + spec.lat));
                let known = recvs.get(pk.consumed);
                if pk.t0 != pk.t1 {
                    out.push(viol("peek", format!("looking at ch{ch} moved the clock {}->{}", pk.t0, pk.t1)));
                }
                match pk.res {
                    Pk::Some(t, v) => {
                        let exp = known.map(|r| (r.ts, r.val)).or(next_ts.map(|t| (t, next.unwrap().val)));
                        if let Some((et, ev)) = exp {
                            if et != t || (v != usize::MAX && v != ev) {
                                out.push(viol("peek", format!("peek at element {} of ch{ch} at clock {}: {:?}, but it is value {ev} @{et}", pk.consumed, pk.t0, pk.res)));
                            }
                        }
                    }
                    Pk::Nothing(x) => {
                        let et = known.map(|r| r.ts).or(next_ts);
                        if x < pk.t0 {
                            out.push(viol("peek", format!("peek at ch{ch} at clock {} says nothing before {x} only", pk.t0)));
                        }
                        if let Some(et) = et {
                            if et <= x {
                                out.push(viol("peek", format!("peek at element {} of ch{ch} at clock {}: nothing up to {x}, but it arrives at {et}", pk.consumed, pk.t0)));
                            }
                        }
                    }
                    Pk::Closed => {
                        if known.is_some() || next.map_or(false, |s| s.ok) {
                            out.push(viol("peek", format!("peek at ch{ch} says closed with element {} to come", pk.consumed)));
                        }
                    }
                }
            }
        }
    }
    for (i, rs) in log.recs.iter().enumerate() {
        for w in rs.windows(2) {
            if w[1].t0 < w[0].t1 || w[1].t1 < w[1].t0 {
                out.push(viol("clock", format!("clock of context {i} ran backwards: {} then {}", w[0].show(), w[1].show())));
            }
        }
    }
    out
}

/// The k-th send on record (a failed one is the last).
fn sends_all<'a>(a: &[&'a Rec], k: usize) -> Option<&'a Rec> {
    a.iter().filter(|r| r.k == K::Enq && r.ok).nth(k).copied()
}

fn expected_failures(out: &RefOut, log: &Log) -> Vec<usize> {
    let mut v: Vec<usize> = out.failed.iter().enumerate().filter(|x| *x.1).map(|(i, _)| log.units.get(i).copied().unwrap_or(usize::MAX)).collect();
    v.sort_unstable();
    // several parts of one composite
    v.dedup();
    v
}

pub fn failure_ids(f: &Final) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for m in &f.failures {
        let id = m
            .strip_prefix("Simulation of ")
            .and_then(|x| x.split(' ').next())
            .and_then(|x| x.parse().ok())
            .ok_or_else(|| m.clone())?;
        v.push(id);
    }
    v.sort_unstable();
    Ok(v)
}

/// What a context said of its error is in what is reported for it.
fn texts(p: &Prog, log: &Log, f: &Final, out: &mut Vec<Viol>) {
    for (i, e) in log.errs.iter().enumerate().filter(|x| p.root(x.0).is_none()) {
        let Some(e) = e else { continue };
        let own = format!("Simulation of {} ", log.units[i]);
        if let Some(m) = f.failures.iter().find(|m| m.starts_with(&own) && !m.contains(e)) {
            out.push(viol("failures", format!("context {i} returned the error {e:?}; what is reported is {m:?}")));
        }
    }
    let ends = p.ends();
    for (i, c) in p.ctxs.iter().enumerate().filter(|x| p.root(x.0).is_none()) {
        let Ctx::Check { ch, vals } = c else { continue };
        let Some(got) = sent(p, log, *ch, ends[*ch].0).filter(|_| script(p, ends[*ch].0)) else { continue };
        let Some(k) = vals.iter().zip(&got).position(|(v, x)| v != x) else { continue };
        let own = format!("Simulation of {} ", log.units[i]);
        let Some(m) = f.failures.iter().find_map(|m| m.strip_prefix(&own)) else { continue };
        let said: Vec<usize> = m.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        if [k, vals[k], got[k]].iter().any(|x| !said.contains(x)) {
            out.push(viol("failures", format!("checker {i} got {} where it expected {} as element {k}; what is reported is {m:?}", got[k], vals[k])));
        }
    }
}

pub fn status(o: &Outcome) -> Option<Viol> {
    match &o.status {
        Status::Completed | Status::MainPanic(_) => None,
        Status::Deadlock(m) => Some(viol("deadlock", format!("no task can make progress: {m}"))),
        Status::Livelock(m) => Some(viol("livelock", format!("no end after {} steps, fair and fault free since long: {m}", o.steps))),
        Status::Aborted(m) => Some(viol("abort", m.clone())),
    }
}

/// Like [`status`], when a fault took contexts away at a point of its choosing: what is left must end
/// unless the program lets contexts wait for one another.
pub fn cut_short(p: &Prog, o: &Outcome) -> Option<Viol> {
    status(o).filter(|_| p.forest())
}

/// Full agreement with the reference model.
pub fn against(p: &Prog, r: &RefOut, log: &Log, fin: Option<&Final>, o: &Outcome, shared: bool) -> Vec<Viol> {
    let mut out = vec![];
    if let Some(v) = status(o) {
        out.push(v);
        // what was done so far must still be a prefix
    }
    let complete = out.is_empty();
    for (i, c) in p.ctxs.iter().enumerate() {
        if c.library() {
            continue;
        }
        let (a, b) = (&r.recs[i], &log.recs[i]);
        for (k, y) in b.iter().enumerate() {
            let Some(x) = a.get(k) else {
                out.push(viol("extra", format!("context {i} goes on where the reference ends, operation {k}: {}", y.show())));
                break;
            };
            if let Some(cl) = differs(x, y) {
                out.push(viol(cl, format!("context {i}, operation {k}: {} -- the reference: {}", y.show(), x.show())));
                break;
            }
        }
        if complete && b.len() < a.len() && out.is_empty() {
            out.push(viol("missing", format!("context {i} stops after {} operations; the reference goes on with {}", b.len(), a[b.len()].show())));
        }
        if complete && out.is_empty() && log.ends[i] != r.ends[i] {
            out.push(viol("end", format!("context {i} ends with {:?}, the reference with {:?}", log.ends[i], r.ends[i])));
        }
    }
    if !complete {
        return out;
    }
    // A panic inside `run_falliable` itself, or in a checker, may take `run` down with it or be reported as a
    // failure; it must not go unnoticed.
    let may_panic = r.panicked.iter().enumerate().any(|(i, x)| *x && p.root(i).is_none());
    match &o.status {
        Status::MainPanic(m) if !may_panic && !shared => out.push(viol("panic", format!("run() panicked: {m}"))),
        _ => {}
    }
    let Some(f) = fin else {
        if shared && !may_panic {
            out.push(viol("panic", "run() did not return".into()));
        }
        return out;
    };
    match failure_ids(f) {
        Err(m) => out.push(viol("failures", format!("failure without a context: {m}"))),
        Ok(ids) => {
            let want = expected_failures(r, log);
            if ids != want {
                out.push(viol("failures", format!("failures reported for contexts {ids:?}, expected {want:?}: {:?}", f.failures)));
            }
            texts(p, log, f, &mut out);
        }
    }
    if f.passed != f.failures.is_empty() {
        out.push(viol("failures", format!("passed() = {} with {} failures", f.passed, f.failures.len())));
    }
    let bad = p.spread(&r.failed);
    let ok: Vec<usize> = (0..p.ctxs.len()).filter(|i| !bad[*i]).collect();
    let lo = ok.iter().map(|i| r.fin[*i].0).max();
    let hi = ok.iter().map(|i| r.fin[*i].1).max();
    match (f.elapsed, lo, hi) {
        (None, None, None) => {}
        (Some(e), Some(lo), Some(hi)) if e >= lo && e <= hi => {}
        _ => out.push(viol("elapsed", format!("elapsed_cycles() = {:?}, expected {:?}..={:?}", f.elapsed, lo, hi))),
    }
    if shared {
        return out;
    }
    // the printers' output, one task each
    let mut want: Vec<&Vec<String>> = p
        .ctxs
        .iter()
        .enumerate()
        .filter(|(_, c)| matches!(c, Ctx::Printer { .. }))
        .map(|(i, _)| &r.printed[i])
        .filter(|v| !v.is_empty())
        .collect();
    let mut got = printed(o);
    let mut w2: Vec<Vec<String>> = want.drain(..).cloned().collect();
    w2.sort();
    got.sort();
    if w2 != got {
        out.push(viol("printed", format!("printed {got:?}, expected {w2:?}")));
    }
    out
}

/// Lines printed, grouped by task, as "time:value".
pub fn printed(o: &Outcome) -> Vec<Vec<String>> {
    let mut by: std::collections::BTreeMap<usize, String> = Default::default();
    for (t, s) in &o.stdout {
        by.entry(*t).or_default().push_str(s);
    }
    by.into_values()
        .map(|s| s.lines().filter_map(digits).collect::<Vec<_>>())
        .filter(|v: &Vec<String>| !v.is_empty())
        .collect()
}

/// The two numbers of a printed element.
fn digits(l: &str) -> Option<String> {
    let mut nums = vec![];
    let mut cur = String::new();
    for c in l.chars().chain(Some(' ')) {
        if c.is_ascii_digit() {
            cur.push(c);
        } else if !cur.is_empty() {
            nums.push(std::mem::take(&mut cur));
        }
    }
    if nums.len() == 2 {
        Some(format!("{}:{}", nums[0], nums[1]))
    } else if nums.is_empty() {
        None
    } else {
        Some(l.to_string())
    }
}

fn differs(x: &Rec, y: &Rec) -> Option<&'static str> {
    if x.k != y.k || x.ch != y.ch {
        return Some("order");
    }
    if x.ok != y.ok {
        return Some(if y.ok { "outcome" } else { "closed" });
    }
    if x.k == K::Mark && x.val != y.val {
        return Some("decision");
    }
    if x.ok && x.val != y.val {
        return Some("value");
    }
    if x.ok && x.ts != y.ts && x.k != K::Mark {
        return Some("stamp");
    }
    if x.t0 > y.t0 {
        return Some("tick");
    }
    if y.t1 < x.t1 || y.t1 > x.hi.max(x.t1) {
        return Some("tick");
    }
    None
}

/// What must not depend on the schedule, as text.
pub fn normal(p: &Prog, r: &RefOut, log: &Log, fin: Option<&Final>, o: &Outcome) -> Vec<String> {
    let mut v = vec![];
    v.push(match &o.status {
        Status::Completed => "completed".into(),
        Status::Deadlock(_) => "deadlock".into(),
        Status::Livelock(_) => "livelock".into(),
        Status::MainPanic(_) => "panic".to_string(),
        Status::Aborted(m) => format!("aborted {m}"),
    });
    for (i, c) in p.ctxs.iter().enumerate() {
        if c.library() {
            continue;
        }
        for (k, y) in log.recs[i].iter().enumerate() {
            // after a closed channel the clock may legally be ahead
            let sure = r.recs[i].get(k).map_or(true, |x| x.hi <= x.t1);
            let mut y = y.clone();
            if !sure {
                y.t1 = 0;
            }
            if k > 0 && r.recs[i].get(k - 1).map_or(false, |x| x.hi > x.t1) {
                y.t0 = 0;
            }
            v.push(format!("context {i} operation {k}: {}", y.show()));
        }
        v.push(format!("context {i} end {:?}", log.ends[i]));
    }
    if let Some(f) = fin {
        v.push(format!("failures {:?}", failure_ids(f)));
        let bad = p.spread(&r.failed);
    let ok: Vec<usize> = (0..p.ctxs.len()).filter(|i| !bad[*i]).collect();
        let lo = ok.iter().map(|i| r.fin[*i].0).max();
        let hi = ok.iter().map(|i| r.fin[*i].1).max();
        if lo == hi {
            v.push(format!("elapsed {:?}", f.elapsed));
        }
    }
    let mut pr = printed(o);
    pr.sort();
    v.push(format!("printed {pr:?}"));
    v
}

/// All that the sender of a channel sent, if that is known.
fn sent(p: &Prog, log: &Log, ch: Ch, tx: Option<usize>) -> Option<Vec<usize>> {
    match &p.ctxs[tx?] {
        Ctx::Script { .. } => {
            let of = log.recs[tx?].iter().filter(|r| r.k == K::Enq && r.ch == ch && r.ok);
            Some(of.map(|r| r.val).collect())
        }
        Ctx::Gen { vals, .. } => Some(vals.clone()),
        Ctx::Trace { items, .. } => Some(items.iter().map(|x| x.0).collect()),
        _ => None,
    }
}

/// What the receiver of a channel took, and whether it saw the end of it.
fn taken(p: &Prog, log: &Log, ch: Ch, rx: Option<usize>) -> Option<(Vec<usize>, bool)> {
    if p.ctxs[rx?].library() {
        return None;
    }
    let of = || log.recs[rx.unwrap()].iter().filter(|r| r.k == K::Deq && r.ch == ch);
    Some((of().filter(|r| r.ok).map(|r| r.val).collect(), of().any(|r| !r.ok)))
}

/// Library contexts in programs which end anywhere: whatever the timing, the elements that come out of one
/// follow from those that went in, and it fails if and only if it could not deliver some of them (or, for a
/// checker, if they are not the ones expected).
fn units(p: &Prog, log: &Log, f: &Final, failed: &[usize], m: Mode, out: &mut Vec<Viol>) {
    let ends = p.ends();
    let from = |c: Ch| sent(p, log, c, ends[c].0);
    // the step at which the sender turned to the n-th element of a channel (0: not known)
    let since = |c: Ch, n: usize| match ends[c].0.filter(|i| n > 0 && !p.ctxs[*i].library()) {
        Some(i) => log.recs[i].iter().filter(|r| r.k == K::Enq && r.ch == c && r.ok).nth(n - 1).map_or(0, |r| r.s0),
        None => 0,
    };
    for (i, c) in p.ctxs.iter().enumerate() {
        let alone = p.root(i).is_none();
        let fail = failed.contains(&log.units[i]);
        let mut lands: Vec<(Ch, Vec<usize>, u64)> = vec![];
        let (mut short, mut blame) = (false, false);
        match c {
            Ctx::Script { .. } => continue,
            Ctx::Cons { .. } | Ctx::Printer { .. } => {
                if alone && fail {
                    out.push(viol("failures", format!("context {i}, a consumer, failed: {:?}", f.failures)));
                }
                continue;
            }
            Ctx::Check { ch, vals } => {
                let Some(got) = from(*ch).filter(|_| script(p, ends[*ch].0)) else { continue };
                let good = got.len() >= vals.len() && got[..vals.len()] == vals[..];
                if alone && good == fail {
                    out.push(viol("failures", format!("checker {i} got {got:?}, expected {vals:?}, reported: {:?}", f.failures)));
                }
                continue;
            }
            Ctx::Approx { ch, vals, tol } => {
                let Some(got) = from(*ch).filter(|_| script(p, ends[*ch].0)) else { continue };
                let good = got.len() >= vals.len() && vals.iter().zip(&got).all(|(v, x)| near(*v, *x, *tol));
                if alone && good == fail {
                    out.push(viol("failures", format!("checker {i} got {got:?}, expected {vals:?}, reported: {:?}", f.failures)));
                }
                continue;
            }
            Ctx::Gen { ch, .. } | Ctx::Trace { ch, .. } => lands.push((*ch, from(*ch).unwrap(), 0)),
            Ctx::Bcast { src, dsts } => {
                let Some(v) = from(*src) else { continue };
                lands.extend(dsts.iter().map(|d| (*d, v.clone(), since(*src, v.len()))));
            }
            Ctx::Pcu { ins, outs, depth, regs, stages } => {
                let Some(vs) = ins.iter().map(|c| from(*c)).collect::<Option<Vec<_>>>() else { continue };
                let Some(rows) = crate::refm::pcu(&vs, *depth, *regs, stages) else { continue };
                let s = ins.iter().map(|c| since(*c, rows.len())).max().unwrap_or(0);
                lands.extend(outs.iter().enumerate().map(|(k, o)| (*o, rows.iter().map(|r| r[k]).collect(), s)));
            }
            Ctx::Pmu { cap, modulo, dflt, readers, writers } => {
                let mut wrote: Vec<(usize, usize)> = vec![];
                let mut known = true;
                for (a, d, k) in writers {
                    let (Some(x), Some(v)) = (from(*a), from(*d)) else {
                        known = false;
                        continue;
                    };
                    let n = x.len().min(v.len());
                    if let Some((got, _)) = taken(p, log, *k, ends[*k].1).filter(|_| !modulo) {
                        if let Some(x) = x.iter().take(got.len()).find(|x| *x >= cap) {
                            out.push(viol("value", format!("PMU {i} acknowledged a write to {x}, beyond its capacity {cap}")));
                        }
                    }
                    lands.push((*k, vec![usize::MAX; n], since(*a, n).max(since(*d, n))));
                    wrote.extend(x.iter().map(|x| x % cap).zip(v));
                }
                for (a, d) in readers {
                    let Some(at) = from(*a) else { continue };
                    if let Some((got, _)) = taken(p, log, *d, ends[*d].1).filter(|_| !modulo) {
                        if let Some(x) = at.iter().take(got.len()).find(|x| *x >= cap) {
                            out.push(viol("value", format!("PMU {i} answered a read of {x}, beyond its capacity {cap}")));
                        }
                    }
                    lands.push((*d, vec![usize::MAX; at.len()], since(*a, at.len())));
                    let Some((got, _)) = taken(p, log, *d, ends[*d].1).filter(|_| known) else { continue };
                    for (x, v) in at.iter().zip(got) {
                        if (v != 0 || !dflt) && !wrote.contains(&(x % cap, v)) {
                            out.push(viol("value", format!("PMU {i}: a read of {x} gave {v}, which was never written there")));
                        }
                    }
                }
            }
            Ctx::Dram { cap, fill, ports, behavior: (modulo, dflt), .. } => {
                let mut wrote: Vec<(usize, usize)> = vec![];
                let mut known = true;
                for d in ports {
                    let DramPort::Write { addr, size, data, ack } = d else { continue };
                    let (Some(a), Some(n), Some(d)) = (from(*addr), from(*size), from(*data)) else {
                        known = false;
                        continue;
                    };
                    if let Some((got, _)) = taken(p, log, *ack, ends[*ack].1).filter(|_| !modulo) {
                        if let Some((a, n)) = a.iter().zip(&n).take(got.len()).find(|(a, n)| **n > 0 && *a + *n > *cap) {
                            out.push(viol("value", format!(
                                "DRAM {i} acknowledged a write of {n} elements at {a}, beyond its capacity {cap}"
                            )));
                        }
                    }
                    let mut rest = &d[..];
                    let (mut acks, all) = (0, d.len());
                    for (a, n) in a.iter().zip(&n) {
                        if rest.is_empty() {
                            break;
                        }
                        if rest.len() < *n {
                            // the data of a request under way end: a failure
                            short = true;
                            break;
                        }
                        wrote.extend(rest[..*n].iter().enumerate().map(|(k, v)| ((a + k) % cap, *v)));
                        rest = &rest[*n..];
                        acks += 1;
                    }
                    let s = since(*addr, acks).max(since(*size, acks)).max(since(*data, all - rest.len()));
                    lands.push((*ack, vec![usize::MAX; acks], s));
                }
                for d in ports {
                    let DramPort::Read { addr, size, data } = d else { continue };
                    let (Some(a), Some(n)) = (from(*addr), from(*size)) else { continue };
                    let of: Vec<usize> = a.iter().zip(&n).flat_map(|(a, n)| *a..a + n).collect();
                    if let Some((got, _)) = taken(p, log, *data, ends[*data].1).filter(|_| !modulo) {
                        if let Some(x) = of.iter().take(got.len()).find(|x| *x >= cap) {
                            out.push(viol("value", format!("DRAM {i} answered a read of {x}, beyond its capacity {cap}")));
                        }
                    }
                    let of: Vec<usize> = of.into_iter().map(|x| x % cap).collect();
                    let last = a.iter().zip(&n).rposition(|(_, n)| *n > 0).map_or(0, |k| k + 1);
                    lands.push((*data, vec![usize::MAX; of.len()], since(*addr, last).max(since(*size, last))));
                    let Some((got, _)) = taken(p, log, *data, ends[*data].1).filter(|_| known) else { continue };
                    for (x, v) in of.iter().zip(got) {
                        let first = if *fill { Some(crate::refm::dram_fill(*x)) } else { Some(0).filter(|_| *dflt) };
                        if Some(v) != first && !wrote.contains(&(*x, v)) {
                            out.push(viol("value", format!("DRAM {i}: a read of {x} gave {v}, which was never written there")));
                        }
                    }
                }
                blame = short;
            }
        }
        for (ch, all, began) in &lands {
            let Some((got, closed)) = taken(p, log, *ch, ends[*ch].1) else {
                // nobody looks, or a library context does
                short |= ends[*ch].1.is_some();
                continue;
            };
            let opaque = matches!(c, Ctx::Pmu { .. } | Ctx::Dram { .. });
            if got.len() > all.len() || (!opaque && all[..got.len()] != got[..]) {
                out.push(viol("value", format!("context {i} put {got:?} into ch{ch}, instead of {all:?}")));
            }
            short |= got.len() < all.len();
            if alone && !fail {
                if closed && got.len() < all.len() {
                    out.push(viol("missing", format!(
                        "context {i} did not fail, yet only {} of {} elements of ch{ch} arrived", got.len(), all.len()
                    )));
                }
                let room = match p.chans[*ch].cap {
                    Some(k) if !m.unbounded => k,
                    _ => usize::MAX,
                };
                let gone = !m.weak && log.rxd[*ch].end.is_some_and(|e| e < *began);
                if got.len() < all.len() && (gone || got.len().saturating_add(room) < all.len()) {
                    out.push(viol("failures", format!(
                        "the receiver of ch{ch} left after {} of {} elements, but context {i} is not reported: {:?}",
                        got.len(), all.len(), f.failures
                    )));
                }
            }
        }
        if alone && blame && !fail {
            out.push(viol("failures", format!("the data of context {i}'s request ended, but it is not reported: {:?}", f.failures)));
        }
        if alone && fail && !short {
            out.push(viol("failures", format!("context {i} delivered everything and yet failed: {:?}", f.failures)));
        }
    }
}

fn script(p: &Prog, i: Option<usize>) -> bool {
    i.is_some_and(|i| !p.ctxs[i].library())
}


/// Chaotic programs: failures reported must be the ones that happened, and all contexts must have ended.
pub fn chaos(p: &Prog, log: &Log, fin: Option<&Final>, o: &Outcome, m: Mode) -> Vec<Viol> {
    let mut out = vec![];
    let spawn_failed = o.faults[sim::Fault::SpawnFail as usize] > 0;
    if let Some(v) = if spawn_failed { cut_short(p, o) } else { status(o) } {
        out.push(v);
        return out;
    }
    let may = p.ctxs.iter().zip(&log.ends).enumerate().any(|(i, (c, e))| match c {
        _ if p.root(i).is_some() => false,
        Ctx::Script { style, .. } => *e == Some(End::Panic) && *style != Style::Run,
        // checkers compare values, which a program cut short may not deliver as expected
        Ctx::Approx { .. } => true,
        _ => false,
    });
    match &o.status {
        Status::MainPanic(m) if !may && !spawn_failed => out.push(viol("panic", format!("run() panicked: {m}"))),
        // a context may have started threads of its own, and have been reported
        Status::Completed if spawn_failed && fin.map_or(false, |f| f.failures.is_empty()) => {
            out.push(viol("swallowed", "run() returned although a context's thread could not be created".into()))
        }
        _ => {}
    }
    if spawn_failed {
        return out;
    }
    for (i, c) in p.ctxs.iter().enumerate() {
        if !c.library() && log.ends[i].is_none() {
            out.push(viol("end", format!("run() is over but context {i} never ended")));
        }
    }
    let Some(f) = fin else { return out };
    match failure_ids(f) {
        Err(m) => out.push(viol("failures", format!("failure without a context: {m}"))),
        Ok(ids) => {
            // per unit: whether a script in it failed, and whether others may have
            let mut want: std::collections::BTreeMap<usize, (bool, bool)> = Default::default();
            for (i, c) in p.ctxs.iter().enumerate() {
                let e = want.entry(log.units[i]).or_default();
                if let Ctx::Script { style, err, .. } = c {
                    e.0 |= match log.ends[i] {
                        Some(End::Panic) => true,
                        Some(End::Fail) => *style != Style::Func,
                        Some(End::Closed) => *err && *style != Style::Func,
                        _ => false,
                    };
                } else {
                    e.1 = true;
                }
            }
            for (id, (must, may)) in want {
                let got = ids.iter().filter(|x| **x == id).count();
                if got > 1 || (got == 0 && must) || (got == 1 && !must && !may) {
                    let of: Vec<_> = (0..p.ctxs.len()).filter(|i| log.units[*i] == id).map(|i| (i, log.ends[i])).collect();
                    out.push(viol("failures", format!("{of:?} (id {id}) is reported {got} times")));
                }
            }
            units(p, log, f, &ids, m, &mut out);
            texts(p, log, f, &mut out);
            let mut d = ids.clone();
            d.dedup();
            if d.len() != ids.len() {
                out.push(viol("failures", format!("a context is reported twice: {ids:?}")));
            }
            if let Some(x) = ids.iter().find(|x| !log.units.contains(x)) {
                out.push(viol("failures", format!("a failure is reported for {x}, which is no context: {:?}", log.units)));
            }
        }
    }
    if f.passed != f.failures.is_empty() {
        out.push(viol("failures", format!("passed() = {} with {} failures", f.passed, f.failures.len())));
    }
    if p.ctxs.iter().all(|c| !c.library()) {
        let ids = failure_ids(f).unwrap_or_default();
        let want = (0..p.ctxs.len()).filter(|i| !ids.contains(&log.units[*i])).map(|i| log.fin[i]).max();
        if f.elapsed != want {
            out.push(viol("elapsed", format!("elapsed_cycles() = {:?}, but the contexts that succeeded ended at {want:?}", f.elapsed)));
        }
    }
    out
}

/// A run whose log database failed: it comes to an end, and no context stops without being reported.
pub fn degraded(p: &Prog, log: &Log, fin: Option<&Final>, o: &Outcome) -> Vec<Viol> {
    let mut out = vec![];
    if let Some(v) = cut_short(p, o) {
        out.push(v);
        return out;
    }
    let Some(f) = fin else { return out };
    let ids = match failure_ids(f) {
        Ok(ids) => ids,
        Err(m) => return vec![viol("failures", format!("failure without a context: {m}"))],
    };
    for (i, c) in p.ctxs.iter().enumerate() {
        if !c.library() && log.ends[i].is_none() && !ids.contains(&log.units[i]) {
            out.push(viol("failures", format!("context {i} stopped when the database failed, but is not reported: {:?}", f.failures)));
        }
    }
    if f.passed != f.failures.is_empty() {
        out.push(viol("failures", format!("passed() = {} with {} failures", f.passed, f.failures.len())));
    }
    out
}
