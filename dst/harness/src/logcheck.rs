//! What the simulated database must hold when `run` returns.
use crate::case::*;
use crate::events;
use crate::laws::{viol, Viol};
use crate::real::{EvRec, Log};
use bson::Bson;
use dam_sim_core as sim;
use sim::{Fault, Outcome, Status};
use std::collections::{BTreeMap, HashMap};

thread_local! {
    /// Taken at the end of a run, as the simulation ends with it.
    static DB: std::cell::RefCell<Snapshot> = Default::default();
    static MISSING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
#[derive(Default, Clone)]
pub struct Snapshot {
    pub docs: Vec<Bson>,
    pub collections: Vec<(String, String, String)>,
    pub after_shutdown: u64,
    pub failed: u64,
    pub in_flight: u64,
    pub shutdowns: u64,
}

/// Called inside the simulation right after `run` returned.
pub fn snapshot() {
    let s = simmongo::server();
    let snap = Snapshot {
        docs: s.collections.values().flatten().cloned().collect(),
        collections: s.collections.keys().cloned().collect(),
        after_shutdown: s.use_after_shutdown,
        failed: s.failed,
        in_flight: s.in_flight,
        shutdowns: s.shutdowns,
    };
    DB.with(|d| *d.borrow_mut() = snap);
}
pub fn clear() {
    DB.with(|d| *d.borrow_mut() = Default::default());
}

/// Entries accepted from the contexts but not stored, in the run judged last.
pub fn missing() -> usize {
    MISSING.with(|m| m.get())
}

fn int(b: Option<&Bson>) -> Option<u64> {
    match b? {
        Bson::Int32(x) => Some(*x as u64),
        Bson::Int64(x) => Some(*x as u64),
        _ => None,
    }
}

pub fn check(p: &Prog, l: &Log, o: &Outcome) -> Vec<Viol> {
    let mut out = vec![];
    MISSING.with(|m| m.set(0));
    let db = DB.with(|d| std::mem::take(&mut *d.borrow_mut()));
    let Some(spec) = &p.log else {
        if !db.docs.is_empty() || !db.collections.is_empty() {
            out.push(viol("log", "something was stored although no logger is configured".into()));
        }
        return out;
    };
    if !matches!(o.status, Status::Completed) || o.faults[Fault::SpawnFail as usize] > 0 {
        return out;
    }
    let broken = o.faults[Fault::DbError as usize] > 0;
    // (context, n) -> times stored
    let mut got: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut stamps: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    let mut finishes: BTreeMap<u64, (usize, u64)> = BTreeMap::new();
    // what the channels logged: (context id, what, channel) -> clocks
    let mut traffic: BTreeMap<(u64, &str, u64), Vec<u64>> = BTreeMap::new();
    // when the clock all timestamps refer to can have started
    let mut base = (i64::MIN, i64::MAX);
    let logged: HashMap<(u64, u64), &EvRec> = l.evs.iter().map(|e| ((e.ctx as u64, e.n), e)).collect();
    for d in &db.docs {
        let Some(doc) = d.as_document() else {
            out.push(viol("log", format!("stored entry is no document: {d}")));
            continue;
        };
        let ty = doc.get_str("event_type").unwrap_or("?").to_string();
        let id = int(doc.get("context"));
        let ticks = doc.get_document("ticks").ok().and_then(|t| int(t.get("time")));
        let (Some(id), Some(ticks)) = (id, ticks) else {
            out.push(viol("log", format!("stored entry lacks a context or ticks: {doc}")));
            continue;
        };
        // The pipelines inside a PMU log under ids of their own with their parent's filter; a per-child filter is never
        // asked about them, and which PMU an id belongs to can't be told from outside.
        let at = l.ids.iter().position(|x| *x == id as usize);
        let unit = at.map_or(id as usize, |i| l.units[i]);
        if (!spec.per_child || at.is_some()) && !events::wanted(spec, unit, &ty) {
            out.push(viol("log-filter", format!("an event of type {ty} of context {id} was stored, which the filter forbids: {:?}", spec)));
        }
        if ty == "TimeEvent" {
            let e = finishes.entry(id).or_default();
            e.0 += 1;
            e.1 = ticks;
        }
        if !events::OURS.contains(&ty.as_str()) {
            if let Some((what, c)) = doc.get_document("event_data").ok().and_then(|d| d.iter().next()) {
                let what = ["EnqueueStart", "EnqueueFinish", "DequeueStart", "DequeueFinish"].into_iter().find(|w| w == what);
                if let (Some(w), Some(c)) = (what, c.as_document().and_then(|c| int(c.get("id")))) {
                    traffic.entry((id, w, c)).or_default().push(ticks);
                }
            }
            continue;
        }
        let Some((c, n)) = doc.get("event_data").and_then(|d| events::payload(&ty, d)) else {
            out.push(viol("log", format!("payload is damaged: {doc}")));
            continue;
        };
        *got.entry((c, n)).or_default() += 1;
        let Some(ev) = logged.get(&(c, n)) else {
            out.push(viol("log", format!("an event nobody logged was stored: {doc}")));
            continue;
        };
        if l.ids[c as usize] as u64 != id {
            out.push(viol("log-context", format!("event {n} of context {c} (id {}) was stored for context id {id}", l.ids[c as usize])));
        }
        if ev.tick != ticks {
            out.push(viol("log-ticks", format!("event {n} of context {c} was logged at {} and stored with {ticks} ticks", ev.tick)));
        }
        if ty != events::name_of(n) {
            out.push(viol("log", format!("event {n} of context {c} was stored as a {ty}")));
        }
        match int(doc.get("timestamp")) {
            Some(us) => {
                stamps.entry(c).or_default().push((n, us));
                base.0 = base.0.max(ev.ns.0 as i64 - us as i64 * 1000 - 999);
                base.1 = base.1.min(ev.ns.1 as i64 - us as i64 * 1000);
            }
            None => out.push(viol("log", format!("no timestamp: {doc}"))),
        }
    }
    for ((c, n), k) in &got {
        if *k != 1 {
            out.push(viol("log-twice", format!("event {n} of context {c} was stored {k} times")));
        }
    }
    for s in stamps.values_mut() {
        s.sort_unstable();
        if s.windows(2).any(|w| w[1].1 < w[0].1) {
            out.push(viol("log-time", format!("timestamps of one context's entries run backwards: {s:?}")));
        }
        if s.iter().any(|x| x.1 > o.sim_ns / 1000 + 1) {
            out.push(viol("log-time", format!("a timestamp lies after the end of the run: {s:?}")));
        }
    }
    if base.0 > base.1 {
        out.push(viol("log-time", format!("timestamps of different contexts do not refer to one start: it is after {} and before {}", base.0, base.1)));
    }
    MISSING.with(|m| {
        m.set(l.evs.iter().filter(|e| {
            e.ok && events::wanted(spec, l.units[e.ctx], events::name_of(e.n)) && !got.contains_key(&(e.ctx as u64, e.n))
        }).count())
    });
    if !broken {
        for e in &l.evs {
            let id = l.units[e.ctx];
            if !e.ok {
                out.push(viol("log-lost", format!("logging event {} of context {} failed although the database works", e.n, e.ctx)));
            } else if events::wanted(spec, id, events::name_of(e.n)) && !got.contains_key(&(e.ctx as u64, e.n)) {
                out.push(viol("log-lost", format!("event {} of context {} (tick {}) is not in the database when run() returns", e.n, e.ctx, e.tick)));
            }
        }
        for (i, c) in p.ctxs.iter().enumerate() {
            if matches!(c, Ctx::Pmu { .. }) || !events::wanted(spec, l.units[i], "TimeEvent") {
                continue;
            }
            match finishes.get(&(l.ids[i] as u64)) {
                Some((1, t)) => {
                    if !c.library() && l.ends[i] != Some(End::Panic) && *t != l.fin[i] {
                        out.push(viol("log-ticks", format!("the end of context {i} was stored with {t} ticks, it ended at {}", l.fin[i])));
                    }
                }
                x => out.push(viol("log-lost", format!("the end of context {i} was stored {} times", x.map_or(0, |y| y.0)))),
            }
        }
        // The pipelines of a PMU have clocks and identifiers of their own.
        let pmus = p.ctxs.iter().filter(|c| matches!(c, Ctx::Pmu { .. })).count();
        if !spec.per_child && events::wanted(spec, 0, "TimeEvent") {
            let others: Vec<_> = finishes.iter().filter(|(id, _)| !l.ids.contains(&(**id as usize))).collect();
            if others.len() != 2 * pmus || others.iter().any(|x| x.1 .0 != 1) {
                out.push(viol("log-context", format!("{pmus} PMUs ended, and these were stored besides the other contexts: {others:?}")));
            }
        }
        for (i, c) in p.ctxs.iter().enumerate() {
            if c.library() || matches!(l.ends[i], None | Some(End::Panic)) {
                continue;
            }
            for (ch, name) in l.chan_ids.iter().enumerate() {
                let num: u64 = name.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
                for (what, k, start, ty) in [
                    ("EnqueueStart", K::Enq, true, "SendEvent"),
                    ("EnqueueFinish", K::Enq, false, "SendEvent"),
                    ("DequeueStart", K::Deq, true, "ReceiverEvent"),
                    ("DequeueFinish", K::Deq, false, "ReceiverEvent"),
                ] {
                    let mut want: Vec<u64> = l.recs[i]
                        .iter()
                        .filter(|r| r.k == k && r.ch == ch && events::wanted(spec, l.units[i], ty))
                        .map(|r| if start { r.t0 } else { r.t1 })
                        .collect();
                    let mut got = traffic.remove(&(l.ids[i] as u64, what, num)).unwrap_or_default();
                    want.sort_unstable();
                    got.sort_unstable();
                    if want != got {
                        out.push(viol("log-traffic", format!("{what} of context {i} on ch{ch} at {want:?}, stored: {got:?}")));
                    }
                }
            }
        }
        if db.after_shutdown > 0 {
            out.push(viol("log-lost", "an insert was attempted after the client had been shut down".into()));
        }
    }
    if db.collections.iter().any(|(u, d, c)| u != events::URI || d != events::DB || c != events::COLL) {
        out.push(viol("log", format!("entries went to {:?}", db.collections)));
    }
    out
}
