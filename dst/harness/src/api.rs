//! The script interpreter. It runs against the real library and against the reference model alike.
use crate::case::*;

pub trait Api {
    fn tick(&self) -> u64;
    fn incr(&mut self, n: u64);
    fn advance(&mut self, t: u64);
    fn enq(&mut self, ch: Ch, time: u64, v: usize) -> bool;
    fn avail(&mut self, ch: Ch) -> bool;
    fn deq(&mut self, ch: Ch) -> Option<usize>;
    fn peek_next(&mut self, ch: Ch) -> Option<usize>;
    /// Observation only.
    fn peek(&mut self, ch: Ch);
    /// Is there an element whose time has come?
    fn ready(&mut self, ch: Ch) -> bool;
    /// Wait for the earliest head of several channels; its position, or None when all are closed.
    fn earliest(&mut self, chs: &[Ch]) -> Option<usize>;
    /// Wait until any / all of the channels have a head.
    fn any(&mut self, chs: &[Ch]) -> bool;
    fn all(&mut self, chs: &[Ch]) -> bool;
    fn choose(&mut self, groups: &[Vec<Ch>]) -> bool;
    fn taken(&self, ch: Ch) -> usize;
    fn drop_tx(&mut self, ch: Ch);
    fn drop_rx(&mut self, ch: Ch);
    fn view_wait(&mut self, ctx: usize, t: u64);
    fn view_tlb(&mut self, ctx: usize);
    fn log_ev(&mut self, n: u64, cb: bool, more: u32);
    fn pause(&mut self);
    fn boom(&mut self) -> !;
}

fn mix(acc: u64, x: u64) -> u64 {
    let z = (acc ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 29)
}

pub fn interpret(idx: usize, ops: &[Op], api: &mut dyn Api) -> End {
    let mut acc = idx as u64 + 1;
    let mut sent = 0u64;
    for op in ops {
        match op {
            Op::Enq { ch, d, v } => {
                sent += 1;
                let val = v.unwrap_or_else(|| (mix(acc, sent) % 1_000_000) as usize + 1000);
                let at = api.tick() + d;
                if !api.enq(*ch, at, val) {
                    return End::Closed;
                }
            }
            Op::Deq { ch, upto } => {
                while api.taken(*ch) < *upto {
                    match api.deq(*ch) {
                        Some(v) => acc = mix(acc, v as u64),
                        None => return End::Closed,
                    }
                }
            }
            Op::Drain { ch, inc } => {
                while let Some(v) = api.deq(*ch) {
                    acc = mix(acc, v as u64);
                    if *inc > 0 {
                        api.incr(*inc);
                    }
                }
                return End::Done;
            }
            Op::PeekNext { ch } => match api.peek_next(*ch) {
                Some(v) => acc = mix(acc, v as u64),
                None => return End::Closed,
            },
            Op::Peek { ch } => api.peek(*ch),
            Op::Poll { ch } => {
                if api.ready(*ch) {
                    match api.deq(*ch) {
                        Some(v) => acc = mix(acc, v as u64),
                        None => return End::Closed,
                    }
                }
            }
            Op::Any { chs } => {
                if !api.any(chs) {
                    return End::Closed;
                }
            }
            Op::All { chs } => {
                if !api.all(chs) {
                    return End::Closed;
                }
            }
            Op::Choose { groups } => {
                if !api.choose(groups) {
                    acc = mix(acc, 77);
                }
            }
            Op::Merge { chs, total, inc, out } => {
                let mut n = 0;
                while total.map_or(true, |t| n < t) {
                    let Some(p) = api.earliest(chs) else {
                        if total.is_some() {
                            return End::Closed;
                        }
                        return End::Done;
                    };
                    match api.deq(chs[p]) {
                        Some(v) => acc = mix(acc, v as u64),
                        None => return End::Closed,
                    }
                    n += 1;
                    if let Some((o, d)) = out {
                        sent += 1;
                        let at = api.tick() + d;
                        if !api.enq(*o, at, (mix(acc, sent) % 1_000_000) as usize + 1000) {
                            return End::Closed;
                        }
                    }
                    if *inc > 0 {
                        api.incr(*inc);
                    }
                }
            }
            Op::Avail { ch } => {
                if !api.avail(*ch) {
                    return End::Closed;
                }
            }
            Op::Incr { n } => api.incr(*n),
            Op::AdvBy { n } => {
                let t = api.tick() + n;
                api.advance(t)
            }
            Op::AdvTo { t } => api.advance(*t),
            Op::DropTx { ch } => api.drop_tx(*ch),
            Op::DropRx { ch } => api.drop_rx(*ch),
            Op::ViewWait { ctx, back } => {
                let t = api.tick().saturating_sub(*back);
                api.view_wait(*ctx, t)
            }
            Op::ViewJoin { ctx, t } => api.view_wait(*ctx, *t),
            Op::ViewTlb { ctx } => api.view_tlb(*ctx),
            Op::LogEv { n, cb, more } => api.log_ev(*n, *cb, *more),
            Op::Yield => api.pause(),
            Op::Fail => return End::Fail,
            Op::Panic => api.boom(),
        }
    }
    End::Done
}
