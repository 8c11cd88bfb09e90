//! Log events of the simulated programs.
use dam::context_tools::{log_event, log_event_cb};
use dam::macro_support::logging::registry::*;
use dam::macro_support::logging::LogEvent;
use serde::{Deserialize, Serialize};

#[dam::dam_macros::event_type]
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SimAlpha {
    pub ctx: u64,
    pub n: u64,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SimBeta {
    pub ctx: u64,
    pub n: u64,
    pub text: String,
}
impl LogEvent for SimBeta {
    const NAME: &'static str = "SimBeta";
}
#[distributed_slice(METRICS)]
static SIM_BETA: &'static str = SimBeta::NAME;

/// Types whose names contain one another: filters go by the whole name.
#[dam::dam_macros::event_type]
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SimAlphaBeta(pub u64, pub u64);

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Sim {
    Event { ctx: u64, n: u64, list: Vec<Option<u64>> },
}
impl LogEvent for Sim {
    const NAME: &'static str = "Sim";
}
#[distributed_slice(METRICS)]
static SIM: &'static str = Sim::NAME;

#[cfg(feature = "mongo")]
pub const OURS: [&str; 4] = ["SimAlpha", "SimBeta", "SimAlphaBeta", "Sim"];
pub const NAMES: [&str; 8] =
    ["SimAlpha", "SimBeta", "SimAlphaBeta", "Sim", "TimeEvent", "ContextViewEvent", "SendEvent", "ReceiverEvent"];

#[cfg(feature = "mongo")]
pub fn name_of(n: u64) -> &'static str {
    OURS[n as usize % 4]
}

fn put<T: LogEvent>(e: T, cb: bool) -> bool {
    if cb {
        log_event_cb::<T, _>(move || e).is_ok()
    } else {
        log_event(&e).is_ok()
    }
}

/// Logs event `n` of context `idx`.
pub fn emit(idx: usize, n: u64, cb: bool) -> bool {
    let ctx = idx as u64;
    match n % 4 {
        0 => put(SimAlpha { ctx, n }, cb),
        1 => put(SimBeta { ctx, n, text: format!("event {n} of {ctx}") }, cb),
        2 => put(SimAlphaBeta(ctx, n), cb),
        _ => put(Sim::Event { ctx, n, list: vec![Some(n), None] }, cb),
    }
}

/// What `emit` logged, if the payload of a stored event is whole.
#[cfg(feature = "mongo")]
pub fn payload(name: &str, b: &bson::Bson) -> Option<(u64, u64)> {
    use bson::from_bson;
    let b = b.clone();
    match name {
        "SimAlpha" => from_bson(b).ok().map(|e: SimAlpha| (e.ctx, e.n)),
        "SimBeta" => from_bson(b)
            .ok()
            .filter(|e: &SimBeta| e.text == format!("event {} of {}", e.n, e.ctx))
            .map(|e| (e.ctx, e.n)),
        "SimAlphaBeta" => from_bson(b).ok().map(|e: SimAlphaBeta| (e.0, e.1)),
        _ => from_bson(b)
            .ok()
            .filter(|Sim::Event { n, list, .. }| *list == vec![Some(*n), None])
            .map(|Sim::Event { ctx, n, .. }| (ctx, n)),
    }
}

#[cfg(feature = "mongo")]
pub const URI: &str = "mongodb://simulated:27017";
#[cfg(feature = "mongo")]
pub const DB: &str = "dst";
#[cfg(feature = "mongo")]
pub const COLL: &str = "entries";

#[cfg(feature = "mongo")]
pub fn log_options(p: &crate::case::Prog, o: dam::simulation::RunOptionsBuilder) -> dam::simulation::RunOptionsBuilder {
    use dam::macro_support::logging::LogFilter;
    use dam::simulation::*;
    use dam::structures::Identifier;
    let Some(l) = &p.log else { return o };
    let o = o.logging(LoggingOptions::Mongo(
        MongoOptionsBuilder::default()
            .uri(URI.to_string())
            .db(DB.to_string())
            .collection(COLL.to_string())
            .build()
            .unwrap(),
    ));
    match &l.allow {
        None => o,
        Some(names) => {
            let f = LogFilter::Some(names.iter().cloned().collect());
            if let Err(e) = f.check() {
                crate::real::law("log", format!("filter of registered names is refused: {e}"));
            }
            let g = LogFilter::Some(names.iter().cloned().chain(["SimGamma".to_string()]).collect());
            if g.check().is_ok() {
                crate::real::law("log", "a filter with a name that is not registered is accepted".into());
            }
            if l.per_child {
                fn even(id: Identifier) -> LogFilter {
                    if id.id % 2 == 0 {
                        LogFilter::AllowAll
                    } else {
                        LogFilter::Some(["SimAlpha".to_string()].into_iter().collect())
                    }
                }
                o.log_filter(LogFilterKind::PerChild(even))
            } else {
                o.log_filter(LogFilterKind::Blanket(f))
            }
        }
    }
}

/// Is event `n` of the context with this id to be stored?
#[cfg(feature = "mongo")]
pub fn wanted(l: &crate::case::LogSpec, id: usize, name: &str) -> bool {
    match &l.allow {
        None => true,
        Some(names) => {
            if l.per_child {
                id % 2 == 0 || name == "SimAlpha"
            } else {
                names.iter().any(|x| x == name)
            }
        }
    }
}
