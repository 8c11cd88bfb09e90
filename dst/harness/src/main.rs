mod api;
mod case;
#[cfg(feature = "dot")]
mod dotcheck;
mod dram;
mod elem;
mod entropy;
mod events;
mod gen;
mod laws;
#[cfg(feature = "mongo")]
mod logcheck;
mod plan;
mod real;
mod refm;
mod shrink;
mod store;
mod views;
mod work;

use dam_sim_core as sim;
use serde_json::{json, Value};
use sim::{Config, Policy, FAULT_NAMES, NFAULT};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use work::{simulate, Truth, Verdict, Work};

pub fn set_name() -> &'static str {
    if cfg!(feature = "mongo") {
        "mongo"
    } else if cfg!(feature = "unbounded") {
        "unbounded"
    } else if cfg!(feature = "cycle") {
        "cycle"
    } else if cfg!(feature = "dot") {
        "dot"
    } else if cfg!(feature = "coro") {
        "coro"
    } else {
        "plain"
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(default)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if sim::active() {
            sim::on_panic();
            sim::note(|| format!("panic: {i}"));
        } else {
            eprintln!("harness: {i}");
        }
    }));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "worker" => worker(),
        "one" => one(),
        "shrink" => shrink_cmd(),
        "replay" => replay(),
        "hashes" => hashes(),
        "show" => show(),
        "known" => known(),
        "discards" => discards(),
        "set" => {
            println!("{} dram={}", set_name(), cfg!(feature = "dram"));
            0
        }
        _ => {
            eprintln!("usage: dst worker|one|shrink|replay|hashes|show|set ...");
            2
        }
    };
    std::process::exit(code);
}

pub fn config_json(c: &Config) -> Value {
    let mut z: Vec<(usize, u32)> = vec![];
    for (i, v) in c.replay.iter().enumerate() {
        if *v != 0 {
            z.push((i, *v));
        }
    }
    json!({
        "seed": c.seed, "rates": c.rates.to_vec(), "calm_after": c.calm_after, "give_up_after": c.give_up_after,
        "step_ns": c.step_ns, "decisions": z,
    })
}

pub fn config_of(v: &Value) -> Config {
    let mut c = Config::new(v["seed"].as_u64().unwrap());
    for (i, r) in v["rates"].as_array().unwrap().iter().enumerate().take(NFAULT) {
        c.rates[i] = r.as_u64().unwrap() as u32;
    }
    c.calm_after = v["calm_after"].as_u64().unwrap();
    c.give_up_after = v["give_up_after"].as_u64().unwrap();
    c.step_ns = v["step_ns"].as_u64().unwrap();
    c.policy = Policy::Replay;
    for d in v["decisions"].as_array().unwrap() {
        let (i, x) = (d[0].as_u64().unwrap() as usize, d[1].as_u64().unwrap() as u32);
        if c.replay.len() <= i {
            c.replay.resize(i + 1, 0);
        }
        c.replay[i] = x;
    }
    c
}

/// The first finding of a run that belongs to the property.
pub fn own<'a>(prop: &str, v: &'a Verdict) -> Option<&'a laws::Viol> {
    v.viols.iter().find(|x| plan::accepts(prop, &x.class))
}

pub fn difference(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let get = |v: &[String]| v.get(i).cloned().unwrap_or_else(|| "nothing".into());
    Some(format!("one schedule gives: {}; another: {}", get(a), get(b)))
}

#[derive(Default)]
struct Stats {
    cases: u64,
    discarded: u64,
    gen_panics: u64,
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    cycles: u64,
    ops: u64,
    faults: [u64; NFAULT],
    faulty_runs: u64,
    weak_runs: u64,
    schedules: HashSet<u64>,
    nontrivial: HashSet<u64>,
    kinds: BTreeMap<String, u64>,
    samples: Vec<Value>,
    max_tasks: usize,
}

impl Stats {
    fn add(&mut self, seed: u64, k: u64, cfg: &Config, v: &Verdict) {
        let o = &v.outcome;
        self.runs += 1;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.cycles += v.cycles;
        self.ops += v.ops;
        self.max_tasks = self.max_tasks.max(o.tasks);
        for i in 0..NFAULT {
            self.faults[i] += o.faults[i];
        }
        if o.faults.iter().any(|x| *x > 0) {
            self.faulty_runs += 1;
        }
        if cfg.weak() {
            self.weak_runs += 1;
        }
        let h = o.sched_hash ^ seed.rotate_left(17);
        self.schedules.insert(h);
        if o.tasks >= 3 && o.switches >= 5 {
            self.nontrivial.insert(h);
        }
        if self.samples.len() < 2 && k > 0 {
            self.samples.push(json!({
                "case_seed": seed, "schedule": k, "policy": format!("{:?}", cfg.policy), "tasks": o.tasks,
                "steps": o.steps, "switches": o.switches, "faults": o.faults.iter().sum::<u64>(),
                "status": format!("{:?}", o.status), "simulated_ns": o.sim_ns,
            }));
        }
    }
    fn json(&self) -> Value {
        let f: BTreeMap<&str, u64> = FAULT_NAMES.iter().copied().zip(self.faults).collect();
        json!({
            "cases": self.cases, "discarded": self.discarded, "gen_panics": self.gen_panics, "runs": self.runs, "steps": self.steps,
            "switches": self.switches, "sim_ns": self.sim_ns, "cycles": self.cycles, "ops": self.ops,
            "faults": f, "faulty_runs": self.faulty_runs, "weak_runs": self.weak_runs,
            "schedules": self.schedules.len(), "nontrivial": self.nontrivial.len(), "kinds": self.kinds,
            "samples": self.samples, "max_tasks": self.max_tasks,
        })
    }
}

fn kind_of(w: &Work) -> Vec<&'static str> {
    let prog = |p: &case::Prog| -> Vec<&'static str> {
        let mut v: Vec<&'static str> = p
            .ctxs
            .iter()
            .map(|c| match c {
                case::Ctx::Script { .. } => "script",
                case::Ctx::Gen { .. } => "GeneratorContext",
                case::Ctx::Trace { .. } => "TraceContext",
                case::Ctx::Bcast { .. } => "BroadcastContext",
                case::Ctx::Cons { .. } => "ConsumerContext",
                case::Ctx::Printer { .. } => "PrinterContext",
                case::Ctx::Check { .. } => "CheckerContext",
                case::Ctx::Approx { .. } => "ApproxCheckerContext",
                case::Ctx::Pcu { .. } => "PCU",
                case::Ctx::Pmu { .. } => "PMU",
                case::Ctx::Dram { .. } => "DRAM",
            })
            .collect();
        if p.infer {
            v.push("flavor inference");
        }
        if p.fifo {
            v.push("FIFO mode");
        }
        v
    };
    let mut v = match w {
        Work::Prog(p) => prog(p),
        Work::Multi(ps) => ps.iter().flat_map(prog).chain(["concurrent programs"]).collect(),
        Work::Views(_) => vec!["TimeManager and views"],
        Work::Store(_) => vec!["Datastore"],
    };
    v.sort_unstable();
    v.dedup();
    v
}

/// Where this worker is, for whoever looks after a crash.
struct Mark(std::fs::File);
impl Mark {
    fn set(&self, i: u64, k: u64) {
        use std::os::unix::fs::FileExt;
        let _ = self.0.write_all_at(format!("{i:>20} {k:>6}\n").as_bytes(), 0);
    }
}

fn limit_memory() {
    let gb = num("--mem-gb", 3);
    unsafe {
        let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

/// Ends the process when the simulated program stops reaching the scheduler.
fn watchdog() {
    std::thread::spawn(|| {
        let cpu = || {
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
            t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
        };
        let (mut last, mut since) = (u64::MAX, cpu());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let h = sim::HEARTBEAT.load(Ordering::Relaxed);
            if h != last {
                last = h;
                since = cpu();
            } else if cpu() - since > 12.0 {
                eprintln!("stuck: no visible operation for 12 s of processor time");
                std::process::exit(20);
            }
        }
    });
}

/// All schedules of one case; the finding, with the runs that show it.
fn try_case(
    prop: &str,
    seed: u64,
    w: &Work,
    t: &Truth,
    mut each: impl FnMut(u64, &Config, &Verdict),
    mut before: impl FnMut(u64),
) -> Option<(laws::Viol, Vec<Config>)> {
    let mut first: Option<(Config, Vec<String>)> = None;
    for k in 0..plan::schedules_per_case(prop) {
        before(k);
        let cfg = plan::schedule(prop, seed, k, w);
        let v = simulate(w, t, &cfg);
        each(k, &cfg, &v);
        let mut rec = cfg.clone();
        rec.policy = Policy::Replay;
        rec.replay = v.outcome.choices.clone();
        if let Some(x) = own(prop, &v) {
            return Some((x.clone(), vec![rec]));
        }
        if prop == "C01" && !matches!(w, Work::Prog(p) if p.chaos) {
            match &first {
                None => first = Some((rec, v.normal)),
                Some((a, n)) => {
                    if let Some(d) = difference(n, &v.normal) {
                        return Some((laws::viol("schedule", d), vec![a.clone(), rec]));
                    }
                }
            }
        }
    }
    None
}

fn worker() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let seed = num("--seed", 1);
    let (start, stride) = (num("--index", 0), num("--stride", 1));
    let secs = num("--ms", 10_000) as f64 / 1000.0;
    let (min, max) = (num("--min-cases", 0), num("--max-cases", u64::MAX));
    let hard = num("--hard-ms", 240_000) as f64 / 1000.0;
    let mark = Mark(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(arg("--mark").expect("--mark")).unwrap());
    limit_memory();
    watchdog();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut i = start;
    let mut found = None;
    while st.cases < max {
        let el = t0.elapsed().as_secs_f64();
        if el > hard || (el > secs && st.cases >= min) {
            break;
        }
        let cs = plan::case_seed(seed, &prop, i);
        mark.set(i, 9999);
        let made = std::panic::catch_unwind(|| plan::case(&prop, cs));
        if made.is_err() {
            // the model itself gave up (printed by the panic hook): no verdict on this case
            st.gen_panics += 1;
        }
        let Ok(Ok((w, t))) = made else {
            st.discarded += 1;
            i += stride;
            continue;
        };
        st.cases += 1;
        for k in kind_of(&w) {
            *st.kinds.entry(k.into()).or_default() += 1;
        }
        if let Some((v, runs)) = try_case(&prop, cs, &w, &t, |k, c, v| st.add(cs, k, c, v), |k| mark.set(i, k)) {
            let runs: Vec<Value> = runs.iter().map(config_json).collect();
            found = Some(json!({
                "property": prop, "set": set_name(), "seed": seed, "case": i, "case_seed": cs,
                "class": v.class, "message": v.msg, "work": w, "runs": runs,
            }));
            break;
        }
        i += stride;
    }
    println!("{}", json!({"stats": st.json(), "found": found, "wall": t0.elapsed().as_secs_f64(), "next": i}));
    0
}

/// Runs one schedule of one case in this process: to confirm a crash.
fn one() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let seed = num("--seed", 1);
    let (i, k) = (num("--case", 0), num("--schedule", 0));
    let cs = plan::case_seed(seed, &prop, i);
    if std::env::args().any(|a| a == "--dump") {
        let (w, _) = plan::case(&prop, cs).unwrap();
        let mut c = config_json(&plan::schedule(&prop, cs, k, &w));
        c["policy"] = json!(k);
        println!("{}", json!({
            "property": prop, "set": set_name(), "seed": seed, "case": i, "case_seed": cs, "schedule": k,
            "work": w, "runs": [c],
        }));
        return 0;
    }
    limit_memory();
    watchdog();
    let (w, t) = plan::case(&prop, cs).unwrap();
    let v = simulate(&w, &t, &plan::schedule(&prop, cs, k, &w));
    println!("{:?} {:?}", v.outcome.status, v.viols);
    0
}

fn shrink_cmd() -> i32 {
    let f = arg("--file").expect("--file");
    let mut v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
    let secs = num("--ms", 25_000) as f64 / 1000.0;
    limit_memory();
    shrink::minimise(&mut v, Instant::now() + Duration::from_secs_f64(secs));
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    0
}

/// Exactly the runs in a file; exit code 1 and a description if the finding is there again.
fn replay() -> i32 {
    let f = std::env::args().nth(2).expect("file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    let quiet = std::env::args().any(|a| a == "--quiet");
    if std::env::args().any(|a| a == "--reference") {
        let w: Work = serde_json::from_value(v["work"].clone()).unwrap();
        if let Ok(Truth::Progs(rs)) = work::truth(&w) {
            for r in rs {
                for (i, l) in r.recs.iter().enumerate() {
                    for x in l {
                        println!("context {i}: {}", x.show());
                    }
                }
                println!("final clocks {:?} ends {:?} failed {:?} sent {:?}", r.fin, r.ends, r.failed, r.sent);
            }
        }
    }
    if let Some(k) = v["schedule"].as_u64() {
        // a crash: the run is given by its seeds
        let cs = v["case_seed"].as_u64().unwrap();
        limit_memory();
        watchdog();
        let w: Work = serde_json::from_value(v["work"].clone()).unwrap();
        let t = work::truth(&w).unwrap_or(Truth::None);
        let r = simulate(&w, &t, &plan::schedule(&prop, cs, k, &w));
        println!("no crash: {:?} {:?}", r.outcome.status, r.viols);
        return 0;
    }
    match shrink::reproduce(&v, !quiet) {
        Some((x, trace)) => {
            if !quiet {
                for l in trace {
                    println!("    {l}");
                }
            }
            println!("[{}] {}", x.class, x.msg);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// Digests of the first cases' runs: two processes must print the same.
fn hashes() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let seed = num("--seed", 1);
    let (start, stride, n) = (num("--index", 0), num("--stride", 1), num("--cases", 50));
    let mut i = start;
    let out = std::io::stdout();
    let mut out = out.lock();
    while i < n {
        let cs = plan::case_seed(seed, &prop, i);
        if let Ok((w, t)) = plan::case(&prop, cs) {
            for k in 0..plan::schedules_per_case(&prop) {
                let v = simulate(&w, &t, &plan::schedule(&prop, cs, k, &w));
                let o = &v.outcome;
                let _ = writeln!(
                    out,
                    "{i} {k} {:016x} {} {} {} {:?} {}",
                    o.sched_hash,
                    o.steps,
                    o.sim_ns,
                    o.choices.len(),
                    o.faults,
                    v.normal.join("|").bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)),
                );
            }
        }
        i += stride;
    }
    0
}

/// Does a finding recorded as known still show on exactly its scenario? Exit code 1 if so.
fn known() -> i32 {
    let f = arg("--file").expect("--file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
    let w: Work = serde_json::from_value(v["work"].clone()).unwrap();
    let kind = v["kind"].as_str().unwrap();
    limit_memory();
    watchdog();
    let mut seen = BTreeMap::new();
    for k in 0..v["schedules"].as_u64().unwrap_or(60) {
        let mut c = plan::schedule("C02", 12345, k, &w);
        if kind == "log" {
            c.rates[sim::Fault::DbError as usize] = 500_000;
        }
        // judged by the outcome alone
        let r = simulate(&w, &Truth::None, &c);
        let what = match kind {
            "clock" => format!("{} cycles", r.cycles),
            "log" => format!("silent loss: {}", r.silent_loss),
            _ => format!("{:?}", r.outcome.status).chars().take_while(|c| c.is_alphabetic()).collect(),
        };
        *seen.entry(what).or_insert(0) += 1;
    }
    println!("{seen:?}");
    let hit = match kind {
        "clock" => seen.len() > 1,
        "log" => seen.contains_key("silent loss: true"),
        _ => {
            // and it has to be the inference that does it
            let mut w = w.clone();
            if let Work::Prog(p) = &mut w {
                p.infer = false;
            }
            let n = v["schedules"].as_u64().unwrap_or(60);
            let fine = (0..n).all(|k| {
                let r = simulate(&w, &Truth::None, &plan::schedule("C02", 12345, k, &w));
                matches!(r.outcome.status, sim::Status::Completed)
            });
            println!("without inference: {}", if fine { "always completes" } else { "does not always complete" });
            fine && seen.contains_key("Deadlock")
        }
    };
    hit as i32
}

fn show() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let cs = plan::case_seed(num("--seed", 1), &prop, num("--case", 0));
    match plan::case(&prop, cs) {
        Ok((w, _)) => println!("{}", serde_json::to_string_pretty(&w).unwrap()),
        Err(e) => println!("discarded: {e}"),
    }
    0
}

fn discards() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..num("--cases", 1000) {
        let e = match plan::case(&prop, plan::case_seed(num("--seed", 1), &prop, i)) {
            Ok(_) => "ok".to_string(),
            Err(e) => e.chars().take(60).collect(),
        };
        *m.entry(e).or_default() += 1;
    }
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (k, n) in v.into_iter().take(20) {
        println!("{n:6} {k}");
    }
    0
}
