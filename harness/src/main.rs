//! hdsim: deterministic simulation of hyperdrive services. See /verif/DESIGN.md.
mod apps;
mod gen;
mod minimize;
mod model;
mod net;
mod oracle;
mod proc;
mod run;
mod scenario;
mod seam;
mod sim;
mod svc;
mod types;
mod world;
pub use hyperdrive::BoxedError;

use proc::{Report, Violation};
use scenario::Scenario;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub const PROPS: &[&str] = &[
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17",
];

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub prog_seed: u64,
    pub order_hash: u64,
    pub scenario: Scenario,
    pub decisions: Vec<u32>,
    #[serde(default)]
    pub trace: Vec<String>,
    #[serde(default)]
    pub note: String,
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn num(args: &[String], name: &str, d: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut r = sim::Rng(a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.rotate_left(32) ^ c.wrapping_mul(0xD134_2543_DE82_EF95));
    r.next();
    r.next()
}

fn prop_no(p: &str) -> u64 {
    p[1..].parse().expect("bad property id")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => check(&args),
        "replay" => replay(&args),
        "one" => one(&args),
        "selftest" => selftest(&args),
        "survey" => survey(&args),
        _ => {
            eprintln!("usage: hdsim check|replay|one|selftest|survey ...");
            2
        }
    };
    std::process::exit(code);
}

/// What makes a run relevant for a property.
fn relevant(prop: &str, r: &Report) -> bool {
    let f = |n: &str| r.feats.get(n).cloned().unwrap_or(0) > 0;
    match prop {
        "P01" => f("dispatched"),
        "P02" => f("wrong-method"),
        "P03" => f("head"),
        "P04" => f("extraction"),
        "P05" => f("decoded-body"),
        "P06" => f("body-cut-short"),
        "P07" => f("hyperdrive-error") || f("foreign-error"),
        "P08" => f("handler"),
        "P09" => r.feats.get("dispatched").cloned().unwrap_or(0) > 1,
        "P10" => f("caught-panic"),
        "P11" => f("blocking") || f("blocking-future"),
        "P12" => f("cancelled"),
        "P13" => f("context-seen"),
        "P14" => f("forwarded"),
        "P15" => f("dispatched"),
        "P16" => f("suspended") || f("blocking-future"),
        "P17" => f("gated-service") || f("cloned-service"),
        _ => false,
    }
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "P01" => "a request was dispatched",
        "P02" => "a request used a method its path does not accept",
        "P03" => "a HEAD request was served",
        "P04" => "a request ran guards, query or body extraction",
        "P05" => "a JSON or form body was decoded",
        "P06" => "a body was cut short",
        "P07" => "a request failed with an error",
        "P08" => "a handler was due",
        "P09" => "at least two requests were in the run",
        "P10" => "a panic was due under catch_unwind",
        "P11" => "a blocking section was due",
        "P12" => "a request was cancelled",
        "P13" => "a guard, body or forwarded decoder received a context",
        "P14" => "a request was forwarded",
        "P15" => "a decoding was compared",
        "P16" => "a request was suspended",
        _ => "a gated, cloned or per-connection service answered",
    };
    format!(
        "one case = one simulated run generated from (property, seed, index); non-trivial = {}; distinct = different \
         fingerprint over the ordered history of steps and outcomes of all its requests",
        what
    )
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = arg(args, "--prop").expect("--prop");
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let seed = num(args, "--seed", 1);
    let secs = num(args, "--secs", 60);
    let runs = num(args, "--runs", 4000);
    let jobs = num(args, "--jobs", 8);
    let evidence = arg(args, "--evidence");
    let replays = arg(args, "--replays").unwrap_or_else(|| "/tmp".into());
    let known = arg(args, "--known").map(|f| load_known(&f)).unwrap_or_default();
    println!(
        "hdsim: property {} tier {} seed {} program seed {}: up to {} runs in {} s on {} processes",
        prop,
        tier,
        seed,
        apps::PROG_SEED,
        runs,
        secs,
        jobs
    );
    let res = proc::batch(&prop, seed, runs, secs, jobs);
    let mut status = 0;
    let mut n_viol = 0u64;
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut reported: BTreeSet<String> = BTreeSet::new();
    let mut viols = res.violations.clone();
    viols.sort_by_key(|v| v.index);
    for v in &viols {
        let relevant: Vec<&Violation> = v.violations.iter().filter(|x| x.props.iter().any(|p| *p == prop)).collect();
        let first = match relevant.first() {
            Some(f) => (*f).clone(),
            None => continue,
        };
        if let Some(k) = known.iter().find(|k| k.prop == prop && k.matches(&first)) {
            *known_hit.entry(k.text.clone()).or_insert(0) += 1;
            continue;
        }
        n_viol += 1;
        if status == 1 {
            continue;
        }
        if !reported.insert(first.kind.clone()) {
            continue;
        }
        status = 1;
        let scn = gen::scenario(&prop, mix(seed, prop_no(&prop), v.index), &oracle::models());
        let rep = minimize::minimize(scn, v.decisions.clone(), &prop, &first, 25);
        let file = format!("{}/{}-s{}-i{}.json", replays, prop, seed, v.index);
        let _ = std::fs::create_dir_all(&replays);
        std::fs::write(&file, serde_json::to_string_pretty(&rep).unwrap()).expect("cannot write replay file");
        println!("  {} [{}]", rep.message, rep.kind);
        println!("  minimised to {} connection(s), {} request(s), {} fault(s), {} decision(s); {}",
            rep.scenario.conns.len(), rep.scenario.n_reqs(), rep.scenario.faults.len(), rep.decisions.len(), rep.note);
        println!("VIOLATION property={} replay={}", prop, file);
    }
    for k in &known {
        if k.prop == prop {
            println!("KNOWN-FINDING: property={} {}", prop, k.text);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let hours = wall / 3600.0;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": n_viol,
        "assumptions": [
            "executions are sampled from seeded schedules, faults and inputs, not enumerated",
            "tokio_threadpool's blocking facility is replaced by the simulator's (the redirection hook tokio itself provides); its permits, waiting and shutdown behave as documented",
            "hyper, h2, http, regex, serde_json and serde_urlencoded are trusted where their behaviour is used by the reference model",
        ],
        "coverage": {
            "evaluations": res.runs,
            "distinct_nontrivial": res.distinct.len(),
            "rule": rule(&prop),
            "samples": res.samples,
            "seeds_per_hour": if hours > 0.0 { (res.runs as f64 / hours) as u64 } else { 0 },
            "requests_simulated": res.requests,
            "simulated_seconds": res.sim_us as f64 / 1e6,
            "steps": res.steps,
            "faults_injected": res.stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "schedule_and_network_events": res.stats.iter().filter(|(k, _)| k.starts_with("sched.") || k.starts_with("net.")).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "probes": res.stats.iter().filter(|(k, _)| k.starts_with("probe.")).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "situations": res.feats,
            "expected_outcomes": res.outcomes,
            "judged": { "exact": res.exact, "under_fault_prefix": res.prefix, "never_served": res.unserved, "deadline_checked": res.timed },
            "distinct_interleavings": res.hashes,
            "distinct_interleavings_measure": "fingerprints of the ordered step-and-outcome history of whole runs",
            "runs_per_mode": res.modes,
            "runs_out_of_steps": res.stepcap,
            "max_parallel_blocking_sections": res.max_par,
            "program_seed": apps::PROG_SEED,
            "real_components": ["hyperdrive (derive output, services, catch_unwind, blocking, body decoding)", "hyper HTTP/1 and HTTP/2 server", "hyper HTTP/2 client", "futures 0.1", "tokio current_thread runtime (from_request_sync)", "regex, serde"],
            "simulated_components": ["executor and worker threads", "clock and timers", "sockets", "HTTP/1 client", "blocking thread pool", "request body producers", "guards, handlers and contexts (scripted user code)"],
        }
    });
    if let Some(f) = evidence {
        if let Some(d) = std::path::Path::new(&f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
    }
    println!(
        "hdsim: {} runs ({} distinct relevant), {} requests, {:.0} s simulated, {} violating run(s), {:.1} s",
        res.runs,
        res.distinct.len(),
        res.requests,
        res.sim_us as f64 / 1e6,
        n_viol,
        wall
    );
    if let Some(e) = &res.error {
        println!("hdsim: harness error: {}", e);
        if status == 0 {
            return 2;
        }
    }
    if status == 0 && res.runs == 0 {
        println!("hdsim: nothing was explored");
        return 2;
    }
    status
}

struct Known {
    prop: String,
    pat: String,
    text: String,
}
impl Known {
    fn matches(&self, v: &Violation) -> bool {
        v.msg.contains(&self.pat)
    }
}

/// Lines `finding: property=<id> match=<substring of the message> -- <what fails>`.
fn load_known(f: &str) -> Vec<Known> {
    let mut out = vec![];
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if !l.starts_with("finding: property=") {
            continue;
        }
        let r = &l["finding: property=".len()..];
        let sp = r.find(' ').unwrap_or(r.len());
        let prop = r[..sp].to_string();
        let rest = r[sp..].trim();
        if let (Some(a), Some(b)) = (rest.find("match="), rest.find(" -- ")) {
            out.push(Known { prop, pat: rest[a + 6..b].to_string(), text: rest[b + 4..].to_string() });
        }
    }
    out
}

fn replay(args: &[String]) -> i32 {
    let file = args.get(2).expect("replay FILE");
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read")).expect("bad replay file");
    if rep.prog_seed != apps::PROG_SEED {
        eprintln!("hdsim: this binary was built with program seed {}, the file needs {}", apps::PROG_SEED, rep.prog_seed);
        return 2;
    }
    let trace = args.iter().any(|a| a == "--trace");
    let r = proc::forked(&rep.scenario, Some(&rep.decisions), trace, 30);
    if trace {
        for l in &r.trace {
            println!("{}", l);
        }
    }
    for v in &r.violations {
        println!("  r{} {} {:?}: {}", v.req, v.kind, v.props, v.msg);
    }
    let hit = r.violations.iter().any(|v| v.props.iter().any(|p| *p == rep.property));
    if hit {
        println!("fingerprint {:016x}{}", r.order_hash, if r.order_hash == rep.order_hash { " (as recorded)" } else { " (differs from the record)" });
        println!("VIOLATION property={} replay={}", rep.property, file);
        1
    } else {
        println!("hdsim: not reproduced");
        0
    }
}

fn one(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let s = match arg(args, "--raw") {
        Some(x) => x.parse().unwrap(),
        None => mix(num(args, "--seed", 1), prop_no(&prop), num(args, "--index", 0)),
    };
    let scn = gen::scenario(&prop, s, &oracle::models());
    if args.iter().any(|a| a == "--scn") {
        println!("{}", serde_json::to_string_pretty(&scn).unwrap());
    }
    let r = if args.iter().any(|a| a == "--nofork") {
        proc::in_process(&scn, None, true)
    } else {
        proc::forked(&scn, None, true, 30)
    };
    for l in &r.trace {
        println!("{}", l);
    }
    for v in &r.violations {
        println!("VIOL r{} {} {:?}: {}", v.req, v.kind, v.props, v.msg);
    }
    println!("hash {:016x} steps {} now {} {:?}", r.order_hash, r.steps, r.now, r.stats);
    0
}

/// Determinism: every run twice in fresh processes, plus a replay of its decisions.
fn selftest(args: &[String]) -> i32 {
    let n = num(args, "--runs", 100);
    let seed = num(args, "--seed", 1);
    let jobs = num(args, "--jobs", 8);
    let m = oracle::models();
    let mut kids = vec![];
    for j in 0..jobs {
        let me = unsafe { libc::fork() };
        assert!(me >= 0);
        if me != 0 {
            kids.push(me);
            continue;
        }
        let (mut bad, mut total) = (0u64, 0u64);
        for p in PROPS {
            let mut i = j;
            while i < n {
                let scn = gen::scenario(p, mix(seed, prop_no(p), i), &m);
                let a = proc::forked(&scn, None, true, 60);
                let b = proc::forked(&scn, None, true, 60);
                let c = proc::forked(&scn, Some(&a.decisions), true, 60);
                total += 1;
                for (x, what) in &[(&b, "second run"), (&c, "replay")] {
                    if a.order_hash != x.order_hash || a.steps != x.steps || a.decisions != x.decisions || a.trace != x.trace {
                        bad += 1;
                        println!("{} index {}: {} differs ({})", p, i, what, a.mode);
                        for (l, r) in a.trace.iter().zip(x.trace.iter()) {
                            if l != r {
                                println!("   {}\n   {}", l, r);
                                break;
                            }
                        }
                    }
                }
                i += jobs;
            }
        }
        println!("worker {}: {} scenarios, each run twice and replayed; {} differences", j, total, bad);
        let _ = std::io::Write::flush(&mut std::io::stdout());
        unsafe { libc::_exit(if bad > 0 { 1 } else { 0 }) };
    }
    let mut rc = 0;
    for k in kids {
        let mut st = 0;
        unsafe { libc::waitpid(k, &mut st, 0) };
        if st != 0 {
            rc = 1;
        }
    }
    rc
}

/// Runs every profile and tabulates violations by (kind, props): a development aid.
fn survey(args: &[String]) -> i32 {
    let runs = num(args, "--runs", 300);
    let secs = num(args, "--secs", 600);
    let seed = num(args, "--seed", 1);
    let only = arg(args, "--prop");
    let mut bad = 0;
    for p in PROPS {
        if only.as_ref().map_or(false, |o| !o.split(',').any(|x| x == *p)) {
            continue;
        }
        let t = Instant::now();
        let res = proc::batch(p, seed, runs, secs, 8);
        println!(
            "{}: {} runs, {} distinct relevant, {} reqs, exact {} prefix {} unserved {} timed {}, stepcap {}, {:.1} s {}",
            p,
            res.runs,
            res.distinct.len(),
            res.requests,
            res.exact,
            res.prefix,
            res.unserved,
            res.timed,
            res.stepcap,
            t.elapsed().as_secs_f64(),
            res.error.clone().unwrap_or_default()
        );
        let mut by: BTreeMap<String, (u64, Vec<u64>, String)> = BTreeMap::new();
        for v in &res.violations {
            for x in &v.violations {
                let e = by.entry(x.kind.clone()).or_insert((0, vec![], x.msg.clone()));
                if e.1.len() < 6 && e.1.last() != Some(&v.index) {
                    e.1.push(v.index);
                }
                e.0 += 1;
                bad += 1;
            }
        }
        for (k, (n, i, m)) in by {
            println!("   {}x {} e.g. index {:?}: {}", n, k, i, m.chars().take(330).collect::<String>());
        }
        if args.iter().any(|a| a == "--stats") {
            println!("   {:?}\n   {:?}\n   {:?} {:?}", res.stats, res.feats, res.outcomes, res.modes);
        }
    }
    if bad > 0 {
        1
    } else {
        0
    }
}
