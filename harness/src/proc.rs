//! Process handling: every simulated run happens in a fresh forked process, so that it
//! depends on nothing but its scenario; a watchdog catches runs that never return.

use crate::oracle;
use crate::run;
use crate::scenario::{Mode, Scenario};
use crate::sim::{self, Choice, Rng};
use crate::{gen, mix, relevant};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub props: Vec<String>,
    pub req: u32,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub order_hash: u64,
    pub steps: u64,
    pub now: u64,
    pub stats: BTreeMap<String, u64>,
    pub feats: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub exact: u64,
    pub prefix: u64,
    pub unserved: u64,
    pub timed: u64,
    pub decisions: Vec<u32>,
    pub trace: Vec<String>,
    pub max_par: u32,
    pub stepcap: bool,
    pub requests: u64,
    pub mode: String,
    #[serde(default)]
    pub harness_error: Option<String>,
}

/// Runs the scenario right here.
pub fn in_process(scn: &Scenario, decisions: Option<&[u32]>, trace: bool) -> Report {
    let choice = match decisions {
        Some(d) => Choice::Replay(d.to_vec()),
        None => Choice::Gen(Rng(scn.seed ^ 0xDEC1_51F0_0000_0003)),
    };
    let s = Arc::new(scn.clone());
    let out = run::run(s, choice, trace);
    let (v, cov) = oracle::judge(scn, &out);
    let mut r = Report {
        violations: v
            .into_iter()
            .map(|x| Violation {
                kind: x.kind,
                props: x.props.iter().map(|p| p.to_string()).collect(),
                req: x.req,
                msg: x.msg,
            })
            .collect(),
        feats: cov.feats.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        outcomes: cov.outcomes,
        exact: cov.exact,
        prefix: cov.prefix,
        unserved: cov.unserved,
        timed: cov.timed,
        stepcap: out.end == sim::End::StepCap,
        requests: scn.n_reqs() as u64,
        mode: format!("{:?}", scn.mode),
        ..Report::default()
    };
    sim::with(|c| {
        r.order_hash = c.order_hash;
        r.steps = c.steps;
        r.now = c.now;
        r.stats = c.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        r.decisions = c.decisions.clone();
        r.trace = std::mem::replace(&mut c.trace, vec![]);
        r.max_par = c.max_parallel_blocking;
    });
    r
}

/// Whether the scenario is played several times in one process to see what is left over.
fn repeated(scn: &Scenario) -> bool {
    scn.profile == "P12" && scn.mode != Mode::SyncCall && scn.seed % 2 == 0
}

/// Runs the scenario; some are run again in the same process: the same requests must not
/// need more and more memory, descriptors or threads.
fn with_repeats(scn: &Scenario, decisions: Option<&[u32]>, trace: bool) -> Report {
    let mut r = in_process(scn, decisions, trace);
    if !repeated(scn) || !r.violations.is_empty() || r.stepcap {
        return r;
    }
    // On one thread only: the regular expressions keep something for every thread.
    let mut single = scn.clone();
    single.sim.runners = 0;
    single.sim.preempt = 0;
    let mut at = [(0, 0, 0, 0); 3];
    for x in at.iter_mut() {
        let q = in_process(&single, None, false);
        if !q.violations.is_empty() || q.stepcap {
            return r;
        }
        drop(q);
        let (bytes, blocks) = crate::seam::live();
        *x = (bytes, blocks, run::count("/proc/self/fd"), run::count("/proc/self/task"));
    }
    let grown = |f: fn(&(i64, i64, i64, i64)) -> i64| (f(&at[1]) - f(&at[0])).min(f(&at[2]) - f(&at[1]));
    let (bytes, fds, threads) = (grown(|a| a.0), grown(|a| a.2), grown(|a| a.3));
    *r.stats.entry("probe.repeated_scenarios".into()).or_insert(0) += 1;
    if std::env::var("HD_MEM").is_ok() {
        eprintln!("mem {} {} {} {:?}", bytes, fds, threads, at);
    }
    if bytes >= 64.max(scn.n_reqs() as i64) || fds > 0 || threads > 0 {
        let mut props = vec!["P12".to_string()];
        match scn.mode {
            Mode::BlockApi => props.push("P11".into()),
            _ => {}
        }
        r.violations.push(Violation {
            kind: "growth".into(),
            props,
            req: 0,
            msg: format!(
                "each time the same {} requests are served again, at least {} bytes, {} file descriptors and {} threads more are in use afterwards ({:?})",
                scn.n_reqs(), bytes, fds, threads, at
            ),
        });
    }
    r
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HD_PANICS").is_ok() { eprintln!("{}", i); }
        LAST_PANIC.lock().map(|mut g| *g = format!("{}", i)).unwrap_or(());
    }));
}
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Runs the scenario in a child process.
pub fn forked(scn: &Scenario, decisions: Option<&[u32]>, trace: bool, secs: u64) -> Report {
    unsafe {
        let mut fd = [0i32; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return harness("pipe failed");
        }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fd[0]);
            libc::close(fd[1]);
            return harness("fork failed");
        }
        if pid == 0 {
            libc::close(fd[0]);
            quiet_panics();
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            // threads come cheap
            libc::mallopt(-8, 2);
            let mut f = std::fs::File::from_raw_fd(fd[1]);
            // On a thread of its own, so that thread-local state (hash map keys) is fresh.
            crate::seam::start(scn.seed);
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, || {
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_repeats(scn, decisions, trace)))
                    })
                    .expect("no thread")
                    .join()
                    .expect("simulation thread")
            });
            crate::seam::stop();
            let r = match r {
                Ok(r) => r,
                Err(p) => {
                    let at = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
                    let msg = format!("panic outside of any simulated task: {} ({})", sim::payload_str(&*p), at);
                    if at.contains("at /repo/") {
                        // hyperdrive itself panicked where no user code can
                        let mut props: Vec<String> = ["P08", "P17"].iter().map(|s| s.to_string()).collect();
                        if !props.contains(&scn.profile) {
                            props.push(scn.profile.clone());
                        }
                        Report {
                            violations: vec![Violation { kind: "panic-outside".into(), props, req: 0, msg }],
                            mode: format!("{:?}", scn.mode),
                            requests: scn.n_reqs() as u64,
                            ..Report::default()
                        }
                    } else {
                        harness(&msg)
                    }
                }
            };
            let s = serde_json::to_vec(&r).unwrap_or_default();
            let _ = f.write_all(&s);
            let _ = f.flush();
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut f = std::fs::File::from_raw_fd(fd[0]);
        let end = Instant::now() + Duration::from_secs(secs);
        let mut buf = vec![];
        let mut hung = false;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left == Duration::from_secs(0) {
                hung = true;
                break;
            }
            let mut p = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, (left.as_millis() as i32).max(1));
            if n < 0 {
                continue;
            }
            if n == 0 {
                continue;
            }
            let mut b = [0u8; 65536];
            match f.read(&mut b) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        if hung {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !hung {
            if let Ok(r) = serde_json::from_slice::<Report>(&buf) {
                return r;
            }
        }
        let mut r = Report { mode: format!("{:?}", scn.mode), requests: scn.n_reqs() as u64, ..Report::default() };
        let mut props: Vec<String> = ["P08", "P10", "P11", "P12", "P15", "P16"].iter().map(|s| s.to_string()).collect();
        if !props.contains(&scn.profile) {
            props.push(scn.profile.clone());
        }
        r.violations.push(if hung {
            Violation {
                kind: "real-hang".into(),
                props,
                req: 0,
                msg: format!("the simulated run did not return within {} s of real time ({:?})", secs, scn.mode),
            }
        } else {
            Violation {
                kind: "process-died".into(),
                props,
                req: 0,
                msg: format!("the process running the simulation died (wait status {:#x})", st),
            }
        });
        r
    }
}

fn harness(m: &str) -> Report {
    Report { harness_error: Some(m.to_string()), ..Report::default() }
}

/// As `forked`; a hang is only believed when a second, longer run hangs as well.
pub fn forked_sure(scn: &Scenario, decisions: Option<&[u32]>, trace: bool) -> Report {
    let r = forked(scn, decisions, trace, 15);
    if r.violations.iter().any(|v| v.kind == "real-hang") {
        return forked(scn, decisions, trace, 40);
    }
    r
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hit {
    pub index: u64,
    pub violations: Vec<Violation>,
    pub decisions: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Batch {
    pub runs: u64,
    pub requests: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub stats: BTreeMap<String, u64>,
    pub feats: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub modes: BTreeMap<String, u64>,
    pub exact: u64,
    pub prefix: u64,
    pub unserved: u64,
    pub timed: u64,
    pub stepcap: u64,
    pub max_par: u32,
    pub all_hashes: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub hashes: u64,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Hit>,
    pub error: Option<String>,
}

impl Batch {
    fn add(&mut self, prop: &str, i: u64, scn: &Scenario, r: Report) {
        if let Some(e) = r.harness_error {
            if self.error.is_none() {
                self.error = Some(format!("run {}: {}", i, e));
            }
            return;
        }
        self.runs += 1;
        self.requests += r.requests;
        self.sim_us += r.now;
        self.steps += r.steps;
        for (k, v) in &r.stats {
            *self.stats.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.feats {
            *self.feats.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.outcomes {
            *self.outcomes.entry(k.clone()).or_insert(0) += v;
        }
        *self.modes.entry(r.mode.clone()).or_insert(0) += 1;
        self.exact += r.exact;
        self.prefix += r.prefix;
        self.unserved += r.unserved;
        self.timed += r.timed;
        self.stepcap += u64::from(r.stepcap);
        self.max_par = self.max_par.max(r.max_par);
        self.all_hashes.insert(r.order_hash);
        if relevant(prop, &r) {
            let new = self.distinct.insert(r.order_hash);
            if new && self.samples.len() < 2 {
                self.samples.push(serde_json::json!({
                    "index": i,
                    "mode": r.mode,
                    "servers": scn.servers.iter().map(|s| format!("{} {:?} {:?} ctx{}", s.app, s.kind, s.wraps, s.ctx)).collect::<Vec<_>>(),
                    "requests": scn.conns.iter().enumerate().flat_map(|(ci, c)| c.reqs.iter().take(4).map(move |q| format!(
                        "conn{} server{} r{}: {} {} body {}B {:?} cut {:?}", ci, c.server, q.id, q.method, q.target.chars().take(80).collect::<String>(), q.body.bytes.len(), q.body.framing, q.body.cut))).take(8).collect::<Vec<_>>(),
                    "faults": scn.faults.iter().map(|f| format!("{:?}", f)).collect::<Vec<_>>(),
                    "scheduling_decisions": r.decisions.len(),
                    "steps": r.steps,
                    "simulated_us": r.now,
                }));
            }
        }
        if !r.violations.is_empty() {
            self.violations.push(Hit { index: i, violations: r.violations, decisions: r.decisions });
        }
    }
    fn merge(&mut self, o: Batch) {
        self.runs += o.runs;
        self.requests += o.requests;
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        for (a, b) in vec![
            (&mut self.stats, o.stats),
            (&mut self.feats, o.feats),
            (&mut self.outcomes, o.outcomes),
            (&mut self.modes, o.modes),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.exact += o.exact;
        self.prefix += o.prefix;
        self.unserved += o.unserved;
        self.timed += o.timed;
        self.stepcap += o.stepcap;
        self.max_par = self.max_par.max(o.max_par);
        self.all_hashes.extend(o.all_hashes);
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        if self.error.is_none() {
            self.error = o.error;
        }
    }
}

/// Runs `runs` scenarios of a profile on `jobs` worker processes.
pub fn batch(prop: &str, seed: u64, runs: u64, secs: u64, jobs: u64) -> Batch {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut kids = vec![];
    for j in 0..jobs {
        unsafe {
            let mut fd = [0i32; 2];
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fd[0]);
                let mut b = Batch::default();
                let m = oracle::models();
                let mut i = j;
                while i < runs && Instant::now() < end {
                    let s = mix(seed, prop[1..].parse().unwrap(), i);
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gen::scenario(prop, s, &m))) {
                        Ok(scn) => {
                            let r = forked_sure(&scn, None, false);
                            b.add(prop, i, &scn, r);
                        }
                        Err(_) => b.error = Some(format!("generator panicked on run {}", i)),
                    }
                    if b.violations.len() > 60 {
                        break;
                    }
                    i += jobs;
                }
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let _ = f.write_all(&serde_json::to_vec(&b).unwrap());
                let _ = f.flush();
                libc::_exit(0);
            }
            libc::close(fd[1]);
            kids.push((pid, fd[0]));
        }
    }
    let mut all = Batch::default();
    for (pid, fd) in kids {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut buf = vec![];
        let _ = f.read_to_end(&mut buf);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Batch>(&buf) {
            Ok(b) => all.merge(b),
            Err(e) => all.error = Some(format!("worker process failed (status {:#x}): {}", st, e)),
        }
    }
    all.hashes = all.all_hashes.len() as u64;
    all
}

#[allow(dead_code)]
fn unused(_: Mode) {}
