//! Per-run state shared by the instrumented user types: the history, the per-request
//! plans, live-object counters and step-triggered faults.

use crate::net::Conn;
use crate::scenario::*;
use crate::sim;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub props: Vec<&'static str>,
    pub req: u32,
    pub msg: String,
}

/// What came back for a request.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Resp { status: u16, headers: Vec<(String, String)>, body: Vec<u8>, complete: bool },
    /// the service future / decoder / client failed
    Err(String),
    /// decode modes
    Value(String),
    /// the future panicked
    Panicked(String),
    /// the connection ended without an answer
    Closed,
}

#[derive(Default)]
pub struct Cancel {
    pub flag: bool,
    pub task: Option<futures::task::Task>,
}

pub struct ReqRt {
    pub spec: ReqSpec,
    pub conn: usize,
    pub server: usize,
    pub mode: Mode,
    /// what every step must see of the request
    pub echo: String,
    pub guard_n: BTreeMap<String, usize>,
    pub steps: u32,
    pub log: Vec<String>,
    pub cancel: Arc<Mutex<Cancel>>,
    /// the future was dropped / connection was told to go away (simulated time)
    pub cancelled_at: Option<u64>,
    /// number of log entries when it was cancelled (direct modes only)
    pub log_at_cancel: Option<usize>,
    pub outcome: Option<Got>,
    pub outcome_at: u64,
    pub issued_at: Option<u64>,
    /// tasks waiting for the service to be called
    pub seen_wait: Vec<futures::task::Task>,
    /// body stream object: failed deliberately / fully delivered to the code under test
    pub disturbed: bool,
    /// disturbed by something after which the body may be lost
    pub body_lost: bool,
    pub bytes_sent_all: bool,
    pub closure_runs: u32,
    /// number of log entries when the body stream was polled for the first time
    pub body_polled_at: Option<usize>,
}

impl ReqRt {
    pub fn new(spec: ReqSpec, conn: usize, server: usize, mode: Mode, echo: String) -> ReqRt {
        ReqRt {
            spec,
            conn,
            server,
            mode,
            echo,
            guard_n: BTreeMap::new(),
            steps: 0,
            log: vec![],
            cancel: Arc::new(Mutex::new(Cancel::default())),
            cancelled_at: None,
            log_at_cancel: None,
            outcome: None,
            outcome_at: 0,
            issued_at: None,
            seen_wait: vec![],
            disturbed: false,
            body_lost: false,
            bytes_sent_all: false,
            closure_runs: 0,
            body_polled_at: None,
        }
    }
}

/// The service has been called with the request; otherwise the current task is woken when it is.
pub fn wait_served(id: u32) -> bool {
    w(|x| {
        let r = x.reqs.get_mut(&id).unwrap();
        if r.issued_at.is_some() {
            return true;
        }
        r.seen_wait.push(futures::task::current());
        false
    })
}

pub fn set_outcome(id: u32, got: Got) {
    let now = sim::now();
    sim::with(|c| {
        c.mix(&id.to_le_bytes());
        let line = format!("r{} outcome {:?}", id, short(&got));
        c.mix(line.as_bytes());
        c.tr(|| line);
    });
    w(|x| {
        if let Some(r) = x.reqs.get_mut(&id) {
            if r.outcome.is_some() {
                x.viols.push(Viol {
                    kind: "two-outcomes".into(),
                    props: vec!["P08", "P09"],
                    req: id,
                    msg: format!("second outcome {:?}", short(&got)),
                });
            } else {
                r.outcome = Some(got);
                r.outcome_at = now;
            }
        }
    });
}

pub fn short(g: &Got) -> String {
    match g {
        Got::Resp { status, headers, body, complete } => format!(
            "{} {:?} body({}B {:?}{}){}",
            status,
            headers.iter().filter(|h| h.0 != "date").collect::<Vec<_>>(),
            body.len(),
            String::from_utf8_lossy(&body[..body.len().min(60)]),
            if body.len() > 60 { "..." } else { "" },
            if *complete { "" } else { " INCOMPLETE" }
        ),
        o => format!("{:?}", o),
    }
}

pub struct World {
    pub scn: Arc<Scenario>,
    pub reqs: BTreeMap<u32, ReqRt>,
    pub conns: Vec<Option<Arc<Conn>>>,
    pub conn_faulted: Vec<bool>,
    pub conn_stall: Vec<u64>,
    pub fin_flags: Vec<Arc<Mutex<Cancel>>>,
    pub live: BTreeMap<u32, i64>,
    pub ctx_live: BTreeMap<u32, i64>,
    pub viols: Vec<Viol>,
    pub pending_steps: Vec<(usize, Fault)>,
    pub hist: Vec<(u64, u32, String)>,
    pub fired: Vec<(usize, u64)>,
    /// requests to be made from within a step of another one
    pub nested: BTreeMap<(u32, u32), Vec<Box<dyn FnOnce() + Send>>>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _np = sim::NoPreempt::new();
    let mut g = WORLD.lock().unwrap_or_else(|p| p.into_inner());
    f(g.as_mut().expect("no world"))
}

pub fn w_opt<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let _np = sim::NoPreempt::new();
    let mut g = WORLD.lock().unwrap_or_else(|p| p.into_inner());
    g.as_mut().map(f)
}

/// Ends the previous run for good (its tasks may be notified by what is dropped here).
pub fn clear() {
    let old = WORLD.lock().unwrap_or_else(|p| p.into_inner()).take();
    drop(old);
}

pub fn install(world: World) {
    *WORLD.lock().unwrap_or_else(|p| p.into_inner()) = Some(world);
}

pub fn viol(kind: &str, props: &[&'static str], req: u32, msg: String) {
    sim::trace(|| format!("VIOL {} {:?} r{}: {}", kind, props, req, msg));
    w(|x| {
        x.viols.push(Viol {
            kind: kind.to_string(),
            props: props.to_vec(),
            req,
            msg,
        })
    });
}

/// Records a step of a request and fires faults bound to it.
pub fn rec(req: u32, what: String) {
    sim::with(|c| {
        c.mix(&req.to_le_bytes());
        c.mix(what.as_bytes());
        let line = format!("r{} {}", req, what);
        c.tr(|| line);
    });
    let now = sim::now();
    let steppy = ["guard", "body", "fwd", "handler", "panic-handler"];
    let inner = steppy.iter().any(|p| what.starts_with(p)) && !sim::in_blocking();
    let mut nested = vec![];
    let due: Vec<(usize, Fault)> = w(|x| {
        x.hist.push((now, req, what.clone()));
        let n = match x.reqs.get_mut(&req) {
            Some(r) => {
                r.log.push(what);
                r.steps += 1;
                r.steps
            }
            None => return vec![],
        };
        if inner && !x.nested.is_empty() {
            nested = x.nested.remove(&(req, n)).unwrap_or_default();
        }
        let mut due = vec![];
        x.pending_steps.retain(|(i, f)| match f.trig {
            Trig::Step { req: fr, n: fnn, .. } if fr == req && fnn == n => {
                due.push((*i, f.clone()));
                false
            }
            _ => true,
        });
        due
    });
    for (i, f) in due {
        let lag = match f.trig {
            Trig::Step { lag, .. } => u64::from(lag),
            _ => 0,
        };
        sim::at(now + lag, move || fire(i, &f.act));
    }
    for f in nested {
        f();
    }
}

pub fn fire(idx: usize, act: &Act) {
    let now = sim::now();
    match act {
        Act::Rst(c) => {
            let conn = w(|x| x.conns.get(*c).and_then(|c| c.clone()));
            if let Some(conn) = conn {
                if conn.is_reset() {
                    return;
                }
                sim::stat("fault.conn_reset");
                sim::trace(|| format!("FAULT reset conn {}", c));
                w(|x| {
                    x.fired.push((idx, now));
                    x.conn_faulted[*c] = true;
                    mark(x, *c, now, true);
                });
                conn.reset();
            }
        }
        Act::Fin(c) => {
            let f = w(|x| {
                if x.conns.get(*c).map_or(true, |k| k.is_none()) {
                    return None;
                }
                x.conn_faulted[*c] = true;
                x.fired.push((idx, now));
                mark(x, *c, now, false);
                Some(x.fin_flags[*c].clone())
            });
            if let Some(f) = f {
                sim::stat("fault.early_close");
                sim::trace(|| format!("FAULT client closes conn {}", c));
                let t = {
                    let mut g = f.lock().unwrap_or_else(|p| p.into_inner());
                    g.flag = true;
                    g.task.take()
                };
                if let Some(t) = t {
                    t.notify();
                }
            }
        }
        Act::Stall(c, d) => {
            let conn = w(|x| x.conns.get(*c).and_then(|c| c.clone()));
            if let Some(conn) = conn {
                sim::stat("fault.conn_stall");
                sim::trace(|| format!("FAULT stall conn {} for {}", c, d));
                w(|x| {
                    x.fired.push((idx, now));
                    x.conn_stall[*c] += *d;
                });
                conn.stall(now + d);
            }
        }
        Act::Cancel(r) => {
            let c = w(|x| {
                x.fired.push((idx, now));
                x.reqs.get(r).map(|r| r.cancel.clone())
            });
            if let Some(c) = c {
                let t = {
                    let mut g = c.lock().unwrap_or_else(|p| p.into_inner());
                    g.flag = true;
                    g.task.take()
                };
                sim::trace(|| format!("FAULT cancel r{}", r));
                if let Some(t) = t {
                    t.notify();
                }
            }
        }
    }
}

/// Every unanswered request of the connection is now disturbed.
pub fn mark(x: &mut World, conn: usize, now: u64, lossy: bool) {
    for r in x.reqs.values_mut() {
        if r.conn == conn && r.outcome.is_none() {
            r.disturbed = true;
            if lossy || !r.bytes_sent_all {
                r.body_lost = true;
            }
            if r.cancelled_at.is_none() {
                r.cancelled_at = Some(now);
            }
        }
    }
}

// ------------------------------------------------------------------ live objects

/// Counts as an object owned by request `req` until dropped.
#[derive(Debug)]
pub struct Live(pub u32);
impl Live {
    pub fn new(req: u32) -> Live {
        w_opt(|x| *x.live.entry(req).or_insert(0) += 1);
        Live(req)
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        w_opt(|x| *x.live.entry(self.0).or_insert(0) -= 1);
    }
}

pub fn live_of(req: u32) -> i64 {
    w(|x| x.live.get(&req).cloned().unwrap_or(0))
}
