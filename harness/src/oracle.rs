//! Judges the recorded history of one run against the reference model.

use crate::model::{self, AppModel, Expect, Outcome, ReqIn};
use crate::run::{block_value, RunOut};
use crate::scenario::*;
use crate::sim;
use crate::world::{self, short, Got, ReqRt};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Verdict {
    pub kind: String,
    pub props: BTreeSet<&'static str>,
    pub req: u32,
    pub msg: String,
}

pub type Models = BTreeMap<&'static str, &'static AppModel>;

pub fn models() -> Models {
    crate::apps::all().iter().map(|a| (a.model.name, a.model)).collect()
}

/// Names of headers hyper itself adds.
fn transport(h: &str) -> bool {
    h == "date" || h == "content-length" || h == "transfer-encoding" || h == "connection"
}

fn allow_set(h: &[(String, String)]) -> Option<BTreeSet<String>> {
    let mut some = false;
    let mut s = BTreeSet::new();
    for (k, v) in h {
        if k == "allow" {
            some = true;
            for m in v.split(',') {
                let m = m.trim();
                if !m.is_empty() {
                    s.insert(m.to_string());
                }
            }
        }
    }
    if some {
        Some(s)
    } else {
        None
    }
}

/// Compares what came back with what had to come back.
/// `lossy`: the transport may have cut the answer.
fn match_outcome(e: &Outcome, got: &Got, spec: &ReqSpec, mode: Mode, lossy: bool) -> Result<(), String> {
    let wire = mode == Mode::H1 || mode == Mode::H2;
    let bad = |what: &str| {
        let mut x = format!("{:?}", e);
        if let Outcome::Handler { status, hdrs, body, complete } = e {
            x = format!("{} {:?} body({}B, complete {})", status, hdrs, body.len(), complete);
        }
        Err(format!("{}: expected {}, got {}", what, x, short(got)))
    };
    match (e, got) {
        (_, Got::Closed) | (_, Got::Err(_)) if lossy && wire => return Ok(()),
        (Outcome::Fails(_), Got::Closed) if mode == Mode::H1 => return Ok(()),
        (Outcome::Fails(_), Got::Err(_)) if mode == Mode::H2 => return Ok(()),
        (Outcome::Unwinds(_), Got::Closed) if mode == Mode::H1 => return Ok(()),
        (Outcome::Unwinds(_), Got::Err(_)) if mode == Mode::H2 => return Ok(()),
        // A response whose body fails: the connection (stream) may be given up before even the
        // head of the response has been sent.
        (Outcome::Handler { complete: false, .. }, Got::Closed) if mode == Mode::H1 => return Ok(()),
        (Outcome::Handler { complete: false, .. }, Got::Err(_)) if mode == Mode::H2 => return Ok(()),
        (Outcome::Fails(x), Got::Err(y)) | (Outcome::HdErr(x), Got::Err(y)) => {
            return if x == y { Ok(()) } else { bad("error differs") };
        }
        (Outcome::Unwinds(x), Got::Panicked(y)) => {
            return if x == y { Ok(()) } else { bad("panic payload differs") };
        }
        (Outcome::Value(x), Got::Value(y)) => {
            return if x == y { Ok(()) } else { bad("decoded value differs") };
        }
        _ => {}
    }
    let (status, headers, body, complete) = match got {
        Got::Resp { status, headers, body, complete } => (*status, headers, body, *complete),
        _ => return bad("outcome"),
    };
    let head = spec.method == "HEAD";
    let check_body = |want: &[u8], want_complete: bool| -> Result<(), String> {
        let want: &[u8] = if head { b"" } else { want };
        if lossy {
            if body.len() > want.len() || &want[..body.len()] != &body[..] {
                return Err(format!("response body differs (got {}B, expected a prefix of {}B)", body.len(), want.len()));
            }
            return Ok(());
        }
        if want_complete || head {
            if !complete {
                return Err(format!("response body ended early after {} of {} bytes", body.len(), want.len()));
            }
            if &body[..] != want {
                return Err(format!(
                    "response body differs: got {}B {:?}, expected {}B {:?}",
                    body.len(),
                    String::from_utf8_lossy(&body[..body.len().min(40)]),
                    want.len(),
                    String::from_utf8_lossy(&want[..want.len().min(40)])
                ));
            }
        } else {
            // a body that ends with the connection cannot be told from a shortened one
            let by_close = mode == Mode::H1 && spec.version == 10;
            if complete && !by_close {
                return Err("a failing response body was delivered as complete".into());
            }
            if body.len() > want.len() || &want[..body.len()] != &body[..] {
                return Err("failing response body differs".into());
            }
        }
        Ok(())
    };
    let mut got_h: Vec<(String, String)> =
        headers.iter().filter(|h| !(wire && transport(&h.0))).cloned().collect();
    got_h.sort_by(|a, b| a.0.cmp(&b.0));
    match e {
        Outcome::Handler { status: s, hdrs, body: b, complete: c } => {
            if *s != status {
                return bad("status");
            }
            let mut want = vec![("x-resp".to_string(), spec.id.to_string())];
            want.extend(hdrs.iter().cloned());
            if mode == Mode::Direct {
                want.push(("~ext".into(), spec.id.to_string()));
                let ver = if spec.id % 4 == 1 { "HTTP/1.0" } else { "HTTP/1.1" };
                want.push(("~version".into(), ver.into()));
                if spec.method != "HEAD" {
                    let len = match &spec.plan.handler.out {
                        HOut::Resp { body: RBody::Stream(_), .. } | HOut::Resp { body: RBody::Fail(_), .. } => None,
                        _ => Some(b.len() as u64),
                    };
                    want.push(("~length".into(), format!("{:?}", len)));
                }
            }
            want.sort_by(|a, b| a.0.cmp(&b.0));
            if want != got_h {
                return Err(format!("response headers differ: expected {:?}, got {:?}", want, got_h));
            }
            check_body(b, *c)
        }
        Outcome::Error { status: s, allow } => {
            if *s != status {
                return bad("status");
            }
            let a = allow_set(&got_h);
            if a != *allow {
                return Err(format!("Allow header: expected {:?}, got {:?}", allow, a));
            }
            got_h.retain(|h| h.0 != "allow");
            if !got_h.is_empty() {
                return Err(format!("unexpected headers on an error response: {:?}", got_h));
            }
            check_body(b"", true)
        }
        Outcome::PanicResp { status: s, name } => {
            if *s != status {
                return bad("status");
            }
            if got_h != vec![("x-panic".to_string(), name.clone())] {
                return Err(format!("panic response headers: {:?}, payload {:?}", got_h, name));
            }
            check_body(format!("panic:{}", name).as_bytes(), true)
        }
        _ => bad("outcome"),
    }
}

fn strip_end(log: &[String]) -> &[String] {
    let mut n = log.len();
    while n > 0 && (log[n - 1] == "dropped" || log[n - 1] == "unwound") {
        n -= 1;
    }
    &log[..n]
}

fn is_prefix(a: &[String], b: &[String]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}

/// Which properties a deviation of this request speaks about.
fn tags(
    scn: &Scenario,
    spec: &ReqSpec,
    srv: &ServerCfg,
    app: &AppModel,
    e: &Expect,
    want: &str,
    got: &str,
) -> BTreeSet<&'static str> {
    let f = &e.decode.feat;
    let mut t: BTreeSet<&'static str> = BTreeSet::new();
    let mut add = |c: bool, p: &'static str| {
        if c {
            t.insert(p);
        }
    };
    let svc = scn.mode == Mode::Direct || scn.mode == Mode::H1 || scn.mode == Mode::H2;
    let hd_err = match &e.outcome {
        Outcome::Error { .. } | Outcome::HdErr(_) => true,
        _ => false,
    };
    let fails = match &e.outcome {
        Outcome::Fails(_) => true,
        _ => false,
    };
    let guardish = |s: &str| s.starts_with("guard") || s.starts_with("body") || s.starts_with("fwd");
    let all: String = format!("{} {}", want, got);
    add(true, "P01");
    add(
        f.wrong_method || all.contains("405") || all.contains("Allow"),
        "P02",
    );
    add(spec.method == "HEAD" || f.implicit_head || scn.conns.iter().any(|c| c.reqs.iter().any(|r| r.method == "HEAD")), "P03");
    add(
        f.guards > 0 || f.query || f.body_step || f.forward || guardish(want) || guardish(got),
        "P04",
    );
    add(f.body_type.is_some() && spec.body.cut.is_none(), "P05");
    add(
        spec.body.cut.is_some() || (f.body_type.is_some() && (want.contains("hyper") || got.contains("hyper"))),
        "P06",
    );
    add(svc && (hd_err || fails || got.contains("ret 4") || got.contains("ret 5") || got.contains("ret err")), "P07");
    add(svc, "P08");
    add(svc && (scn.n_reqs() > 1), "P09");
    add(svc && srv.wraps.contains(&Wrap::Catch), "P10");
    add(srv.kind == SvcKind::Sync && svc || f.blocking > 0, "P11");
    add(!scn.faults.is_empty(), "P12");
    add(app.ctx != "none" || scn.servers.len() > 1, "P13");
    add(f.forward || f.fallback || app.variants.iter().any(|v| v.fields.iter().any(|f| f.kind == "fwd")), "P14");
    add(!svc, "P15");
    add(svc && (!srv.wraps.is_empty() || srv.make == MakeKind::Cloning || scn.conns.len() > 1), "P17");
    t
}

fn first_diff(want: &[String], got: &[String]) -> (String, String) {
    let n = want.iter().zip(got.iter()).take_while(|(a, b)| a == b).count();
    (
        want.get(n).cloned().unwrap_or_else(|| "<end>".into()),
        got.get(n).cloned().unwrap_or_else(|| "<end>".into()),
    )
}

pub fn inner_find<'a>(m: &'a Models) -> impl Fn(&str) -> &'static AppModel + 'a {
    move |n: &str| *m.get(n).unwrap_or_else(|| panic!("model: unknown app {}", n))
}

pub fn expect_of(scn: &Scenario, m: &Models, server: usize, r: &ReqSpec, body_ok: bool) -> Expect {
    let srv = &scn.servers[server];
    let app = m[srv.app.as_str()];
    let find = inner_find(m);
    model::expect(
        app,
        &ReqIn { spec: r, ctx: srv.ctx, body_ok, find: &find },
        scn.mode,
        server,
        srv,
    )
}

fn gate_total(srv: &ServerCfg) -> u64 {
    srv.gate
        .iter()
        .map(|g| match g {
            GateStep::NotReady(d) => u64::from(*d),
            _ => 0,
        })
        .sum()
}

#[derive(Default, Clone, Debug)]
pub struct Cover {
    pub exact: u64,
    pub prefix: u64,
    pub unserved: u64,
    pub timed: u64,
    pub outcomes: BTreeMap<String, u64>,
    /// how often the situations the properties speak about occurred
    pub feats: BTreeMap<&'static str, u64>,
}

fn note_feats(scn: &Scenario, spec: &ReqSpec, srv: &ServerCfg, app: &AppModel, e: &Expect, rt: &ReqRt, cov: &mut Cover) {
    let f = &e.decode.feat;
    let mut add = |c: bool, n: &'static str| {
        if c {
            *cov.feats.entry(n).or_insert(0) += 1;
        }
    };
    let log = &rt.log;
    let ran = rt.outcome.is_some() || !log.is_empty();
    if !ran {
        add(true, "not-reached");
        return;
    }
    add(true, "dispatched");
    add(f.wrong_method, "wrong-method");
    add(f.merged, "405-merged");
    add(f.implicit_head, "implicit-head");
    add(spec.method == "HEAD", "head");
    add(f.guards > 1, "several-guards");
    add(f.guards > 0 || f.query || f.body_step, "extraction");
    add(f.fallback, "fallback");
    add(f.forward, "forwarded");
    add(f.body_type.map_or(false, |t| t.starts_with("Json") || t.starts_with("HtmlForm")), "decoded-body");
    add(f.body_consumed && spec.body.pieces.len() > 1, "split-body");
    add(f.body_type.is_some() && (spec.body.cut.is_some() || rt.body_lost), "body-cut-short");
    add(f.blocking > 0 || srv.kind == SvcKind::Sync && e.handler_runs, "blocking");
    add(e.handler_runs, "handler");
    add(e.panics, "panic");
    add(e.panics && srv.wraps.contains(&Wrap::Catch), "caught-panic");
    add(app.ctx != "none" && (f.guards > 0 || f.body_step || f.forward), "context-seen");
    add(srv.wraps.contains(&Wrap::Gate), "gated-service");
    add(srv.wraps.contains(&Wrap::Clone) || scn.conns.len() > 1, "cloned-service");
    match &e.outcome {
        Outcome::Error { .. } | Outcome::HdErr(_) => add(true, "hyperdrive-error"),
        Outcome::Fails(_) => add(true, "foreign-error"),
        _ => {}
    }
    add(rt.cancelled_at.is_some(), "cancelled");
    add(rt.cancelled_at.is_some() && !log.is_empty() && !log.iter().any(|s| s.starts_with("ret ")), "cancelled-midway");
    add(e.own_delay > 0, "suspended");
    add(e.own_delay >= 10_000_000, "very-slow");
}

pub fn judge(scn: &Scenario, out: &RunOut) -> (Vec<Verdict>, Cover) {
    let m = models();
    let mut v: Vec<Verdict> = vec![];
    let mut cov = Cover::default();
    let any_fault = !scn.faults.is_empty();

    // Violations noticed while the run proceeded.
    let viols = world::w(|x| x.viols.clone());
    for q in viols {
        v.push(Verdict {
            kind: q.kind,
            props: q.props.into_iter().collect(),
            req: q.req,
            msg: q.msg,
        });
    }
    let (inline, panics) = sim::with(|c| (c.inline_block, c.panics.clone()));
    if inline > 0 {
        v.push(Verdict {
            kind: "inline-block".into(),
            props: vec!["P08", "P11", "P16"].into_iter().collect(),
            req: 0,
            msg: format!("{} blocking calls stalled a worker outside of a blocking section", inline),
        });
    }
    let reqs: BTreeMap<u32, ReqRt> = world::w(|x| std::mem::replace(&mut x.reqs, BTreeMap::new()));
    let stalls = world::w(|x| x.conn_stall.clone());

    if scn.mode == Mode::BlockApi {
        judge_blocking(scn, &reqs, &mut v, &mut cov);
    } else {
        for (ci, c) in scn.conns.iter().enumerate() {
            judge_conn(scn, &m, ci, c, &reqs, &stalls, &mut v, &mut cov, any_fault);
        }
    }

    if out.end == sim::End::StepCap {
        v.push(Verdict {
            kind: "livelock".into(),
            props: vec!["P16", "P15", "P11", "P12"].into_iter().collect(),
            req: 0,
            msg: "the run did not come to rest within the step bound".into(),
        });
    } else {
        for (id, n) in &out.live {
            if *n != 0 && !v.iter().any(|x| x.req == *id) {
                let mut props: BTreeSet<_> = vec!["P12"].into_iter().collect();
                if scn.mode == Mode::SyncCall {
                    props.insert("P15");
                }
                if scn.mode == Mode::BlockApi {
                    props.insert("P11");
                }
                v.push(Verdict {
                    kind: "leak".into(),
                    props,
                    req: *id,
                    msg: format!("{} objects of request {} are still alive at the end", n, id),
                });
            }
        }
        // A few may belong to something that is there once per process.
        if out.end == sim::End::Quiescent && (out.fds >= 8 || out.threads >= 3) {
            let mut props: BTreeSet<_> = vec!["P12"].into_iter().collect();
            if scn.mode == Mode::SyncCall {
                props.insert("P15");
            }
            if scn.mode == Mode::BlockApi {
                props.insert("P11");
            }
            v.push(Verdict {
                kind: "os-leak".into(),
                props,
                req: 0,
                msg: format!(
                    "{} file descriptors and {} threads are left of {} requests",
                    out.fds,
                    out.threads,
                    scn.n_reqs()
                ),
            });
        }
        // h2 0.1 can miss the wake-up that ends a connection whose peer has gone; its tasks (and the
        // service they own) then stay behind although every request has been dealt with.
        let h2_settled = scn.mode == Mode::H2
            && reqs.values().all(|r| r.outcome.is_some() || r.disturbed || r.spec.body.cut.is_some());
        let excused = |n: &String| {
            h2_settled && (n.starts_with("hyper") || n.starts_with("h2client") || n.starts_with("sender"))
        };
        let left: Vec<String> = out.left.iter().filter(|n| !excused(n)).cloned().collect();
        let conn_left = out.left.iter().any(|n| excused(n));
        for (id, n) in &out.ctx_live {
            if *n != 0 && !conn_left {
                v.push(Verdict {
                    kind: "context-leak".into(),
                    props: vec!["P12", "P13"].into_iter().collect(),
                    req: 0,
                    msg: format!("{} clones of context {} are still alive at the end", n, id),
                });
            }
        }
        if !left.is_empty() {
            v.push(Verdict {
                kind: "task-left".into(),
                props: vec!["P12", "P16"].into_iter().collect(),
                req: 0,
                msg: format!("tasks never finished: {:?}", left),
            });
        }
    }
    if !panics.is_empty() {
        // Task panics are legitimate only where nothing catches a planned panic.
        let planned = scn.conns.iter().any(|c| {
            c.reqs.iter().any(|r| {
                let e = expect_of_safe(scn, &m, c.server, r);
                e.map_or(false, |e| if let Outcome::Unwinds(_) = e.outcome { true } else { false })
            })
        });
        if !planned {
            v.push(Verdict {
                kind: "unexpected-panic".into(),
                props: vec!["P01", "P08", "P10", "P11", "P12", "P16"].into_iter().collect(),
                req: 0,
                msg: format!("tasks panicked: {:?}", panics),
            });
        }
    }
    (v, cov)
}

fn expect_of_safe(scn: &Scenario, m: &Models, server: usize, r: &ReqSpec) -> Option<Expect> {
    if scn.mode == Mode::BlockApi {
        return None;
    }
    Some(expect_of(scn, m, server, r, r.body.cut.is_none()))
}

#[allow(clippy::too_many_arguments)]
fn judge_conn(
    scn: &Scenario,
    m: &Models,
    ci: usize,
    c: &ConnCfg,
    reqs: &BTreeMap<u32, ReqRt>,
    stalls: &[u64],
    v: &mut Vec<Verdict>,
    cov: &mut Cover,
    _any_fault: bool,
) {
    let srv = &scn.servers[c.server];
    let app = m[srv.app.as_str()];
    let mode = scn.mode;
    // HTTP/1: whether the connection may legitimately be gone before the next request
    let mut maybe = false;
    let gate_err = if srv.wraps.contains(&Wrap::Gate) {
        srv.gate.iter().position(|g| *g == GateStep::Err)
    } else {
        None
    };
    if let (Some(j), Mode::Direct) = (gate_err, mode) {
        let called = c.reqs.iter().filter(|r| reqs[&r.id].issued_at.is_some()).count();
        let dist = c.reqs.iter().filter(|r| reqs[&r.id].disturbed).count();
        let want = j.min(c.reqs.len());
        if called > want || called + dist < want {
            v.push(Verdict {
                kind: "readiness-error".into(),
                props: vec!["P17"].into_iter().collect(),
                req: c.reqs.first().map_or(0, |r| r.id),
                msg: format!("{} requests were pushed into a service that fails its readiness check after {} calls", called, j),
            });
        }
    }
    // HTTP/1: what makes the server close the connection after a request
    let closes = |spec: &ReqSpec, e: &Expect| -> bool {
        let nonempty = spec.body.framing == Framing::Chunked
                || spec.body.framing == Framing::Channel
                || !spec.body.bytes.is_empty();
        let unread = spec.body.framing != Framing::None && nonempty && !e.decode.feat.body_consumed;
        let gone = match &e.outcome {
            Outcome::Fails(_) | Outcome::Unwinds(_) => true,
            Outcome::Handler { complete, .. } => !complete,
            _ => false,
        };
        gone || unread || spec.close || spec.version == 10 || spec.body.cut.is_some()
    };
    // hyper's pipeline flushing keeps answers back while more requests are buffered, and drops
    // them when one of those closes the connection
    let last_close = if mode == Mode::H1 && srv.h1_pipeline_flush {
        c.reqs.iter().rposition(|r| closes(r, &expect_of(scn, m, c.server, r, r.body.cut.is_none())))
    } else {
        None
    };
    let mut due = u64::from(c.start);
    for (ri, spec) in c.reqs.iter().enumerate() {
        let rt = &reqs[&spec.id];
        due += u64::from(spec.gap);
        let cut = spec.body.cut.is_some();
        let e = expect_of(scn, m, c.server, spec, !cut);
        let log = strip_end(&rt.log);
        let nonempty = spec.body.framing == Framing::Chunked
                || spec.body.framing == Framing::Channel
                || !spec.body.bytes.is_empty();
        let unread = spec.body.framing != Framing::None && nonempty && !e.decode.feat.body_consumed;
        let got = rt.outcome.clone();
        let key = match &e.outcome {
            Outcome::Handler { .. } => "handler",
            Outcome::Error { .. } => "error-response",
            Outcome::PanicResp { .. } => "panic-response",
            Outcome::Fails(_) => "service-error",
            Outcome::Unwinds(_) => "unwinds",
            Outcome::Value(_) => "value",
            Outcome::HdErr(_) => "hd-error",
        };
        *cov.outcomes.entry(key.to_string()).or_insert(0) += 1;
        note_feats(scn, spec, srv, app, &e, rt, cov);

        // Nothing may follow the drop of a request's future.
        if let Some(i) = rt.log.iter().position(|s| s == "dropped") {
            if let Some(x) = rt.log[i + 1..].iter().find(|s| *s != "dropped" && *s != "unwound") {
                v.push(Verdict {
                    kind: "step-after-drop".into(),
                    props: vec!["P12"].into_iter().collect(),
                    req: spec.id,
                    msg: format!("`{}` happened after the request was dropped; history {:?}", x, rt.log),
                });
            }
        }
        if let Some(n) = rt.log_at_cancel {
            if let Some(x) = rt.log[n.min(rt.log.len())..].iter().find(|s| *s != "dropped" && *s != "unwound") {
                v.push(Verdict {
                    kind: "step-after-cancel".into(),
                    props: vec!["P12"].into_iter().collect(),
                    req: spec.id,
                    msg: format!("`{}` happened after the request was cancelled; history {:?}", x, rt.log),
                });
            }
        }

        // The body is the last thing to be asked for, and only by a decoder that wants it.
        if let Some(n) = rt.body_polled_at {
            let guards = |l: &[String]| l.iter().filter(|s| s.starts_with("guard")).count();
            let f = &e.decode.feat;
            let early = f.body_consumed && guards(&rt.log[..n.min(rt.log.len())]) < guards(&e.decode.steps);
            let unwanted = !f.body_consumed && e.decode.res.is_err();
            cov.feats.entry("body-asked-for".into()).and_modify(|x| *x += 1).or_insert(1);
            if early || unwanted {
                let mut props: BTreeSet<&'static str> = vec!["P04"].into_iter().collect();
                if unwanted && e.decode.steps.is_empty() {
                    props.insert("P01");
                    if f.wrong_method {
                        props.insert("P02");
                    }
                }
                v.push(Verdict {
                    kind: "body-early".into(),
                    props,
                    req: spec.id,
                    msg: format!(
                        "the body of `{} {}` to {} was read {}; history {:?}, read after {} of them",
                        spec.method,
                        spec.target,
                        srv.app,
                        if early { "before the guards had accepted the request" } else { "although the request was rejected" },
                        rt.log,
                        n
                    ),
                });
            }
        }

        let disturbed = rt.disturbed || (cut && mode == Mode::H2);
        let soft = disturbed || maybe;
        let gate_failed = gate_err.is_some() && rt.issued_at.is_none() && mode == Mode::Direct;
        if gate_failed && !disturbed {
            if got != Some(Got::Err(format!("ready:other:gate:{}", c.server))) || !rt.log.is_empty() {
                v.push(Verdict {
                    kind: "readiness-error".into(),
                    props: vec!["P17"].into_iter().collect(),
                    req: spec.id,
                    msg: format!("the readiness error was not reported: {:?}", got.as_ref().map(short)),
                });
            }
            cov.exact += 1;
            continue;
        }
        if soft {
            cov.prefix += 1;
            let mut cands = vec![&e];
            let e_fail;
            // The connection may have gone while the body was still on its way.
            let wire = mode == Mode::H1 || mode == Mode::H2;
            if (rt.body_lost || wire) && !cut {
                e_fail = expect_of(scn, m, c.server, spec, false);
                cands.push(&e_fail);
            }
            if log.is_empty() {
                cov.unserved += 1;
            }
            let fits: Vec<&&Expect> = cands.iter().filter(|x| is_prefix(log, &x.steps)).collect();
            let answers = |x: &&&Expect| match &got {
                Some(g @ Got::Resp { .. }) => match_outcome(&x.outcome, g, spec, mode, true).is_ok(),
                _ => true,
            };
            let ok = fits.iter().find(|x| answers(x)).or(fits.first());
            match ok {
                None => {
                    let (w, g) = first_diff(&e.steps, log);
                    let mut props = tags(scn, spec, srv, app, &e, &w, &g);
                    props.insert("P12");
                    if g.starts_with("handler") || g.contains("hyper") {
                        props.insert("P06");
                    }
                    v.push(Verdict {
                        kind: format!("steps-disturbed {}", kind_of(&w, &g)),
                        props,
                        req: spec.id,
                        msg: format!(
                            "disturbed request did `{}` where only `{}` may follow; history {:?}, expected a prefix of {:?}",
                            g, w, rt.log, e.steps
                        ),
                    });
                }
                Some(x) => {
                    if let Some(g) = &got {
                        let lossy = true;
                        // An answer must be the answer to what happened.
                        if let Got::Resp { .. } = g {
                            let r = match_outcome(&x.outcome, g, spec, mode, lossy);
                            if let Err(msg) = r {
                                let props = tags(scn, spec, srv, app, x, "", &msg);
                                v.push(Verdict {
                                    kind: "outcome-disturbed".into(),
                                    props,
                                    req: spec.id,
                                    msg: format!("{} (request `{} {}`)", msg, spec.method, spec.target),
                                });
                            }
                        }
                    }
                }
            }
        } else {
            cov.exact += 1;
            let steps_ok = log == &e.steps[..];
            if !steps_ok {
                let (w, g) = first_diff(&e.steps, log);
                let mut props = tags(scn, spec, srv, app, &e, &w, &g);
                if rt.outcome.is_none() {
                    props.insert("P16");
                }
                v.push(Verdict {
                    kind: format!("steps {}", kind_of(&w, &g)),
                    props,
                    req: spec.id,
                    msg: format!(
                        "request `{} {}` to {}: expected step `{}`, got `{}`; history {:?}, expected {:?}; outcome {:?}",
                        spec.method,
                        spec.target,
                        srv.app,
                        w,
                        g,
                        rt.log,
                        e.steps,
                        got.as_ref().map(short)
                    ),
                });
            } else {
                match &got {
                    None => {
                        let mut props = tags(scn, spec, srv, app, &e, "", "");
                        props.insert("P16");
                        v.push(Verdict {
                            kind: "hang".into(),
                            props,
                            req: spec.id,
                            msg: format!(
                                "request `{} {}` to {} never got an outcome although nothing is left to happen; history {:?}",
                                spec.method, spec.target, srv.app, rt.log
                            ),
                        });
                    }
                    Some(g) => {
                        let lossy = mode == Mode::H2 && unread || last_close.map_or(false, |l| l >= ri);
                        if let Err(msg) = match_outcome(&e.outcome, g, spec, mode, lossy) {
                            let props = tags(scn, spec, srv, app, &e, "", &msg);
                            v.push(Verdict {
                                kind: format!("outcome {}", msg.split(':').next().unwrap_or("")),
                                props,
                                req: spec.id,
                                msg: format!("request `{} {}` to {}: {}", spec.method, spec.target, srv.app, msg),
                            });
                        } else {
                            timing(scn, ci, ri, spec, srv, &e, rt, due, stalls, v, cov);
                        }
                    }
                }
            }
        }
        if mode == Mode::H1 && closes(spec, &e) {
            maybe = true;
        }
    }
}

fn kind_of(w: &str, g: &str) -> String {
    let f = |s: &str| s.split(' ').next().unwrap_or("").to_string();
    format!("{}/{}", f(w), f(g))
}

/// Bounded response time: a request's own delays plus generous slack.
#[allow(clippy::too_many_arguments)]
fn timing(
    scn: &Scenario,
    ci: usize,
    ri: usize,
    spec: &ReqSpec,
    srv: &ServerCfg,
    e: &Expect,
    rt: &ReqRt,
    due: u64,
    stalls: &[u64],
    v: &mut Vec<Verdict>,
    cov: &mut Cover,
) {
    if scn.mode == Mode::SyncCall {
        return;
    }
    if scn.mode == Mode::H1 && ri > 0 {
        return;
    }
    let blocking = scn.servers.iter().any(|s| s.kind == SvcKind::Sync)
        || scn.conns.iter().any(|c| c.reqs.iter().any(|r| r.plan.guards.contains_key("GX")))
        || e.decode.feat.blocking > 0;
    if blocking && (scn.sim.block_cap as usize) < scn.n_reqs() {
        return;
    }
    if scn.mode != Mode::Direct && scn.mode != Mode::Decode && stalls.get(ci).cloned().unwrap_or(0) > 0 {
        return;
    }
    let own_body: u64 = spec.body.pieces.iter().map(|p| u64::from(p.1)).sum();
    let polling = crate::sim::busy_us();
    // what is called from within a step on this thread may sleep there
    let nested: u64 = scn
        .conns
        .iter()
        .flat_map(|c| &c.reqs)
        .filter(|r| r.inside.is_some())
        .map(|r| {
            u64::from(r.plan.handler.delay) + r.plan.guards.values().flatten().map(|g| u64::from(g.delay)).sum::<u64>()
        })
        .sum();
    let blocking_nested = if blocking { nested } else { 0 };
    let bound = blocking_nested + due + e.own_delay + own_body + gate_total(srv) + polling + 3_000_000;
    cov.timed += 1;
    if rt.outcome_at > bound {
        v.push(Verdict {
            kind: "held-up".into(),
            props: vec!["P16"].into_iter().collect(),
            req: spec.id,
            msg: format!(
                "request `{} {}` was answered at {} us; its own delays allow {} us",
                spec.method, spec.target, rt.outcome_at, bound
            ),
        });
    }
}

fn judge_blocking(scn: &Scenario, reqs: &BTreeMap<u32, ReqRt>, v: &mut Vec<Verdict>, cov: &mut Cover) {
    let down = scn.sim.pool_shutdown_at;
    let hist = world::w(|x| x.hist.clone());
    for rt in reqs.values() {
        let id = rt.spec.id;
        *cov.feats.entry("blocking-future").or_insert(0) += 1;
        if rt.log_at_cancel.is_some() {
            *cov.feats.entry("cancelled").or_insert(0) += 1;
        }
        let mut bad = |kind: &str, props: &[&'static str], msg: String| {
            v.push(Verdict { kind: kind.into(), props: props.iter().cloned().collect(), req: id, msg })
        };
        if rt.closure_runs > 1 {
            bad("blocking-twice", &["P11"], format!("closure {} ran {} times", id, rt.closure_runs));
        }
        if let Some(n) = rt.log_at_cancel {
            cov.prefix += 1;
            if rt.log.len() > n {
                bad(
                    "step-after-cancel",
                    &["P11", "P12"],
                    format!("closure of a dropped blocking future ran: {:?}", rt.log),
                );
            }
            continue;
        }
        cov.exact += 1;
        let want = block_value(&rt.spec);
        let started = hist.iter().find(|h| h.1 == id && h.2 == "closure").map(|h| h.0);
        match &rt.outcome {
            None => bad(
                "hang",
                &["P11", "P16"],
                format!("blocking future {} never resolved; history {:?}", id, rt.log),
            ),
            Some(Got::Panicked(p)) if down > 0 && rt.outcome_at >= down && started.is_none() => {
                *cov.outcomes.entry("pool-down-panic".into()).or_insert(0) += 1;
                if rt.closure_runs > 0 {
                    bad("pool-shutdown", &["P11"], format!("panic after pool shutdown: {:?}", p));
                }
            }
            Some(g) => {
                *cov.outcomes.entry("resolved".into()).or_insert(0) += 1;
                if *g != want {
                    bad("blocking-result", &["P11"], format!("blocking future {} gave {:?}, expected {:?}", id, g, want));
                } else if rt.closure_runs != 1 {
                    bad("blocking-runs", &["P11"], format!("closure {} ran {} times", id, rt.closure_runs));
                } else if down > 0 && started.map_or(false, |t| t >= down) {
                    bad("pool-shutdown", &["P11"], format!("closure {} started after the pool was shut down", id));
                }
            }
        }
    }
}
