//! The reference model: what a request has to do, written segment by segment and without
//! any of hyperdrive's code (serde is trusted for single values).

use crate::scenario::*;
use crate::types::*;
use http::Uri;
use std::collections::BTreeSet;

pub struct FieldM {
    pub name: &'static str,
    pub kind: &'static str,
    pub ty: &'static str,
}
pub struct VariantM {
    pub name: &'static str,
    pub routes: &'static [(&'static str, &'static str)],
    pub fields: &'static [FieldM],
}
pub struct AppModel {
    pub name: &'static str,
    pub ctx: &'static str,
    pub variants: &'static [VariantM],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Lit(String),
    Ph(String),
    Rest(String),
}

/// `None` is the `*` path.
pub fn segs(path: &str) -> Option<Vec<Seg>> {
    if path == "*" {
        return None;
    }
    Some(
        path[1..]
            .split('/')
            .map(|s| {
                if s.len() >= 2 && s.starts_with('{') && s.ends_with('}') {
                    let n = &s[1..s.len() - 1];
                    if n.ends_with("...") {
                        Seg::Rest(n[..n.len() - 3].to_string())
                    } else {
                        Seg::Ph(n.to_string())
                    }
                } else {
                    Seg::Lit(s.to_string())
                }
            })
            .collect(),
    )
}

fn shape(path: &str) -> String {
    match segs(path) {
        None => "*".into(),
        Some(v) => v
            .iter()
            .map(|s| match s {
                Seg::Lit(l) => format!("L{}", l),
                Seg::Ph(_) => "P".into(),
                Seg::Rest(_) => "R".into(),
            })
            .collect::<Vec<_>>()
            .join("/"),
    }
}

/// Captured strings, in order, if `pattern` matches all of `path`.
pub fn match_path(pattern: &str, path: &str) -> Option<Vec<String>> {
    let pat = match segs(pattern) {
        None => return if path == "*" { Some(vec![]) } else { None },
        Some(p) => p,
    };
    if !path.starts_with('/') {
        return None;
    }
    let mut rest: Option<&str> = Some(&path[1..]);
    let mut caps = vec![];
    for s in &pat {
        let r = rest?;
        if let Seg::Rest(_) = s {
            caps.push(r.to_string());
            return Some(caps);
        }
        let (head, tail) = match r.find('/') {
            Some(i) => (&r[..i], Some(&r[i + 1..])),
            None => (r, None),
        };
        match s {
            Seg::Lit(l) => {
                if l != head {
                    return None;
                }
            }
            Seg::Ph(_) => {
                if head.is_empty() {
                    return None;
                }
                caps.push(head.to_string());
            }
            Seg::Rest(_) => unreachable!(),
        }
        rest = tail;
    }
    if rest.is_some() {
        None
    } else {
        Some(caps)
    }
}

// ------------------------------------------------------------------ value semantics

pub enum PV {
    Ok(String),
    /// the message of the type's own error
    Bad(String),
    Panic(String),
}

pub fn parse_seg(ty: &str, s: &str) -> PV {
    fn p<T: std::str::FromStr + Desc>(s: &str) -> PV
    where
        T::Err: std::fmt::Display,
    {
        match s.parse::<T>() {
            Ok(v) => PV::Ok(v.desc()),
            Err(e) => PV::Bad(e.to_string()),
        }
    }
    match ty {
        "u8" => p::<u8>(s),
        "u32" => p::<u32>(s),
        "i64" => p::<i64>(s),
        "u16" => p::<u16>(s),
        "u64" => p::<u64>(s),
        "i8" => p::<i8>(s),
        "i128" => p::<i128>(s),
        "f64" => p::<f64>(s),
        "Ip" => p::<std::net::IpAddr>(s),
        "bool" => p::<bool>(s),
        "char" => p::<char>(s),
        "String" => p::<String>(s),
        "Even" => match s.parse::<u64>() {
            Ok(v) if v % 2 == 0 => PV::Ok(format!("even{}", v)),
            _ => PV::Bad(format!("bad segment {}", s)),
        },
        "MeOr" => {
            if s == "me" {
                PV::Ok("me".into())
            } else {
                match s.parse::<u32>() {
                    Ok(v) => PV::Ok(format!("id{}", v)),
                    Err(e) => PV::Bad(e.to_string()),
                }
            }
        }
        "Boom" => match s {
            "boom" => PV::Panic("&boom-segment".into()),
            "bad" => PV::Bad(format!("bad segment {}", s)),
            _ => PV::Ok(format!("boom<{}>", s)),
        },
        _ => panic!("model: path type {}", ty),
    }
}

pub fn parse_query(ty: &str, s: &str) -> Result<String, String> {
    fn p<T: serde::de::DeserializeOwned + Desc>(s: &str) -> Result<String, String> {
        serde_urlencoded::from_str::<T>(s).map(|v| v.desc()).map_err(|e| e.to_string())
    }
    match ty {
        "QPage" => p::<QPage>(s),
        "QReq" => p::<QReq>(s),
        "QPairs" => p::<QPairs>(s),
        "QMap" => p::<QMap>(s),
        _ => panic!("model: query type {}", ty),
    }
}

/// Value of a body type given all its bytes: Ok(desc) or the class of the decode error.
pub fn parse_body(ty: &str, b: &[u8], ctx: u32) -> Result<String, String> {
    fn j<T: serde::de::DeserializeOwned + Desc>(b: &[u8]) -> Result<String, String> {
        serde_json::from_slice::<T>(b).map(|v| format!("json({})", v.desc())).map_err(|e| format!("json: {}", e))
    }
    fn f<T: serde::de::DeserializeOwned + Desc>(b: &[u8]) -> Result<String, String> {
        serde_urlencoded::from_bytes::<T>(b).map(|v| format!("form({})", v.desc())).map_err(|e| format!("form: {}", e))
    }
    match ty {
        "Json<JPay>" => j::<JPay>(b),
        "Json<JVal>" => j::<JVal>(b),
        "Json<String>" => j::<String>(b),
        "HtmlForm<FPay>" => f::<FPay>(b),
        "HtmlForm<QPairs>" => f::<QPairs>(b),
        "RawBody" => Ok(format!("{}@none", raw_desc(b))),
        "RawBodyA" => Ok(format!("{}@A{}", raw_desc(b), ctx)),
        "RawBodyS" => Ok(format!("{}@S{}", raw_desc(b), ctx)),
        "RawBodyC" => Ok(format!("{}@C{}", raw_desc(b), ctx)),
        "NoRead" => Ok("noread".into()),
        _ => panic!("model: body type {}", ty),
    }
}

pub fn guard_ctx(g: &str, ctx: u32) -> String {
    match g {
        "GA" | "GA2" => format!("A{}", ctx),
        "GB" => format!("B{}", ctx),
        "GC" => format!("C{}", ctx),
        "GD" => format!("D{}", ctx),
        "GE" => format!("E{}", ctx),
        "GS" => format!("S{}", ctx),
        "GT" => format!("T{}", ctx),
        _ => "none".into(),
    }
}

pub fn can_suspend(g: &str) -> bool {
    g != "G1" && g != "GA2"
}

// ------------------------------------------------------------------ prediction

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// hyperdrive error: status, allowed methods when 405
    Hd(u16, BTreeSet<String>),
    Other(String),
    Panic(String),
}

#[derive(Clone, Debug, Default)]
pub struct Feat {
    pub fallback: bool,
    pub wrong_method: bool,
    pub forward: bool,
    pub implicit_head: bool,
    pub body_type: Option<&'static str>,
    pub body_consumed: bool,
    pub body_step: bool,
    pub merged: bool,
    pub guards: u32,
    /// steps that enter a blocking section during decoding
    pub blocking: u32,
    pub query: bool,
    pub path: bool,
    pub variant: String,
}

#[derive(Clone, Debug)]
pub struct Predict {
    pub steps: Vec<String>,
    pub res: Result<String, Fail>,
    pub feat: Feat,
    pub own_delay: u64,
    /// message of the error's source
    pub src: Option<String>,
}

pub struct ReqIn<'a> {
    pub spec: &'a ReqSpec,
    pub ctx: u32,
    /// the body reaches the decoder completely
    pub body_ok: bool,
    /// inner apps by name
    pub find: &'a dyn Fn(&str) -> &'static AppModel,
}

struct P<'a> {
    r: &'a ReqIn<'a>,
    path: String,
    query: String,
    steps: Vec<String>,
    feat: Feat,
    gn: std::collections::BTreeMap<String, usize>,
    own: u64,
    src: Option<String>,
}

pub fn path_query(target: &str) -> (String, String) {
    match target.parse::<Uri>() {
        Ok(u) => (u.path().to_string(), u.query().unwrap_or("").to_string()),
        Err(_) => panic!("model: unparsable target {}", target),
    }
}

pub fn predict(app: &'static AppModel, r: &ReqIn<'_>) -> Predict {
    let (path, query) = path_query(&r.spec.target);
    let mut p = P {
        r,
        path,
        query,
        steps: vec![],
        feat: Feat::default(),
        gn: Default::default(),
        own: 0,
        src: None,
    };
    let res = p.app(app);
    Predict { steps: p.steps, res, feat: p.feat, own_delay: p.own, src: p.src }
}

struct Group {
    pattern: &'static str,
    /// (method, variant index, implicit)
    methods: Vec<(&'static str, usize, bool)>,
}

fn groups(app: &'static AppModel) -> Vec<Group> {
    let mut g: Vec<Group> = vec![];
    for (vi, v) in app.variants.iter().enumerate() {
        for (m, p) in v.routes {
            match g.iter_mut().find(|x| shape(x.pattern) == shape(p)) {
                Some(x) => x.methods.push((m, vi, false)),
                None => g.push(Group { pattern: p, methods: vec![(m, vi, false)] }),
            }
        }
    }
    for x in &mut g {
        if x.methods.iter().any(|m| m.0 == "HEAD") {
            continue;
        }
        if let Some(get) = x.methods.iter().find(|m| m.0 == "GET").cloned() {
            x.methods.push(("HEAD", get.1, true));
        }
    }
    g
}

/// Placeholder names of a variant, in path order.
fn placeholders(v: &VariantM) -> Vec<String> {
    match v.routes.first() {
        None => vec![],
        Some((_, p)) => segs(p)
            .unwrap_or_default()
            .into_iter()
            .filter_map(|s| match s {
                Seg::Ph(n) | Seg::Rest(n) => Some(n),
                Seg::Lit(_) => None,
            })
            .collect(),
    }
}

fn field<'a>(v: &'a VariantM, n: &str) -> &'a FieldM {
    v.fields.iter().find(|f| f.name == n).expect("model: placeholder without field")
}

impl<'a> P<'a> {
    fn app(&mut self, app: &'static AppModel) -> Result<String, Fail> {
        let method = self.r.spec.method.clone();
        let gs = groups(app);
        let fallback = app
            .variants
            .iter()
            .position(|v| v.routes.is_empty() && v.fields.iter().any(|f| f.kind == "fwd"));
        let hit = gs.iter().find_map(|g| match_path(g.pattern, &self.path).map(|c| (g, c)));
        match hit {
            Some((g, caps)) => match g.methods.iter().find(|m| m.0 == method) {
                Some((_, vi, implicit)) => {
                    self.feat.implicit_head |= *implicit;
                    self.construct(app, *vi, &caps)
                }
                None => {
                    self.feat.wrong_method = true;
                    // In the code under test the accepted set is computed before (no
                    // fallback) or after (fallback answered 405) the inner decoder.
                    let accepted = |me: &Self| -> Result<BTreeSet<String>, Fail> {
                        let _ = me;
                        let mut set = BTreeSet::new();
                        for (m, vi, _) in &g.methods {
                            let v = &app.variants[*vi];
                            let mut all = true;
                            for (i, n) in placeholders(v).iter().enumerate() {
                                match parse_seg(field(v, n).ty, &caps[i]) {
                                    PV::Ok(_) => {}
                                    PV::Bad(_) => {
                                        all = false;
                                        break;
                                    }
                                    PV::Panic(p) => return Err(Fail::Panic(p)),
                                }
                            }
                            if all {
                                set.insert(m.to_string());
                            }
                        }
                        Ok(set)
                    };
                    match fallback {
                        Some(vi) => {
                            self.feat.fallback = true;
                            match self.construct(app, vi, &[]) {
                                Err(Fail::Hd(405, inner)) => {
                                    self.feat.merged = true;
                                    let mut s = accepted(self)?;
                                    s.extend(inner);
                                    Err(Fail::Hd(405, s))
                                }
                                other => other,
                            }
                        }
                        None => {
                            let s = accepted(self)?;
                            Err(Fail::Hd(405, s))
                        }
                    }
                }
            },
            None => match fallback {
                Some(vi) => {
                    self.feat.fallback = true;
                    self.construct(app, vi, &[])
                }
                None => Err(Fail::Hd(404, BTreeSet::new())),
            },
        }
    }

    fn outcome(&mut self, plan: &StepPlan, at: &str, end: String, suspends: bool) -> Result<(), Fail> {
        let id = self.r.spec.id;
        if suspends {
            self.own += u64::from(plan.delay);
        }
        match &plan.out {
            Out::Ok => {
                self.steps.push(end);
                Ok(())
            }
            Out::Hd(s) => {
                self.src = crate::types::hd_src(id);
                Err(Fail::Hd(*s, BTreeSet::new()))
            }
            Out::Hd405 => Err(Fail::Hd(405, ["PUT", "PATCH"].iter().map(|s| s.to_string()).collect())),
            Out::Other => Err(Fail::Other(other_name(id, at))),
            Out::PanicCall | Out::PanicPoll => Err(Fail::Panic(panic_name(id, at))),
        }
    }

    fn construct(&mut self, app: &'static AppModel, vi: usize, caps: &[String]) -> Result<String, Fail> {
        let v = &app.variants[vi];
        let id = self.r.spec.id;
        let ctx = self.r.ctx;
        let mut vals: Vec<(&str, String)> = vec![];
        for (i, n) in placeholders(v).iter().enumerate() {
            let f = field(v, n);
            self.feat.path = true;
            match parse_seg(f.ty, &caps[i]) {
                PV::Ok(d) => vals.push((f.name, d)),
                PV::Bad(e) => {
                    self.src = Some(e);
                    return Err(Fail::Hd(404, BTreeSet::new()));
                }
                PV::Panic(p) => return Err(Fail::Panic(p)),
            }
        }
        if let Some(f) = v.fields.iter().find(|f| f.kind == "query") {
            self.feat.query = true;
            match parse_query(f.ty, &self.query) {
                Ok(d) => vals.push((f.name, d)),
                Err(e) => {
                    self.src = Some(e);
                    return Err(Fail::Hd(400, BTreeSet::new()));
                }
            }
        }
        for f in v.fields.iter().filter(|f| f.kind == "guard") {
            let n = self.gn.entry(f.ty.to_string()).or_insert(0);
            let k = *n;
            *n += 1;
            self.feat.guards += 1;
            if f.ty == "GX" {
                self.feat.blocking += 1;
            }
            let plan = self
                .r
                .spec
                .plan
                .guards
                .get(f.ty)
                .and_then(|p| p.get(k))
                .cloned()
                .unwrap_or_default();
            let tag = guard_ctx(f.ty, ctx);
            let at = format!("{}.{}", f.ty, k);
            self.steps.push(format!("guard {} ctx={}", at, tag));
            self.outcome(&plan, &at, format!("guard-ok {}", at), can_suspend(f.ty))?;
            vals.push((f.name, format!("{}#{}@{}", at, id, tag)));
        }
        if let Some(f) = v.fields.iter().find(|f| f.kind == "body") {
            self.feat.body_step = true;
            let raw = f.ty.starts_with("RawBody");
            let plan = self.r.spec.plan.body.clone();
            if raw || f.ty == "NoRead" {
                let tag = match f.ty {
                    "RawBodyA" => format!("A{}", ctx),
                    "RawBodyS" => format!("S{}", ctx),
                    "RawBodyC" => format!("C{}", ctx),
                    _ => "none".to_string(),
                };
                self.steps.push(format!("body {} ctx={}", f.ty, tag));
                if plan.out == Out::PanicCall && raw {
                    return Err(Fail::Panic(panic_name(id, f.ty)));
                }
            }
            if f.ty != "NoRead" {
                self.feat.body_type = Some(f.ty);
                self.feat.body_consumed = true;
                if !self.r.body_ok {
                    return Err(Fail::Other("hyper".into()));
                }
            }
            let d = parse_body(f.ty, &self.r.spec.body.bytes, ctx).map_err(Fail::Other)?;
            if raw || f.ty == "NoRead" {
                self.outcome(&plan, f.ty, format!("body-ok {}", f.ty), raw)?;
            }
            vals.push((f.name, d));
        }
        if let Some(f) = v.fields.iter().find(|f| f.kind == "fwd") {
            self.feat.forward = true;
            let d = match f.ty {
                "HandN" | "HandA" | "HandC" | "HandD" | "HandE" => {
                    let tag = match f.ty {
                        "HandA" => format!("A{}", ctx),
                        "HandC" => format!("C{}", ctx),
                        "HandD" => format!("D{}", ctx),
                        "HandE" => format!("E{}", ctx),
                        _ => "none".into(),
                    };
                    self.steps.push(format!("fwd {} ctx={}", f.ty, tag));
                    let plan = self.r.spec.plan.body.clone();
                    if plan.out == Out::PanicCall {
                        return Err(Fail::Panic(panic_name(id, f.ty)));
                    }
                    self.feat.body_type = Some(f.ty);
                    self.feat.body_consumed = true;
                    if !self.r.body_ok {
                        return Err(Fail::Other("hyper".into()));
                    }
                    self.outcome(&plan, f.ty, format!("fwd-ok {}", f.ty), true)?;
                    format!("inner({}@{})", raw_desc(&self.r.spec.body.bytes), tag)
                }
                name => {
                    let inner = (self.r.find)(name);
                    self.app(inner)?
                }
            };
            vals.push((f.name, d));
        }
        self.feat.variant = format!("{}::{}", app.name, v.name);
        let fs = v
            .fields
            .iter()
            .map(|f| {
                let d = vals.iter().find(|x| x.0 == f.name).map(|x| x.1.clone()).unwrap_or_else(|| "??".into());
                format!("{}={}", f.name, d)
            })
            .collect::<Vec<_>>()
            .join(",");
        Ok(format!("{}::{}{{{}}}", app.name, v.name, fs))
    }
}

// ------------------------------------------------------------------ whole-request expectation

/// What the service (with its adapters) does with a decoded or failed request.
#[derive(Clone, Debug)]
pub struct Expect {
    pub decode: Predict,
    /// complete step sequence including handler, panic handlers and the final `ret ...`
    pub steps: Vec<String>,
    pub outcome: Outcome,
    pub own_delay: u64,
    pub handler_runs: bool,
    pub panics: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// produced by the handler
    Handler { status: u16, hdrs: Vec<(String, String)>, body: Vec<u8>, complete: bool },
    /// an error's response
    Error { status: u16, allow: Option<BTreeSet<String>> },
    /// produced by a panic handler
    PanicResp { status: u16, name: String },
    /// the service future fails
    Fails(String),
    /// nothing catches the panic
    Unwinds(String),
    /// decode modes: the value
    Value(String),
    /// decode modes: hyperdrive error
    HdErr(String),
}

fn hd_string(s: u16, allow: &BTreeSet<String>) -> String {
    if s == 405 {
        let v: Vec<&str> = allow.iter().map(|s| s.as_str()).collect();
        format!("hd 405 [{}]", v.join(","))
    } else {
        format!("hd {}", s)
    }
}

pub fn expect(
    app: &'static AppModel,
    r: &ReqIn<'_>,
    mode: Mode,
    server_idx: usize,
    srv: &ServerCfg,
) -> Expect {
    let d = predict(app, r);
    let mut steps = d.steps.clone();
    let id = r.spec.id;
    let mut own = d.own_delay;
    if mode == Mode::Decode || mode == Mode::SyncCall {
        let outcome = match &d.res {
            Ok(v) => Outcome::Value(v.clone()),
            Err(Fail::Hd(s, a)) => {
                Outcome::HdErr(format!("{}{}", hd_string(*s, a), d.src.as_ref().map_or(String::new(), |e| format!(" {}", e))))
            }
            Err(Fail::Other(e)) => Outcome::Fails(e.clone()),
            Err(Fail::Panic(p)) => Outcome::Unwinds(p.clone()),
        };
        let panics = matches!(outcome, Outcome::Unwinds(_));
        return Expect { decode: d, steps, outcome, own_delay: own, handler_runs: false, panics };
    }
    let mut handler_runs = false;
    let head = r.spec.method == "HEAD";
    let mut res: Result<Outcome, Fail> = match d.res.clone() {
        Err(f) => Err(f),
        Ok(desc) => {
            handler_runs = true;
            steps.push(format!("handler s{} {}", server_idx, desc));
            let plan = &r.spec.plan.handler;
            own += u64::from(plan.delay);
            match &plan.out {
                HOut::Resp { status, hdrs, body } => {
                    steps.push("handler-ok".into());
                    let (b, ok) = planned_body(id, &desc, body);
                    if let RBody::Stream(p) | RBody::Fail(p) = body {
                        own += p.iter().map(|x| u64::from(x.1)).sum::<u64>();
                    }
                    let (b, ok) = if head { (vec![], true) } else { (b, ok) };
                    Ok(Outcome::Handler { status: *status, hdrs: hdrs.clone(), body: b, complete: ok })
                }
                HOut::Hd(s) => Err(Fail::Hd(*s, BTreeSet::new())),
                HOut::Hd405 => Err(Fail::Hd(405, ["PUT", "PATCH"].iter().map(|s| s.to_string()).collect())),
                HOut::Other => Err(Fail::Other(other_name(id, "handler"))),
                HOut::PanicCall | HOut::PanicPoll => Err(Fail::Panic(panic_name(id, "handler"))),
            }
        }
    };
    // The service itself maps hyperdrive errors.
    if let Err(Fail::Hd(s, a)) = &res {
        res = Ok(Outcome::Error { status: *s, allow: if *s == 405 { Some(a.clone()) } else { None } });
    }
    let panics = matches!(res, Err(Fail::Panic(_)));
    let catch = srv.wraps.iter().any(|w| *w == Wrap::Catch);
    let outcome = match res {
        Ok(o) => o,
        Err(Fail::Other(e)) => Outcome::Fails(e),
        Err(Fail::Hd(..)) => unreachable!(),
        Err(Fail::Panic(p)) => {
            if catch {
                steps.push(format!("panic-handler s{} l0 {}", server_idx, p));
                own += u64::from(srv.catch_delay);
                match srv.catch_out {
                    CatchOut::Resp(s) => Outcome::PanicResp { status: s, name: p },
                    CatchOut::Err => Outcome::Fails(format!("other:panic:{}", p)),
                }
            } else {
                Outcome::Unwinds(p)
            }
        }
    };
    match &outcome {
        Outcome::Handler { status, .. } | Outcome::Error { status, .. } | Outcome::PanicResp { status, .. } => {
            steps.push(format!("ret {}", status))
        }
        Outcome::Fails(e) => steps.push(format!("ret err {}", e)),
        Outcome::Unwinds(_) => {}
        Outcome::Value(_) | Outcome::HdErr(_) => unreachable!(),
    }
    Expect { decode: d, steps, outcome, own_delay: own, handler_runs, panics }
}
