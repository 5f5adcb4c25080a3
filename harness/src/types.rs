//! Instrumented user-side types: contexts, path/query/body types, guards, handlers.

use crate::scenario::*;
use crate::sim;
use crate::world::{self, rec, viol, w, Live};
use futures::future::Either;
use futures::{Async, Future, Poll, Stream};
use http::Request;
use hyper::{Body, Response};
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use serde::Deserialize;
use std::collections::BTreeMap;
use std::fmt;
use std::str::FromStr;
use std::sync::Arc;

pub struct PanicToken(pub String);

/// A non-hyperdrive error with identity.
#[derive(Debug)]
pub struct OtherErr(pub String);
impl fmt::Display for OtherErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "other:{}", self.0)
    }
}
impl std::error::Error for OtherErr {}

/// An error whose cause is a hyperdrive error: still a foreign error.
#[derive(Debug)]
pub struct WrapErr(pub String, pub hyperdrive::Error);
impl fmt::Display for WrapErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "wrapped:{}", self.0)
    }
}
impl std::error::Error for WrapErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

/// Renders a value so that it can be compared with the reference model.
pub trait Desc {
    fn desc(&self) -> String;
}

// ------------------------------------------------------------------ contexts

#[derive(Debug)]
pub struct CtxLive(u32);
impl CtxLive {
    fn new(id: u32) -> Self {
        world::w_opt(|x| *x.ctx_live.entry(id).or_insert(0) += 1);
        CtxLive(id)
    }
}
impl Clone for CtxLive {
    fn clone(&self) -> Self {
        sim::preempt_point();
        CtxLive::new(self.0)
    }
}
impl Drop for CtxLive {
    fn drop(&mut self) {
        world::w_opt(|x| *x.ctx_live.entry(self.0).or_insert(0) -= 1);
    }
}

#[derive(Debug, Clone, RequestContext)]
pub struct SubCtx {
    pub tag: String,
}
#[derive(Debug, Clone, RequestContext)]
pub struct Sub2 {
    pub tag: String,
}
#[derive(Debug, Clone, RequestContext)]
pub struct CtxA {
    pub tag: String,
    #[as_ref]
    pub sub: SubCtx,
    #[as_ref]
    pub sub2: Sub2,
    pub live: CtxLive,
}
/// Same shape, different field order and unrelated fields in between.
#[derive(Debug, Clone, RequestContext)]
pub struct CtxB {
    #[as_ref]
    pub sub2: Sub2,
    pub noise: u64,
    pub decoy: SubCtx,
    pub decoy2: Sub2,
    #[as_ref]
    pub sub: SubCtx,
    pub tag: String,
    pub live: CtxLive,
}

/// A tuple struct: fields of the same types that are not selected come first and last.
#[derive(Debug, Clone, RequestContext)]
pub struct CtxC(
    pub SubCtx,
    pub Sub2,
    pub String,
    #[as_ref] pub SubCtx,
    pub CtxLive,
    #[as_ref] pub Sub2,
    pub SubCtx,
    pub Sub2,
);
/// With a field that is itself a context.
#[derive(Debug, Clone, RequestContext)]
pub struct CtxD {
    pub extra: u16,
    pub whole: CtxLive,
    #[as_ref]
    pub a: CtxA,
    pub sub: SubCtx,
    pub tag: String,
}

/// An enum.
#[derive(Debug, Clone, RequestContext)]
pub enum CtxE {
    Even { tag: String, live: CtxLive },
    Odd(CtxLive, String),
}

pub trait MkCtx: RequestContext + Clone + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(id: u32) -> Self;
}
impl MkCtx for NoContext {
    const NAME: &'static str = "none";
    fn mk(_: u32) -> Self {
        NoContext
    }
}
impl MkCtx for CtxA {
    const NAME: &'static str = "A";
    fn mk(id: u32) -> Self {
        CtxA {
            tag: format!("A{}", id),
            sub: SubCtx { tag: format!("S{}", id) },
            sub2: Sub2 { tag: format!("T{}", id) },
            live: CtxLive::new(id),
        }
    }
}
impl MkCtx for CtxB {
    const NAME: &'static str = "B";
    fn mk(id: u32) -> Self {
        CtxB {
            tag: format!("B{}", id),
            noise: 7,
            decoy: SubCtx { tag: format!("decoy{}", id) },
            decoy2: Sub2 { tag: format!("decoy{}", id) },
            sub: SubCtx { tag: format!("S{}", id) },
            sub2: Sub2 { tag: format!("T{}", id) },
            live: CtxLive::new(id),
        }
    }
}

impl MkCtx for CtxC {
    const NAME: &'static str = "C";
    fn mk(id: u32) -> Self {
        let d = |k: &str| SubCtx { tag: format!("decoy{}{}", k, id) };
        CtxC(
            d("x"),
            Sub2 { tag: format!("decoyx{}", id) },
            format!("C{}", id),
            SubCtx { tag: format!("S{}", id) },
            CtxLive::new(id),
            Sub2 { tag: format!("T{}", id) },
            d("y"),
            Sub2 { tag: format!("decoyy{}", id) },
        )
    }
}
impl MkCtx for CtxD {
    const NAME: &'static str = "D";
    fn mk(id: u32) -> Self {
        CtxD {
            extra: 9,
            whole: CtxLive::new(id),
            a: CtxA::mk(id),
            sub: SubCtx { tag: format!("decoy{}", id) },
            tag: format!("D{}", id),
        }
    }
}

impl MkCtx for CtxE {
    const NAME: &'static str = "E";
    fn mk(id: u32) -> Self {
        if id % 2 == 0 {
            CtxE::Even { tag: format!("E{}", id), live: CtxLive::new(id) }
        } else {
            CtxE::Odd(CtxLive::new(id), format!("E{}", id))
        }
    }
}

// ------------------------------------------------------------------ request echo

pub struct ExtTok(pub String, pub Option<Live>);

pub fn req_id(r: &Request<()>) -> u32 {
    r.headers()
        .get("x-req")
        .and_then(|v| v.to_str().ok())
        .and_then(|v| v.parse().ok())
        .unwrap_or(0)
}

pub fn echo_of(r: &Request<()>, only_x: bool) -> String {
    let mut hs: Vec<(String, String)> = r
        .headers()
        .iter()
        .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
        .filter(|(k, _)| !only_x || k.starts_with("x-"))
        .collect();
    hs.sort_by(|a, b| a.0.cmp(&b.0));
    let ext = r.extensions().get::<ExtTok>().map(|e| e.0.clone()).unwrap_or_default();
    let mut s = format!("{} {} {:?} ext={}", r.method(), r.uri(), r.version(), ext);
    for (k, v) in hs {
        s.push_str(&format!(" {}={:?}", k, v));
    }
    s
}

/// Checks that a step sees its own client's request, and returns the request's id.
pub fn see(r: &Request<()>, at: &str) -> u32 {
    let id = req_id(r);
    let known = w(|x| x.reqs.get(&id).map(|q| (q.echo.clone(), q.mode)));
    match known {
        None => viol(
            "unknown-request",
            &["P09"],
            id,
            format!("{} saw a request no client sent: {}", at, echo_of(r, false)),
        ),
        Some((want, mode)) => {
            let got = echo_of(r, mode == Mode::H2);
            if got != want {
                viol(
                    "request-altered",
                    &["P09", "P14"],
                    id,
                    format!("{} saw `{}` but `{}` was sent", at, got, want),
                );
            }
        }
    }
    sim::preempt_point();
    id
}

// ------------------------------------------------------------------ delays

/// Waits as a plan says. Under the simulator it sleeps on the simulated clock; in the
/// synchronous entry point's own runtime it wakes itself (from inside the poll or from
/// another task of that runtime).
pub struct Delay {
    sleep: Option<sim::Sleep>,
    left: u32,
    sync: bool,
    armed: bool,
}

thread_local! {
    /// The request a synchronous entry point is working on.
    pub static SYNC_REQ: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

pub fn delay(us: u32, polls: u32, sync: bool) -> Delay {
    if sync {
        let n = polls + if us > 0 { 1 + us % 4 } else { 0 };
        Delay { sleep: None, left: n, sync, armed: false }
    } else {
        Delay {
            sleep: if us > 0 { Some(sim::sleep(u64::from(us))) } else { None },
            left: polls,
            sync,
            armed: false,
        }
    }
}

impl Delay {
    pub fn poll_delay(&mut self) -> Async<()> {
        sim::preempt_point();
        if let Some(s) = &mut self.sleep {
            match s.poll() {
                Ok(Async::Ready(())) => self.sleep = None,
                _ => return Async::NotReady,
            }
        }
        if self.left > 0 {
            self.left -= 1;
            let t = futures::task::current();
            if self.sync && self.left % 2 == 1 {
                // woken by another task of the runtime
                use tokio_executor::Executor;
                sim::stat("probe.sync_external_wake");
                if self.left % 3 == 0 {
                    // work that goes on in the background and never ends by itself
                    let (live, mut turns) = (Live::new(SYNC_REQ.with(|c| c.get())), 3);
                    let r = tokio_executor::DefaultExecutor::current().spawn(Box::new(futures::future::poll_fn(move || {
                        let _ = &live;
                        if turns > 0 {
                            turns -= 1;
                            futures::task::current().notify();
                        }
                        Ok(Async::NotReady)
                    })));
                    if r.is_ok() {
                        sim::stat("probe.sync_background_task");
                    }
                }
                let r = tokio_executor::DefaultExecutor::current()
                    .spawn(Box::new(futures::future::lazy(move || {
                        t.notify();
                        Ok(())
                    })));
                if r.is_err() {
                    // no executor: fall back to a self wake
                    futures::task::current().notify();
                }
            } else {
                t.notify();
            }
            self.armed = true;
            return Async::NotReady;
        }
        Async::Ready(())
    }
}

pub fn is_sync(id: u32) -> bool {
    w(|x| x.reqs.get(&id).map_or(false, |r| r.mode == Mode::SyncCall))
}

pub fn hd405() -> hyperdrive::Error {
    hyperdrive::Error::wrong_method(&[&http::Method::PUT, &http::Method::PATCH][..])
}

pub fn hd_err(status: u16, id: u32) -> hyperdrive::Error {
    let st = http::StatusCode::from_u16(status).unwrap();
    match id % 8 {
        1 => hyperdrive::Error::with_source(st, OtherErr(format!("src{}", id))),
        3 => hyperdrive::Error::with_source(st, format!("src{}", id)),
        // caused by another hyperdrive error, which must stay the mere cause
        5 => {
            let inner = hyperdrive::Error::with_source(http::StatusCode::IM_A_TEAPOT, format!("src{}", id));
            hyperdrive::Error::with_source(st, inner)
        }
        7 => hyperdrive::Error::with_source(st, hd405()),
        _ => hyperdrive::Error::from_status(st),
    }
}
/// How the cause of `hd_err` is rendered by `hd_name`.
pub fn hd_src(id: u32) -> Option<String> {
    match id % 8 {
        1 | 3 => Some(format!("src{}", id)),
        5 => Some(format!("<hd 418 src{}>", id)),
        7 => Some("<hd 405 [PATCH,PUT]>".into()),
        _ => None,
    }
}

/// A foreign error, of one of several kinds.
pub fn other_err(id: u32, at: &str) -> BoxedError {
    let n = format!("{}:{}", id, at);
    match id % 6 {
        // one that merely wraps a hyperdrive error
        0 => WrapErr(n, hyperdrive::Error::from_status(http::StatusCode::NOT_FOUND)).into(),
        3 => WrapErr(n, hd405()).into(),
        4 => std::io::Error::new(IO_KINDS[id as usize / 6 % IO_KINDS.len()], n).into(),
        5 => format!("str:{}", n).into(),
        _ => OtherErr(n).into(),
    }
}
pub fn other_name(id: u32, at: &str) -> String {
    let n = format!("{}:{}", id, at);
    match id % 6 {
        0 | 3 => format!("wrapped:{}", n),
        4 => format!("io:{:?}:{}", IO_KINDS[id as usize / 6 % IO_KINDS.len()], n),
        5 => format!("str:{}", n),
        _ => format!("other:{}", n),
    }
}
const IO_KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::Interrupted,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::Other,
];

pub fn panic_tok(id: u32, at: &str) -> ! {
    let s = format!("{}:{}", id, at);
    match id % 4 {
        0 => std::panic::panic_any(PanicToken(s)),
        1 => panic!("token:{}", s),
        2 => std::panic::panic_any(format!("token:{}", s).into_boxed_str()),
        _ => std::panic::panic_any("static-payload"),
    }
}

pub fn panic_name(id: u32, at: &str) -> String {
    match id % 4 {
        0 => format!("tok:{}:{}", id, at),
        1 => format!("token:{}:{}", id, at),
        2 => format!("boxed:{}:{}", id, at),
        _ => "&static-payload".to_string(),
    }
}

/// Future of one scripted step.
pub struct StepFut<T> {
    delay: Delay,
    out: Out,
    id: u32,
    at: String,
    end: Option<String>,
    val: Option<T>,
}

impl<T> Future for StepFut<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        if let Async::NotReady = self.delay.poll_delay() {
            return Ok(Async::NotReady);
        }
        match self.out {
            Out::Ok => {
                let v = self.val.take().expect("step polled after completion");
                if let Some(e) = self.end.take() {
                    rec(self.id, e);
                }
                Ok(Async::Ready(v))
            }
            Out::Hd(s) => Err(hd_err(s, self.id).into()),
            Out::Hd405 => Err(hd405().into()),
            Out::Other => Err(other_err(self.id, &self.at)),
            Out::PanicPoll | Out::PanicCall => {
                self.val = None;
                panic_tok(self.id, &self.at)
            }
        }
    }
}

pub fn step<T>(id: u32, at: &str, plan: &StepPlan, val: T, end: Option<String>) -> StepFut<T> {
    if plan.out == Out::PanicCall {
        drop(val);
        panic_tok(id, at);
    }
    StepFut {
        delay: delay(plan.delay, plan.polls, is_sync(id)),
        out: plan.out.clone(),
        id,
        at: at.to_string(),
        end,
        val: Some(val),
    }
}

/// The immediate variant of a step (no suspension possible).
pub fn step_now<T>(id: u32, at: &str, plan: &StepPlan, val: T, end: Option<String>) -> Result<T, BoxedError> {
    match plan.out {
        Out::Ok => {
            if let Some(e) = end {
                rec(id, e);
            }
            Ok(val)
        }
        Out::Hd(s) => Err(hd_err(s, id).into()),
        Out::Hd405 => Err(hd405().into()),
        Out::Other => Err(other_err(id, at)),
        Out::PanicCall | Out::PanicPoll => {
            drop(val);
            panic_tok(id, at)
        }
    }
}

// ------------------------------------------------------------------ guards

pub fn guard_plan(id: u32, name: &str) -> (usize, StepPlan) {
    w(|x| match x.reqs.get_mut(&id) {
        Some(r) => {
            let n = r.guard_n.entry(name.to_string()).or_insert(0);
            let k = *n;
            *n += 1;
            let p = r
                .spec
                .plan
                .guards
                .get(name)
                .and_then(|v| v.get(k))
                .cloned()
                .unwrap_or_default();
            (k, p)
        }
        None => (0, StepPlan::default()),
    })
}

pub trait CtxTag {
    fn tag(&self) -> String;
}
impl CtxTag for NoContext {
    fn tag(&self) -> String {
        "none".into()
    }
}
impl CtxTag for CtxA {
    fn tag(&self) -> String {
        self.tag.clone()
    }
}
impl CtxTag for CtxB {
    fn tag(&self) -> String {
        self.tag.clone()
    }
}
impl CtxTag for CtxC {
    fn tag(&self) -> String {
        self.2.clone()
    }
}
impl CtxTag for CtxD {
    fn tag(&self) -> String {
        self.tag.clone()
    }
}
impl CtxTag for CtxE {
    fn tag(&self) -> String {
        match self {
            CtxE::Even { tag, .. } => tag.clone(),
            CtxE::Odd(_, tag) => tag.clone(),
        }
    }
}
impl CtxTag for SubCtx {
    fn tag(&self) -> String {
        self.tag.clone()
    }
}
impl CtxTag for Sub2 {
    fn tag(&self) -> String {
        self.tag.clone()
    }
}

macro_rules! guard {
    ($name:ident, $ctx:ty, $res:ty, |$id:ident, $at:ident, $plan:ident, $val:ident, $end:ident| $make:expr) => {
        #[derive(Debug)]
        pub struct $name {
            who: String,
            _live: Live,
        }
        impl Desc for $name {
            fn desc(&self) -> String {
                self.who.clone()
            }
        }
        impl Guard for $name {
            type Context = $ctx;
            type Result = $res;
            fn from_request(request: &Arc<Request<()>>, context: &Self::Context) -> Self::Result {
                let $id = see(request, concat!("guard ", stringify!($name)));
                let (k, $plan) = guard_plan($id, stringify!($name));
                let ctx = context.tag();
                rec($id, format!("guard {}.{} ctx={}", stringify!($name), k, ctx));
                let $at = format!("{}.{}", stringify!($name), k);
                let $end = Some(format!("guard-ok {}", $at));
                let $val = $name {
                    who: format!("{}#{}@{}", $at, $id, ctx),
                    _live: Live::new($id),
                };
                $make
            }
        }
    };
}

guard!(G0, NoContext, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(G1, NoContext, Result<Self, BoxedError>, |id, at, plan, val, end| {
    step_now(id, &at, &plan, val, end)
});
guard!(G2, NoContext, StepFut<Self>, |id, at, plan, val, end| {
    step(id, &at, &plan, val, end)
});
guard!(G3, NoContext, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GA, CtxA, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GA2, CtxA, Result<Self, BoxedError>, |id, at, plan, val, end| {
    step_now(id, &at, &plan, val, end)
});
guard!(GB, CtxB, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GC, CtxC, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GD, CtxD, StepFut<Self>, |id, at, plan, val, end| {
    step(id, &at, &plan, val, end)
});
guard!(GE, CtxE, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GS, SubCtx, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    Box::new(step(id, &at, &plan, val, end))
});
guard!(GT, Sub2, StepFut<Self>, |id, at, plan, val, end| {
    step(id, &at, &plan, val, end)
});
// A guard doing its work on the blocking pool.
guard!(GX, NoContext, DefaultFuture<Self, BoxedError>, |id, at, plan, val, end| {
    let claim = Claim::new(id, &at);
    Box::new(hyperdrive::blocking(move || {
        claim.enter();
        if plan.delay > 0 && !is_sync(id) {
            sim::blocking_sleep(u64::from(plan.delay));
        }
        step_now(id, &at, &plan, val, end)
    }))
});

/// Watches one blocking closure: run at most once, inside a blocking section.
pub struct Claim {
    id: u32,
    at: String,
    n: std::cell::Cell<u32>,
}
impl Claim {
    pub fn new(id: u32, at: &str) -> Claim {
        Claim { id, at: at.to_string(), n: std::cell::Cell::new(0) }
    }
    pub fn enter(&self) {
        self.n.set(self.n.get() + 1);
        if self.n.get() > 1 {
            viol("blocking-twice", &["P11", "P08"], self.id, format!("blocking closure of {} ran twice", self.at));
        }
        if !sim::in_blocking() {
            viol(
                "blocking-inline",
                &["P11", "P16"],
                self.id,
                format!("blocking closure of {} ran outside a blocking section", self.at),
            );
        }
    }
}

// ------------------------------------------------------------------ path types

macro_rules! desc_display {
    ($($t:ty),*) => { $( impl Desc for $t { fn desc(&self) -> String { format!("{:?}", self) } } )* };
}
desc_display!(u8, u16, u32, u64, i8, i16, i64, i128, f64, usize, String, bool, char, std::net::Ipv4Addr, std::net::IpAddr);

pub type Ip = std::net::IpAddr;

#[derive(Debug)]
pub struct BadSeg(pub String);
impl fmt::Display for BadSeg {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "bad segment {}", self.0)
    }
}
impl std::error::Error for BadSeg {}

/// Even numbers only.
#[derive(Debug)]
pub struct Even(pub u64);
/// Used from within the parsing of a path segment: decoding must not care that another
/// decoding is going on on the same thread.
#[derive(FromRequest, Debug)]
enum Sub {
    #[get("/sub/{a}/{b}")]
    #[put("/sub/{a}/{b}")]
    Two { a: String, b: u32 },
    #[post("/sub/{x}/{y}")]
    Post { x: u8, y: String },
    #[get("/rec/{a}/{b}/{c}")]
    Rec { a: u32, b: Again, c: u32 },
}
/// Decodes the same route again.
#[derive(Debug)]
struct Again(String);
impl FromStr for Again {
    type Err = BadSeg;
    fn from_str(s: &str) -> Result<Self, BadSeg> {
        let n: u32 = s.parse().map_err(|_| BadSeg(s.into()))?;
        if n == 0 {
            return Ok(Again("end".into()));
        }
        let q = Request::get(format!("/rec/{}/{}/{}", n * 111, n - 1, n * 7)).body(()).unwrap();
        let mut f = Sub::from_request_and_body(&Arc::new(q), Body::empty(), NoContext);
        match f.poll() {
            Ok(Async::Ready(v)) => Ok(Again(format!("{:?}", v))),
            Ok(Async::NotReady) => Ok(Again("late".into())),
            Err(e) => Ok(Again(format!("failed: {}", e))),
        }
    }
}
fn nested_decode(n: usize) {
    let (method, path, want) = match n % 5 {
        4 => (
            "GET",
            "/rec/9/2/8",
            "Rec { a: 9, b: Again(\"Rec { a: 222, b: Again(\\\"Rec { a: 111, b: Again(\\\\\\\"end\\\\\\\"), c: 7 }\\\"), c: 14 }\"), c: 8 }",
        ),
        0 => ("GET", "/sub/left/77", "Two { a: \"left\", b: 77 }"),
        1 => ("PUT", "/sub/x/0", "Two { a: \"x\", b: 0 }"),
        2 => ("DELETE", "/sub/word/5", "405 GET,HEAD,PUT"),
        _ => ("GET", "/sub/left", "404"),
    };
    let q = Request::builder().method(method).uri(path).body(()).unwrap();
    let mut f = Sub::from_request_and_body(&Arc::new(q), Body::empty(), NoContext);
    let got = match f.poll() {
        Ok(Async::NotReady) => return,
        Ok(Async::Ready(v)) => format!("{:?}", v),
        Err(e) => match e.downcast_ref::<hyperdrive::Error>() {
            Some(e) => match e.allowed_methods() {
                Some(m) => {
                    let mut m: Vec<&str> = m.iter().map(|m| m.as_str()).collect();
                    m.sort();
                    format!("{} {}", e.http_status().as_u16(), m.join(","))
                }
                None => format!("{}", e.http_status().as_u16()),
            },
            None => format!("{:?}", e),
        },
    };
    sim::stat("probe.nested_decodes");
    if got != want && !got.contains("late") {
        viol(
            "nested-decode",
            &["P01", "P09"],
            0,
            format!("decoding `{} {}` from within `FromStr` gave {}, expected {}", method, path, got, want),
        );
    }
}

impl FromStr for Even {
    type Err = BadSeg;
    fn from_str(s: &str) -> Result<Self, BadSeg> {
        sim::preempt_point();
        nested_decode(s.len());
        match s.parse::<u64>() {
            Ok(v) if v % 2 == 0 => Ok(Even(v)),
            _ => Err(BadSeg(s.into())),
        }
    }
}
impl Desc for Even {
    fn desc(&self) -> String {
        format!("even{}", self.0)
    }
}

/// `me` or a number.
#[derive(Debug)]
pub enum MeOr {
    Me,
    Id(u32),
}
impl FromStr for MeOr {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        sim::preempt_point();
        if s == "me" {
            Ok(MeOr::Me)
        } else {
            Ok(MeOr::Id(s.parse()?))
        }
    }
}
impl Desc for MeOr {
    fn desc(&self) -> String {
        match self {
            MeOr::Me => "me".into(),
            MeOr::Id(i) => format!("id{}", i),
        }
    }
}

/// Accepts everything except `boom`, on which it panics, and `bad`.
#[derive(Debug)]
pub struct Boom(pub String);
impl FromStr for Boom {
    type Err = BadSeg;
    fn from_str(s: &str) -> Result<Self, BadSeg> {
        sim::preempt_point();
        if s == "boom" {
            panic!("boom-segment");
        }
        if s == "bad" {
            return Err(BadSeg(s.into()));
        }
        Ok(Boom(s.to_string()))
    }
}
impl Desc for Boom {
    fn desc(&self) -> String {
        format!("boom<{}>", self.0)
    }
}

// ------------------------------------------------------------------ query types

/// Deserialised user types take their time.
#[derive(Debug)]
pub struct Pause(());
impl Default for Pause {
    fn default() -> Pause {
        sim::preempt_point();
        Pause(())
    }
}

#[derive(Deserialize, Debug)]
pub struct QPage {
    pub page: Option<u32>,
    pub q: Option<String>,
}
impl Desc for QPage {
    fn desc(&self) -> String {
        format!("{:?}/{:?}", self.page, self.q)
    }
}
#[derive(Deserialize, Debug)]
pub struct QReq {
    pub id: u32,
    #[serde(default)]
    pub flag: bool,
    #[serde(skip)]
    _pause: Pause,
}
impl Desc for QReq {
    fn desc(&self) -> String {
        format!("{}/{}", self.id, self.flag)
    }
}
impl Desc for Vec<(String, String)> {
    fn desc(&self) -> String {
        format!("{:?}", self)
    }
}
impl Desc for BTreeMap<String, String> {
    fn desc(&self) -> String {
        format!("{:?}", self)
    }
}
pub type QPairs = Vec<(String, String)>;
pub type QMap = BTreeMap<String, String>;

// ------------------------------------------------------------------ body types

#[derive(Deserialize, Debug)]
pub struct JPay {
    pub id: u32,
    pub s: String,
    #[serde(default)]
    pub v: Vec<i64>,
    pub o: Option<bool>,
    #[serde(skip)]
    _pause: Pause,
}
impl Desc for JPay {
    fn desc(&self) -> String {
        format!("{}/{:?}/{:?}/{:?}", self.id, self.s, self.v, self.o)
    }
}
#[derive(Deserialize, Debug)]
pub struct FPay {
    pub a: String,
    pub n: u32,
    pub opt: Option<String>,
    #[serde(skip)]
    _pause: Pause,
}
impl Desc for FPay {
    fn desc(&self) -> String {
        format!("{:?}/{}/{:?}", self.a, self.n, self.opt)
    }
}
impl Desc for serde_json::Value {
    fn desc(&self) -> String {
        self.to_string()
    }
}
impl<T: Desc + serde::de::DeserializeOwned + Send + 'static> Desc for Json<T> {
    fn desc(&self) -> String {
        format!("json({})", self.0.desc())
    }
}
impl<T: Desc + serde::de::DeserializeOwned + Send + 'static> Desc for HtmlForm<T> {
    fn desc(&self) -> String {
        format!("form({})", self.0.desc())
    }
}
pub type JVal = serde_json::Value;

pub fn raw_desc(bytes: &[u8]) -> String {
    format!("raw({},{:016x})", bytes.len(), sim::fnv(0xcbf2_9ce4_8422_2325, bytes))
}

pub fn body_plan(id: u32) -> StepPlan {
    w(|x| x.reqs.get(&id).map(|r| r.spec.plan.body.clone()).unwrap_or_default())
}

/// A body handed on must be the one that came: what it says about itself is compared.
fn body_hint(id: u32, at: &str, b: &Body) {
    use hyper::body::Payload;
    let want = w(|x| {
        x.reqs.get(&id).and_then(|r| match (r.mode, r.spec.body.framing) {
            (Mode::Direct, f) | (Mode::Decode, f) => Some(match f {
                Framing::None => Some(0),
                Framing::Length => Some(r.spec.body.bytes.len() as u64),
                _ => None,
            }),
            _ => None,
        })
    });
    if let Some(n) = want {
        let got = b.content_length();
        if got != n {
            viol(
                "body-replaced",
                &["P14", "P09", "P05"],
                id,
                format!("{} got a body that announces {:?} bytes; the one sent announces {:?}", at, got, n),
            );
        }
    }
}

macro_rules! rawbody {
    ($name:ident, $ctx:ty) => {
        #[derive(Debug)]
        pub struct $name {
            d: String,
            _live: Live,
        }
        impl Desc for $name {
            fn desc(&self) -> String {
                self.d.clone()
            }
        }
        impl FromBody for $name {
            type Context = $ctx;
            type Result = DefaultFuture<Self, BoxedError>;
            fn from_body(request: &Arc<Request<()>>, body: Body, context: &Self::Context) -> Self::Result {
                let id = see(request, concat!("body ", stringify!($name)));
                let ctx = context.tag();
                rec(id, format!("body {} ctx={}", stringify!($name), ctx));
                body_hint(id, stringify!($name), &body);
                let plan = body_plan(id);
                if plan.out == Out::PanicCall {
                    panic_tok(id, stringify!($name));
                }
                let live = Live::new(id);
                Box::new(body.concat2().map_err(BoxedError::from).and_then(move |b| {
                    let v = $name {
                        d: format!("{}@{}", raw_desc(&b), ctx),
                        _live: live,
                    };
                    step(id, stringify!($name), &plan, v, Some(format!("body-ok {}", stringify!($name))))
                }))
            }
        }
    };
}
rawbody!(RawBody, NoContext);
rawbody!(RawBodyA, CtxA);
rawbody!(RawBodyS, SubCtx);
rawbody!(RawBodyC, CtxC);

/// Ignores the body and is ready (or fails) at once.
#[derive(Debug)]
pub struct NoRead(());
impl Desc for NoRead {
    fn desc(&self) -> String {
        "noread".into()
    }
}
impl FromBody for NoRead {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_body(request: &Arc<Request<()>>, body: Body, context: &Self::Context) -> Self::Result {
        let id = see(request, "body NoRead");
        rec(id, format!("body NoRead ctx={}", context.tag()));
        body_hint(id, "NoRead", &body);
        drop(body);
        step_now(id, "NoRead", &body_plan(id), NoRead(()), Some("body-ok NoRead".into()))
    }
}

// ------------------------------------------------------------------ hand-written inner decoders

macro_rules! hand {
    ($name:ident, $ctx:ty) => {
        #[derive(Debug)]
        pub struct $name {
            d: String,
            _live: Live,
        }
        impl Desc for $name {
            fn desc(&self) -> String {
                self.d.clone()
            }
        }
        impl FromRequest for $name {
            type Context = $ctx;
            type Future = DefaultFuture<Self, BoxedError>;
            fn from_request_and_body(request: &Arc<Request<()>>, body: Body, context: $ctx) -> Self::Future {
                let id = see(request, concat!("inner ", stringify!($name)));
                let ctx = context.tag();
                rec(id, format!("fwd {} ctx={}", stringify!($name), ctx));
                body_hint(id, stringify!($name), &body);
                let plan = body_plan(id);
                if plan.out == Out::PanicCall {
                    panic_tok(id, stringify!($name));
                }
                let live = Live::new(id);
                Box::new(body.concat2().map_err(BoxedError::from).and_then(move |b| {
                    let v = $name {
                        d: format!("inner({}@{})", raw_desc(&b), ctx),
                        _live: live,
                    };
                    step(id, stringify!($name), &plan, v, Some(format!("fwd-ok {}", stringify!($name))))
                }))
            }
        }
    };
}
hand!(HandN, NoContext);
hand!(HandA, CtxA);
hand!(HandC, CtxC);
hand!(HandD, CtxD);
hand!(HandE, CtxE);

// ------------------------------------------------------------------ handlers

pub fn resp_payload(id: u32, desc: &str, len: usize) -> Vec<u8> {
    let mut v = format!("r{}:{}:", id, desc).into_bytes();
    let mut k = 0u32;
    while v.len() < len {
        v.push(b'a' + ((id.wrapping_mul(7) + k) % 26) as u8);
        k += 1;
    }
    v
}

/// A response body stream.
struct RStream {
    chunks: Vec<(Vec<u8>, u32)>,
    i: usize,
    d: Option<Delay>,
    fail: bool,
    sync: bool,
    _live: Live,
}
impl Stream for RStream {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        if self.i >= self.chunks.len() {
            if self.fail {
                sim::stat("fault.response_body_error");
                return Err(OtherErr("response-body".into()).into());
            }
            return Ok(Async::Ready(None));
        }
        if self.d.is_none() {
            self.d = Some(delay(self.chunks[self.i].1, 0, self.sync));
        }
        if let Async::NotReady = self.d.as_mut().unwrap().poll_delay() {
            return Ok(Async::NotReady);
        }
        self.d = None;
        let v = std::mem::replace(&mut self.chunks[self.i].0, Vec::new());
        self.i += 1;
        Ok(Async::Ready(Some(v)))
    }
}

/// The bytes of a planned response body, and whether it ends properly.
pub fn planned_body(id: u32, desc: &str, b: &RBody) -> (Vec<u8>, bool) {
    match b {
        RBody::Empty => (vec![], true),
        RBody::Full(n) => (resp_payload(id, desc, *n as usize), true),
        RBody::Stream(p) | RBody::Fail(p) => {
            let total: u32 = p.iter().map(|x| x.0).sum();
            let mut v = resp_payload(id, desc, total as usize);
            if let RBody::Fail(_) = b {
                v.truncate(total as usize);
                (v, false)
            } else {
                (v, true)
            }
        }
    }
}

pub fn build_response(id: u32, desc: &str, status: u16, hdrs: &[(String, String)], body: &RBody) -> Response<Body> {
    let (bytes, ok) = planned_body(id, desc, body);
    let b = match body {
        RBody::Empty => Body::empty(),
        RBody::Full(_) => Body::from(bytes),
        RBody::Stream(p) | RBody::Fail(p) => {
            let mut chunks = vec![];
            let mut rest = &bytes[..];
            for (i, (n, d)) in p.iter().enumerate() {
                let n = if i + 1 == p.len() { rest.len() } else { (*n as usize).min(rest.len()) };
                let (a, r) = rest.split_at(n);
                rest = r;
                chunks.push((a.to_vec(), *d));
            }
            if !rest.is_empty() {
                chunks.push((rest.to_vec(), 0));
            }
            Body::wrap_stream(RStream { chunks, i: 0, d: None, fail: !ok, sync: is_sync(id), _live: Live::new(id) })
        }
    };
    let mut r = Response::builder();
    r.status(status);
    r.header("x-resp", format!("{}", id));
    for (k, v) in hdrs {
        r.header(k.as_str(), v.as_str());
    }
    let mut r = r.body(b).unwrap();
    r.extensions_mut().insert(RespTok(id));
    if id % 4 == 1 && w(|x| x.reqs.get(&id).map_or(false, |r| r.mode == Mode::Direct)) {
        *r.version_mut() = http::Version::HTTP_10;
    }
    r
}

/// Put into the extensions of every handler's response.
pub struct RespTok(pub u32);

pub fn handler_plan(id: u32) -> HandlerPlan {
    w(|x| x.reqs.get(&id).map(|r| r.spec.plan.handler.clone()).unwrap_or_default())
}

/// The asynchronous handler used by every app.
pub fn async_handler<R: Send + 'static>(
    server: usize,
    desc: String,
    route: R,
    req: Arc<Request<()>>,
) -> DefaultFuture<Response<Body>, BoxedError> {
    let id = see(&req, "handler");
    rec(id, format!("handler s{} {}", server, desc));
    let plan = handler_plan(id);
    if plan.out == HOut::PanicCall {
        panic_tok(id, "handler");
    }
    let mut d = delay(plan.delay, plan.polls, is_sync(id));
    let mut keep = Some((route, req));
    Box::new(futures::future::poll_fn(move || {
        if let Async::NotReady = d.poll_delay() {
            return Ok(Async::NotReady);
        }
        let (route, req) = keep.take().expect("handler future polled after completion");
        see(&req, "handler (resumed)");
        drop(route);
        drop(req);
        match &plan.out {
            HOut::Resp { status, hdrs, body } => {
                rec(id, "handler-ok".into());
                Ok(Async::Ready(build_response(id, &desc, *status, hdrs, body)))
            }
            HOut::Hd(s) => Err(hd_err(*s, id).into()),
            HOut::Hd405 => Err(hd405().into()),
            HOut::Other => Err(other_err(id, "handler")),
            HOut::PanicCall | HOut::PanicPoll => panic_tok(id, "handler"),
        }
    }))
}

/// The synchronous handler used by every app.
pub fn sync_handler<R>(server: usize, desc: String, route: R, req: Arc<Request<()>>) -> Response<Body> {
    let id = see(&req, "handler");
    rec(id, format!("handler s{} {}", server, desc));
    if !sim::in_blocking() {
        viol(
            "sync-handler-inline",
            &["P11", "P16"],
            id,
            "synchronous handler ran outside a blocking section".into(),
        );
    }
    let plan = handler_plan(id);
    if plan.out == HOut::PanicCall {
        panic_tok(id, "handler");
    }
    if plan.delay > 0 {
        sim::blocking_sleep(u64::from(plan.delay));
    }
    see(&req, "handler (resumed)");
    drop(route);
    match &plan.out {
        HOut::Resp { status, hdrs, body } => {
            rec(id, "handler-ok".into());
            build_response(id, &desc, *status, hdrs, body)
        }
        HOut::PanicPoll | HOut::PanicCall => panic_tok(id, "handler"),
        _ => panic!("harness: bad plan for a sync handler"),
    }
}

#[allow(dead_code)]
fn unused(_: Either<(), ()>) {}
