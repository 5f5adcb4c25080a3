//! Type-erased services and app entry points (the erased objects call the real,
//! monomorphised hyperdrive code).

use crate::model::AppModel;
use crate::scenario::*;
use crate::sim;
use crate::types::*;
use crate::world::{rec, viol, w};
use futures::{Async, Future, IntoFuture, Poll};
use http::Request;
use hyper::service::{MakeService, Service};
use hyper::{Body, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromRequest, NoContext};
use std::any::Any;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use futures::task::Task;
use std::sync::{Arc, Mutex};

pub type RespFut = DefaultFuture<Response<Body>, BoxedError>;

pub trait Erased: Send + Sync {
    fn call(&mut self, req: Request<Body>) -> RespFut;
    fn poll_ready(&mut self) -> Poll<(), BoxedError>;
    fn dup(&self) -> ESvc;
    /// The type's own `MakeService` implementation, if it has one.
    fn own_make(&mut self) -> Option<Result<ESvc, BoxedError>>;
}

pub struct ESvc(pub Box<dyn Erased>);

/// A service used by several callers, one at a time.
pub struct Shared(Mutex<(Option<Probe>, VecDeque<Task>)>);
impl Shared {
    pub fn new(p: Probe) -> Shared {
        Shared(Mutex::new((Some(p), VecDeque::new())))
    }
    /// The service, or nothing if another caller has it at the moment (the current task
    /// is notified when it is back).
    pub fn take(&self) -> Option<Probe> {
        let _np = sim::NoPreempt::new();
        let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
        let p = g.0.take();
        if p.is_none() {
            sim::stat("probe.service_busy");
            if !g.1.iter().any(|t| t.will_notify_current()) {
                g.1.push_back(futures::task::current());
            }
        } else {
            g.1.retain(|t| !t.will_notify_current());
        }
        p
    }
    pub fn put(&self, p: Probe) {
        let _np = sim::NoPreempt::new();
        self.0.lock().unwrap_or_else(|p| p.into_inner()).0 = Some(p);
        self.wake();
    }
    /// The current task does not want it any more (it may have been the one woken up last).
    pub fn leave(&self) {
        let _np = sim::NoPreempt::new();
        let free = {
            let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
            g.1.retain(|t| !t.will_notify_current());
            g.0.is_some()
        };
        if free {
            self.wake();
        }
    }
    /// Wakes the next caller that waits.
    fn wake(&self) {
        let _np = sim::NoPreempt::new();
        let t = self.0.lock().unwrap_or_else(|p| p.into_inner()).1.pop_front();
        if let Some(t) = t {
            t.notify();
        }
    }
}

impl Clone for ESvc {
    fn clone(&self) -> Self {
        self.0.dup()
    }
}
impl Service for ESvc {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = RespFut;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.0.poll_ready()
    }
    fn call(&mut self, req: Request<Body>) -> RespFut {
        self.0.call(req)
    }
}

/// Wraps any suitable service without a `MakeService` of its own.
struct Plain<S>(S);
impl<S> Erased for Plain<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + Sync + 'static,
    S::Future: Send + 'static,
{
    fn call(&mut self, req: Request<Body>) -> RespFut {
        Box::new(self.0.call(req))
    }
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.0.poll_ready()
    }
    fn dup(&self) -> ESvc {
        ESvc(Box::new(Plain(self.0.clone())))
    }
    fn own_make(&mut self) -> Option<Result<ESvc, BoxedError>> {
        None
    }
}

fn now_ready<F>(mut f: F) -> Result<F::Item, BoxedError>
where
    F: Future,
    F::Error: Into<BoxedError>,
{
    // Making a service has to succeed at once.
    match f.poll() {
        Ok(Async::Ready(s)) => Ok(s),
        Ok(Async::NotReady) => {
            viol("make-not-ready", &["P17"], 0, "make_service future was not ready at once".into());
            Err(OtherErr("make-not-ready".into()).into())
        }
        Err(e) => {
            let e = e.into();
            viol("make-failed", &["P17"], 0, format!("make_service failed: {}", e));
            Err(e)
        }
    }
}

/// hyper waits for this before it makes a service; nothing would wake it up again.
fn make_ready<E: Into<BoxedError>>(r: Poll<(), E>) -> Result<(), BoxedError> {
    match r {
        Ok(Async::Ready(())) => Ok(()),
        Ok(Async::NotReady) => {
            viol("make-not-ready", &["P17"], 0, "the service maker was not ready".into());
            Err(OtherErr("make-not-ready".into()).into())
        }
        Err(e) => {
            let e = e.into();
            viol("make-failed", &["P17"], 0, format!("the service maker's readiness failed: {}", e));
            Err(e)
        }
    }
}

/// Wraps hyperdrive's own service types.
struct Base<S>(S);
impl<S> Erased for Base<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + Sync + 'static,
    <S as Service>::Future: Send + 'static,
    S: MakeService<u32, ReqBody = Body, ResBody = Body, Error = BoxedError, Service = S>,
    <S as MakeService<u32>>::Future: Future<Item = S>,
    <S as MakeService<u32>>::MakeError: Into<BoxedError>,
{
    fn call(&mut self, req: Request<Body>) -> RespFut {
        Box::new(self.0.call(req))
    }
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        Service::poll_ready(&mut self.0)
    }
    fn dup(&self) -> ESvc {
        ESvc(Box::new(Base(self.0.clone())))
    }
    fn own_make(&mut self) -> Option<Result<ESvc, BoxedError>> {
        if let Err(e) = make_ready(MakeService::<u32>::poll_ready(&mut self.0)) {
            return Some(Err(e));
        }
        let f = MakeService::make_service(&mut self.0, 7u32);
        Some(now_ready(f).map(|s| ESvc(Box::new(Base(s)))))
    }
}

/// Scripted readiness: the inner service of the adapters under test.
struct Gate {
    inner: ESvc,
    script: Arc<Vec<GateStep>>,
    k: usize,
    sleep: Option<sim::Sleep>,
    granted: bool,
    server: usize,
}
impl Clone for Gate {
    fn clone(&self) -> Self {
        Gate {
            inner: self.inner.clone(),
            script: self.script.clone(),
            k: 0,
            sleep: None,
            granted: false,
            server: self.server,
        }
    }
}
impl Service for Gate {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = RespFut;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        if let Async::NotReady = self.inner.poll_ready()? {
            return Ok(Async::NotReady);
        }
        if self.granted {
            return Ok(Async::Ready(()));
        }
        match self.script.get(self.k).cloned().unwrap_or(GateStep::Ready) {
            GateStep::Ready => {
                self.granted = true;
                Ok(Async::Ready(()))
            }
            GateStep::NotReady(us) => {
                if self.sleep.is_none() {
                    sim::stat("fault.service_not_ready");
                    self.sleep = Some(sim::sleep(u64::from(us)));
                }
                match self.sleep.as_mut().unwrap().poll() {
                    Ok(Async::Ready(())) => {
                        self.sleep = None;
                        self.granted = true;
                        Ok(Async::Ready(()))
                    }
                    _ => Ok(Async::NotReady),
                }
            }
            GateStep::Err => {
                sim::stat("fault.service_ready_error");
                Err(OtherErr(format!("gate:{}", self.server)).into())
            }
        }
    }
    fn call(&mut self, req: Request<Body>) -> RespFut {
        if !self.granted {
            viol(
                "called-when-not-ready",
                &["P17"],
                CURRENT.with(|c| c.get()),
                "a request was pushed into a wrapped service that had not reported readiness".into(),
            );
        }
        self.granted = false;
        self.k += 1;
        self.inner.call(req)
    }
}

type PanicHandler = Arc<dyn Fn(Box<dyn Any + Send>) -> RespFut + Send + Sync>;

fn panic_handler(server: usize, level: usize, cfg: &ServerCfg) -> PanicHandler {
    let d = cfg.catch_delay;
    let out = cfg.catch_out.clone();
    Arc::new(move |payload: Box<dyn Any + Send>| -> RespFut {
        let name = sim::payload_str(&*payload);
        // Which request panicked is encoded in the payload, or found by the current call.
        let id = name
            .split(':')
            .nth(1)
            .and_then(|s| s.parse::<u32>().ok())
            .unwrap_or_else(|| CURRENT.with(|c| c.get()));
        rec(id, format!("panic-handler s{} l{} {}", server, level, name));
        drop(payload);
        // A handler that answered HEAD with a body would be at fault itself.
        let head = w(|x| x.reqs.get(&id).map_or(false, |r| r.spec.method == "HEAD"));
        let mut dl = delay(d, 0, is_sync(id));
        let out = out.clone();
        Box::new(futures::future::poll_fn(move || {
            if let Async::NotReady = dl.poll_delay() {
                return Ok(Async::NotReady);
            }
            match &out {
                CatchOut::Resp(s) => Ok(Async::Ready(
                    Response::builder()
                        .status(*s)
                        .header("x-panic", name.as_str())
                        .body(if head { Body::empty() } else { Body::from(format!("panic:{}", name)) })
                        .unwrap(),
                )),
                CatchOut::Err => Err(OtherErr(format!("panic:{}", name)).into()),
            }
        }))
    })
}

thread_local! {
    /// The request whose future is being polled on this thread (set by `Tracked`).
    pub static CURRENT: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

struct SetCur(u32);
impl SetCur {
    fn new(id: u32) -> SetCur {
        let old = CURRENT.with(|c| c.replace(id));
        SetCur(old)
    }
}
impl Drop for SetCur {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(self.0));
    }
}

/// Outermost probe around the whole service stack: notes which request is running and
/// what the stack finally returned.
#[derive(Clone)]
pub struct Probe {
    inner: ESvc,
}
impl Probe {
    /// The service itself.
    pub fn bare(self) -> ESvc {
        self.inner
    }
}
impl Service for Probe {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = RespFut;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.inner.poll_ready()
    }
    fn call(&mut self, req: Request<Body>) -> RespFut {
        let (p, b) = req.into_parts();
        let r = Request::from_parts(p, ());
        let id = req_id(&r);
        let (mut p, ()) = r.into_parts();
        if p.extensions.get::<ExtTok>().is_none() {
            // as a server's own layer in front of the service would
            p.extensions.insert(ExtTok(format!("ext{}", id), None));
        }
        let req = Request::from_parts(p, b);
        let fut = {
            let _s = SetCur::new(id);
            let wake = w(|x| match x.reqs.get_mut(&id) {
                Some(r) => {
                    r.issued_at = Some(sim::now());
                    std::mem::replace(&mut r.seen_wait, vec![])
                }
                None => vec![],
            });
            for t in wake {
                t.notify();
            }
            sim::stat("probe.service_calls");
            self.inner.call(req)
        };
        Box::new(Tracked { id, fut: Some(fut) })
    }
}

struct Tracked {
    id: u32,
    fut: Option<RespFut>,
}
impl Future for Tracked {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        let _s = SetCur::new(self.id);
        sim::preempt_point();
        let r = self.fut.as_mut().expect("service future polled after completion").poll();
        match &r {
            Ok(Async::NotReady) => return Ok(Async::NotReady),
            Ok(Async::Ready(resp)) => rec(self.id, format!("ret {}", resp.status().as_u16())),
            Err(e) => rec(self.id, format!("ret err {}", err_name(e))),
        }
        self.fut = None;
        r
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let _s = SetCur::new(self.id);
        if self.fut.take().is_some() {
            // cancelled (or unwinding)
            if crate::world::w_opt(|_| ()).is_some() {
                rec(self.id, if std::thread::panicking() { "unwound" } else { "dropped" }.into());
            }
        }
    }
}

pub fn err_name(e: &BoxedError) -> String {
    if let Some(o) = e.downcast_ref::<OtherErr>() {
        return format!("{}", o);
    }
    if let Some(o) = e.downcast_ref::<WrapErr>() {
        return format!("{}", o);
    }
    if let Some(h) = e.downcast_ref::<hyperdrive::Error>() {
        return hd_name(h);
    }
    if e.is::<serde_json::Error>() {
        return format!("json: {}", e);
    }
    if e.is::<serde_urlencoded::de::Error>() {
        return format!("form: {}", e);
    }
    if e.is::<hyper::Error>() {
        return "hyper".into();
    }
    if let Some(o) = e.downcast_ref::<std::io::Error>() {
        return format!("io:{:?}:{}", o.kind(), o);
    }
    let s = e.to_string();
    if s.starts_with("str:") {
        return s;
    }
    format!("unknown:{}", s)
}

pub fn hd_name(h: &hyperdrive::Error) -> String {
    let src = match h.source() {
        Some(s) => match s.downcast_ref::<OtherErr>() {
            Some(o) => format!(" {}", o.0),
            None => match s.downcast_ref::<hyperdrive::Error>() {
                Some(inner) => format!(" <{}>", hd_name(inner)),
                None => format!(" {}", s),
            },
        },
        None => String::new(),
    };
    // the cause is part of the displayed text (it is what users send as a body)
    let src = match h.source() {
        Some(s) if !h.to_string().contains(&s.to_string()) => format!("{} displayed as {:?}", src, h.to_string()),
        _ => src,
    };
    match h.allowed_methods() {
        Some(m) => {
            let mut v: Vec<&str> = m.iter().map(|m| m.as_str()).collect();
            v.sort();
            v.dedup();
            format!("hd {} [{}]{}", h.http_status().as_u16(), v.join(","), src)
        }
        None => format!("hd {}{}", h.http_status().as_u16(), src),
    }
}

// ------------------------------------------------------------------ apps

pub struct AppEntry {
    pub model: &'static AppModel,
    /// builds hyperdrive's service: (kind, server index, context id, use `new`)
    pub service: fn(SvcKind, usize, u32, bool) -> ESvc,
    pub decode: fn(Request<Body>, u32, bool) -> DefaultFuture<String, BoxedError>,
    pub decode_sync: fn(Request<Body>, u32) -> Result<String, BoxedError>,
}

type AsyncH<R> = fn(usize, String, R, Arc<Request<()>>) -> RespFut;

fn mk_service<R>(kind: SvcKind, server: usize, ctx: u32, _use_new: bool) -> ESvc
where
    R: FromRequest + Desc + Send + 'static,
    R::Context: MkCtx,
    R::Future: 'static,
{
    let c = <R::Context as MkCtx>::mk(ctx);
    match kind {
        SvcKind::Async => {
            let h: AsyncH<R> = async_handler::<R>;
            ESvc(Box::new(Base(AsyncService::with_context(
                move |r: R, q: Arc<Request<()>>| h(server, r.desc(), r, q),
                c,
            ))))
        }
        SvcKind::Sync => ESvc(Box::new(Base(SyncService::with_context(
            move |r: R, q: Arc<Request<()>>| sync_handler(server, r.desc(), r, q),
            c,
        )))),
    }
}

fn mk_service_new<R>(kind: SvcKind, server: usize, ctx: u32, use_new: bool) -> ESvc
where
    R: FromRequest<Context = NoContext> + Desc + Send + 'static,
    R::Future: 'static,
{
    if !use_new {
        return mk_service::<R>(kind, server, ctx, false);
    }
    match kind {
        SvcKind::Async => ESvc(Box::new(Base(AsyncService::new(
            move |r: R, q: Arc<Request<()>>| async_handler(server, r.desc(), r, q),
        )))),
        SvcKind::Sync => ESvc(Box::new(Base(SyncService::new(
            move |r: R, q: Arc<Request<()>>| sync_handler(server, r.desc(), r, q),
        )))),
    }
}

fn decode<R>(req: Request<Body>, ctx: u32, whole: bool) -> DefaultFuture<String, BoxedError>
where
    R: FromRequest + Desc + Send + 'static,
    R::Context: MkCtx,
    R::Future: 'static,
{
    let c = <R::Context as MkCtx>::mk(ctx);
    if whole {
        Box::new(R::from_request(req, c).into_future().map(|r| r.desc()))
    } else {
        let (parts, body) = req.into_parts();
        let req = Arc::new(Request::from_parts(parts, ()));
        Box::new(R::from_request_and_body(&req, body, c).into_future().map(|r| r.desc()))
    }
}

fn decode_sync<R>(req: Request<Body>, ctx: u32) -> Result<String, BoxedError>
where
    R: FromRequest + Desc + Send + 'static,
    R::Context: MkCtx,
{
    R::from_request_sync(req, <R::Context as MkCtx>::mk(ctx)).map(|r| r.desc())
}

pub fn entry<R>(model: &'static AppModel) -> AppEntry
where
    R: FromRequest + Desc + Send + 'static,
    R::Context: MkCtx,
    R::Future: 'static,
{
    AppEntry {
        model,
        service: mk_service::<R>,
        decode: decode::<R>,
        decode_sync: decode_sync::<R>,
    }
}

pub fn entry_new<R>(model: &'static AppModel) -> AppEntry
where
    R: FromRequest<Context = NoContext> + Desc + Send + 'static,
    R::Future: 'static,
{
    AppEntry {
        model,
        service: mk_service_new::<R>,
        decode: decode::<R>,
        decode_sync: decode_sync::<R>,
    }
}

// ------------------------------------------------------------------ service stacks

/// The full stack of one server, and a way to make services for its connections.
pub struct Stack {
    top: ESvc,
    make: MakeKind,
    cloning: hyperdrive::service::MakeServiceByCloning<ESvc>,
    /// Services of connections on which nothing ever arrives.
    idle: Vec<Probe>,
}

pub fn build_stack(idx: usize, cfg: &ServerCfg, app: &AppEntry) -> Stack {
    let mut s = (app.service)(cfg.kind, idx, cfg.ctx, cfg.use_new);
    let mut level = 0;
    for wr in &cfg.wraps {
        s = match wr {
            Wrap::Catch => {
                let h = panic_handler(idx, level, cfg);
                level += 1;
                ESvc(Box::new(Plain(s.catch_unwind(move |p| h(p)))))
            }
            Wrap::Gate => ESvc(Box::new(Plain(Gate {
                inner: s,
                script: Arc::new(cfg.gate.clone()),
                k: 0,
                sleep: None,
                granted: false,
                server: idx,
            }))),
            Wrap::Clone => {
                let c = s.clone();
                drop(s);
                c
            }
        };
    }
    let cloning = s.clone().make_service_by_cloning();
    let mut st = Stack { top: s, make: cfg.make, cloning, idle: vec![] };
    let keep = if cfg.makes % 2 == 0 { 1 } else { 3 };
    for i in 0..cfg.makes {
        sim::stat("probe.extra_services");
        match st.make_conn() {
            Ok(p) if i % keep == 0 => st.idle.push(p),
            Ok(_) => {}
            Err(_) => break,
        }
    }
    st
}

impl Stack {
    pub fn make_conn(&mut self) -> Result<Probe, BoxedError> {
        let _np = sim::NoPreempt::new();
        match catch_unwind(AssertUnwindSafe(|| self.make_conn_inner())) {
            Ok(r) => r,
            Err(p) => {
                viol("make-panicked", &["P17"], 0, format!("making a service panicked: {}", sim::payload_str(&*p)));
                Err(OtherErr("make-panicked".into()).into())
            }
        }
    }
    fn make_conn_inner(&mut self) -> Result<Probe, BoxedError> {
        let s = match self.make {
            MakeKind::Own => match self.top.0.own_make() {
                Some(r) => r?,
                None => self.by_cloning()?,
            },
            MakeKind::Cloning => self.by_cloning()?,
        };
        Ok(Probe { inner: s })
    }
    fn by_cloning(&mut self) -> Result<ESvc, BoxedError> {
        make_ready(MakeService::<u32>::poll_ready(&mut self.cloning))?;
        now_ready(MakeService::make_service(&mut self.cloning, 3u32))
    }
}

/// `MakeService` given to hyper.
pub struct StackMake(pub Stack);
impl<'a> MakeService<&'a crate::net::Sock> for StackMake {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Service = Probe;
    type Future = futures::future::FutureResult<Probe, BoxedError>;
    type MakeError = BoxedError;
    fn make_service(&mut self, _c: &'a crate::net::Sock) -> Self::Future {
        self.0.make_conn().into_future()
    }
}
