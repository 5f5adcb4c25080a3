//! Drivers: they put the clients, the services and the faults of one scenario into the
//! simulator, run it, and collect what happened.

use crate::net::{self, Conn, Sock};
use crate::scenario::*;
use crate::sim::{self, Class, SimExec, Sleep};
use crate::svc::{self, AppEntry, Probe, RespFut, StackMake};
use crate::types::*;
use crate::world::{wait_served, self, rec, set_outcome, viol, w, Cancel, Got, Live, ReqRt, World};
use futures::sync::mpsc;
use futures::{Async, Future, Poll, Sink, Stream};
use http::Request;
use hyper::service::Service;
use hyper::Body;
use hyperdrive::{BoxedError, DefaultFuture};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

type Apps = Arc<Vec<AppEntry>>;

fn lk<T>(m: &Mutex<T>) -> sim::Guard<'_, T> {
    sim::lock(m)
}

// ------------------------------------------------------------------ building requests

/// The request metadata as the server must see it.
pub fn request_of(r: &ReqSpec, mode: Mode) -> Request<()> {
    let mut q = Request::new(());
    *q.method_mut() = r.method.parse().expect("scenario: bad method");
    let target = match mode {
        Mode::H2 => format!("http://sim.test{}", r.target),
        _ => r.target.clone(),
    };
    *q.uri_mut() = target.parse().expect("scenario: bad target");
    *q.version_mut() = match (mode, r.version) {
        (Mode::H2, _) | (_, 20) => http::Version::HTTP_2,
        (_, 10) => http::Version::HTTP_10,
        _ => http::Version::HTTP_11,
    };
    for (k, v) in header_list(r, mode) {
        let k: http::header::HeaderName = k.parse().expect("scenario: bad header");
        q.headers_mut().append(k, v.parse().expect("scenario: bad header value"));
    }
    q
}

fn header_list(r: &ReqSpec, mode: Mode) -> Vec<(String, String)> {
    let mut h = vec![("x-req".to_string(), r.id.to_string())];
    h.extend(r.headers.iter().cloned());
    if mode == Mode::H1 {
        h.push(("host".into(), "sim.test".into()));
        match r.body.framing {
            Framing::None => {}
            Framing::Length | Framing::Channel => h.push(("content-length".into(), r.body.bytes.len().to_string())),
            Framing::Chunked => h.push(("transfer-encoding".into(), "chunked".into())),
        }
        if r.close {
            h.push(("connection".into(), "close".into()));
        }
    }
    h
}

fn ext_token(r: &ReqSpec) -> String {
    format!("ext{}", r.id)
}

/// Body stream handed to the code under test.
struct BStream {
    id: u32,
    bytes: Vec<u8>,
    pieces: VecDeque<(usize, u32)>,
    pos: usize,
    d: Option<Delay>,
    fail: bool,
    sync: bool,
    /// fail only once the service has been called with the request
    late: bool,
    /// polls answered NotReady (with a wake) before the next piece
    _live: Live,
}
impl Stream for BStream {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        if !self.late {
            let id = self.id;
            w(|x| {
                if let Some(r) = x.reqs.get_mut(&id) {
                    if r.body_polled_at.is_none() {
                        r.body_polled_at = Some(r.log.len());
                    }
                }
            });
        }
        let (n, dl) = match self.pieces.front() {
            None => {
                if self.fail {
                    if self.late && !wait_served(self.id) {
                        return Ok(Async::NotReady);
                    }
                    sim::stat("fault.body_stream_error");
                    return Err(OtherErr(format!("body{}", self.id)).into());
                }
                return Ok(Async::Ready(None));
            }
            Some(p) => *p,
        };
        if self.d.is_none() {
            self.d = Some(delay(dl, 0, self.sync));
        }
        if let Async::NotReady = self.d.as_mut().unwrap().poll_delay() {
            return Ok(Async::NotReady);
        }
        self.d = None;
        self.pieces.pop_front();
        let v = self.bytes[self.pos..self.pos + n].to_vec();
        self.pos += n;
        sim::stat("probe.body_pieces");
        Ok(Async::Ready(Some(v)))
    }
}

/// Splits a body according to its plan; with a cut, only the bytes before it.
fn split_pieces(b: &BodySpec) -> Vec<(usize, u32)> {
    let total = match b.cut {
        Some((n, _)) => (n as usize).min(b.bytes.len()),
        None => b.bytes.len(),
    };
    let mut out = vec![];
    let mut left = total;
    for (n, d) in &b.pieces {
        let n = (*n as usize).min(left);
        out.push((n, *d));
        left -= n;
    }
    if left > 0 {
        out.push((left, 0));
    }
    out
}

/// `wire`: the body is sent by an HTTP/2 client. h2 0.1 may reset a stream it has not opened
/// yet, which the peer must treat as a connection error, so a failure waits until the request
/// has been seen.
fn direct_body(r: &ReqSpec, sync: bool, wire: bool) -> Body {
    let b = &r.body;
    if b.bytes.len() > 1 << 20 {
        sim::stat("probe.body_over_1m");
    } else if b.bytes.len() > 1 << 16 {
        sim::stat("probe.body_over_64k");
    }
    match b.framing {
        Framing::None => Body::empty(),
        Framing::Length => Body::from(b.bytes.clone()),
        Framing::Chunked => Body::wrap_stream(BStream {
            id: r.id,
            bytes: b.bytes.clone(),
            pieces: split_pieces(b).into(),
            pos: 0,
            d: None,
            fail: b.cut.is_some(),
            sync,
            late: wire,
            _live: Live::new(r.id),
        }),
        Framing::Channel => {
            let (tx, body) = Body::channel();
            if sync {
                // feed everything through the runtime of the synchronous entry point
                let data: Vec<Vec<u8>> = chunks_of(b);
                let fail = b.cut.is_some();
                let f = SenderTask { tx: Some(tx), data: data.into_iter().map(|d| (d, 0)).collect(), d: None, fail, sync: true, late: None };
                SYNC_SPAWN.with(|s| s.borrow_mut().push(Box::new(f)));
            } else {
                let data = chunks_of(b).into_iter().zip(split_pieces(b).into_iter().map(|p| p.1)).collect();
                sim::spawn(
                    Class::Client,
                    format!("sender{}", r.id),
                    Box::new(SenderTask { tx: Some(tx), data, d: None, fail: b.cut.is_some(), sync: false, late: if wire { Some(r.id) } else { None } }),
                );
            }
            body
        }
    }
}

thread_local! {
    static SYNC_SPAWN: std::cell::RefCell<Vec<sim::BoxFut>> = std::cell::RefCell::new(vec![]);
}

fn chunks_of(b: &BodySpec) -> Vec<Vec<u8>> {
    let mut pos = 0;
    split_pieces(b)
        .into_iter()
        .map(|(n, _)| {
            let v = b.bytes[pos..pos + n].to_vec();
            pos += n;
            v
        })
        .collect()
}

struct SenderTask {
    tx: Option<hyper::body::Sender>,
    data: VecDeque<(Vec<u8>, u32)>,
    d: Option<Delay>,
    fail: bool,
    sync: bool,
    late: Option<u32>,
}
impl Future for SenderTask {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            let dl = match self.data.front() {
                None => {
                    if self.fail && self.late.map_or(false, |id| !wait_served(id)) {
                        return Ok(Async::NotReady);
                    }
                    let tx = self.tx.take();
                    if self.fail {
                        sim::stat("fault.body_channel_abort");
                        if let Some(tx) = tx {
                            tx.abort();
                        }
                    }
                    return Ok(Async::Ready(()));
                }
                Some(f) => f.1,
            };
            if self.d.is_none() {
                self.d = Some(delay(dl, 0, self.sync));
            }
            if let Async::NotReady = self.d.as_mut().unwrap().poll_delay() {
                return Ok(Async::NotReady);
            }
            match self.tx.as_mut().expect("sender polled after end").poll_ready() {
                Ok(Async::Ready(())) => {}
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Err(_) => {
                    sim::stat("probe.body_receiver_gone");
                    return Ok(Async::Ready(()));
                }
            }
            self.d = None;
            let (v, _) = self.data.pop_front().unwrap();
            if self.tx.as_mut().unwrap().send_data(v.into()).is_err() {
                return Ok(Async::Ready(()));
            }
        }
    }
}

fn direct_request(r: &ReqSpec, mode: Mode, sync: bool) -> Request<Body> {
    let (mut parts, ()) = request_of(r, mode).into_parts();
    parts.extensions.insert(ExtTok(ext_token(r), Some(Live::new(r.id))));
    Request::from_parts(parts, direct_body(r, sync, false))
}

// ------------------------------------------------------------------ HTTP/1 client

enum Op {
    Gap(u32),
    WaitResp(usize),
    Send(Vec<u8>),
    /// every byte of the request has been written
    Sent(u32),
    /// the body is cut short here
    Cut(u32, bool),
}

fn h1_ops(reqs: &[ReqSpec]) -> VecDeque<Op> {
    let mut ops = VecDeque::new();
    for (i, r) in reqs.iter().enumerate() {
        if r.gap > 0 {
            ops.push_back(Op::Gap(r.gap));
        }
        if r.wait_prev {
            ops.push_back(Op::WaitResp(i));
        }
        let v = if r.version == 10 { "1.0" } else { "1.1" };
        let mut head = format!("{} {} HTTP/{}\r\n", r.method, r.target, v);
        for (k, v) in header_list(r, Mode::H1) {
            head.push_str(&format!("{}: {}\r\n", k, v));
        }
        head.push_str("\r\n");
        ops.push_back(Op::Send(head.into_bytes()));
        let chunked = r.body.framing == Framing::Chunked;
        if r.body.framing != Framing::None {
            let mut pos = 0;
            for (n, d) in split_pieces(&r.body) {
                if d > 0 {
                    ops.push_back(Op::Gap(d));
                }
                if n == 0 {
                    continue;
                }
                let data = &r.body.bytes[pos..pos + n];
                pos += n;
                if chunked {
                    let mut v = if r.id % 4 == 0 {
                        format!("{:X};ext=\"v\"\r\n", n).into_bytes()
                    } else {
                        format!("{:x}\r\n", n).into_bytes()
                    };
                    v.extend_from_slice(data);
                    v.extend_from_slice(b"\r\n");
                    ops.push_back(Op::Send(v));
                } else {
                    ops.push_back(Op::Send(data.to_vec()));
                }
            }
            if let Some((_, rst)) = r.body.cut {
                ops.push_back(Op::Cut(r.id, rst));
                return ops;
            }
            if chunked {
                ops.push_back(Op::Send(b"0\r\n\r\n".to_vec()));
            }
        }
        ops.push_back(Op::Sent(r.id));
    }
    ops
}

enum Parsed {
    Need,
    Done(Got, usize),
    Skip(usize),
    Bad(String),
}

fn parse_response(b: &[u8], head: bool, eof: bool) -> Parsed {
    let hl = match b.windows(4).position(|x| x == b"\r\n\r\n") {
        Some(i) => i + 4,
        None => {
            if eof && !b.is_empty() {
                return Parsed::Bad(format!("connection ended inside a response head: {:?}", String::from_utf8_lossy(b)));
            }
            if b.len() >= 5 && &b[..5] != b"HTTP/" {
                return Parsed::Bad(format!("not a response: {:?}", String::from_utf8_lossy(&b[..b.len().min(80)])));
            }
            return Parsed::Need;
        }
    };
    let text = String::from_utf8_lossy(&b[..hl - 4]).into_owned();
    let mut lines = text.split("\r\n");
    let st = lines.next().unwrap_or("");
    let mut it = st.splitn(3, ' ');
    let ver = it.next().unwrap_or("");
    let status: u16 = match (ver.starts_with("HTTP/1."), it.next().and_then(|s| s.parse().ok())) {
        (true, Some(s)) => s,
        _ => return Parsed::Bad(format!("not a response: {:?}", st)),
    };
    let mut headers: Vec<(String, String)> = vec![];
    for l in lines {
        match l.find(':') {
            Some(i) => headers.push((l[..i].to_lowercase(), l[i + 1..].trim().to_string())),
            None => return Parsed::Bad(format!("bad header line {:?}", l)),
        }
    }
    if status / 100 == 1 {
        return Parsed::Skip(hl);
    }
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    let body = &b[hl..];
    if head || status == 204 || status == 304 {
        return Parsed::Done(Got::Resp { status, headers, body: vec![], complete: true }, hl);
    }
    if get("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
        let mut out = vec![];
        let mut p = 0;
        loop {
            let part = |out: Vec<u8>| {
                if eof {
                    Parsed::Done(Got::Resp { status, headers: headers.clone(), body: out, complete: false }, b.len())
                } else {
                    Parsed::Need
                }
            };
            let nl = match body[p..].windows(2).position(|x| x == b"\r\n") {
                Some(i) => i,
                None => return part(out),
            };
            let sz = String::from_utf8_lossy(&body[p..p + nl]).into_owned();
            let n = match usize::from_str_radix(sz.split(';').next().unwrap_or("").trim(), 16) {
                Ok(n) => n,
                Err(_) => return Parsed::Bad(format!("bad chunk size {:?}", sz)),
            };
            p += nl + 2;
            if n == 0 {
                if body.len() < p + 2 {
                    return part(out);
                }
                if &body[p..p + 2] != b"\r\n" {
                    return Parsed::Bad("bad chunk trailer".into());
                }
                return Parsed::Done(Got::Resp { status, headers, body: out, complete: true }, hl + p + 2);
            }
            if body.len() < p + n + 2 {
                out.extend_from_slice(&body[p..body.len().min(p + n)]);
                return part(out);
            }
            out.extend_from_slice(&body[p..p + n]);
            if &body[p + n..p + n + 2] != b"\r\n" {
                return Parsed::Bad("bad chunk end".into());
            }
            p += n + 2;
        }
    }
    if let Some(v) = get("content-length") {
        let n: usize = match v.parse() {
            Ok(n) => n,
            Err(_) => return Parsed::Bad(format!("bad content-length {:?}", v)),
        };
        if body.len() >= n {
            return Parsed::Done(Got::Resp { status, headers, body: body[..n].to_vec(), complete: true }, hl + n);
        }
        if eof {
            return Parsed::Done(Got::Resp { status, headers, body: body.to_vec(), complete: false }, b.len());
        }
        return Parsed::Need;
    }
    if eof {
        return Parsed::Done(Got::Resp { status, headers, body: body.to_vec(), complete: true }, b.len());
    }
    Parsed::Need
}

struct H1Client {
    ci: usize,
    start: Option<Sleep>,
    tx: Option<mpsc::UnboundedSender<Sock>>,
    sock: Option<Sock>,
    conn: Arc<Conn>,
    server_end: Option<Sock>,
    ops: VecDeque<Op>,
    pos: usize,
    sleep: Option<Sleep>,
    ids: Vec<u32>,
    heads: Vec<bool>,
    got: usize,
    rbuf: Vec<u8>,
    fin: Arc<Mutex<Cancel>>,
    write_dead: bool,
    closed: bool,
}

impl H1Client {
    fn end(&mut self, why: &str) -> Poll<(), ()> {
        for i in self.got..self.ids.len() {
            set_outcome(self.ids[i], Got::Closed);
        }
        sim::trace(|| format!("conn {} client ends: {}", self.ci, why));
        self.got = self.ids.len();
        self.sock = None;
        Ok(Async::Ready(()))
    }
    fn writes(&mut self) -> bool {
        // true: progress to report to the reader side (a cut with reset)
        while !self.write_dead {
            let op = match self.ops.front() {
                None => return false,
                Some(o) => o,
            };
            match op {
                Op::Gap(d) => {
                    if self.sleep.is_none() {
                        self.sleep = Some(sim::sleep(u64::from(*d)));
                    }
                    match self.sleep.as_mut().unwrap().poll() {
                        Ok(Async::Ready(())) => self.sleep = None,
                        _ => return false,
                    }
                }
                Op::WaitResp(n) => {
                    if self.got < *n {
                        return false;
                    }
                }
                Op::Send(data) => {
                    let sock = self.sock.as_mut().unwrap();
                    match sock.write(&data[self.pos..]) {
                        Ok(n) => {
                            self.pos += n;
                            if self.pos < data.len() {
                                continue;
                            }
                            self.pos = 0;
                        }
                        Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => return false,
                        Err(_) => {
                            sim::stat("probe.client_write_failed");
                            self.write_dead = true;
                            return false;
                        }
                    }
                }
                Op::Sent(id) => {
                    let id = *id;
                    w(|x| {
                        if let Some(r) = x.reqs.get_mut(&id) {
                            r.bytes_sent_all = true;
                        }
                    });
                }
                Op::Cut(id, rst) => {
                    let (id, rst) = (*id, *rst);
                    sim::stat(if rst { "fault.upload_reset" } else { "fault.upload_truncated" });
                    sim::trace(|| format!("FAULT body of r{} cut (reset={})", id, rst));
                    let now = sim::now();
                    let ci = self.ci;
                    w(|x| world::mark(x, ci, now, rst));
                    if rst {
                        self.conn.reset();
                    } else {
                        self.sock.as_mut().unwrap().close_write();
                        self.closed = true;
                    }
                    self.write_dead = true;
                    return rst;
                }
            }
            self.ops.pop_front();
        }
        false
    }
}

impl Future for H1Client {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Some(s) = &mut self.start {
            match s.poll() {
                Ok(Async::Ready(())) => {
                    self.start = None;
                    let s = self.server_end.take().unwrap();
                    sim::trace(|| format!("conn {} opened", self.ci));
                    let _ = self.tx.take().unwrap().unbounded_send(s);
                    sim::stat("probe.connections");
                }
                _ => return Ok(Async::NotReady),
            }
        }
        {
            let mut c = lk(&self.fin);
            if c.flag {
                drop(c);
                return self.end("closed by fault");
            }
            c.task = Some(futures::task::current());
        }
        loop {
            self.writes();
            // read
            let mut buf = [0u8; 4096];
            let r = match self.sock.as_mut() {
                Some(s) => s.read(&mut buf),
                None => return Ok(Async::Ready(())),
            };
            let eof = match r {
                Ok(0) => true,
                Ok(n) => {
                    self.rbuf.extend_from_slice(&buf[..n]);
                    false
                }
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if self.got >= self.ids.len() && !self.closed && (self.ops.is_empty() || self.write_dead) {
                        self.closed = true;
                        self.sock.as_mut().unwrap().close_write();
                    }
                    return Ok(Async::NotReady);
                }
                Err(_) => return self.end("reset"),
            };
            loop {
                if self.rbuf.is_empty() {
                    break;
                }
                if self.got >= self.ids.len() {
                    let extra = String::from_utf8_lossy(&self.rbuf[..self.rbuf.len().min(80)]).into_owned();
                    viol(
                        "extra-bytes",
                        &["P03", "P09", "P08"],
                        *self.ids.last().unwrap_or(&0),
                        format!("bytes after the last response of connection {}: {:?}", self.ci, extra),
                    );
                    return self.end("extra bytes");
                }
                match parse_response(&self.rbuf, self.heads[self.got], eof) {
                    Parsed::Need => break,
                    Parsed::Skip(n) => {
                        sim::stat("probe.informational_response");
                        self.rbuf.drain(..n);
                    }
                    Parsed::Done(g, n) => {
                        self.rbuf.drain(..n);
                        set_outcome(self.ids[self.got], g);
                        self.got += 1;
                    }
                    Parsed::Bad(m) => {
                        let id = self.ids[self.got];
                        let disturbed = w(|x| x.reqs.get(&id).map_or(false, |r| r.disturbed));
                        if !(disturbed && eof) {
                            viol(
                                "garbled-response",
                                &["P03", "P09", "P08"],
                                id,
                                format!("response stream of connection {} is corrupt: {}", self.ci, m),
                            );
                        }
                        return self.end("garbled");
                    }
                }
            }
            if eof {
                return self.end("eof");
            }
        }
    }
}

// ------------------------------------------------------------------ HTTP/2 client

struct Watch<F> {
    inner: Option<F>,
    fin: Arc<Mutex<Cancel>>,
}
impl<F: Future> Future for Watch<F> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        {
            let mut c = lk(&self.fin);
            if c.flag {
                drop(c);
                self.inner = None;
                return Ok(Async::Ready(()));
            }
            c.task = Some(futures::task::current());
        }
        match self.inner.as_mut().map(|f| f.poll()) {
            Some(Ok(Async::NotReady)) => Ok(Async::NotReady),
            _ => {
                self.inner = None;
                Ok(Async::Ready(()))
            }
        }
    }
}

type H2Send = hyper::client::conn::SendRequest<Body>;

/// Sends the requests of one HTTP/2 connection one after the other, without waiting.
struct H2Dispatch {
    ci: usize,
    send: Option<H2Send>,
    reqs: VecDeque<ReqSpec>,
    sleep: Option<Sleep>,
}
impl Future for H2Dispatch {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            let r = match self.reqs.front() {
                None => {
                    self.send = None;
                    return Ok(Async::Ready(()));
                }
                Some(r) => r,
            };
            if self.sleep.is_none() {
                self.sleep = Some(sim::sleep(u64::from(r.gap)));
            }
            match self.sleep.as_mut().unwrap().poll() {
                Ok(Async::Ready(())) => {}
                _ => return Ok(Async::NotReady),
            }
            match self.send.as_mut().unwrap().poll_ready() {
                Ok(Async::Ready(())) => {}
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Err(_) => {
                    for r in self.reqs.drain(..) {
                        set_outcome(r.id, Got::Closed);
                    }
                    self.send = None;
                    return Ok(Async::Ready(()));
                }
            }
            self.sleep = None;
            let r = self.reqs.pop_front().unwrap();
            let (p, ()) = request_of(&r, Mode::H2).into_parts();
            let req = Request::from_parts(p, direct_body(&r, false, true));
            let fut = self.send.as_mut().unwrap().send_request(req);
            let cancel = w(|x| {
                let q = x.reqs.get_mut(&r.id).unwrap();
                q.cancel.clone()
            });
            sim::trace(|| format!("r{} sent on conn {}", r.id, self.ci));
            sim::spawn(
                Class::Client,
                format!("h2req{}", r.id),
                Box::new(H2Req { id: r.id, fut: Some(fut), body: None, cancel }),
            );
        }
    }
}

struct H2Req {
    id: u32,
    fut: Option<hyper::client::conn::ResponseFuture>,
    body: Option<(u16, Vec<(String, String)>, Vec<u8>, Body)>,
    cancel: Arc<Mutex<Cancel>>,
}
impl Future for H2Req {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        {
            let mut c = lk(&self.cancel);
            if c.flag && wait_served(self.id) {
                drop(c);
                sim::stat("fault.stream_cancelled");
                self.fut = None;
                self.body = None;
                let now = sim::now();
                let id = self.id;
                w(|x| {
                    let r = x.reqs.get_mut(&id).unwrap();
                    r.disturbed = true;
                    r.body_lost = true;
                    r.cancelled_at = Some(now);
                });
                return Ok(Async::Ready(()));
            }
            c.task = Some(futures::task::current());
        }
        if let Some(f) = &mut self.fut {
            match f.poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(r)) => {
                    self.fut = None;
                    let (p, b) = r.into_parts();
                    self.body = Some((p.status.as_u16(), hdrs(&p.headers), vec![], b));
                }
                Err(e) => {
                    sim::trace(|| format!("r{} client error {:?}", self.id, e));
                    set_outcome(self.id, Got::Err("client".into()));
                    return Ok(Async::Ready(()));
                }
            }
        }
        loop {
            let (s, h, acc, b) = self.body.as_mut().unwrap();
            let complete = match b.poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(Some(c))) => {
                    acc.extend_from_slice(&c);
                    continue;
                }
                Ok(Async::Ready(None)) => true,
                Err(_) => false,
            };
            let g = Got::Resp {
                status: *s,
                headers: std::mem::replace(h, vec![]),
                body: std::mem::replace(acc, vec![]),
                complete,
            };
            set_outcome(self.id, g);
            self.body = None;
            return Ok(Async::Ready(()));
        }
    }
}

pub fn hdrs(h: &http::HeaderMap) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = h
        .iter()
        .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

// ------------------------------------------------------------------ direct calls

enum DState {
    Wait(Sleep),
    Ready,
    Run(RespFut),
    RunDecode(DefaultFuture<String, BoxedError>),
    Body(u16, Vec<(String, String)>, Vec<u8>, Body),
    Done,
}

struct DirectReq {
    id: u32,
    mode: Mode,
    st: DState,
    svc: Option<Arc<svc::Shared>>,
    stack: Option<Arc<Mutex<svc::Stack>>>,
    fresh: u8,
    apps: Apps,
    app: usize,
    ctx: u32,
    whole: bool,
    cancel: Arc<Mutex<Cancel>>,
    spec: ReqSpec,
}

impl DirectReq {
    /// The current task is not the one that goes on waiting for the service.
    fn leave_queue(&self) {
        if let (DState::Ready, Some(c)) = (&self.st, &self.svc) {
            c.leave();
        }
    }
    fn finish(&mut self, g: Got) {
        self.st = DState::Done;
        self.svc = None;
        self.stack = None;
        let g2 = g.clone();
        set_outcome(self.id, g);
        // A panic without a catcher unwinds through the user's types in their own order.
        let channel = self.spec.body.framing == Framing::Channel;
        let _ = (g2, channel);
        let n = world::live_of(self.id);
        if n != 0 {
            viol(
                "leak-after-completion",
                &["P12"],
                self.id,
                format!("{} objects of a completed request are still alive", n),
            );
        }
    }
}

impl Future for DirectReq {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        {
            let c = self.cancel.clone();
            let mut c = lk(&c);
            if c.flag {
                drop(c);
                let now = sim::now();
                let id = self.id;
                let started = match self.st {
                    DState::Wait(_) => false,
                    _ => true,
                };
                sim::stat(if started { "fault.request_dropped" } else { "fault.request_never_issued" });
                w(|x| {
                    let r = x.reqs.get_mut(&id).unwrap();
                    r.disturbed = true;
                    r.cancelled_at = Some(now);
                    r.log_at_cancel = Some(r.log.len());
                });
                self.st = DState::Done;
                if let Some(c) = self.svc.take() {
                    c.leave();
                }
                self.stack = None;
                let n = world::live_of(id);
                if n != 0 {
                    viol(
                        "leak-after-cancel",
                        &["P12"],
                        id,
                        format!("{} objects of a dropped request are still alive", n),
                    );
                }
                return Ok(Async::Ready(()));
            }
            c.task = Some(futures::task::current());
        }
        loop {
            match &mut self.st {
                DState::Done => return Ok(Async::Ready(())),
                DState::Wait(s) => match s.poll() {
                    Ok(Async::Ready(())) => self.st = DState::Ready,
                    _ => return Ok(Async::NotReady),
                },
                DState::Ready => {
                    let id = self.id;
                    if self.mode == Mode::Decode {
                        let req = direct_request(&self.spec, self.mode, false);
                        w(|x| x.reqs.get_mut(&id).unwrap().issued_at = Some(sim::now()));
                        sim::stat("probe.decodes");
                        let a = self.apps.clone();
                        let (app, ctx, whole) = (self.app, self.ctx, self.whole);
                        let f = catch_unwind(AssertUnwindSafe(move || (a[app].decode)(req, ctx, whole)));
                        match f {
                            Ok(f) => self.st = DState::RunDecode(f),
                            Err(p) => {
                                self.finish(Got::Panicked(sim::payload_str(&*p)));
                                return Ok(Async::Ready(()));
                            }
                        }
                        continue;
                    }
                    let cell = self.svc.clone().unwrap();
                    let mut shared = match cell.take() {
                        Some(p) => p,
                        None => return Ok(Async::NotReady),
                    };
                    let mut own = None;
                    match self.fresh {
                        1 => {
                            sim::stat("probe.clone_chain");
                            shared = shared.clone();
                        }
                        2 => {
                            sim::stat("probe.own_service");
                            own = lk(self.stack.as_ref().unwrap()).make_conn().ok();
                        }
                        _ => {}
                    }
                    let svc: &mut Probe = match own.as_mut() {
                        Some(p) => p,
                        None => &mut shared,
                    };
                    match svc.poll_ready() {
                        Ok(Async::Ready(())) => {}
                        Ok(Async::NotReady) => {
                            cell.put(shared);
                            return Ok(Async::NotReady);
                        }
                        Err(e) => {
                            drop(own);
                            cell.put(shared);
                            self.finish(Got::Err(format!("ready:{}", svc::err_name(&e))));
                            return Ok(Async::Ready(()));
                        }
                    }
                    let req = direct_request(&self.spec, self.mode, false);
                    let f = catch_unwind(AssertUnwindSafe(|| svc.call(req)));
                    // the future must not need its service any more
                    drop(own);
                    cell.put(shared);
                    match f {
                        Ok(f) => self.st = DState::Run(f),
                        Err(p) => {
                            self.finish(Got::Panicked(sim::payload_str(&*p)));
                            return Ok(Async::Ready(()));
                        }
                    }
                }
                DState::Run(f) => {
                    let r = catch_unwind(AssertUnwindSafe(|| f.poll()));
                    match r {
                        Err(p) => {
                            rec(self.id, "unwound".into());
                            // drop the poisoned future first, quietly
                            self.finish(Got::Panicked(sim::payload_str(&*p)));
                            return Ok(Async::Ready(()));
                        }
                        Ok(Ok(Async::NotReady)) => return Ok(Async::NotReady),
                        Ok(Ok(Async::Ready(resp))) => {
                            let (p, b) = resp.into_parts();
                            let mut h = hdrs(&p.headers);
                            if let Some(t) = p.extensions.get::<RespTok>() {
                                h.push(("~ext".into(), t.0.to_string()));
                                h.push(("~version".into(), format!("{:?}", p.version)));
                                if self.spec.method != "HEAD" {
                                    use hyper::body::Payload;
                                    h.push(("~length".into(), format!("{:?}", b.content_length())));
                                }
                            }
                            self.st = DState::Body(p.status.as_u16(), h, vec![], b);
                        }
                        Ok(Err(e)) => {
                            self.finish(Got::Err(svc::err_name(&e)));
                            return Ok(Async::Ready(()));
                        }
                    }
                }
                DState::RunDecode(f) => {
                    let r = catch_unwind(AssertUnwindSafe(|| f.poll()));
                    match r {
                        Err(p) => {
                            self.finish(Got::Panicked(sim::payload_str(&*p)));
                            return Ok(Async::Ready(()));
                        }
                        Ok(Ok(Async::NotReady)) => return Ok(Async::NotReady),
                        Ok(Ok(Async::Ready(v))) => {
                            self.finish(Got::Value(v));
                            return Ok(Async::Ready(()));
                        }
                        Ok(Err(e)) => {
                            self.finish(Got::Err(svc::err_name(&e)));
                            return Ok(Async::Ready(()));
                        }
                    }
                }
                DState::Body(s, h, acc, b) => {
                    let complete = match b.poll() {
                        Ok(Async::NotReady) => return Ok(Async::NotReady),
                        Ok(Async::Ready(Some(c))) => {
                            acc.extend_from_slice(&c);
                            continue;
                        }
                        Ok(Async::Ready(None)) => true,
                        Err(_) => false,
                    };
                    let g = Got::Resp {
                        status: *s,
                        headers: std::mem::replace(h, vec![]),
                        body: std::mem::replace(acc, vec![]),
                        complete,
                    };
                    self.finish(g);
                    return Ok(Async::Ready(()));
                }
            }
        }
    }
}

/// A future that may be moved to another task between two polls.
trait Moves: Future<Item = (), Error = ()> + Send {
    fn may_move(&self) -> bool;
}
impl Moves for DirectReq {
    fn may_move(&self) -> bool {
        match self.st {
            DState::Run(_) | DState::RunDecode(_) | DState::Body(..) => true,
            _ => false,
        }
    }
}
impl Moves for BlockReq {
    fn may_move(&self) -> bool {
        self.fut.is_some()
    }
}

/// Continues in a task of its own from time to time (as futures do that are passed on between
/// `select`s, spawned after a first poll, ...). The old task's wake-ups go nowhere.
struct Mover<F> {
    inner: Option<Box<F>>,
    name: String,
    left: u32,
}
fn mover<F: Moves + 'static>(name: String, f: F) -> BoxFutUnit {
    Box::new(Mover { inner: Some(Box::new(f)), name, left: 40 })
}
type BoxFutUnit = Box<dyn Future<Item = (), Error = ()> + Send>;
impl<F: Moves + 'static> Future for Mover<F> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let r = match &mut self.inner {
            Some(f) => f.poll(),
            None => return Ok(Async::Ready(())),
        };
        if let Ok(Async::NotReady) = r {
            if self.left > 0 && self.inner.as_ref().map_or(false, |f| f.may_move()) {
                let pm = sim::with(|c| c.knobs.hop);
                if sim::decide_rare(pm, 1) > 0 {
                    sim::stat("fault.task_changed");
                    let next = Mover { inner: self.inner.take(), name: self.name.clone(), left: self.left - 1 };
                    sim::spawn(Class::Server, self.name.clone(), Box::new(next));
                    return Ok(Async::Ready(()));
                }
            }
        }
        r
    }
}

/// A request that another one makes from within one of its steps; on its own when that step
/// never comes.
struct Nested {
    slot: Arc<Mutex<Option<Box<DirectReq>>>>,
    name: String,
}
impl Nested {
    fn new(name: String, d: DirectReq, at: (u32, u32)) -> BoxFutUnit {
        let slot = Arc::new(Mutex::new(Some(Box::new(d))));
        let (s, n) = (slot.clone(), name.clone());
        w(|x| {
            x.nested.entry(at).or_insert_with(Vec::new).push(Box::new(move || {
                let mut d = match lk(&s).take() {
                    Some(d) => d,
                    None => return,
                };
                if let DState::Wait(_) = d.st {
                    sim::stat("probe.nested_calls");
                    d.st = DState::Ready;
                }
                if let Ok(Async::NotReady) = d.poll() {
                    d.leave_queue();
                    sim::spawn(Class::Server, n.clone(), mover(n, *d));
                }
            }))
        });
        Box::new(Nested { slot, name })
    }
}
impl Future for Nested {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let mut d = match lk(&self.slot).take() {
            Some(d) => d,
            None => return Ok(Async::Ready(())),
        };
        let r = d.poll();
        if let Ok(Async::NotReady) = r {
            if let DState::Wait(_) = d.st {
                *lk(&self.slot) = Some(d);
                return Ok(Async::NotReady);
            }
            d.leave_queue();
            sim::spawn(Class::Server, self.name.clone(), mover(self.name.clone(), *d));
        }
        Ok(Async::Ready(()))
    }
}

/// Requests that are turned away, one after the other; some are dropped before they are polled.
fn pump(p: &Pump, stack: &Arc<Mutex<svc::Stack>>) {
    let mut s = match lk(stack).make_conn() {
        Ok(s) => s.bare(),
        Err(_) => return,
    };
    sim::stat("probe.floods");
    let (status, target) = (p.status, format!("{} {}", p.method, p.target));
    let check = move |r: Result<hyper::Response<Body>, String>, i: u32| {
        let got = match r {
            Ok(r) => r.status().as_u16().to_string(),
            Err(e) => e,
        };
        if got != status.to_string() {
            viol(
                "flood",
                &["P01", "P02", "P07", "P16"],
                0,
                format!("{} was answered with {} instead of {} after {} such requests", target, got, status, i),
            );
            return false;
        }
        true
    };
    let mut pending = 0;
    for i in 0..p.count {
        match s.poll_ready() {
            Ok(Async::Ready(())) => {}
            _ => return,
        }
        let mut q = Request::new(Body::empty());
        *q.method_mut() = p.method.parse().unwrap();
        *q.uri_mut() = p.target.parse().unwrap();
        let f = catch_unwind(AssertUnwindSafe(|| {
            let mut f = s.call(q);
            if i % 3 == 2 {
                return Ok(None);
            }
            match f.poll() {
                Ok(Async::Ready(r)) => Ok(Some(Ok(r))),
                Ok(Async::NotReady) => Err(f),
                Err(e) => Ok(Some(Err(svc::err_name(&e)))),
            }
        }));
        let r = match f {
            Err(p) => Some(Err(format!("panic {}", sim::payload_str(&*p)))),
            Ok(Ok(r)) => r,
            Ok(Err(f)) => {
                // not at once, then later
                pending += 1;
                if pending < 300 {
                    let check = check.clone();
                    let f = f.then(move |r| {
                        check(r.map_err(|e| svc::err_name(&e)), i);
                        Ok(())
                    });
                    sim::spawn(Class::Server, format!("pump{}", i), Box::new(f));
                }
                None
            }
        };
        if let Some(r) = r {
            if !check(r, i) {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ blocking API

/// One future of `hyperdrive::blocking`, polled (or not) as the plan says.
struct BlockReq {
    id: u32,
    wait: Option<Sleep>,
    fut: Option<Box<dyn Future<Item = String, Error = String> + Send>>,
    spec: ReqSpec,
    cancel: Arc<Mutex<Cancel>>,
    hold: Option<Sleep>,
}

pub fn block_value(r: &ReqSpec) -> Got {
    match &r.plan.handler.out {
        HOut::Resp { status, .. } => Got::Value(format!("v{}:{}", r.id, status)),
        HOut::Hd(s) => Got::Err(format!("e{}:{}", r.id, s)),
        _ => Got::Panicked(panic_name(r.id, "closure")),
    }
}

fn closure_runs(id: u32) -> u32 {
    w(|x| x.reqs.get(&id).map_or(0, |r| r.closure_runs))
}

impl Future for BlockReq {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let id = self.id;
        {
            let c = self.cancel.clone();
            let mut c = lk(&c);
            if c.flag {
                drop(c);
                let started = closure_runs(id) > 0;
                sim::stat("fault.blocking_future_dropped");
                if !started {
                    sim::stat("probe.dropped_before_start");
                }
                let now = sim::now();
                w(|x| {
                    let r = x.reqs.get_mut(&id).unwrap();
                    r.disturbed = true;
                    r.cancelled_at = Some(now);
                    r.log_at_cancel = Some(r.log.len());
                });
                self.fut = None;
                let n = world::live_of(id);
                if n != 0 {
                    viol("leak-after-cancel", &["P12", "P11"], id, format!("{} objects of a dropped blocking future are still alive", n));
                }
                return Ok(Async::Ready(()));
            }
            c.task = Some(futures::task::current());
        }
        if let Some(s) = &mut self.wait {
            match s.poll() {
                Ok(Async::Ready(())) => self.wait = None,
                _ => return Ok(Async::NotReady),
            }
            // create the future, hold it unpolled for a while
            let plan = self.spec.plan.clone();
            let claim = Claim::new(id, "closure");
            let live = Live::new(id);
            let want = block_value(&self.spec);
            sim::stat("probe.blocking_futures");
            self.fut = Some(Box::new(hyperdrive::blocking(move || -> Result<String, String> {
                let _live = live;
                w(|x| {
                    if let Some(r) = x.reqs.get_mut(&id) {
                        r.closure_runs += 1;
                    }
                });
                claim.enter();
                rec(id, "closure".into());
                if plan.handler.delay > 0 {
                    sim::blocking_sleep(u64::from(plan.handler.delay));
                }
                rec(id, "closure-end".into());
                match want {
                    Got::Value(v) => Ok(v),
                    Got::Err(e) => Err(e),
                    _ => panic_tok(id, "closure"),
                }
            })));
            self.hold = Some(sim::sleep(u64::from(self.spec.plan.body.delay)));
        }
        if let Some(h) = &mut self.hold {
            match h.poll() {
                Ok(Async::Ready(())) => {
                    self.hold = None;
                    if closure_runs(id) > 0 {
                        viol("blocking-unpolled", &["P11"], id, "closure ran although its future was never polled".into());
                    }
                }
                _ => return Ok(Async::NotReady),
            }
        }
        let f = self.fut.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| f.poll()));
        let g = match r {
            Ok(Ok(Async::NotReady)) => return Ok(Async::NotReady),
            Ok(Ok(Async::Ready(v))) => Got::Value(v),
            Ok(Err(e)) => Got::Err(e),
            Err(p) => Got::Panicked(sim::payload_str(&*p)),
        };
        self.fut = None;
        set_outcome(id, g);
        Ok(Async::Ready(()))
    }
}

// ------------------------------------------------------------------ synchronous calls

/// Runs spawned helper futures on whatever runtime first polls the body.
struct SpawnOnPoll {
    inner: Body,
    todo: Vec<sim::BoxFut>,
}
impl Stream for SpawnOnPoll {
    type Item = hyper::Chunk;
    type Error = hyper::Error;
    fn poll(&mut self) -> Poll<Option<hyper::Chunk>, hyper::Error> {
        for f in self.todo.drain(..) {
            use tokio_executor::Executor;
            let _ = tokio_executor::DefaultExecutor::current().spawn(f);
        }
        self.inner.poll()
    }
}

/// One call of the synchronous entry point, on whatever thread it is polled.
fn sync_call(apps: &Apps, ai: usize, ctx: u32, r: &ReqSpec) {
    let mut req = direct_request(r, Mode::SyncCall, true);
    let todo = SYNC_SPAWN.with(|s| std::mem::replace(&mut *s.borrow_mut(), vec![]));
    if !todo.is_empty() {
        let (p, b) = req.into_parts();
        req = Request::from_parts(p, Body::wrap_stream(SpawnOnPoll { inner: b, todo }));
    }
    sim::stat("probe.sync_calls");
    let a = apps.clone();
    w(|x| x.reqs.get_mut(&r.id).unwrap().issued_at = Some(sim::now()));
    crate::types::SYNC_REQ.with(|c| c.set(r.id));
    let res = catch_unwind(AssertUnwindSafe(move || (a[ai].decode_sync)(req, ctx)));
    let g = match res {
        Ok(Ok(v)) => Got::Value(v),
        Ok(Err(e)) => Got::Err(svc::err_name(&e)),
        Err(p) => Got::Panicked(sim::payload_str(&*p)),
    };
    set_outcome(r.id, g);
    let n = world::live_of(r.id);
    if n != 0 {
        viol(
            "leak-after-sync",
            &["P15", "P12"],
            r.id,
            format!("{} objects of a finished from_request_sync call are still alive", n),
        );
    }
}

// ------------------------------------------------------------------ one run

pub struct RunOut {
    pub end: sim::End,
    pub left: Vec<String>,
    pub live: BTreeMap<u32, i64>,
    pub ctx_live: BTreeMap<u32, i64>,
    /// file descriptors and threads that are there now and weren't before
    pub fds: i64,
    pub threads: i64,
}

pub fn count(dir: &str) -> i64 {
    std::fs::read_dir(dir).map(|d| d.count() as i64).unwrap_or(0)
}

pub fn run(scn: Arc<Scenario>, choice: sim::Choice, trace_on: bool) -> RunOut {
    let apps: Apps = Arc::new(crate::apps::all());
    let mode = scn.mode;
    let bytes: usize = scn.conns.iter().flat_map(|c| &c.reqs).map(|r| r.body.bytes.len()).sum();
    let max_steps = 150_000 + 3_000 * scn.n_reqs() as u64 + bytes as u64;
    let (fds0, threads0) = (count("/proc/self/fd"), count("/proc/self/task"));
    world::clear();
    sim::init(scn.sim.clone(), choice, trace_on, max_steps);

    // world
    let n = scn.conns.len();
    let mut reqs = BTreeMap::new();
    for (ci, c) in scn.conns.iter().enumerate() {
        for r in &c.reqs {
            let mut q = request_of(r, mode);
            q.extensions_mut().insert(ExtTok(ext_token(r), None));
            let echo = echo_of(&q, mode == Mode::H2);
            reqs.insert(r.id, ReqRt::new(r.clone(), ci, c.server, mode, echo));
        }
    }
    let fin_flags: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(Cancel::default()))).collect();
    let mut pending = vec![];
    for (i, f) in scn.faults.iter().enumerate() {
        match f.trig {
            Trig::Time(t) => {
                let act = f.act.clone();
                sim::at(t, move || world::fire(i, &act));
            }
            Trig::Step { .. } => pending.push((i, f.clone())),
        }
    }
    for (t, d) in scn.sim.wall.clone() {
        sim::at(t, move || {
            sim::stat("fault.wall_clock_set");
            crate::seam::set_wall(d);
        });
    }
    world::install(World {
        scn: scn.clone(),
        reqs,
        conns: vec![None; n],
        conn_faulted: vec![false; n],
        conn_stall: vec![0; n],
        fin_flags,
        live: BTreeMap::new(),
        ctx_live: BTreeMap::new(),
        viols: vec![],
        pending_steps: pending,
        hist: vec![],
        fired: vec![],
        nested: BTreeMap::new(),
    });

    let mut app_idx = BTreeMap::new();
    for (i, s) in scn.servers.iter().enumerate() {
        let k = apps
            .iter()
            .position(|a| a.model.name == s.app)
            .unwrap_or_else(|| panic!("scenario: unknown app {}", s.app));
        app_idx.insert(i, k);
    }

    let mut keep: Vec<Arc<svc::Shared>> = vec![];
    let mut stacks = vec![];
    match mode {
        Mode::SyncCall => {
            // Each caller is a thread of its own.
            for (ci, c) in scn.conns.iter().enumerate() {
                let (apps, ai, ctx) = (apps.clone(), app_idx[&c.server], scn.servers[c.server].ctx);
                for r in c.reqs.clone() {
                    let apps = apps.clone();
                    sim::spawn(
                        Class::Server,
                        format!("sync{}.{}", ci, r.id),
                        Box::new(futures::future::lazy(move || {
                            sync_call(&apps, ai, ctx, &r);
                            Ok(())
                        })),
                    );
                }
            }
        }
        Mode::BlockApi => {
            for c in &scn.conns {
                let mut t = u64::from(c.start);
                for r in &c.reqs {
                    t += u64::from(r.gap);
                    let cancel = w(|x| x.reqs[&r.id].cancel.clone());
                    sim::spawn(
                        Class::Server,
                        format!("blk{}", r.id),
                        mover(
                            format!("blk{}", r.id),
                            BlockReq { id: r.id, wait: Some(sim::sleep(t)), fut: None, spec: r.clone(), cancel, hold: None },
                        ),
                    );
                }
            }
        }
        Mode::Decode | Mode::Direct => {
            if mode == Mode::Direct {
                for (i, s) in scn.servers.iter().enumerate() {
                    stacks.push(Arc::new(Mutex::new(svc::build_stack(i, s, &apps[app_idx[&i]]))));
                }
            }
            if let (Some(p), Mode::Direct) = (scn.pump.clone(), mode) {
                let stack = stacks[p.server].clone();
                if let Some(at) = p.inside {
                    let (p, stack) = (p.clone(), stack.clone());
                    w(|x| x.nested.entry(at).or_insert_with(Vec::new).push(Box::new(move || pump(&p, &stack))));
                } else {
                sim::spawn(
                    Class::Server,
                    "pump".to_string(),
                    Box::new(sim::sleep(p.at).then(move |_| {
                        pump(&p, &stack);
                        Ok(())
                    })),
                );
                }
            }
            for (ci, c) in scn.conns.iter().enumerate() {
                let srv = &scn.servers[c.server];
                let svc = if mode == Mode::Direct {
                    sim::stat("probe.connections");
                    match lk(&stacks[c.server]).make_conn() {
                        Ok(p) => {
                            let a = Arc::new(svc::Shared::new(p));
                            keep.push(a.clone());
                            Some(a)
                        }
                        Err(_) => continue,
                    }
                } else {
                    None
                };
                let mut t = u64::from(c.start);
                for r in &c.reqs {
                    t += u64::from(r.gap);
                    let cancel = w(|x| x.reqs[&r.id].cancel.clone());
                    let name = format!("direct{}.{}", ci, r.id);
                    let d = DirectReq {
                            id: r.id,
                            mode,
                            st: DState::Wait(sim::sleep(t)),
                            svc: svc.clone(),
                            stack: if mode == Mode::Direct { Some(stacks[c.server].clone()) } else { None },
                            fresh: if mode == Mode::Direct { srv.fresh } else { 0 },
                            apps: apps.clone(),
                            app: app_idx[&c.server],
                            ctx: srv.ctx,
                            whole: srv.whole,
                            cancel,
                            spec: r.clone(),
                        };
                    let f = match r.inside {
                        None => mover(name.clone(), d),
                        Some(at) => Nested::new(name.clone(), d, at),
                    };
                    sim::spawn(Class::Server, name, f);
                }
            }
        }
        Mode::H1 | Mode::H2 => {
            let mut txs = vec![];
            for (i, s) in scn.servers.iter().enumerate() {
                let (tx, rx) = mpsc::unbounded::<Sock>();
                txs.push(tx);
                let stack = svc::build_stack(i, s, &apps[app_idx[&i]]);
                let incoming = rx.map_err(|()| OtherErr("incoming".into()));
                let mut b = hyper::Server::builder(incoming).executor(SimExec { class: Class::Server, name: "hyper" });
                b = if mode == Mode::H2 { b.http2_only(true) } else { b.http1_only(true) };
                b = b
                    .http1_pipeline_flush(s.h1_pipeline_flush)
                    .http1_half_close(s.h1_half_close)
                    .http1_writev(s.h1_writev);
                if s.h1_max_buf > 0 {
                    b = b.http1_max_buf_size(s.h1_max_buf.max(8192) as usize);
                }
                let server = b.serve(StackMake(stack));
                sim::spawn(
                    Class::Server,
                    format!("server{}", i),
                    Box::new(server.map_err(move |e| {
                        viol("server-died", &["P17", "P16"], 0, format!("hyper server {} ended with {}", i, e));
                    })),
                );
            }
            for (ci, c) in scn.conns.iter().enumerate() {
                let (cs, ss, conn) = net::pair(ci, scn.net.clone());
                w(|x| x.conns[ci] = Some(conn.clone()));
                let fin = w(|x| x.fin_flags[ci].clone());
                let tx = txs[c.server].clone();
                let start = sim::sleep(u64::from(c.start));
                if mode == Mode::H1 {
                    sim::spawn(
                        Class::Client,
                        format!("client{}", ci),
                        Box::new(H1Client {
                            ci,
                            start: Some(start),
                            tx: Some(tx),
                            sock: Some(cs),
                            conn,
                            server_end: Some(ss),
                            ops: h1_ops(&c.reqs),
                            pos: 0,
                            sleep: None,
                            ids: c.reqs.iter().map(|r| r.id).collect(),
                            heads: c.reqs.iter().map(|r| r.method == "HEAD").collect(),
                            got: 0,
                            rbuf: vec![],
                            fin,
                            write_dead: false,
                            closed: false,
                        }),
                    );
                } else {
                    let reqs: VecDeque<ReqSpec> = c.reqs.iter().cloned().collect();
                    sim::spawn(
                        Class::Client,
                        format!("client{}", ci),
                        Box::new(start.map_err(|_| ()).and_then(move |()| {
                            sim::stat("probe.connections");
                            let _ = tx.unbounded_send(ss);
                            drop(tx);
                            hyper::client::conn::Builder::new()
                                .http2_only(true)
                                .executor(SimExec { class: Class::Client, name: "h2client" })
                                .handshake::<Sock, Body>(cs)
                                .then(move |r| {
                                    match r {
                                        Ok((send, conn)) => {
                                            sim::spawn(
                                                Class::Client,
                                                format!("h2conn{}", ci),
                                                Box::new(Watch { inner: Some(conn), fin }),
                                            );
                                            sim::spawn(
                                                Class::Client,
                                                format!("h2dispatch{}", ci),
                                                Box::new(H2Dispatch { ci, send: Some(send), reqs, sleep: None }),
                                            );
                                        }
                                        Err(_) => {
                                            for r in reqs {
                                                set_outcome(r.id, Got::Closed);
                                            }
                                        }
                                    }
                                    Ok(())
                                })
                        })),
                    );
                }
            }
            drop(txs);
        }
    }

    let mut ex = sim::Exec::new();
    let end = ex.run();
    let unused = w(|x| std::mem::replace(&mut x.nested, BTreeMap::new()));
    drop(unused);
    drop(keep);
    drop(stacks);
    let (live, ctx_live) = w(|x| (x.live.clone(), x.ctx_live.clone()));
    let left = ex.drop_all();
    let busy = ex.quit() as i64;
    let fds = count("/proc/self/fd") - fds0;
    // (a thread takes a moment to disappear)
    let mut threads = 0;
    for i in 0..400 {
        threads = count("/proc/self/task") - threads0 - busy;
        if threads <= 0 {
            break;
        }
        if i < 20 {
            std::thread::yield_now();
        } else {
            unsafe { libc::usleep(5_000) };
        }
    }
    RunOut { end, left, live, ctx_live, fds, threads }
}

#[allow(dead_code)]
fn unused<S: Sink>(_: S) {}
