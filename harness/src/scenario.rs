//! The serialisable description of one simulated run.

use crate::net::NetKnobs;
use crate::sim::SimKnobs;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// raw HTTP/1 clients against a real hyper server over simulated sockets
    H1,
    /// real hyper HTTP/2 client against a real hyper server over simulated sockets
    H2,
    /// the service is called directly with simulated bodies
    Direct,
    /// `FromRequest` entry points called directly, async, under the simulator
    Decode,
    /// `from_request_sync`
    SyncCall,
    /// futures of `hyperdrive::blocking`
    BlockApi,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum SvcKind {
    Async,
    Sync,
}

/// Adapters applied to the base service, innermost first.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wrap {
    /// `catch_unwind`
    Catch,
    /// scripted readiness (harness service)
    Gate,
    /// a clone of the service replaces it
    Clone,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum MakeKind {
    /// the service type's own `MakeService` (only without wrappers)
    Own,
    /// `make_service_by_cloning`
    Cloning,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CatchOut {
    Resp(u16),
    Err,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum GateStep {
    Ready,
    /// not ready for this long
    NotReady(u32),
    Err,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ServerCfg {
    pub app: String,
    pub kind: SvcKind,
    pub wraps: Vec<Wrap>,
    pub make: MakeKind,
    pub ctx: u32,
    /// use `X::new` when the context is the unit context
    pub use_new: bool,
    pub catch_delay: u32,
    pub catch_out: CatchOut,
    /// one entry per call on one service instance, then Ready
    pub gate: Vec<GateStep>,
    pub h1_pipeline_flush: bool,
    pub h1_max_buf: u32,
    pub h1_half_close: bool,
    pub h1_writev: bool,
    /// decode mode: use `from_request` instead of `from_request_and_body`
    pub whole: bool,
    /// services made and dropped again before the first connection
    #[serde(default)]
    pub makes: u32,
    /// direct mode: 0 one service per connection, 1 each request goes to a clone of the
    /// service its predecessor used, 2 each request gets a service of its own, dropped once
    /// the call has returned
    #[serde(default)]
    pub fresh: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    Hd(u16),
    Hd405,
    Other,
    PanicCall,
    PanicPoll,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StepPlan {
    pub delay: u32,
    pub polls: u32,
    pub out: Out,
}

impl Default for StepPlan {
    fn default() -> Self {
        StepPlan { delay: 0, polls: 0, out: Out::Ok }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RBody {
    Empty,
    Full(u32),
    /// (length, delay before it)
    Stream(Vec<(u32, u32)>),
    /// fails after the pieces
    Fail(Vec<(u32, u32)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HOut {
    Resp { status: u16, hdrs: Vec<(String, String)>, body: RBody },
    Hd(u16),
    Hd405,
    Other,
    PanicCall,
    PanicPoll,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HandlerPlan {
    pub delay: u32,
    pub polls: u32,
    pub out: HOut,
}

impl Default for HandlerPlan {
    fn default() -> Self {
        HandlerPlan {
            delay: 0,
            polls: 0,
            out: HOut::Resp { status: 200, hdrs: vec![], body: RBody::Full(0) },
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plan {
    /// guard type -> plan of its n-th invocation for this request
    #[serde(default)]
    pub guards: BTreeMap<String, Vec<StepPlan>>,
    #[serde(default)]
    pub body: StepPlan,
    #[serde(default)]
    pub handler: HandlerPlan,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Framing {
    /// no body at all
    None,
    /// content-length / `Body::from`
    Length,
    /// chunked / stream
    Chunked,
    /// direct mode: `Body::channel`
    Channel,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BodySpec {
    #[serde(with = "lat1")]
    pub bytes: Vec<u8>,
    pub framing: Framing,
    /// (length, delay before it)
    pub pieces: Vec<(u32, u32)>,
    /// stop after this many body bytes; true: reset / stream error, false: orderly close
    pub cut: Option<(u32, bool)>,
}

impl Default for BodySpec {
    fn default() -> Self {
        BodySpec { bytes: vec![], framing: Framing::None, pieces: vec![], cut: None }
    }
}

mod lat1 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| *b as char).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok(s.chars().map(|c| c as u32 as u8).collect())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReqSpec {
    pub id: u32,
    pub method: String,
    pub target: String,
    /// 10, 11 (20 is implied by the mode)
    pub version: u8,
    pub headers: Vec<(String, String)>,
    pub body: BodySpec,
    pub plan: Plan,
    /// delay before the request is sent
    pub gap: u32,
    /// H1: wait for the previous response first (no pipelining)
    pub wait_prev: bool,
    /// `Connection: close`
    pub close: bool,
    /// direct modes: made in the middle of the n-th step of that request, on the same thread
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inside: Option<(u32, u32)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ConnCfg {
    pub server: usize,
    pub start: u32,
    pub reqs: Vec<ReqSpec>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Trig {
    Time(u64),
    /// when the n-th recorded step of request `req` happens, plus lag
    Step { req: u32, n: u32, lag: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    /// reset connection (index)
    Rst(usize),
    /// client closes its end (index)
    Fin(usize),
    /// stall connection (index) for so long
    Stall(usize, u64),
    /// drop the future / reset the stream of a request
    Cancel(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub trig: Trig,
    pub act: Act,
}

/// Very many requests that are turned away, made in one go while others are in progress.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Pump {
    pub at: u64,
    /// in the middle of the n-th step of that request instead
    #[serde(default)]
    pub inside: Option<(u32, u32)>,
    pub server: usize,
    pub count: u32,
    pub method: String,
    pub target: String,
    pub status: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub profile: String,
    pub prog_seed: u64,
    pub seed: u64,
    pub mode: Mode,
    pub sim: SimKnobs,
    pub net: NetKnobs,
    pub servers: Vec<ServerCfg>,
    pub conns: Vec<ConnCfg>,
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pump: Option<Pump>,
}

impl Scenario {
    pub fn find(&self, id: u32) -> Option<(usize, usize, &ReqSpec)> {
        for (ci, c) in self.conns.iter().enumerate() {
            for (ri, r) in c.reqs.iter().enumerate() {
                if r.id == id {
                    return Some((ci, ri, r));
                }
            }
        }
        None
    }
    pub fn n_reqs(&self) -> usize {
        self.conns.iter().map(|c| c.reqs.len()).sum()
    }
}
