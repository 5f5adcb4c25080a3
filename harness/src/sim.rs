//! The simulator core: a single-active-thread executor over futures 0.1 with a
//! discrete-event clock, a recorded decision stream, baton-passed runner threads (so
//! that simulated blocking sections can really suspend in the middle of a poll) and a
//! simulated `tokio_threadpool::blocking` facility.
//!
//! Every choice goes through `decide`: value 0 is always the "plain" choice (FIFO, no
//! delay, no fault), so truncating a decision list makes a run calmer.

use futures::executor::{self, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, Poll};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::Mutex;

pub type TaskId = usize;
pub type Us = u64;
pub type BoxFut = Box<dyn Future<Item = (), Error = ()> + Send>;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < u64::from(p)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Class {
    Server,
    Client,
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum St {
    Idle,
    Queued,
    Running,
    Done,
}

struct Task {
    fut: Option<Spawn<BoxFut>>,
    st: St,
    notified: bool,
    class: Class,
    name: String,
    prio: u32,
    /// the runner thread suspended in the middle of this task's poll
    preempted: Option<usize>,
    preempt_gen: u32,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, Default)]
pub struct SimKnobs {
    /// 0 fifo, 1 lifo, 2 uniform random, 3 random priorities with change points
    pub sched: u32,
    /// per mille: a ready task's poll is postponed (worker stall)
    pub delay_poll: u32,
    /// per mille: an idle task is polled without having been woken
    pub spurious_poll: u32,
    /// runner OS threads server tasks are polled on (0: inline on the main thread)
    pub runners: u32,
    /// blocking permits
    pub block_cap: u32,
    /// per mille: `blocking` reports NotReady although a permit is free
    pub block_spurious: u32,
    /// simulated time of the pool shutdown (0: never)
    pub pool_shutdown_at: u64,
    /// per mille: a runner thread is suspended at a preemption point in the middle of a poll
    #[serde(default)]
    pub preempt: u32,
    /// per mille: a suspended request future is taken out of its task and continued in a new one
    #[serde(default)]
    pub hop: u32,
    /// (when, s): somebody sets the wall clock so far away from the true time
    #[serde(default)]
    pub wall: Vec<(Us, i64)>,
}

pub enum Choice {
    Gen(Rng),
    Replay(Vec<u32>),
}

pub struct Core {
    pub now: Us,
    seq: u64,
    pub steps: u64,
    /// polls since the system was last idle: a long burst takes (simulated) time
    busy: u64,
    /// time that was charged for uninterrupted polling
    pub busy_us: u64,
    pub max_steps: u64,
    choice: Choice,
    pub decisions: Vec<u32>,
    tasks: Vec<Task>,
    ready: Vec<TaskId>,
    timers: BinaryHeap<Reverse<(Us, u64)>>,
    timer_fns: BTreeMap<u64, TimerFn>,
    pub knobs: SimKnobs,
    pub stats: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub trace_on: bool,
    pub order_hash: u64,
    pub polls: u64,
    block_used: u32,
    block_denied: u32,
    block_waiters: Vec<futures::task::Task>,
    pub inline_block: u64,
    pub panics: Vec<(TaskId, String)>,
    pub max_parallel_blocking: u32,
    suspended: u32,
    preemptions: u32,
}

enum TimerFn {
    Call(Box<dyn FnOnce() + Send>),
    Resume(usize),
}

static CORE: Mutex<Option<Core>> = Mutex::new(None);
static WOKEN: Mutex<Vec<TaskId>> = Mutex::new(Vec::new());

pub fn with<R>(f: impl FnOnce(&mut Core) -> R) -> R {
    let _np = NoPreempt::new();
    let mut g = match CORE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.as_mut().expect("simulator not initialised"))
}

pub fn active() -> bool {
    let _np = NoPreempt::new();
    match CORE.lock() {
        Ok(g) => g.is_some(),
        Err(p) => p.into_inner().is_some(),
    }
}

pub fn init(knobs: SimKnobs, choice: Choice, trace_on: bool, max_steps: u64) {
    let core = Core {
        now: 0,
        seq: 0,
        steps: 0,
        busy: 0,
        busy_us: 0,
        max_steps,
        choice,
        decisions: Vec::new(),
        tasks: Vec::new(),
        ready: Vec::new(),
        timers: BinaryHeap::new(),
        timer_fns: BTreeMap::new(),
        knobs,
        stats: BTreeMap::new(),
        trace: Vec::new(),
        trace_on,
        order_hash: 0xcbf2_9ce4_8422_2325,
        polls: 0,
        block_used: 0,
        block_denied: 0,
        block_waiters: Vec::new(),
        inline_block: 0,
        panics: Vec::new(),
        max_parallel_blocking: 0,
        suspended: 0,
        preemptions: 0,
    };
    *CORE.lock().unwrap_or_else(|p| p.into_inner()) = Some(core);
    // wake-ups of tasks of an earlier run
    WOKEN.lock().unwrap_or_else(|p| p.into_inner()).clear();
}

impl Core {
    fn raw(&mut self, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match &mut self.choice {
            Choice::Gen(rng) => gen(rng),
            Choice::Replay(v) => {
                let i = self.decisions.len();
                v.get(i).cloned().unwrap_or(0)
            }
        };
        let v = if n == 0 { 0 } else { v % n };
        self.decisions.push(v);
        v
    }
    /// Uniform choice out of `n`.
    pub fn decide(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.raw(n, |r| r.below(u64::from(n)) as u32)
    }
    /// 0 with probability 1 - pm/1000, otherwise 1..=n uniformly.
    pub fn decide_rare(&mut self, pm: u32, n: u32) -> u32 {
        if pm == 0 || n == 0 {
            return 0;
        }
        self.raw(n + 1, |r| {
            if r.below(1000) < u64::from(pm) {
                1 + r.below(u64::from(n)) as u32
            } else {
                0
            }
        })
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn tr(&mut self, s: impl FnOnce() -> String) {
        if self.trace_on {
            let line = format!("{:>9} {}", self.now, s());
            self.trace.push(line);
        }
    }
    pub fn mix(&mut self, s: &[u8]) {
        self.order_hash = fnv(self.order_hash, s);
    }
    fn timer(&mut self, at: Us, f: TimerFn) {
        self.seq += 1;
        let s = self.seq;
        let at = at.max(self.now);
        self.timers.push(Reverse((at, s)));
        self.timer_fns.insert(s, f);
    }
    pub fn at(&mut self, at: Us, f: impl FnOnce() + Send + 'static) {
        self.timer(at, TimerFn::Call(Box::new(f)));
    }
}

pub fn now() -> Us {
    with(|c| c.now)
}
pub fn busy_us() -> Us {
    with(|c| c.busy_us)
}
pub fn stat(k: &'static str) {
    with(|c| c.stat(k))
}
pub fn decide(n: u32) -> u32 {
    with(|c| c.decide(n))
}
pub fn decide_rare(pm: u32, n: u32) -> u32 {
    with(|c| c.decide_rare(pm, n))
}
pub fn trace(s: impl FnOnce() -> String) {
    with(|c| c.tr(s))
}
/// Runs `f` (outside of any lock) at simulated time `at`.
pub fn at(at: Us, f: impl FnOnce() + Send + 'static) {
    with(|c| c.at(at, f))
}

struct SimNotify;
impl Notify for SimNotify {
    fn notify(&self, id: usize) {
        let _np = NoPreempt::new();
        let mut g = WOKEN.lock().unwrap_or_else(|p| p.into_inner());
        g.push(id);
    }
}
static NOTIFY: SimNotify = SimNotify;
fn handle() -> NotifyHandle {
    let r: &'static SimNotify = &NOTIFY;
    NotifyHandle::from(r)
}

pub fn spawn(class: Class, name: impl Into<String>, fut: BoxFut) -> TaskId {
    with(|c| {
        let id = c.tasks.len();
        let prio = if c.knobs.sched == 3 { c.decide(1000) } else { 0 };
        c.tasks.push(Task {
            fut: Some(executor::spawn(fut)),
            st: St::Queued,
            notified: false,
            class,
            name: name.into(),
            prio,
            preempted: None,
            preempt_gen: 0,
        });
        c.ready.push(id);
        id
    })
}

/// Executor handed to hyper.
#[derive(Clone)]
pub struct SimExec {
    pub class: Class,
    pub name: &'static str,
}
impl<F> futures::future::Executor<F> for SimExec
where
    F: Future<Item = (), Error = ()> + Send + 'static,
{
    fn execute(&self, future: F) -> Result<(), futures::future::ExecuteError<F>> {
        spawn(self.class, self.name, Box::new(future));
        Ok(())
    }
}

pub struct Sleep {
    at: Us,
    /// the tasks that have polled it (it may move from one to another, and a service's
    /// readiness may be polled by several)
    slot: Option<Arc<Mutex<Vec<futures::task::Task>>>>,
}
pub fn sleep(d: Us) -> Sleep {
    Sleep { at: now().saturating_add(d), slot: None }
}
impl Future for Sleep {
    type Item = ();
    type Error = crate::BoxedError;
    fn poll(&mut self) -> Poll<(), crate::BoxedError> {
        if now() >= self.at {
            return Ok(Async::Ready(()));
        }
        let t = futures::task::current();
        match &self.slot {
            Some(s) => {
                let _np = NoPreempt::new();
                let mut s = s.lock().unwrap_or_else(|p| p.into_inner());
                if !s.iter().any(|t| t.will_notify_current()) {
                    s.push(t);
                }
            }
            None => {
                let s = Arc::new(Mutex::new(vec![t]));
                self.slot = Some(s.clone());
                at(self.at, move || {
                    let ts = std::mem::replace(&mut *s.lock().unwrap_or_else(|p| p.into_inner()), vec![]);
                    for t in ts {
                        t.notify();
                    }
                });
            }
        }
        Ok(Async::NotReady)
    }
}

// ---------------------------------------------------------------- runner threads

enum Job {
    Poll(TaskId, Spawn<BoxFut>),
    Resume,
    Quit,
}
enum Reply {
    Polled(TaskId, Option<Spawn<BoxFut>>, Result<bool, String>),
    Parked(Us),
    /// Suspended in the middle of a poll (odd: until scheduled again, even: for a while).
    Preempted(u32),
}

struct Runner {
    tx: mpsc::Sender<Job>,
    rx: mpsc::Receiver<Reply>,
    task: Option<TaskId>,
    join: Option<std::thread::JoinHandle<()>>,
    tid: Arc<AtomicU32>,
}

thread_local! {
    static RUNNER: RefCell<Option<(mpsc::Sender<Reply>, std::rc::Rc<mpsc::Receiver<Job>>)>> = RefCell::new(None);
    static IN_BLOCKING: Cell<u32> = Cell::new(0);
    static NO_PREEMPT: Cell<u32> = const { Cell::new(0) };
    /// Code under test (or called by it) is running on this runner thread.
    static IN_TASK: Cell<bool> = const { Cell::new(false) };
    /// Allocations until the thread is suspended (0: not armed), and for how long.
    static ARMED: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
    /// Waits for the same lock (more or less) so far.
    static WAITS: Cell<u32> = const { Cell::new(0) };
    static CUR_TASK: Cell<usize> = Cell::new(usize::max_value());
}

pub fn in_blocking() -> bool {
    IN_BLOCKING.with(|c| c.get() > 0)
}
pub fn current_task() -> usize {
    CUR_TASK.with(|c| c.get())
}

pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        format!("&{}", s)
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<crate::types::PanicToken>() {
        format!("tok:{}", s.0)
    } else if let Some(s) = p.downcast_ref::<Box<str>>() {
        s.replacen("token:", "boxed:", 1)
    } else {
        "?".to_string()
    }
}

fn poll_one(id: TaskId, mut sp: Spawn<BoxFut>) -> (Option<Spawn<BoxFut>>, Result<bool, String>) {
    CUR_TASK.with(|c| c.set(id));
    let _guard = tokio_threadpool::blocking::set_default(sim_blocking);
    let r = catch_unwind(AssertUnwindSafe(move || {
        let h = handle();
        let done = match sp.poll_future_notify(&h, id) {
            Ok(Async::NotReady) => false,
            Ok(Async::Ready(())) | Err(()) => true,
        };
        if done {
            drop(sp);
            (None, true)
        } else {
            (Some(sp), false)
        }
    }));
    CUR_TASK.with(|c| c.set(usize::max_value()));
    match r {
        Ok((sp, done)) => (sp, Ok(done)),
        Err(p) => {
            let s = payload_str(&*p);
            // dropping a payload may itself panic in theory
            let _ = catch_unwind(AssertUnwindSafe(move || drop(p)));
            (None, Err(s))
        }
    }
}

fn runner_main(tx: mpsc::Sender<Reply>, rx: mpsc::Receiver<Job>) {
    let rx = std::rc::Rc::new(rx);
    RUNNER.with(|r| *r.borrow_mut() = Some((tx.clone(), rx.clone())));
    loop {
        match rx.recv() {
            Ok(Job::Poll(id, sp)) => {
                IN_TASK.with(|c| c.set(true));
                let (sp, res) = poll_one(id, sp);
                IN_TASK.with(|c| c.set(false));
                ARMED.with(|c| c.set((0, 0)));
                if tx.send(Reply::Polled(id, sp, res)).is_err() {
                    return;
                }
            }
            Ok(Job::Resume) => {}
            Ok(Job::Quit) | Err(_) => return,
        }
    }
}

/// Called by synchronous user code that "blocks" for `d` microseconds.
pub fn blocking_sleep(d: Us) {
    if !in_blocking() {
        with(|c| {
            c.inline_block += 1;
            c.tr(|| "INLINE BLOCK outside of a blocking section".into());
        });
        return;
    }
    let ch = RUNNER.with(|r| r.borrow().clone());
    if let Some((tx, rx)) = ch {
        let until = now().saturating_add(d);
        stat("probe.blocking_parked");
        // The task being polled here is suspended in the middle of its poll.
        let cur = current_task();
        let depth = IN_BLOCKING.with(|c| c.get());
        IN_TASK.with(|c| c.set(false));
        tx.send(Reply::Parked(until)).expect("sim main gone");
        wait_resume(&rx);
        IN_TASK.with(|c| c.set(true));
        CUR_TASK.with(|c| c.set(cur));
        IN_BLOCKING.with(|c| c.set(depth));
    }
}

/// Code under test puts the thread it runs on to sleep: nothing else that this thread
/// has to drive goes on.
pub fn thread_sleep(d: Us) {
    let ch = RUNNER.with(|r| r.borrow().clone());
    stat("probe.thread_slept");
    if let Some((tx, rx)) = ch {
        let until = now().saturating_add(d);
        let cur = current_task();
        let depth = IN_BLOCKING.with(|c| c.get());
        IN_TASK.with(|c| c.set(false));
        tx.send(Reply::Parked(until)).expect("sim main gone");
        wait_resume(&rx);
        IN_TASK.with(|c| c.set(true));
        CUR_TASK.with(|c| c.set(cur));
        IN_BLOCKING.with(|c| c.set(depth));
    } else {
        with(|c| {
            c.now = c.now.saturating_add(d);
            crate::seam::set_now(c.now);
        });
    }
}

/// While one of these is alive, the thread is not suspended at preemption points.
pub struct NoPreempt(());
impl NoPreempt {
    pub fn new() -> NoPreempt {
        NO_PREEMPT.with(|c| c.set(c.get() + 1));
        NoPreempt(())
    }
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        NO_PREEMPT.with(|c| c.set(c.get() - 1));
    }
}

/// A lock of the harness: its holder is not suspended.
pub struct Guard<'a, T>(std::sync::MutexGuard<'a, T>, NoPreempt);
pub fn lock<T>(m: &Mutex<T>) -> Guard<'_, T> {
    let np = NoPreempt::new();
    Guard(m.lock().unwrap_or_else(|p| p.into_inner()), np)
}
impl<'a, T> std::ops::Deref for Guard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        let _ = &self.1;
        &self.0
    }
}
impl<'a, T> std::ops::DerefMut for Guard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

/// Two runner threads are really running at once (see `Exec::wait`).
static CONTENDED: AtomicBool = AtomicBool::new(false);

/// Called by instrumented user code: the operating system may take the thread off its
/// processor here (or at one of its next allocations), and other threads may run before
/// it gets it back.
pub fn preempt_point() {
    if !IN_TASK.with(|c| c.get()) || NO_PREEMPT.with(|c| c.get()) > 0 || CONTENDED.load(SeqCst) || std::thread::panicking() {
        return;
    }
    WAITS.with(|c| c.set(0));
    let d = with(|c| {
        // A bounded number of times per run, and a bounded number of threads at once.
        let pm = if c.preemptions >= 400 || c.suspended >= 12 { 0 } else { c.knobs.preempt };
        let d = c.decide_rare(pm, 700);
        if d > 0 {
            c.preemptions += 1;
        }
        d
    });
    if d > 300 {
        let v = d - 301;
        let how = if v % 10 < 5 { 1 } else { v % 10 * 30 };
        ARMED.with(|c| c.set((1 + v / 10, how)));
    } else if d > 0 {
        stat("sched.preempted");
        suspend(d);
    }
}

/// Called before every allocation.
pub fn alloc_point() {
    let (n, how) = match ARMED.try_with(|c| c.get()) {
        Ok(x) if x.0 > 0 => x,
        _ => return,
    };
    if !IN_TASK.with(|c| c.get()) || NO_PREEMPT.with(|c| c.get()) > 0 {
        return;
    }
    ARMED.with(|c| c.set((n - 1, how)));
    if n == 1 && !CONTENDED.load(SeqCst) && !std::thread::panicking() {
        stat("sched.preempted_at_allocation");
        suspend(how);
    }
}

/// Is this a thread whose waiting is up to the scheduler?
pub fn may_wait() -> bool {
    IN_TASK.try_with(|c| c.get()).unwrap_or(false)
        && NO_PREEMPT.with(|c| c.get()) == 0
        && !CONTENDED.load(SeqCst)
}

/// The thread has to wait for a lock: others go on first. False if it should really wait
/// (nobody has released the lock in a long time).
pub fn lock_wait() -> bool {
    let n = WAITS.with(|c| c.replace(c.get() + 1));
    if n > 40 {
        return false;
    }
    stat("sched.waited_for_lock");
    suspend(2 << n.min(20));
    true
}

/// The thread spins until another one gets somewhere.
pub fn yielded() -> bool {
    if RUNNER.with(|r| r.borrow().is_none()) {
        return false;
    }
    stat("sched.spun");
    suspend(1);
    true
}

fn wait_resume(rx: &mpsc::Receiver<Job>) {
    match rx.recv() {
        Ok(Job::Resume) => {}
        // the run is over
        _ => loop {
            std::thread::park();
        },
    }
}

fn suspend(d: u32) {
    let ch = RUNNER.with(|r| r.borrow().clone());
    if let Some((tx, rx)) = ch {
        IN_TASK.with(|c| c.set(false));
        tx.send(Reply::Preempted(d)).expect("sim main gone");
        wait_resume(&rx);
        IN_TASK.with(|c| c.set(true));
    }
}

struct Permit;
impl Drop for Permit {
    fn drop(&mut self) {
        IN_BLOCKING.with(|c| c.set(c.get() - 1));
        let ws = with(|c| {
            c.block_used -= 1;
            std::mem::replace(&mut c.block_waiters, Vec::new())
        });
        for w in ws {
            w.notify();
        }
    }
}

/// The simulated blocking facility (`tokio_threadpool::blocking` is redirected here).
pub fn sim_blocking(f: &mut dyn FnMut()) -> Poll<(), tokio_threadpool::BlockingError> {
    enum D {
        Go,
        Wait,
        Spurious(Us),
        Dead,
    }
    let d = with(|c| {
        if c.knobs.pool_shutdown_at != 0 && c.now >= c.knobs.pool_shutdown_at {
            c.stat("fault.pool_shutdown");
            return D::Dead;
        }
        // (so many that they don't add up to an age)
        let pm = if c.block_denied < 3_000 { c.knobs.block_spurious } else { 0 };
        let s = c.decide_rare(pm, 500);
        if s > 0 {
            c.block_denied += 1;
            c.stat("fault.blocking_spurious_notready");
            return D::Spurious(u64::from(s));
        }
        if c.block_used >= c.knobs.block_cap {
            c.stat("fault.blocking_saturated");
            return D::Wait;
        }
        c.block_used += 1;
        c.stat("probe.blocking_entered");
        c.max_parallel_blocking = c.max_parallel_blocking.max(c.block_used);
        D::Go
    });
    match d {
        D::Dead => Err(tokio_threadpool::BlockingError::new()),
        D::Spurious(us) => {
            let t = futures::task::current();
            let when = now() + us;
            at(when, move || t.notify());
            Ok(Async::NotReady)
        }
        D::Wait => {
            let t = futures::task::current();
            with(|c| c.block_waiters.push(t));
            Ok(Async::NotReady)
        }
        D::Go => {
            IN_BLOCKING.with(|c| c.set(c.get() + 1));
            let _p = Permit;
            f();
            Ok(Async::Ready(()))
        }
    }
}

/// Is the thread waiting inside the kernel?
fn thread_sleeps(tid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(") ").next().map_or(false, |r| r.starts_with('S')),
        Err(_) => false,
    }
}

// ---------------------------------------------------------------- main loop

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    /// nothing left to do
    Quiescent,
    /// the step cap was hit
    StepCap,
}

pub struct Exec {
    runners: Vec<Runner>,
    /// Invariant hook called after every step.
    pub on_step: Box<dyn FnMut()>,
}

impl Exec {
    pub fn new() -> Exec {
        Exec {
            runners: Vec::new(),
            on_step: Box::new(|| {}),
        }
    }

    fn runner(&mut self, want: u32) -> usize {
        let idle: Vec<usize> = (0..self.runners.len())
            .filter(|i| self.runners[*i].task.is_none())
            .collect();
        if (idle.len() as u32) < want || idle.is_empty() {
            let (jtx, jrx) = mpsc::channel();
            let (rtx, rrx) = mpsc::channel();
            let tid = Arc::new(AtomicU32::new(0));
            let tid2 = tid.clone();
            let join = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    tid2.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                    runner_main(rtx, jrx)
                })
                .expect("cannot start runner thread");
            self.runners.push(Runner {
                tx: jtx,
                rx: rrx,
                task: None,
                join: Some(join),
                tid,
            });
            return self.runners.len() - 1;
        }
        let k = decide(idle.len() as u32) as usize;
        if k > 0 {
            stat("sched.migrated_poll");
        }
        idle[k]
    }

    fn finish_poll(&mut self, id: TaskId, sp: Option<Spawn<BoxFut>>, res: Result<bool, String>) {
        with(|c| {
            let again;
            {
                let t = &mut c.tasks[id];
                match &res {
                    Ok(false) => {
                        t.fut = sp;
                        if t.notified {
                            t.notified = false;
                            t.st = St::Queued;
                            again = true;
                        } else {
                            t.st = St::Idle;
                            again = false;
                        }
                    }
                    Ok(true) | Err(_) => {
                        t.st = St::Done;
                        again = false;
                    }
                }
            }
            if again {
                c.ready.push(id);
            }
            if let Err(p) = res {
                c.tr(|| format!("task {} panicked: {}", id, p));
                c.panics.push((id, p));
            }
        });
    }

    fn on_reply(&mut self, r: usize, reply: Reply) {
        match reply {
            Reply::Polled(id, sp, res) => {
                self.runners[r].task = None;
                self.finish_poll(id, sp, res);
            }
            Reply::Parked(until) => with(|c| c.timer(until, TimerFn::Resume(r))),
            Reply::Preempted(d) => {
                let id = self.runners[r].task.expect("preempted runner without a task");
                with(|c| {
                    c.tr(|| format!("task {} preempted ({})", id, d));
                    let t = &mut c.tasks[id];
                    t.preempted = Some(r);
                    t.preempt_gen += 1;
                    c.suspended += 1;
                    let gen = t.preempt_gen;
                    if d % 2 == 1 {
                        c.ready.push(id);
                    } else {
                        let when = c.now + u64::from(d);
                        c.at(when, move || {
                            with(|c| {
                                if c.tasks[id].preempted.is_some() && c.tasks[id].preempt_gen == gen {
                                    c.ready.push(id);
                                }
                            })
                        });
                    }
                });
            }
        }
    }

    /// Waits until the runner has come to a stop.
    fn handle_reply(&mut self, r: usize) {
        if with(|c| c.suspended == 0) {
            let reply = self.runners[r].rx.recv().expect("runner died");
            self.on_reply(r, reply);
            return;
        }
        // Another thread is suspended somewhere; should it hold a lock of the code under
        // test that this one needs, it has to go on first.
        let mut active = vec![r];
        let (mut idle, mut asleep) = (0u32, 0u32);
        while !active.is_empty() {
            let mut got = None;
            for (k, a) in active.iter().enumerate() {
                match self.runners[*a].rx.try_recv() {
                    Ok(reply) => {
                        got = Some((k, reply));
                        break;
                    }
                    Err(mpsc::TryRecvError::Empty) => {}
                    Err(e) => panic!("runner died: {}", e),
                }
            }
            if let Some((k, reply)) = got {
                let a = active.remove(k);
                self.on_reply(a, reply);
                idle = 0;
                asleep = 0;
                continue;
            }
            idle += 1;
            if idle < 200 {
                std::thread::yield_now();
                continue;
            }
            unsafe { libc::usleep(500) };
            // (one that spins for seconds waits for somebody, too)
            let spins = idle % 10_000 == 9_999;
            let blocked = spins || active.iter().all(|a| thread_sleeps(self.runners[*a].tid.load(SeqCst)));
            asleep = if spins { 4 } else if blocked { asleep + 1 } else { 0 };
            if asleep >= 4 {
                asleep = 0;
                let next = with(|c| {
                    let id = c.tasks.iter().position(|t| t.preempted.is_some())?;
                    c.stat("sched.contended");
                    c.tr(|| format!("task {} goes on: another one waits for it", id));
                    c.ready.retain(|x| *x != id);
                    c.suspended -= 1;
                    c.tasks[id].preempted.take()
                });
                if let Some(p) = next {
                    CONTENDED.store(true, SeqCst);
                    self.runners[p].tx.send(Job::Resume).expect("runner gone");
                    active.push(p);
                }
            }
        }
        CONTENDED.store(false, SeqCst);
    }

    fn poll_task(&mut self, id: TaskId) {
        if let Some(r) = with(|c| {
            let r = c.tasks[id].preempted.take();
            if r.is_some() {
                c.suspended -= 1;
                c.tr(|| format!("task {} goes on", id));
            }
            r
        }) {
            self.runners[r].tx.send(Job::Resume).expect("runner gone");
            self.handle_reply(r);
            return;
        }
        let (sp, class, runners) = with(|c| {
            c.polls += 1;
            let t = &mut c.tasks[id];
            t.st = St::Running;
            t.notified = false;
            let sp = t.fut.take().expect("task without future");
            let cl = t.class;
            let r = c.knobs.runners;
            c.tr(|| format!("poll task {}", id));
            (sp, cl, r)
        });
        if class == Class::Server && runners > 0 {
            let r = self.runner(runners);
            self.runners[r].task = Some(id);
            self.runners[r].tx.send(Job::Poll(id, sp)).expect("runner gone");
            self.handle_reply(r);
        } else {
            let (sp, res) = poll_one(id, sp);
            self.finish_poll(id, sp, res);
        }
    }

    fn drain_woken() {
        let ids = {
            let mut g = WOKEN.lock().unwrap_or_else(|p| p.into_inner());
            std::mem::replace(&mut *g, Vec::new())
        };
        if ids.is_empty() {
            return;
        }
        with(|c| {
            for id in ids {
                match c.tasks[id].st {
                    St::Idle => {
                        c.tasks[id].st = St::Queued;
                        c.ready.push(id);
                    }
                    St::Running => c.tasks[id].notified = true,
                    St::Queued | St::Done => {}
                }
            }
        });
    }

    pub fn run(&mut self) -> End {
        loop {
            Self::drain_woken();
            enum Next {
                Poll(TaskId),
                Timer(TimerFn),
                End(End),
                Again,
            }
            let next = with(|c| {
                c.steps += 1;
                if c.steps > c.max_steps {
                    return Next::End(End::StepCap);
                }
                // A task that keeps waking itself (hyper 0.12 does while its service is not
                // ready) takes time, so that timers come due meanwhile.
                let due = c.timers.peek().map_or(false, |Reverse((at, _))| *at <= c.now);
                // With very many threads suspended, one of them goes on first.
                let full = c.suspended >= 16;
                let any = if full {
                    let (tasks, ready) = (&c.tasks, &mut c.ready);
                    match ready.iter().position(|id| tasks[*id].preempted.is_some()) {
                        Some(i) => {
                            let id = ready.remove(i);
                            return Next::Poll(id);
                        }
                        None => c.timers.is_empty() && !ready.is_empty(),
                    }
                } else {
                    !c.ready.is_empty()
                };
                if any && !(c.busy > 200 && due) {
                    c.busy += 1;
                    if c.busy > 200 {
                        let d = 20 * (c.busy / 40).min(15);
                        c.now += d;
                        c.busy_us += d;
                        crate::seam::set_now(c.now);
                    }
                    // spurious poll of an idle task
                    let pm = c.knobs.spurious_poll;
                    if pm > 0 && c.decide_rare(pm, 1) == 1 {
                        let idle: Vec<TaskId> = (0..c.tasks.len())
                            .filter(|i| c.tasks[*i].st == St::Idle && c.tasks[*i].class == Class::Server)
                            .collect();
                        if !idle.is_empty() {
                            let k = c.decide(idle.len() as u32) as usize;
                            c.stat("sched.spurious_poll");
                            return Next::Poll(idle[k]);
                        }
                    }
                    let n = c.ready.len();
                    let k = match c.knobs.sched {
                        0 => 0,
                        1 => n - 1,
                        2 => c.decide(n as u32) as usize,
                        _ => {
                            // priorities; occasionally demote the chosen task
                            let mut best = 0;
                            for i in 1..n {
                                if c.tasks[c.ready[i]].prio > c.tasks[c.ready[best]].prio {
                                    best = i;
                                }
                            }
                            if n > 1 && c.decide_rare(60, 1) == 1 {
                                let id = c.ready[best];
                                c.tasks[id].prio = 0;
                                c.stat("sched.priority_change");
                            }
                            best
                        }
                    };
                    if k > 0 {
                        c.stat("sched.reordered");
                    }
                    let id = c.ready.remove(k);
                    let pm = c.knobs.delay_poll;
                    let d = if c.tasks[id].class == Class::Server {
                        c.decide_rare(pm, 2000)
                    } else {
                        0
                    };
                    if d > 0 {
                        c.stat("fault.worker_stall");
                        // stays Queued, comes back later
                        let when = c.now + u64::from(d);
                        c.at(when, move || with(|c| c.ready.push(id)));
                        return Next::Again;
                    }
                    return Next::Poll(id);
                }
                if c.ready.is_empty() {
                    c.busy = 0;
                }
                if let Some(Reverse((at, s))) = c.timers.pop() {
                    c.now = c.now.max(at);
                    crate::seam::set_now(c.now);
                    let f = c.timer_fns.remove(&s).expect("timer without fn");
                    return Next::Timer(f);
                }
                Next::End(End::Quiescent)
            });
            match next {
                Next::Poll(id) => self.poll_task(id),
                Next::Timer(TimerFn::Call(f)) => f(),
                Next::Timer(TimerFn::Resume(r)) => {
                    self.runners[r].tx.send(Job::Resume).expect("runner gone");
                    self.handle_reply(r);
                }
                Next::Again => {}
                Next::End(e) => return e,
            }
            (self.on_step)();
        }
    }

    /// Drops every unfinished task (the process "shuts down").
    pub fn drop_all(&mut self) -> Vec<String> {
        let mut left = Vec::new();
        loop {
            let next = with(|c| {
                let i = c.tasks.iter().position(|t| t.fut.is_some());
                i.map(|i| {
                    c.tasks[i].st = St::Done;
                    (c.tasks[i].name.clone(), c.tasks[i].fut.take())
                })
            });
            match next {
                Some((n, f)) => {
                    left.push(n);
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                }
                None => break,
            }
        }
        let fns = with(|c| std::mem::replace(&mut c.timer_fns, BTreeMap::new()));
        drop(fns);
        with(|c| c.timers.clear());
        let ws = with(|c| std::mem::replace(&mut c.block_waiters, Vec::new()));
        drop(ws);
        left
    }

    /// Returns how many threads stay behind, in the middle of something.
    pub fn quit(&mut self) -> usize {
        for r in &mut self.runners {
            if r.task.is_none() {
                let _ = r.tx.send(Job::Quit);
                if let Some(j) = r.join.take() {
                    let _ = j.join();
                }
            }
        }
        self.runners.iter().filter(|r| r.join.is_some()).count()
    }
}
