//! Clock and randomness seams below the standard library.
//!
//! The executable defines `clock_gettime` and `getrandom` itself, so that everything in the
//! process (std, hyper's `Date` header, h2's reset bookkeeping, hash map keys) gets simulated
//! time and fixed randomness while a simulation is active.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static NOW_US: AtomicU64 = AtomicU64::new(0);
/// how far somebody has set the wall clock
static WALL_S: AtomicI64 = AtomicI64::new(0);
static RAND: AtomicU64 = AtomicU64::new(0);

/// 2023-11-14T22:13:20Z
const EPOCH: i64 = 1_700_000_000;

pub fn start(seed: u64) {
    NOW_US.store(0, SeqCst);
    WALL_S.store(0, SeqCst);
    RAND.store(seed << 16, SeqCst);
    ON.store(true, SeqCst);
}
pub fn stop() {
    ON.store(false, SeqCst);
}
pub fn set_wall(s: i64) {
    WALL_S.store(s, SeqCst);
}
pub fn set_now(us: u64) {
    NOW_US.store(us, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ON.load(SeqCst) {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    }
    let us = NOW_US.load(SeqCst);
    let base = if id == libc::CLOCK_REALTIME { EPOCH + WALL_S.load(SeqCst) } else { 1000 };
    (*ts).tv_sec = base + (us / 1_000_000) as i64;
    (*ts).tv_nsec = ((us % 1_000_000) * 1000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !ON.load(SeqCst) {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for x in b {
        let n = RAND.fetch_add(1, SeqCst);
        *x = (n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8;
    }
    len as libc::ssize_t
}

/// A thread of the code under test that sleeps, sleeps in simulated time.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: libc::c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if !ON.load(SeqCst) || !crate::sim::may_wait() {
        let r = syscall(libc::SYS_clock_nanosleep, i64::from(id), i64::from(flags), ts as libc::c_long, rem as libc::c_long, 0, 0);
        return if r < 0 { *libc::__errno_location() } else { 0 };
    }
    let mut ns = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    if flags & libc::TIMER_ABSTIME != 0 {
        let mut now = *ts;
        clock_gettime(id, &mut now);
        ns -= now.tv_sec as i128 * 1_000_000_000 + now.tv_nsec as i128;
    }
    crate::sim::thread_sleep((ns.max(0) / 1000) as u64 + 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    match clock_nanosleep(libc::CLOCK_MONOTONIC, 0, ts, rem) {
        0 => 0,
        e => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

/// Spinning on a lock: others go on first.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if ON.load(SeqCst) && crate::sim::may_wait() && crate::sim::yielded() {
        return 0;
    }
    syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as libc::c_int
}

/// Waits inside the kernel on a lock (or condition) of the code under test become
/// scheduling decisions: the standard library's primitives tolerate waking up for nothing.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: libc::c_long,
    b: libc::c_long,
    c: libc::c_long,
    d: libc::c_long,
    e: libc::c_long,
    f: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_futex && ON.load(SeqCst) {
        let op = b as libc::c_int & 0x7f;
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && crate::sim::may_wait() {
            if *(a as *const u32) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            if crate::sim::lock_wait() {
                return 0;
            }
        }
    }
    let ret: libc::c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = (-ret) as libc::c_int;
        return -1;
    }
    ret
}

static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

/// Bytes and blocks that are allocated now.
pub fn live() -> (i64, i64) {
    (LIVE.load(SeqCst), BLOCKS.load(SeqCst))
}

/// The system allocator; an allocation is a place at which a thread may be suspended.
struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sim::alloc_point();
        LIVE.fetch_add(l.size() as i64, SeqCst);
        BLOCKS.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sim::alloc_point();
        LIVE.fetch_add(l.size() as i64, SeqCst);
        BLOCKS.fetch_add(1, SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sim::alloc_point();
        LIVE.fetch_add(n as i64 - l.size() as i64, SeqCst);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        BLOCKS.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
}
