//! Simulated byte-stream connections: latency, fragmentation, short reads and writes,
//! back-pressure windows, spurious WouldBlock, stalls (partition of one connection),
//! reset and orderly close, all decided by the simulator.

use crate::sim::{self, Us};
use futures::task::Task;
use futures::{Async, Poll};
use std::collections::VecDeque;
use std::io;
use std::sync::{Arc, Mutex};
use tokio_io::{AsyncRead, AsyncWrite};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct NetKnobs {
    pub lat_min: Us,
    pub lat_jitter: Us,
    /// largest segment a write is cut into (0: no cutting)
    pub mss: u32,
    /// per mille of short reads / short writes / spurious WouldBlock
    pub short_read: u32,
    pub short_write: u32,
    pub would_block: u32,
    /// bytes that may be under way or unread per direction
    pub window: u32,
    /// Writes are never refused (a kernel buffer larger than any message of a run). Set for
    /// HTTP/1: hyper 0.12 shuts a finished connection down without waiting for bytes the socket
    /// refused to take, which would cut responses for reasons that have nothing to do with the
    /// code under test.
    #[serde(default)]
    pub free_writes: bool,
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    inflight: usize,
    /// under way, in sending order (`None`: end of stream)
    queue: VecDeque<Option<Vec<u8>>>,
    last_arrival: Us,
    stall_until: Us,
    fin_sent: bool,
    fin: bool,
    reset: bool,
    reader_gone: bool,
    rwait: Option<Task>,
    wwait: Option<Task>,
    pub written: u64,
    pub delivered: u64,
}

pub struct Conn {
    /// [0] client -> server, [1] server -> client
    p: [Mutex<Pipe>; 2],
    k: NetKnobs,
    pub id: usize,
}

fn lk<T>(m: &Mutex<T>) -> sim::Guard<'_, T> {
    sim::lock(m)
}

pub struct Sock {
    pub conn: Arc<Conn>,
    /// true: the client's end
    client: bool,
    shut: bool,
}

pub fn pair(id: usize, k: NetKnobs) -> (Sock, Sock, Arc<Conn>) {
    let c = Arc::new(Conn {
        p: [Mutex::new(Pipe::default()), Mutex::new(Pipe::default())],
        k,
        id,
    });
    (
        Sock { conn: c.clone(), client: true, shut: false },
        Sock { conn: c.clone(), client: false, shut: false },
        c,
    )
}

impl Conn {
    /// Connection reset as seen by both ends, now.
    pub fn reset(&self) {
        for i in 0..2 {
            let (a, b) = {
                let mut p = lk(&self.p[i]);
                p.reset = true;
                p.buf.clear();
                (p.rwait.take(), p.wwait.take())
            };
            if let Some(t) = a {
                t.notify();
            }
            if let Some(t) = b {
                t.notify();
            }
        }
    }
    pub fn is_reset(&self) -> bool {
        lk(&self.p[0]).reset
    }
    /// Nothing arrives on either direction before `until`.
    pub fn stall(&self, until: Us) {
        for i in 0..2 {
            let mut p = lk(&self.p[i]);
            p.stall_until = p.stall_until.max(until);
        }
    }
    pub fn client_written(&self) -> u64 {
        lk(&self.p[0]).written
    }
    pub fn client_delivered(&self) -> u64 {
        lk(&self.p[0]).delivered
    }

    fn arrival(&self, p: &mut Pipe) -> Us {
        let jitter = if self.k.lat_jitter > 0 {
            u64::from(sim::decide(self.k.lat_jitter as u32 + 1))
        } else {
            0
        };
        let t = sim::now() + self.k.lat_min + jitter;
        let t = t.max(p.last_arrival).max(p.stall_until);
        p.last_arrival = t;
        t
    }

    fn send(self: &Arc<Self>, dir: usize, data: &[u8]) {
        let mut rest = data;
        while !rest.is_empty() {
            let n = if self.k.mss == 0 {
                rest.len()
            } else {
                let m = rest.len().min(self.k.mss as usize);
                m - sim::decide(m as u32) as usize
            };
            let (seg, r) = rest.split_at(n);
            rest = r;
            if !rest.is_empty() {
                sim::stat("net.segment_split");
            }
            let seg = seg.to_vec();
            let t = {
                let mut p = lk(&self.p[dir]);
                p.inflight += seg.len();
                p.written += seg.len() as u64;
                p.queue.push_back(Some(seg));
                self.arrival(&mut p)
            };
            let me = self.clone();
            sim::at(t, move || me.deliver(dir));
        }
    }

    /// Delivers the oldest segment under way.
    fn deliver(self: Arc<Self>, dir: usize) {
        let again = {
            let p = lk(&self.p[dir]);
            if p.stall_until > sim::now() && !p.reset {
                Some(p.stall_until)
            } else {
                None
            }
        };
        if let Some(t) = again {
            let me = self.clone();
            sim::stat("net.held_by_stall");
            sim::at(t, move || me.deliver(dir));
            return;
        }
        let (w, wt) = {
            let mut p = lk(&self.p[dir]);
            match p.queue.pop_front() {
                Some(Some(seg)) => {
                    p.inflight -= seg.len();
                    if p.reset || p.reader_gone {
                        (None, p.wwait.take())
                    } else {
                        p.delivered += seg.len() as u64;
                        p.buf.extend(seg.iter().cloned());
                        (p.rwait.take(), None)
                    }
                }
                _ => {
                    p.fin = true;
                    (p.rwait.take(), None)
                }
            }
        };
        if let Some(t) = w {
            t.notify();
        }
        if let Some(t) = wt {
            t.notify();
        }
    }

    fn send_fin(self: &Arc<Self>, dir: usize) {
        let t = {
            let mut p = lk(&self.p[dir]);
            if p.fin_sent {
                return;
            }
            p.fin_sent = true;
            p.queue.push_back(None);
            self.arrival(&mut p)
        };
        let me = self.clone();
        sim::at(t, move || me.deliver(dir));
    }
}

impl Sock {
    fn rdir(&self) -> usize {
        if self.client {
            1
        } else {
            0
        }
    }
    fn wdir(&self) -> usize {
        1 - self.rdir()
    }
    fn spurious(&self) -> bool {
        if self.client {
            return false;
        }
        let d = sim::decide_rare(self.conn.k.would_block, 50);
        if d > 0 {
            sim::stat("net.spurious_would_block");
            let t = futures::task::current();
            let when = sim::now() + u64::from(d);
            sim::at(when, move || t.notify());
            return true;
        }
        false
    }
    pub fn close_write(&mut self) {
        if !self.shut {
            self.shut = true;
            let d = self.wdir();
            self.conn.send_fin(d);
        }
    }
}

fn would_block() -> io::Error {
    io::Error::new(io::ErrorKind::WouldBlock, "sim: would block")
}

impl io::Read for Sock {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if self.spurious() {
            return Err(would_block());
        }
        let d = self.rdir();
        let (short, avail) = {
            let p = lk(&self.conn.p[d]);
            if p.reset {
                return Err(io::Error::new(io::ErrorKind::ConnectionReset, "sim: reset"));
            }
            (!self.client && p.buf.len() > 1, p.buf.len())
        };
        let mut lim = out.len().min(avail);
        if short && lim > 1 {
            let s = sim::decide_rare(self.conn.k.short_read, (lim as u32) - 1);
            if s > 0 {
                sim::stat("net.short_read");
                lim = s as usize;
            }
        }
        let (n, w) = {
            let mut p = lk(&self.conn.p[d]);
            if p.buf.is_empty() {
                if p.fin {
                    return Ok(0);
                }
                let t = futures::task::current();
                p.rwait = Some(t);
                return Err(would_block());
            }
            for b in out.iter_mut().take(lim) {
                *b = p.buf.pop_front().unwrap();
            }
            (lim, p.wwait.take())
        };
        if let Some(t) = w {
            t.notify();
        }
        Ok(n)
    }
}

impl io::Write for Sock {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        if data.is_empty() {
            return Ok(0);
        }
        let free = self.conn.k.free_writes;
        if !free && self.spurious() {
            return Err(would_block());
        }
        let d = self.wdir();
        let room = {
            let mut p = lk(&self.conn.p[d]);
            if p.reset || p.reader_gone || p.fin_sent {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "sim: broken pipe"));
            }
            let used = p.buf.len() + p.inflight;
            let room = if free {
                data.len()
            } else {
                (self.conn.k.window as usize).saturating_sub(used)
            };
            if room == 0 {
                sim::stat("net.backpressure");
                let t = futures::task::current();
                p.wwait = Some(t);
                return Err(would_block());
            }
            room
        };
        let mut n = data.len().min(room);
        if n > 1 && !self.client {
            let s = sim::decide_rare(self.conn.k.short_write, n as u32 - 1);
            if s > 0 {
                sim::stat("net.short_write");
                n = s as usize;
            }
        }
        self.conn.send(d, &data[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl AsyncRead for Sock {}
impl AsyncWrite for Sock {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.close_write();
        Ok(Async::Ready(()))
    }
}

impl Drop for Sock {
    fn drop(&mut self) {
        if !sim::active() {
            return;
        }
        self.close_write();
        let d = self.rdir();
        let w = {
            let mut p = lk(&self.conn.p[d]);
            p.reader_gone = true;
            p.buf.clear();
            p.wwait.take()
        };
        if let Some(t) = w {
            t.notify();
        }
    }
}
