//! Shrinks a violating run: scenario first, then schedule.

use crate::proc::{forked, Report, Violation};
use crate::scenario::*;
use crate::Replay;
use std::time::{Duration, Instant};

struct M {
    prop: String,
    kind: String,
    end: Instant,
    tries: u32,
}

fn class(k: &str) -> String {
    k.split(' ').next().unwrap_or("").to_string()
}

impl M {
    fn find(&self, r: &Report) -> Option<Violation> {
        r.violations
            .iter()
            .find(|v| v.props.iter().any(|p| *p == self.prop) && class(&v.kind) == self.kind)
            .cloned()
    }
    fn test(&mut self, s: &Scenario, d: &[u32]) -> Option<(Report, Violation)> {
        if Instant::now() > self.end {
            return None;
        }
        self.tries += 1;
        let secs = if self.kind == "real-hang" { 6 } else { 15 };
        let r = forked(s, Some(d), false, secs);
        self.find(&r).map(|v| (r, v))
    }
}

type Edit = Box<dyn Fn(&mut Scenario) -> bool>;

fn drop_conn(s: &mut Scenario, i: usize) {
    s.conns.remove(i);
    // fault indices refer to connections
    s.faults.retain(|f| match f.act {
        Act::Rst(c) | Act::Fin(c) | Act::Stall(c, _) => c != i,
        _ => true,
    });
    for f in &mut s.faults {
        match &mut f.act {
            Act::Rst(c) | Act::Fin(c) | Act::Stall(c, _) => {
                if *c > i {
                    *c -= 1
                }
            }
            _ => {}
        }
    }
}

fn edits(s: &Scenario) -> Vec<Edit> {
    let mut e: Vec<Edit> = vec![];
    for i in (0..s.conns.len()).rev() {
        e.push(Box::new(move |s| {
            if s.conns.len() <= 1 || i >= s.conns.len() {
                return false;
            }
            drop_conn(s, i);
            true
        }));
    }
    for c in 0..s.conns.len() {
        for i in (0..s.conns[c].reqs.len()).rev() {
            e.push(Box::new(move |s| {
                if c >= s.conns.len() || s.conns[c].reqs.len() <= 1 || i >= s.conns[c].reqs.len() {
                    return false;
                }
                s.conns[c].reqs.remove(i);
                true
            }));
        }
    }
    for c in 0..s.conns.len() {
        for i in (0..s.conns[c].reqs.len()).rev() {
            e.push(Box::new(move |s| match s.conns.get_mut(c).and_then(|c| c.reqs.get_mut(i)) {
                Some(r) => r.inside.take().is_some(),
                None => false,
            }));
        }
    }
    e.push(Box::new(|s| s.pump.take().is_some()));
    for i in (0..s.faults.len()).rev() {
        e.push(Box::new(move |s| {
            if i >= s.faults.len() {
                return false;
            }
            s.faults.remove(i);
            true
        }));
    }
    e.push(Box::new(|s| {
        // unused servers
        let used: Vec<usize> = s.conns.iter().map(|c| c.server).chain(s.pump.iter().map(|p| p.server)).collect();
        if s.servers.len() < 2 {
            return false;
        }
        let mut map = vec![];
        let mut keep = vec![];
        for (i, v) in s.servers.iter().enumerate() {
            map.push(keep.len());
            if used.contains(&i) {
                keep.push(v.clone());
            }
        }
        if keep.len() == s.servers.len() {
            return false;
        }
        for c in &mut s.conns {
            c.server = map[c.server];
        }
        if let Some(p) = &mut s.pump {
            p.server = map[p.server];
        }
        s.servers = keep;
        true
    }));
    macro_rules! knob {
        ($p:ident . $($f:ident).+ = $v:expr) => {
            e.push(Box::new(|s: &mut Scenario| {
                let $p = s;
                if $p.$($f).+ == $v {
                    return false;
                }
                $p.$($f).+ = $v;
                true
            }));
        };
    }
    knob!(s.sim.sched = 0);
    knob!(s.sim.delay_poll = 0);
    knob!(s.sim.spurious_poll = 0);
    knob!(s.sim.block_spurious = 0);
    knob!(s.sim.preempt = 0);
    knob!(s.sim.hop = 0);
    knob!(s.sim.wall = vec![]);
    knob!(s.sim.runners = 0);
    knob!(s.sim.block_cap = 1000);
    knob!(s.sim.pool_shutdown_at = 0);
    knob!(s.net.short_read = 0);
    knob!(s.net.short_write = 0);
    knob!(s.net.would_block = 0);
    knob!(s.net.lat_jitter = 0);
    knob!(s.net.mss = 0);
    knob!(s.net.window = 1 << 20);
    for i in 0..s.servers.len() {
        e.push(Box::new(move |s| i < s.servers.len() && !s.servers[i].gate.is_empty() && { s.servers[i].gate.clear(); true }));
        e.push(Box::new(move |s| i < s.servers.len() && s.servers[i].makes > 0 && { s.servers[i].makes = 0; true }));
        e.push(Box::new(move |s| i < s.servers.len() && s.servers[i].fresh > 0 && { s.servers[i].fresh = 0; true }));
        e.push(Box::new(move |s| i < s.servers.len() && s.servers[i].catch_delay > 0 && { s.servers[i].catch_delay = 0; true }));
        for w in (0..s.servers[i].wraps.len()).rev() {
            e.push(Box::new(move |s| i < s.servers.len() && w < s.servers[i].wraps.len() && { s.servers[i].wraps.remove(w); true }));
        }
    }
    for c in 0..s.conns.len() {
        e.push(Box::new(move |s| c < s.conns.len() && s.conns[c].start > 0 && { s.conns[c].start = 0; true }));
        for i in 0..s.conns[c].reqs.len() {
            macro_rules! rq {
                (|$r:ident| $b:expr) => {
                    e.push(Box::new(move |s: &mut Scenario| {
                        if c >= s.conns.len() || i >= s.conns[c].reqs.len() {
                            return false;
                        }
                        let $r = &mut s.conns[c].reqs[i];
                        $b
                    }));
                };
            }
            rq!(|r| !r.headers.is_empty() && { r.headers.clear(); true });
            rq!(|r| r.gap > 0 && { r.gap = 0; true });
            rq!(|r| r.close && { r.close = false; true });
            rq!(|r| r.plan.handler != HandlerPlan::default() && { r.plan.handler = HandlerPlan::default(); true });
            rq!(|r| (r.plan.handler.delay > 0 || r.plan.handler.polls > 0) && { r.plan.handler.delay = 0; r.plan.handler.polls = 0; true });
            rq!(|r| r.plan.body != StepPlan::default() && { r.plan.body = StepPlan::default(); true });
            rq!(|r| (r.plan.body.delay > 0 || r.plan.body.polls > 0) && { r.plan.body.delay = 0; r.plan.body.polls = 0; true });
            rq!(|r| !r.plan.guards.is_empty() && { r.plan.guards.clear(); true });
            rq!(|r| {
                let mut any = false;
                for v in r.plan.guards.values_mut() {
                    for p in v {
                        if p.delay > 0 || p.polls > 0 {
                            p.delay = 0;
                            p.polls = 0;
                            any = true;
                        }
                    }
                }
                any
            });
            rq!(|r| !r.body.pieces.is_empty() && { r.body.pieces.clear(); true });
            rq!(|r| {
                let mut any = false;
                for p in &mut r.body.pieces {
                    any |= p.1 > 0;
                    p.1 = 0;
                }
                any
            });
            rq!(|r| r.body.cut.is_some() && { r.body.cut = None; true });
            rq!(|r| r.body.cut.is_none() && !r.body.bytes.is_empty() && { r.body = BodySpec::default(); true });
            rq!(|r| match &mut r.plan.handler.out {
                HOut::Resp { body, hdrs, .. } if *body != RBody::Full(0) || !hdrs.is_empty() => {
                    *body = RBody::Full(0);
                    hdrs.clear();
                    true
                }
                _ => false,
            });
        }
    }
    e
}

pub fn minimize(scn: Scenario, decisions: Vec<u32>, prop: &str, first: &Violation, secs: u64) -> Replay {
    let mut m = M {
        prop: prop.to_string(),
        kind: class(&first.kind),
        end: Instant::now() + Duration::from_secs(secs),
        tries: 0,
    };
    let orig = (scn.clone(), decisions.clone());
    let mut best = scn;
    let mut dec = decisions;
    let mut viol = first.clone();
    let mut reproduced = false;
    // The calmest schedule first: without decisions everything is FIFO and undisturbed.
    if let Some((r, v)) = m.test(&best, &dec) {
        reproduced = true;
        dec = r.decisions;
        viol = v;
    }
    if reproduced {
        if let Some((_, v)) = m.test(&best, &[]) {
            dec = vec![];
            viol = v;
        }
        // large scenarios: whole blocks of connections and of requests first
        let mut size = 256;
        while size >= 2 && Instant::now() < m.end {
            for what in 0..=best.conns.len() {
                let mut i = 0;
                loop {
                    let mut c = best.clone();
                    // what == 0: connections, else requests of one connection
                    let len = if what == 0 {
                        c.conns.len()
                    } else {
                        c.conns.get(what - 1).map_or(0, |x| x.reqs.len())
                    };
                    if i >= len || len <= size || Instant::now() > m.end {
                        break;
                    }
                    let j = (i + size).min(len);
                    if what == 0 {
                        for k in (i..j).rev() {
                            if c.conns.len() > 1 {
                                drop_conn(&mut c, k);
                            }
                        }
                    } else {
                        c.conns[what - 1].reqs.drain(i..j);
                    }
                    let mut got = m.test(&c, &dec).map(|(_, v)| (dec.clone(), v));
                    if got.is_none() && !dec.is_empty() {
                        got = m.test(&c, &[]).map(|(_, v)| (vec![], v));
                    }
                    match got {
                        Some((d, v)) => {
                            best = c;
                            dec = d;
                            viol = v;
                        }
                        None => i = j,
                    }
                }
            }
            size /= 2;
        }
        loop {
            let mut progress = false;
            for e in edits(&best) {
                let mut c = best.clone();
                if !e(&mut c) {
                    continue;
                }
                // with the recorded schedule, then with the plain one
                let mut got = m.test(&c, &dec).map(|(_, v)| (dec.clone(), v));
                if got.is_none() && !dec.is_empty() {
                    got = m.test(&c, &[]).map(|(_, v)| (vec![], v));
                }
                if let Some((d, v)) = got {
                    best = c;
                    dec = d;
                    viol = v;
                    progress = true;
                }
                if Instant::now() > m.end {
                    break;
                }
            }
            if !progress || Instant::now() > m.end {
                break;
            }
        }
        // shorter schedule
        let mut n = dec.len();
        while n > 0 && Instant::now() < m.end {
            let half = n / 2;
            match m.test(&best, &dec[..half]) {
                Some((_, v)) => {
                    dec.truncate(half);
                    viol = v;
                    n = half;
                }
                None => break,
            }
        }
        // calmer schedule: zero blocks of decisions
        let mut size = (dec.len() / 2).max(1);
        while size >= 1 && !dec.is_empty() && Instant::now() < m.end {
            let mut i = 0;
            while i < dec.len() && Instant::now() < m.end {
                let j = (i + size).min(dec.len());
                if dec[i..j].iter().any(|d| *d != 0) {
                    let mut c = dec.clone();
                    for x in &mut c[i..j] {
                        *x = 0;
                    }
                    if let Some((_, v)) = m.test(&best, &c) {
                        dec = c;
                        viol = v;
                    }
                }
                i = j;
            }
            if size == 1 || m.tries > 1500 {
                break;
            }
            size /= 2;
        }
        while dec.last() == Some(&0) {
            dec.pop();
        }
    }
    // Final confirmation in a fresh process, with a trace.
    let mut fin = forked(&best, Some(&dec), true, 20);
    let tries = m.tries;
    let mut note = format!("{} executions spent on minimising", tries);
    if m.find(&fin).is_none() {
        best = orig.0;
        dec = orig.1;
        fin = forked(&best, Some(&dec), true, 20);
        note = if m.find(&fin).is_some() { "not minimised".into() } else { "did not reproduce in a fresh process".into() };
    }
    if let Some(v) = m.find(&fin) {
        viol = v;
    }
    let mut trace = fin.trace;
    if trace.len() > 400 {
        trace.truncate(400);
        trace.push("...".into());
    }
    Replay {
        property: prop.to_string(),
        kind: viol.kind,
        message: viol.msg,
        prog_seed: best.prog_seed,
        order_hash: fin.order_hash,
        scenario: best,
        decisions: dec,
        trace,
        note,
    }
}
