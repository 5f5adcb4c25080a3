//! Scenario generation: everything about a run is a function of (property profile, seed).

use crate::model::{self, AppModel, Fail, ReqIn};
use crate::net::NetKnobs;
use crate::oracle::{expect_of, inner_find, Models};
use crate::scenario::*;
use crate::sim::{Rng, SimKnobs};
use std::collections::{BTreeMap, BTreeSet};

/// What a profile wants; percentages unless said otherwise.
#[derive(Clone)]
struct Want {
    modes: Vec<(Mode, u32)>,
    apps: &'static [&'static str],
    sync: u32,
    catch: u32,
    gate: u32,
    clone: u32,
    servers: (u64, u64),
    conns: (u64, u64),
    reqs: (u64, u64),
    mutate: u32,
    wrong: u32,
    head: u32,
    badval: u32,
    fail: u32,
    panic: u32,
    delay: u32,
    badbody: u32,
    cut: u32,
    faults: u32,
    stream: u32,
    split: u32,
    stall30: u32,
    tight: u32,
    headers: u32,
    fall: u32,
    big: u32,
    hfail: u32,
}

const FALLS: &[&str] = &[
    "FallB", "FallG", "FallHand", "FwdRoute", "Nest", "NestDeep", "OnlyFall", "StructFall", "StructGuard",
    "CtxFall", "CtxHand", "CtxOther", "GenFall", "FwdIn", "Level5", "CtxTupFall", "CtxField", "CtxEnum", "FallMany", "FallAll", "CtxTuple", "ManyGuards", "Rnd*", "Rnd*",
];

fn base() -> Want {
    Want {
        modes: vec![(Mode::H1, 40), (Mode::H2, 20), (Mode::Direct, 30), (Mode::Decode, 10)],
        apps: &[],
        sync: 25,
        catch: 25,
        gate: 10,
        clone: 20,
        servers: (1, 2),
        conns: (1, 4),
        reqs: (1, 5),
        mutate: 12,
        wrong: 12,
        head: 8,
        badval: 10,
        fail: 12,
        panic: 4,
        delay: 35,
        badbody: 15,
        cut: 4,
        faults: 12,
        stream: 30,
        split: 50,
        stall30: 0,
        tight: 25,
        headers: 40,
        fall: 30,
        big: 5,
        hfail: 8,
    }
}

fn want_of(prop: &str) -> Want {
    let b = base();
    match prop {
        "P01" => Want { mutate: 35, badval: 20, wrong: 8, fail: 4, badbody: 8, reqs: (2, 8), ..b },
        "P02" => Want {
            apps: &[
                "FallMany", "FallMany", "FallAll", "Methods", "Multi", "Shape", "Shape", "Heads", "FallB", "FallB", "FallG", "FallHand", "Nest", "NestDeep",
                "FwdRoute", "StructFall", "CtxFall", "OnlyFall", "Swap", "Swap", "Deep", "StarLast", "Types", "Long", "Wide", "Wider", "Dozen", "Level4", "Level5", "Rnd*", "Rnd*", "Rnd*",
            ],
            wrong: 60,
            badval: 30,
            mutate: 8,
            fail: 10,
            reqs: (2, 7),
            ..b
        },
        "P03" => Want {
            apps: &[
                "Heads", "Heads", "Basic", "Query", "Trail", "Multi", "Methods", "Gen", "StarHead", "StarLast", "StructRoute",
                "FallB", "Slow", "Rnd*", "Rnd*",
            ],
            head: 50,
            wrong: 3,
            stream: 60,
            mutate: 5,
            fail: 6,
            reqs: (2, 7),
            big: 10,
            ..b
        },
        "P04" => Want {
            apps: &[
                "Guards", "Guards", "ManyGuards", "ManyGuards", "CtxField", "CtxTuple", "CtxGuards", "CtxOther", "FallG", "StructFall", "FwdRoute", "Gen", "Slow", "Query", "Nest",
                "Multi", "Bodies", "Rnd*", "Rnd*",
            ],
            fail: 45,
            delay: 65,
            badval: 12,
            badbody: 15,
            cut: 6,
            mutate: 4,
            wrong: 5,
            ..b
        },
        "P05" => Want {
            modes: vec![(Mode::H1, 40), (Mode::H2, 25), (Mode::Direct, 30), (Mode::Decode, 15), (Mode::SyncCall, 10)],
            apps: &["Bodies", "Bodies", "Bodies", "Basic", "Query", "Guards", "Slow", "Gen", "CtxGuards", "FallB", "DeadVars", "Rnd*"],
            wrong: 3,
            mutate: 2,
            badval: 3,
            fail: 4,
            panic: 0,
            badbody: 25,
            split: 85,
            cut: 3,
            big: 12,
            ..b
        },
        "P06" => Want {
            modes: vec![(Mode::H1, 45), (Mode::H2, 25), (Mode::Direct, 30), (Mode::Decode, 15), (Mode::SyncCall, 10)],
            apps: &["Bodies", "Bodies", "Bodies", "Basic", "Query", "Guards", "Slow", "Gen", "CtxGuards", "FallB", "FallHand", "Rnd*"],
            wrong: 2,
            mutate: 1,
            badval: 2,
            fail: 3,
            panic: 2,
            badbody: 10,
            split: 80,
            cut: 45,
            faults: 35,
            reqs: (1, 3),
            big: 8,
            ..b
        },
        "P07" => Want { fail: 45, hfail: 35, wrong: 15, badval: 15, badbody: 30, sync: 15, delay: 50, cut: 8, ..b },
        "P08" => Want {
            modes: vec![(Mode::H1, 40), (Mode::H2, 20), (Mode::Direct, 50)],
            sync: 55,
            tight: 70,
            fail: 6,
            wrong: 5,
            mutate: 5,
            delay: 50,
            hfail: 12,
            conns: (1, 6),
            ..b
        },
        "P09" => Want {
            modes: vec![(Mode::H1, 50), (Mode::H2, 30), (Mode::Direct, 20)],
            conns: (2, 6),
            reqs: (2, 8),
            headers: 85,
            fail: 6,
            wrong: 6,
            mutate: 5,
            split: 70,
            stream: 50,
            ..b
        },
        "P10" => Want {
            modes: vec![(Mode::H1, 40), (Mode::H2, 20), (Mode::Direct, 45)],
            apps: &["BoomApp", "BoomApp", "Guards", "CtxGuards", "Slow", "Bodies", "Blocky", "FallG", "FallHand", "FwdRoute", "CtxHand", "Gen", "Rnd*", "Rnd*"],
            catch: 100,
            panic: 45,
            fail: 10,
            hfail: 10,
            sync: 40,
            delay: 50,
            clone: 35,
            wrong: 6,
            mutate: 3,
            badval: 15,
            ..b
        },
        "P11" => Want {
            modes: vec![(Mode::BlockApi, 45), (Mode::Direct, 30), (Mode::H1, 20), (Mode::H2, 10), (Mode::Decode, 10)],
            apps: &["Blocky", "Blocky", "Basic", "Guards", "Slow", "Rnd*"],
            sync: 85,
            tight: 80,
            delay: 65,
            fail: 15,
            hfail: 25,
            panic: 12,
            catch: 50,
            faults: 35,
            conns: (1, 6),
            wrong: 3,
            mutate: 3,
            ..b
        },
        "P12" => Want {
            modes: vec![(Mode::H1, 35), (Mode::H2, 30), (Mode::Direct, 40), (Mode::Decode, 20), (Mode::BlockApi, 8)],
            apps: &["Slow", "Slow", "Guards", "Guards", "Bodies", "CtxGuards", "Blocky", "FallG", "CtxHand", "StructFall", "FwdRoute", "Gen", "Rnd*"],
            faults: 90,
            delay: 80,
            cut: 12,
            fail: 8,
            wrong: 3,
            mutate: 3,
            sync: 30,
            tight: 50,
            ..b
        },
        "P13" => Want {
            modes: vec![(Mode::H1, 35), (Mode::H2, 20), (Mode::Direct, 35), (Mode::Decode, 15), (Mode::SyncCall, 10)],
            apps: &[
                "CtxGuards", "CtxGuards", "CtxOther", "CtxOther", "CtxFall", "CtxHand", "GenCtx", "CtxOtherIn", "CtxTuple",
                "CtxTuple", "CtxTupFall", "CtxField", "CtxEnum", "RndCtx",
            ],
            servers: (2, 4),
            conns: (2, 6),
            clone: 40,
            wrong: 8,
            mutate: 3,
            fail: 6,
            ..b
        },
        "P14" => Want { apps: FALLS, fall: 75, wrong: 25, badval: 15, fail: 12, split: 65, ..b },
        "P15" => Want {
            modes: vec![(Mode::SyncCall, 75), (Mode::Decode, 25)],
            delay: 60,
            fail: 18,
            panic: 6,
            cut: 8,
            badbody: 20,
            badval: 15,
            split: 70,
            conns: (1, 3),
            ..b
        },
        "P16" => Want {
            apps: &["Slow", "Slow", "Guards", "Blocky", "Bodies", "CtxGuards", "Basic", "FallG", "FwdRoute", "Rnd*"],
            modes: vec![(Mode::H1, 40), (Mode::H2, 30), (Mode::Direct, 30), (Mode::BlockApi, 5)],
            stall30: 80,
            faults: 50,
            delay: 60,
            sync: 35,
            conns: (2, 6),
            fail: 6,
            wrong: 3,
            mutate: 3,
            tight: 40,
            ..b
        },
        "P17" => Want {
            modes: vec![(Mode::H1, 45), (Mode::H2, 20), (Mode::Direct, 45)],
            catch: 60,
            gate: 60,
            clone: 50,
            panic: 15,
            conns: (2, 6),
            faults: 25,
            fail: 8,
            sync: 35,
            wrong: 5,
            mutate: 3,
            ..b
        },
        _ => b,
    }
}

struct G<'a> {
    r: Rng,
    w: Want,
    m: &'a Models,
    prop: &'a str,
    /// no sockets: very long values are cheap
    long: bool,
    /// very large bodies are affordable
    huge: bool,
    /// mostly requests for the same route, all at the same time
    focus: Option<u64>,
    /// self-wakes left to give to steps of a run with very many polls
    storm: u32,
}

/// All apps reachable from `app` through forwarded fields.
fn closure(m: &Models, app: &'static AppModel) -> Vec<&'static AppModel> {
    let mut out = vec![app];
    let mut i = 0;
    while i < out.len() {
        for v in out[i].variants {
            for f in v.fields {
                if f.kind == "fwd" {
                    if let Some(a) = m.get(f.ty) {
                        if !out.iter().any(|x| x.name == a.name) {
                            out.push(a);
                        }
                    }
                }
            }
        }
        i += 1;
    }
    out
}

fn guard_types(m: &Models, app: &'static AppModel) -> Vec<&'static str> {
    let mut s: BTreeSet<&'static str> = BTreeSet::new();
    for a in closure(m, app) {
        for v in a.variants {
            for f in v.fields {
                if f.kind == "guard" {
                    s.insert(f.ty);
                }
            }
        }
    }
    s.into_iter().collect()
}

const STATUSES: &[u16] = &[400, 401, 403, 404, 418, 429, 500, 503];

/// An error status; 405 has its own outcome.
fn err_status(r: &mut Rng) -> u16 {
    if r.pct(60) {
        return *r.pick(STATUSES);
    }
    match 400 + r.below(200) as u16 {
        405 => 409,
        s => s,
    }
}

impl<'a> G<'a> {
    fn weighted<T: Clone>(&mut self, xs: &[(T, u32)]) -> T {
        let tot: u32 = xs.iter().map(|x| x.1).sum();
        let mut k = self.r.below(u64::from(tot)) as u32;
        for (x, w) in xs {
            if k < *w {
                return x.clone();
            }
            k -= *w;
        }
        xs[0].0.clone()
    }

    fn s(&mut self, xs: &[&str]) -> String {
        self.r.pick(xs).to_string()
    }

    // -------------------------------------------------------------- values

    fn seg_good(&mut self, ty: &str) -> String {
        match ty {
            "u8" => self.s(&["0", "7", "42", "255", "007", "+5"]),
            "u32" => self.s(&["0", "1", "42", "4294967295", "0010", "+7", "65536"]),
            "i64" => self.s(&["0", "-1", "9223372036854775807", "-9223372036854775808", "+3", "17"]),
            "bool" => self.s(&["true", "false"]),
            "char" => self.s(&["x", "-", "7", "*", ".", "~"]),
            "u16" => self.s(&["0", "65535", "+1", "00009", "443"]),
            "u64" => self.s(&["0", "18446744073709551615", "4294967296", "+1", "000000000000000000000000000000012"]),
            "i8" => self.s(&["0", "-128", "127", "-0", "+5"]),
            "i128" => self.s(&["0", "-170141183460469231731687303715884105728", "170141183460469231731687303715884105727", "18446744073709551616"]),
            "f64" => self.s(&["0", "-0", "1.5", "1e10", "-2.5E-3", ".5", "5.", "inf", "NaN", "+7", "0.1", "123456789012345678901234567890"]),
            "Ip" => self.s(&["127.0.0.1", "::1", "255.255.255.255", "fe80::1:2", "::ffff:1.2.3.4", "2001:db8::", "0.0.0.0"]),
            "Even" => self.s(&["0", "2", "10", "4294967298", "008"]),
            "MeOr" => self.s(&["me", "0", "12", "4294967295"]),
            "Boom" => self.s(&["ok", "fine", "boo", "b%6Fom", "Boom"]),
            _ => match self.r.below(12) {
                0 => {
                    let lim = if self.long && self.r.pct(20) { *self.r.pick(&[5_000, 5_000, 24_000]) } else { 300 };
                    "a".repeat(1 + self.r.below(lim) as usize)
                }
                1 => format!("n{}", self.r.below(1000)),
                _ => self.s(&[
                    "a", "a.b", "%2F", "..", ".", "a%20b", "x+y", "~", "-_", "a:b@c", "*", "%C3%A9", "12", "me", "true",
                    "%", "%zz", "a;b=c", "a,b", "(x)", "$1", "a!b", "it's", "=", "&", "%00", "%3F", "{x}", "a%2fb",
                ]),
            },
        }
    }
    fn seg_bad(&mut self, ty: &str) -> String {
        const TOKS: &[&str] = &[
            "a", "0", "1", "-", "+", ".", "_", "~", "%20", "%2F", "%2f", "%5C", "%00", "%25", "%2E%2E", "%C3%A9", "%", ":", "@", "!", "$", "&", "'",
            "(", ")", "*", ",", ";", "=", "e", "x", "..", ";v=1", "{", "}", "|", "^", "[", "]", "\"", "<", "`",
        ];
        if self.r.pct(12) {
            return self.wild(TOKS);
        }
        if self.r.pct(12) {
            let q = self.seg_good(ty);
            return self.smudge(&q, TOKS);
        }
        match ty {
            "u8" => self.s(&["256", "-1", "x", "1.0", "%31", "1e1", "", "99999999999999999999"]),
            "u32" => self.s(&["4294967296", "-1", "x", "1_0", "0x1", "1%20", "", "one"]),
            "i64" => self.s(&["9223372036854775808", "x", "--1", "1-", ""]),
            "bool" => self.s(&["True", "1", "yes", "truex", "tru", ""]),
            "char" => self.s(&["xy", "%41", "%C3%A9", ""]),
            "u16" => self.s(&["65536", "-1", "0x1", "1.0", "%30"]),
            "u64" => self.s(&["18446744073709551616", "-1", "1e3", "x", "%30"]),
            "i8" => self.s(&["128", "-129", "x", "--1", "%2D1"]),
            "i128" => self.s(&["170141183460469231731687303715884105728", "1.0", "x", "-"]),
            "f64" => self.s(&["x", "1,5", "0x1p3", "1_000", "--1", "e", "%31", "1e", "-"]),
            "Ip" => self.s(&["256.0.0.1", "1.2.3", "1.2.3.4.5", "localhost", "1.2.3.4:80", "[::1]", ":::", "%3A%3A1"]),
            "Even" => self.s(&["1", "3", "-2", "two", "2.0", ""]),
            "MeOr" => self.s(&["ME", "mee", "m", "-1", "4294967296", ""]),
            "Boom" => self.s(&["bad"]),
            _ => "".to_string(),
        }
    }
    fn rest(&mut self, ty: &str) -> String {
        if ty == "String" && self.r.pct(8) {
            // very many segments
            let n = self.r.below(if self.long { 400 } else { 60 }) as usize;
            let seg = self.s(&["a/", "/", "../", "x.y/", "0/%2F/"]);
            return seg.repeat(n);
        }
        if self.r.pct(8) {
            return self.wild(&["/", "/", "a", ".", "..", "%2F", "%2f", "*", ";", "0", "-", "~", "+", "%00", "%", "=", "&", ":", "@", ",", "x.y"]);
        }
        if ty == "String" {
            self.s(&[
                "", "a", "a/b/c", "a//b", "/", "x/", "%2F/y", "../..", "a.b/c", "/a", "index.html", "a/b/", "?", "x/../y", "12", "*",
            ])
        } else if self.r.pct(70) {
            self.seg_good(ty)
        } else {
            self.s(&["", "1/2", "a/b", "x", "/1", "1/"])
        }
    }

    /// A string of characters with a meaning somewhere.
    fn wild(&mut self, toks: &[&str]) -> String {
        let n = 1 + self.r.below(7);
        (0..n).map(|_| self.s(toks)).collect()
    }
    /// Exchanges, adds or removes something in the middle of a string of ASCII characters.
    fn smudge(&mut self, v: &str, toks: &[&str]) -> String {
        let i = self.r.below(v.len() as u64 + 1) as usize;
        let j = if self.r.pct(50) { i } else { (i + 1).min(v.len()) };
        let t = if self.r.pct(15) { String::new() } else { self.s(toks) };
        format!("{}{}{}", &v[..i], t, &v[j..])
    }
    fn query_good(&mut self, ty: &str) -> String {
        if self.r.pct(8) {
            // long ones: many pairs, or a long value
            let mut q = self.query_good(ty);
            let many = self.r.pct(50);
            let lim = match (many, self.long) {
                (true, false) => 40,
                (true, true) => 300,
                (false, false) => 600,
                (false, true) => *self.r.pick(&[600, 5_000, 20_000]),
            };
            let n = self.r.below(lim) as usize;
            let more = if many {
                (0..n).map(|i| format!("zz{}={}", i % 97, i)).collect::<Vec<_>>().join("&")
            } else {
                format!("zz={}", "y".repeat(n))
            };
            if !q.is_empty() && self.r.pct(30) {
                return format!("{}&{}", more, q);
            }
            if !q.is_empty() {
                q.push('&');
            }
            q.push_str(&more);
            return q;
        }
        const TOKS: &[&str] = &[
            "a", "b", "=", "=", "&", "&", ";", "+", "%20", "%2B", "%26", "%3D", "%3b", "%00", "%0D%0A", "%C3%A9", "%e9", "%", "?", "/", ":", "@",
            "!", "$", "'", "(", ")", "*", ",", "~", ".", "-", "_", "0", "1", "page=", "id=", "q=", "flag=true", "%u00e9", "amp;", "utf8=%E2%9C%93",
        ];
        if self.r.pct(12) {
            return self.wild(TOKS);
        }
        if self.r.pct(12) {
            let q = self.query_good(ty);
            return self.smudge(&q, TOKS);
        }
        match ty {
            "QPage" => self.s(&["", "page=1", "q=abc", "page=7&q=a%20b", "q=x+y&page=0", "q=", "other=1&page=3", "page=4294967295", "q=%26%3D"]),
            "QReq" => self.s(&["id=5", "id=0&flag=true", "flag=false&id=12", "id=3&junk=1", "id=+4"]),
            "QMap" => self.s(&["", "a=1", "a=1&b=2&c=3", "k=%E2%82%AC", "a=1&a=2", "=x", "x"]),
            _ => self.s(&["", "a=1", "a=1&a=2&b=3", "x=%41+b&y=", "=", "k", "&&a=b&", "a=b=c", "%41=%42", "a=/x?y"]),
        }
    }
    fn query_bad(&mut self, ty: &str) -> String {
        match ty {
            "QPage" => self.s(&["page=x", "page=-1", "page=1&page=2", "page=", "page=4294967296", "page=1%20"]),
            "QReq" => self.s(&["", "flag=true", "id=x", "id=1&id=2", "id=1&flag=yes", "ID=1", "id%20=1"]),
            _ => self.s(&["a=%FF", "a=1&b=%C3%28", "%", "a=%zz", "a[]=1"]),
        }
    }

    fn text(&mut self) -> String {
        match self.r.below(10) {
            0 => {
                let lim = if self.long && self.r.pct(10) { 5_000 } else { 200 };
                "x".repeat(1 + self.r.below(lim) as usize)
            }
            1 => "\u{20ac}\u{1F600}\u{e9}".to_string(),
            2 => format!("t{}", self.r.below(100_000)),
            _ => self.s(&["", "a", "hello world", "a&b=c", "line\\nbreak", "}{", "\u{e9}\u{e8}", "1234", "null", "]\\\"[", "0\r\n\r\n"]),
        }
    }
    fn jstr(&mut self) -> String {
        let t = self.text();
        if self.r.pct(15) {
            return "\"\\u00e9\\ud83d\\ude00z\"".into();
        }
        serde_json::to_string(&t).unwrap()
    }
    fn ws(&mut self) -> String {
        if self.r.pct(70) {
            String::new()
        } else {
            self.s(&[" ", "\n", "\t ", "\r\n", "    "])
        }
    }
    fn jval(&mut self, d: u32) -> String {
        if d == 0 && self.r.pct(3) {
            // around the parser's nesting limit
            let n = 100 + self.r.below(60) as usize;
            return if self.r.pct(50) {
                format!("{}1{}", "[".repeat(n), "]".repeat(n))
            } else {
                format!("{}[]{}", "{\"a\":".repeat(n), "}".repeat(n))
            };
        }
        match self.r.below(if d > 2 { 6 } else { 9 }) {
            0 => "null".into(),
            1 => self.s(&["true", "false"]),
            2 => format!("{}", self.r.below(1_000_000_000)),
            3 => self.s(&["0", "-1", "12345678901234567890", "1.5", "-0.25e3", "1e10", "12", "1234567", "0.1"]),
            4 | 5 => self.jstr(),
            6 | 7 => {
                let n = self.r.below(4);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(format!("{}{}", self.ws(), self.jval(d + 1)));
                }
                format!("[{}{}]", v.join(","), self.ws())
            }
            _ => {
                let n = self.r.below(4);
                let mut v = vec![];
                for i in 0..n {
                    let k = if self.r.pct(20) { "\"k\"".to_string() } else { format!("\"k{}\"", i) };
                    v.push(format!("{}{}:{}{}", self.ws(), k, self.ws(), self.jval(d + 1)));
                }
                format!("{{{}{}}}", v.join(","), self.ws())
            }
        }
    }
    fn enc(&mut self, t: &str) -> String {
        let mut o = String::new();
        for b in t.bytes() {
            if b == b' ' && self.r.pct(50) {
                o.push('+');
            } else if b.is_ascii_alphanumeric() && !self.r.pct(8) {
                o.push(b as char);
            } else if self.r.pct(50) {
                o.push_str(&format!("%{:02X}", b));
            } else {
                o.push_str(&format!("%{:02x}", b));
            }
        }
        o
    }

    fn body_good(&mut self, ty: &str) -> Vec<u8> {
        match ty {
            "Json<JPay>" => {
                let mut f = vec![
                    format!("{}\"id\"{}:{}{}", self.ws(), self.ws(), self.ws(), self.r.below(1 << 32)),
                    format!("\"s\":{}{}", self.jstr(), self.ws()),
                ];
                if self.r.pct(50) {
                    let lim = if self.r.pct(10) { 200 } else { 5 };
                    let n = self.r.below(lim);
                    let v: Vec<String> = (0..n).map(|_| format!("{}", self.r.next() as i64)).collect();
                    f.push(format!("\"v\":[{}]", v.join(",")));
                }
                if self.r.pct(50) {
                    f.push(format!("\"o\":{}", self.s(&["true", "false", "null"])));
                }
                if self.r.pct(20) {
                    f.push(format!("\"extra\":{}", self.jval(1)));
                }
                if self.r.pct(50) {
                    f.reverse();
                }
                format!("{}{{{}}}{}", self.ws(), f.join(","), self.ws()).into_bytes()
            }
            "Json<JVal>" => format!("{}{}{}", self.ws(), self.jval(0), self.ws()).into_bytes(),
            "Json<String>" => format!("{}{}{}", self.ws(), self.jstr(), self.ws()).into_bytes(),
            "HtmlForm<FPay>" => {
                let (a, o) = (self.text(), self.text());
                let mut f = vec![format!("a={}", self.enc(&a)), format!("n={}", self.r.below(1 << 32))];
                if self.r.pct(50) {
                    f.push(format!("opt={}", self.enc(&o)));
                }
                if self.r.pct(30) {
                    f.insert(0, "junk=1".into());
                }
                if self.r.pct(50) {
                    f.reverse();
                }
                f.join("&").into_bytes()
            }
            "HtmlForm<QPairs>" => {
                let n = self.r.below(5);
                let mut f = vec![];
                for i in 0..n {
                    let t = self.text();
                    f.push(format!("k{}={}", i % 3, self.enc(&t)));
                }
                f.join("&").into_bytes()
            }
            _ => {
                let n = match self.r.below(6) {
                    0 => 0,
                    1 => 1,
                    5 => self.r.below(600),
                    _ => self.r.below(60),
                };
                let mut v: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                if self.r.pct(20) {
                    v.extend_from_slice(b"\r\n0\r\n\r\nGET / HTTP/1.1\r\nhost: x\r\n\r\n");
                }
                v
            }
        }
    }
    fn body_bad(&mut self, ty: &str) -> Vec<u8> {
        let mut v = self.body_good(ty);
        match self.r.below(11) {
            7 => {
                // what lenient decoders cut off
                let pre: [&[u8]; 12] = [
                    b"", b"", b"\xef\xbb\xbf", b"\r\n", b" ", b"&", b"\0", b")]}',\n", b"?", b"#", b"\t\x0c", b"data=",
                ];
                let post: [&[u8]; 14] = [
                    b"", b"\r\n", b"\n", b"\n", b"\r", b" ", b"\t", b"\0", b"&", b";", b"%", b"%0", b"=", b"\x1a",
                ];
                let mut o = self.r.pick(&pre).to_vec();
                o.extend_from_slice(&v);
                o.extend_from_slice(self.r.pick(&post));
                o
            }
            8 if !v.is_empty() => {
                // doubled or exchanged separators
                let seps: [u8; 9] = [b'&', b'=', b';', b',', b':', b'+', b'%', b'"', b' '];
                let at: Vec<usize> = (0..v.len()).filter(|i| seps.contains(&v[*i])).collect();
                if !at.is_empty() {
                    let i = *self.r.pick(&at);
                    let c = *self.r.pick(&seps);
                    if self.r.pct(40) {
                        v[i] = c;
                    } else {
                        v.insert(i, c);
                    }
                }
                v
            }
            9 => {
                // almost right
                let deep = *self.r.pick(&[20usize, 100, 126, 127, 128, 129, 500]);
                let (a, b) = *self.r.pick(&[("[", "]"), ("{\"a\":", "}")]);
                let mut nest = a.repeat(deep).into_bytes();
                nest.extend_from_slice(b"1");
                nest.extend_from_slice(b.repeat(deep).as_bytes());
                let many: [&[u8]; 28] = [
                    &nest, &nest,
                    b"{\"id\":1,\"s\":\"x\",\"extra\":\"\xff\"}", b"{\"id\":1,\"\xff\":[2],\"s\":\"x\"}",
                    b"{\"id\":1,\"s\":\"\\u00e9\\n\"}", b"{\"id\":1,\"s\":\"x\",\"extra\":1e999}",
                    b"{\"id\":1,\"id\":2,\"s\":\"\"}", b"{\"id\":1.0,\"s\":\"\"}", b"{\"id\":1,\"s\":\"\",}", b"{'id':1,'s':''}",
                    b"{\"id\":01,\"s\":\"\"}", b"{\"id\":4294967296,\"s\":\"\"}", b"{\"id\":1,\"s\":\"\"} // x", b"{\"id\":1,\"s\":null}",
                    b"{\"id\":\"1\",\"s\":\"\"}", b"[1,\"x\"]", b"{\"ID\":1,\"S\":\"\"}", b"\"\\ud83d\\ude00\"", b"\"\\ud83d\"",
                    b"\"a\nb\"", b"NaN", b"a=b;n=1", b"a=b&n=+1", b"a=b&n=1.0", b"a=%C3%28&n=1", b"a=\xc3\xa9&n=1", b"a=b&n=%31", b"A=b&N=1",
                ];
                self.r.pick(&many).to_vec()
            }
            0 => vec![],
            1 => {
                let n = self.r.below(v.len() as u64 + 1) as usize;
                v.truncate(n);
                v
            }
            2 => {
                v.extend_from_slice(self.r.pick(&[&b"x"[..], b"}", b",", b"\0", b"1", b" 2", b"&n=1", b"&a=%FF", b"\xff"]));
                v
            }
            3 if !v.is_empty() => {
                let i = self.r.below(v.len() as u64) as usize;
                v[i] = self.r.next() as u8;
                v
            }
            4 if !v.is_empty() => {
                let i = self.r.below(v.len() as u64) as usize;
                v.remove(i);
                v
            }
            5 => self.s(&["{}", "[]", "null", "{\"id\":1}", "{\"id\":-1,\"s\":\"\"}", "\u{feff}{}", "n=1", "a=b&n=x", "a=b&n=1&n=2"]).into_bytes(),
            6 => {
                let mut o = v.clone();
                o.extend_from_slice(&v);
                o
            }
            _ => {
                let t = *self.r.pick(&["Json<JPay>", "HtmlForm<FPay>", "raw"]);
                self.body_good(t)
            }
        }
    }

    // -------------------------------------------------------------- targets

    fn routes_of(&mut self, app: &'static AppModel) -> Vec<(&'static str, &'static str, &'static model::VariantM)> {
        let all = closure(self.m, app);
        let mut pick: Vec<&'static AppModel> = vec![];
        if all.len() > 1 && self.r.pct(self.w.fall) {
            pick.extend(&all[1..]);
        } else {
            pick.push(app);
        }
        let collect = |p: &[&'static AppModel]| {
            let mut v = vec![];
            for a in p {
                for x in a.variants {
                    for (m, r) in x.routes {
                        v.push((*m, *r, x));
                    }
                }
            }
            v
        };
        let v = collect(&pick);
        if v.is_empty() {
            collect(&all)
        } else {
            v
        }
    }

    fn fill(&mut self, route: &str, v: &model::VariantM) -> String {
        let segs = match model::segs(route) {
            None => return "*".into(),
            Some(s) => s,
        };
        let mut out = String::new();
        let n = segs.iter().filter(|s| if let model::Seg::Lit(_) = s { false } else { true }).count() as u64;
        let bad = if n > 0 && self.r.pct(self.w.badval) { Some(self.r.below(n)) } else { None };
        let mut k = 0;
        for s in &segs {
            out.push('/');
            match s {
                model::Seg::Lit(l) => out.push_str(l),
                model::Seg::Ph(nm) | model::Seg::Rest(nm) => {
                    let ty = v.fields.iter().find(|f| f.name == *nm).map_or("String", |f| f.ty);
                    let t = if let model::Seg::Rest(_) = s {
                        self.rest(ty)
                    } else if bad == Some(k) {
                        self.seg_bad(ty)
                    } else {
                        self.seg_good(ty)
                    };
                    out.push_str(&t);
                    k += 1;
                }
            }
        }
        if out.len() > 30_000 {
            return self.fill(route, v);
        }
        out
    }

    fn mutate(&mut self, t: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        let pos = self.r.below(c.len() as u64 + 1) as usize;
        match self.r.below(20) {
            0 | 1 => return format!("{}/", t),
            2 => return format!("{}{}", t, self.s(&["x", "%0A", "%20", ".", ";v=1", "%2F", "/..", "//", "?", "/x"])),
            3 => return format!("/{}", t),
            4 => return format!("/x{}", t),
            5 => {
                c.pop();
            }
            6 => {
                if let Some(i) = c.iter().position(|x| x.is_ascii_lowercase()) {
                    c[i] = c[i].to_ascii_uppercase();
                }
            }
            7 => {
                for x in c.iter_mut() {
                    if ".+()[]^$|*{}".contains(*x) {
                        *x = 'x';
                        break;
                    }
                }
            }
            8 => {
                if let Some(i) = c.iter().position(|x| x.is_ascii_alphabetic()) {
                    let h: Vec<char> = format!("%{:02X}", c[i] as u32).chars().collect();
                    c.splice(i..=i, h);
                }
            }
            9 => c.insert(pos.max(1).min(c.len()), *self.r.pick(&['a', '1', '/', '.', '-', '%'])),
            10 => {
                if pos > 1 && pos <= c.len() {
                    c.remove(pos - 1);
                }
            }
            11 => {
                // drop a segment
                let mut s: Vec<&str> = t.split('/').collect();
                if s.len() > 2 {
                    let i = 1 + self.r.below(s.len() as u64 - 1) as usize;
                    s.remove(i);
                }
                return s.join("/");
            }
            12 => {
                // swap two segments
                let mut s: Vec<&str> = t.split('/').collect();
                if s.len() > 2 {
                    let (i, j) = (
                        1 + self.r.below(s.len() as u64 - 1) as usize,
                        1 + self.r.below(s.len() as u64 - 1) as usize,
                    );
                    s.swap(i, j);
                }
                return s.join("/");
            }
            13 => {
                // empty a segment
                let mut s: Vec<&str> = t.split('/').collect();
                if s.len() > 1 {
                    let i = 1 + self.r.below(s.len() as u64 - 1) as usize;
                    s[i] = "";
                }
                return s.join("/");
            }
            14 => return "*".into(),
            15 => return "/".into(),
            16 => return format!("{}{}", t, t),
            17 => return self.s(&["/.", "/..", "/%2A", "/*", "/index.html", "/favicon.ico", "/in", "/own", "/users/1"]),
            18 => return t.replace('.', "x").replace('+', "1"),
            _ => return t.trim_end_matches('/').to_string(),
        }
        c.into_iter().collect()
    }

    fn ok_target(&self, t: &str, mode: Mode) -> bool {
        if t.is_empty() || !(t.starts_with('/') || t == "*" || t.contains("://")) {
            return false;
        }
        if mode == Mode::H2 && !t.starts_with('/') {
            return false;
        }
        if t.starts_with("//") && mode == Mode::H2 {
            return false;
        }
        if !t.bytes().all(|b| b.is_ascii_graphic() && b != b'#' && b != b'"' && b != b'<' && b != b'>' && b != b'\\' && b != b'`') {
            return false;
        }
        if mode == Mode::H1 || mode == Mode::H2 {
            // bytes every HTTP parser lets through
            if !t.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/%?".contains(&b)) {
                return false;
            }
        }
        let u = match t.parse::<http::Uri>() {
            Ok(u) => u,
            Err(_) => return false,
        };
        if t == "*" {
            return u.path() == "*";
        }
        u.path().starts_with('/')
    }

    // -------------------------------------------------------------- delays

    fn dly(&mut self) -> u32 {
        if !self.r.pct(self.w.delay) {
            return 0;
        }
        match self.r.below(5) {
            0 => 1 + self.r.below(50) as u32,
            1 | 2 => 50 + self.r.below(3_000) as u32,
            3 => 3_000 + self.r.below(30_000) as u32,
            _ => 50_000 + self.r.below(150_000) as u32,
        }
    }
    /// One of the long waits.
    fn ages(&mut self) -> u32 {
        *self.r.pick(&[30_000_000u32, 30_000_000, 30_000_000, 100_000_000, 700_000_000, 4_200_000_000])
    }
    fn polls(&mut self) -> u32 {
        if self.storm > 0 && self.r.pct(30) {
            let n = 1 + self.r.below(u64::from(self.storm)) as u32;
            self.storm -= n;
            return n;
        }
        if self.r.pct(self.w.delay / 2) {
            1 + self.r.below(3) as u32
        } else {
            0
        }
    }

    fn fail_out(&mut self, panics: bool) -> Out {
        if panics && self.w.panic > 0 && self.r.below(u64::from(self.w.panic + self.w.fail.max(1))) < u64::from(self.w.panic) {
            return if self.r.pct(50) { Out::PanicCall } else { Out::PanicPoll };
        }
        match self.r.below(10) {
            0 => Out::Hd405,
            1..=3 => Out::Other,
            _ => Out::Hd(err_status(&mut self.r)),
        }
    }

    fn pieces(&mut self, len: usize, zero_ok: bool) -> Vec<(u32, u32)> {
        let mut v = vec![];
        if len == 0 || !self.r.pct(self.w.split) {
            if self.r.pct(30) {
                let d = self.dly();
                if d > 0 {
                    v.push((len as u32, d));
                }
            }
            return v;
        }
        let mut left = len;
        let lim = if self.long && self.r.pct(6) { 300 } else if self.r.pct(20) { 30 } else { 5 };
        let n = 1 + self.r.below(lim) as usize;
        let max = if self.r.pct(30) { 3 } else { (2 * len / n).max(2) };
        while left > 0 && v.len() < n {
            let mut k = 1 + self.r.below(max as u64) as usize;
            if zero_ok && self.r.pct(8) {
                k = 0;
            }
            let k = k.min(left);
            let d = if self.r.pct(40) { self.dly() } else { 0 };
            v.push((k as u32, d));
            left -= k;
        }
        if left > 0 {
            let d = if self.r.pct(40) { self.dly() } else { 0 };
            v.push((left as u32, d));
        }
        v
    }

    fn hdr_list(&mut self, mode: Mode, body_ty: Option<&str>) -> Vec<(String, String)> {
        let mut h: Vec<(String, String)> = vec![];
        if body_ty.is_some() && self.r.pct(60) {
            let ct = self.s(&[
                "application/json",
                "application/x-www-form-urlencoded",
                "text/plain",
                "application/json; charset=utf-8",
                "multipart/form-data; boundary=x",
                "application/x-www-form-urlencoded; charset=latin1",
                "application/json; charset=iso-8859-1",
                "application/json;charset=utf-16",
                "application/vnd.api+json",
                "application/x-www-form-urlencoded; charset=utf-8",
                "APPLICATION/JSON",
                "nonsense",
            ]);
            h.push(("content-type".into(), ct));
        }
        if self.r.pct(self.w.headers) {
            let many = self.r.pct(3);
            let n = if many { 30 + self.r.below(55) } else { 1 + self.r.below(6) };
            for _ in 0..n {
                let (k, v) = match self.r.below(if many { 16 } else { 20 }) {
                    14 => (format!("x-many-{}", self.r.below(1000)), format!("v{}", self.r.below(100_000))),
                    15 => (
                        self.s(&[
                            "origin",
                            "referer",
                            "cache-control",
                            "if-match",
                            "accept-encoding",
                            "accept-language",
                            "x-method-override",
                            "x-http-method",
                            "x-rewrite-url",
                            "x-requested-with",
                            "x-real-ip",
                            "x-request-id",
                            "forwarded",
                            "prefer",
                            "dnt",
                            "access-control-request-method",
                            "access-control-request-headers",
                            "upgrade-insecure-requests",
                        ]),
                        self.s(&["GET", "DELETE", "no-cache", "gzip", "*", "/own", "de, en;q=0.5", "1", "null"]),
                    ),
                    // metadata need not agree with the body: middleware may have unpacked it
                    17 if mode != Mode::H1 && mode != Mode::H2 => (
                        self.s(&["content-length", "content-length", "transfer-encoding", "content-md5", "host"]),
                        self.s(&["0", "1", "5", "30", "100000", "99999999999", "chunked", "gzip, chunked"]),
                    ),
                    16 if mode != Mode::H1 && mode != Mode::H2 => (
                        self.s(&["expect", "upgrade", "connection", "te", "trailer", "keep-alive", "proxy-connection"]),
                        self.s(&["100-continue", "websocket", "close", "trailers", "upgrade", "x-y"]),
                    ),
                    0 => ("accept".to_string(), self.s(&["*/*", "text/html, */*;q=0.1"])),
                    1 => ("user-agent".into(), "sim/1.0 (x)".into()),
                    2 => ("cookie".into(), format!("s={}", self.r.below(1000))),
                    3 => ("authorization".into(), "Bearer abc==".into()),
                    4 => ("x-http-method-override".into(), self.s(&["DELETE", "GET", "POST", "HEAD"])),
                    5 => ("x-original-url".into(), "/own".into()),
                    6 => ("if-none-match".into(), "\"x\"".into()),
                    7 => ("range".into(), "bytes=0-1".into()),
                    8 => ("x-forwarded-for".into(), format!("10.0.0.{}", self.r.below(256))),
                    9 => ("content-encoding".into(), self.s(&["gzip", "identity"])),
                    10 => ("x-empty".into(), "".into()),
                    11 => ("x-long".into(), "v".repeat(self.r.below(if many { 60 } else { 900 }) as usize)),
                    _ => (format!("x-h{}", self.r.below(4)), format!("v{}", self.r.below(100_000))),
                };
                if mode == Mode::H2 && !k.starts_with("x-") && self.r.pct(50) {
                    continue;
                }
                h.push((k, v));
            }
        }
        h
    }

    fn resp_out(&mut self, mode: Mode, small: bool) -> HOut {
        let mut status = *self.r.pick(&[200u16, 200, 200, 201, 202, 400, 404, 405, 500]);
        if self.r.pct(25) {
            // any final status that carries a body
            status = match 200 + self.r.below(400) as u16 {
                204 | 304 => 302,
                s => s,
            };
        }
        let len = |g: &mut Self| -> u32 {
            if small {
                g.r.below(80) as u32
            } else if g.r.pct(g.w.big) {
                let huge = g.huge && g.r.pct(10);
                g.r.below(if mode == Mode::H2 {
                    12_000
                } else if huge {
                    300_000
                } else {
                    40_000
                }) as u32
            } else {
                g.r.below(400) as u32
            }
        };
        let body = if self.r.pct(self.w.stream) {
            let n = self.r.below(5);
            let mut v = vec![];
            for _ in 0..n {
                let l = len(self);
                let zero = self.r.pct(8) && mode != Mode::H1;
                let d = if self.r.pct(50) { self.dly() } else { 0 };
                v.push((if zero { 0 } else { l.max(1) }, d));
            }
            if self.r.pct(20) {
                RBody::Fail(v)
            } else {
                RBody::Stream(v)
            }
        } else if self.r.pct(10) {
            RBody::Empty
        } else {
            RBody::Full(len(self))
        };
        if body == RBody::Empty && self.r.pct(50) {
            status = 204;
        }
        let mut hdrs = vec![];
        if self.r.pct(self.w.headers) {
            for _ in 0..1 + self.r.below(3) {
                let (k, v) = match self.r.below(8) {
                    0 => ("content-type".to_string(), "text/plain; charset=utf-8".to_string()),
                    1 => ("set-cookie".into(), format!("a={}", self.r.below(100))),
                    2 => ("etag".into(), "\"abc\"".into()),
                    3 => ("allow".into(), "GET, X".into()),
                    4 => ("location".into(), "/else?where".into()),
                    5 => ("x-empty".into(), "".into()),
                    _ => (format!("x-r{}", self.r.below(3)), format!("w{}", self.r.below(100_000))),
                };
                hdrs.push((k, v));
            }
        }
        if mode == Mode::Direct && self.r.pct(15) {
            hdrs.push(("content-length".into(), "17".into()));
        }
        HOut::Resp { status, hdrs, body }
    }

    // -------------------------------------------------------------- one request

    #[allow(clippy::too_many_arguments)]
    fn req(&mut self, id: u32, scn: &Scenario, server: usize, mode: Mode, panics: bool, small: bool, ci: usize, ri: usize) -> ReqSpec {
        let srv = scn.servers[server].clone();
        let app: &'static AppModel = self.m[srv.app.as_str()];
        let routes = self.routes_of(app);
        let mut spec = ReqSpec {
            id,
            method: "GET".into(),
            target: "/".into(),
            version: 11,
            headers: vec![],
            body: BodySpec::default(),
            plan: Plan::default(),
            gap: 0,
            wait_prev: self.r.pct(35),
            close: false,
            inside: None,
        };
        let direct = mode != Mode::H1 && mode != Mode::H2;
        // target and method
        if !routes.is_empty() {
            for _ in 0..8 {
                let (m, route, v) = match self.focus {
                    Some(k) if self.r.pct(85) => routes[k as usize % routes.len()],
                    _ => *self.r.pick(&routes),
                };
                let mut t = self.fill(route, v);
                if t.contains('{') && mode != Mode::Direct {
                    // not every parser accepts it
                }
                if self.r.pct(self.w.mutate) {
                    t = self.mutate(&t);
                }
                if t.starts_with('/') {
                    let qf = v.fields.iter().find(|f| f.kind == "query");
                    let q = match qf {
                        Some(f) => {
                            if self.r.pct(75) {
                                self.query_good(f.ty)
                            } else {
                                self.query_bad(f.ty)
                            }
                        }
                        None if self.r.pct(15) => self.query_good("QPairs"),
                        None => String::new(),
                    };
                    if !q.is_empty() || self.r.pct(3) {
                        t = format!("{}?{}", t, q);
                    }
                    if self.r.pct(3) && mode != Mode::H2 {
                        let base = self.s(&[
                            "http://sim.test", "http://sim.test", "http://sim.test:80", "http://sim.test:8080", "https://a.b-c.d", "http://127.0.0.1:1",
                            "HTTP://SIM.test", "http://u:p@sim.test", "http://[::1]:3", "ws://h",
                        ]);
                        t = format!("{}{}", base, t);
                    }
                }
                if !panics && t.contains("boom") {
                    continue;
                }
                if !self.ok_target(&t, mode) {
                    continue;
                }
                spec.target = t;
                spec.method = m.to_string();
                break;
            }
        }
        if panics && self.r.pct(self.w.panic) && app.name == "BoomApp" {
            spec.target = self.s(&["/b/boom", "/b/boom?x=1", "/n/3/boom", "/n/x/boom", "/n/300/boom"]);
            spec.method = self.s(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"]);
        }
        if self.r.pct(self.w.wrong) {
            spec.method = self.s(&["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "PURGE", "get", "M-SEARCH"]);
        } else if self.r.pct(self.w.head) && (spec.method == "GET" || self.r.pct(20)) {
            spec.method = "HEAD".into();
        }
        if direct && self.r.pct(1) {
            spec.method = "CONNECT".into();
        }
        if spec.method == "CONNECT" && !direct {
            spec.method = "POST".into();
        }
        if mode == Mode::H1 && self.r.pct(4) {
            spec.version = 10;
            spec.close = true;
        }
        if direct && self.r.pct(6) {
            spec.version = *self.r.pick(&[10, 20]);
        }
        if mode == Mode::H1 && self.r.pct(3) {
            spec.close = true;
        }
        spec.gap = if self.focus.is_none() && self.r.pct(40) { self.dly() } else { 0 };

        // body
        let find = inner_find(self.m);
        let pre = model::predict(app, &ReqIn { spec: &spec, ctx: srv.ctx, body_ok: true, find: &find });
        let bt = pre.feat.body_type;
        let step = pre.feat.body_step || pre.feat.forward;
        if bt.is_some() || step || self.r.pct(12) {
            let ty = bt.unwrap_or("raw");
            let mut bytes = if self.r.pct(self.w.badbody) { self.body_bad(ty) } else { self.body_good(ty) };
            if !small && self.r.pct(self.w.big) {
                // a large body
                let huge = self.huge && self.r.pct(20);
                let giant = huge && direct && self.r.pct(4);
                let n = self.r.below(if mode == Mode::H2 {
                    7_000
                } else if giant {
                    5_000_000
                } else if huge {
                    400_000
                } else {
                    40_000
                }) as usize;
                match ty {
                    "Json<JPay>" => bytes = format!("{{\"id\":{},\"s\":\"{}\"}}", id, "y".repeat(n)).into_bytes(),
                    "Json<JVal>" | "Json<String>" => bytes = format!("\"{}\"", "\u{e9}".repeat(n / 2)).into_bytes(),
                    "HtmlForm<FPay>" => bytes = format!("n=1&a={}", "z".repeat(n)).into_bytes(),
                    _ => bytes = (0..n).map(|i| (i * 7 + id as usize) as u8).collect(),
                }
            }
            if small || mode == Mode::H2 {
                bytes.truncate(if small { 400 } else { 7_500 });
            }
            let mut framing = match mode {
                Mode::H1 => *self.r.pick(&[Framing::Length, Framing::Chunked]),
                Mode::SyncCall => *self.r.pick(&[Framing::Length, Framing::Chunked, Framing::Chunked, Framing::Channel]),
                _ => *self.r.pick(&[Framing::Length, Framing::Chunked, Framing::Channel]),
            };
            if bytes.is_empty() && self.r.pct(40) {
                framing = Framing::None;
            }
            if spec.version == 10 && mode == Mode::H1 {
                framing = if bytes.is_empty() { Framing::None } else { Framing::Length };
            }
            let pieces = self.pieces(bytes.len(), mode != Mode::H1);
            let mut cut = None;
            if self.r.pct(self.w.cut) && spec.version != 10 {
                if direct || mode == Mode::H2 {
                    if framing != Framing::Channel {
                        framing = Framing::Chunked;
                    }
                } else if framing == Framing::None {
                    framing = Framing::Chunked;
                }
                let max = if framing == Framing::Length { (bytes.len() as u64).saturating_sub(1) } else { bytes.len() as u64 };
                if framing != Framing::Length || !bytes.is_empty() {
                    // prefer a cut where what was received looks complete
                    let mut n = self.r.below(max + 1);
                    if self.r.pct(60) {
                        for _ in 0..20 {
                            let k = self.r.below(max + 1);
                            if let Some(t) = bt {
                                if !t.starts_with("Hand") && model::parse_body(t, &bytes[..k as usize], srv.ctx).is_ok() {
                                    n = k;
                                    break;
                                }
                            }
                        }
                    }
                    if self.r.pct(15) {
                        n = max;
                    }
                    cut = Some((n as u32, self.r.pct(50)));
                }
            }
            spec.body = BodySpec { bytes, framing, pieces, cut };
        }
        if mode == Mode::H1 && spec.body.framing == Framing::Length && spec.body.bytes.is_empty() {
            spec.body.cut = None;
        }
        spec.headers = self.hdr_list(mode, bt);
        if direct && spec.body.framing != Framing::None && self.r.pct(30) {
            spec.headers.push(("content-length".into(), spec.body.bytes.len().to_string()));
        }

        // plans
        let gts = guard_types(self.m, app);
        let mut guards: BTreeMap<String, Vec<StepPlan>> = BTreeMap::new();
        for g in &gts {
            if self.r.pct(60) {
                let n = 1 + self.r.below(2);
                let v: Vec<StepPlan> = (0..n)
                    .map(|_| StepPlan { delay: self.dly(), polls: self.polls(), out: Out::Ok })
                    .collect();
                if v.iter().any(|p| *p != StepPlan::default()) {
                    guards.insert(g.to_string(), v);
                }
            }
        }
        let mut body = StepPlan { delay: self.dly(), polls: self.polls(), out: Out::Ok };
        let mut handler = HandlerPlan { delay: self.dly(), polls: self.polls(), out: self.resp_out(mode, small) };
        // what the request will run through, to aim the failure at
        let used: Vec<String> = pre.steps.iter().filter_map(|s| {
            let mut w = s.split(' ');
            if w.next() == Some("guard") { w.next().map(|x| x.to_string()) } else { None }
        }).collect();
        if self.r.pct((self.w.fail + if panics { self.w.panic } else { 0 }).min(90)) {
            let o = self.fail_out(panics);
            let n = used.len() as u64 + 1;
            let k = self.r.below(n) as usize;
            if k < used.len() {
                let mut it = used[k].split('.');
                let g = it.next().unwrap().to_string();
                let i: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let v = guards.entry(g).or_insert_with(Vec::new);
                while v.len() <= i {
                    v.push(StepPlan::default());
                }
                v[i].out = o;
            } else {
                body.out = o;
            }
        }
        if self.r.pct((self.w.hfail + if panics { self.w.panic / 2 } else { 0 }).min(90)) {
            let o = self.fail_out(panics);
            let o = match o {
                Out::Hd(s) => HOut::Hd(s),
                Out::Hd405 => HOut::Hd405,
                Out::Other => HOut::Other,
                Out::PanicCall => HOut::PanicCall,
                _ => HOut::PanicPoll,
            };
            let p = o == HOut::PanicCall || o == HOut::PanicPoll;
            if srv.kind == SvcKind::Async || p || mode == Mode::BlockApi {
                handler.out = o;
            }
        }
        if self.r.pct(self.w.stall30) && ci == 0 && ri == 0 {
            // a very slow first request
            match self.r.below(3) {
                0 if !used.is_empty() => {
                    let k = self.r.below(used.len() as u64) as usize;
                    let g = used[k].split('.').next().unwrap().to_string();
                    let v = guards.entry(g).or_insert_with(|| vec![StepPlan::default()]);
                    v[0].delay = self.ages();
                }
                1 if spec.body.framing != Framing::None && !spec.body.bytes.is_empty() => {
                    if spec.body.pieces.is_empty() {
                        spec.body.pieces.push((spec.body.bytes.len() as u32, 0));
                    }
                    spec.body.pieces[0].1 = self.ages();
                }
                _ => handler.delay = self.ages(),
            }
        }
        spec.plan = Plan { guards, body, handler };
        if mode == Mode::BlockApi {
            spec.body = BodySpec::default();
        }

        // corrections
        if mode != Mode::BlockApi {
            let e = expect_of(scn, self.m, server, &spec, true);
            if e.decode.feat.merged {
                for v in spec.plan.guards.values_mut() {
                    for p in v.iter_mut() {
                        if p.out == Out::Hd405 {
                            p.out = Out::Hd(403);
                        }
                    }
                }
                if spec.plan.body.out == Out::Hd405 {
                    spec.plan.body.out = Out::Hd(403);
                }
            }
            for ok in &[true, false] {
                let e = expect_of(scn, self.m, server, &spec, *ok);
                let boom = match e.decode.res {
                    Err(Fail::Panic(_)) => true,
                    _ => false,
                };
                if !panics && (e.panics || boom) {
                    spec.plan = Plan::default();
                    let e = expect_of(scn, self.m, server, &spec, *ok);
                    if e.panics || e.decode.steps.is_empty() && spec.target.contains("boom") {
                        spec.target = "/".into();
                    }
                }
            }
            // hyper closes an HTTP/1 connection after a body nobody reads
            if mode == Mode::H1 && !spec.body.bytes.is_empty() && self.r.pct(75) {
                let e = expect_of(scn, self.m, server, &spec, true);
                if !e.decode.feat.body_consumed {
                    spec.body = BodySpec::default();
                }
            }
        }
        spec
    }

    fn server(&mut self, i: usize, app: &str, mode: Mode) -> ServerCfg {
        let mut wraps = vec![];
        let kind = if self.r.pct(self.w.sync) { SvcKind::Sync } else { SvcKind::Async };
        let svc = mode == Mode::H1 || mode == Mode::H2 || mode == Mode::Direct;
        let mut gate = vec![];
        if svc {
            if self.r.pct(self.w.gate) {
                wraps.push(Wrap::Gate);
                let n = self.r.below(5);
                for _ in 0..n {
                    gate.push(match self.r.below(4) {
                        0 | 1 => GateStep::Ready,
                        2 => GateStep::NotReady(1 + self.r.below(500) as u32),
                        _ => GateStep::NotReady(self.r.below(40_000) as u32 + 1),
                    });
                }
                if mode == Mode::Direct && self.r.pct(25) {
                    gate.push(GateStep::Err);
                }
            }
            if self.r.pct(self.w.catch) {
                wraps.push(Wrap::Catch);
                if self.r.pct(10) {
                    wraps.push(Wrap::Catch);
                }
            }
            if self.r.pct(self.w.clone) {
                let k = self.r.below(wraps.len() as u64 + 1) as usize;
                wraps.insert(k, Wrap::Clone);
            }
            if self.r.pct(20) && wraps.len() > 1 {
                let (a, b) = (0, wraps.len() - 1);
                wraps.swap(a, b);
            }
        }
        let many = self.r.pct(if self.prop == "P17" { 8 } else { 1 });
        if many && self.prop == "P17" && self.r.pct(50) {
            wraps.clear();
            gate.clear();
        }
        let lim = if self.r.pct(if self.prop == "P17" { 50 } else { 20 }) { 4000 } else { 500 };
        let makes = if svc && many { 200 + self.r.below(lim) as u32 } else { 0 };
        let fresh = if mode == Mode::Direct && gate.is_empty() && self.r.pct(30) { 1 + self.r.below(2) as u8 } else { 0 };
        ServerCfg {
            makes,
            fresh,
            app: app.to_string(),
            kind,
            make: if wraps.is_empty() && self.r.pct(60) { MakeKind::Own } else { MakeKind::Cloning },
            wraps,
            ctx: 1 + i as u32 * 10 + self.r.below(10) as u32,
            use_new: self.r.pct(50),
            catch_delay: self.dly(),
            catch_out: if self.r.pct(75) { CatchOut::Resp(*self.r.pick(&[500u16, 503, 418, 200])) } else { CatchOut::Err },
            gate,
            h1_pipeline_flush: self.r.pct(50),
            h1_max_buf: if self.r.pct(20) { 8192 } else { 0 },
            h1_half_close: !self.r.pct(25),
            h1_writev: self.r.pct(70),
            whole: self.r.pct(50),
        }
    }

    fn pick_app(&mut self) -> String {
        // the very wide application costs a lot to set up
        let names: Vec<&'static str> = self.m.keys().filter(|n| **n != "Wide").cloned().collect();
        if self.r.pct(1) && (self.prop == "P01" || self.prop == "P02") {
            return "Wide".into();
        }
        if self.w.apps.is_empty() || (self.r.pct(10) && self.prop != "P13" && self.prop != "P14") {
            return self.r.pick(&names).to_string();
        }
        let a = *self.r.pick(self.w.apps);
        if a == "RndCtx" {
            let m = self.m;
            let v: Vec<&&'static str> = names.iter().filter(|n| n.starts_with("Rnd") && m[**n].ctx != "none").collect();
            return if v.is_empty() { "CtxTuple".into() } else { (**self.r.pick(&v)).to_string() };
        }
        if a == "Rnd*" {
            let v: Vec<&&'static str> = names.iter().filter(|n| n.starts_with("Rnd")).collect();
            return (**self.r.pick(&v)).to_string();
        }
        a.to_string()
    }
}

pub fn scenario(prop: &str, seed: u64, m: &Models) -> Scenario {
    let mut r = Rng(seed ^ 0x5EED_0000_0000_0001);
    r.next();
    let mut w = want_of(prop);
    // swarm: switch whole feature groups off per run
    let off = |r: &mut Rng, x: &mut u32, keep: bool| {
        if !keep && r.pct(35) {
            *x = 0;
        }
    };
    let focus = w.clone();
    for (f, k) in vec![
        (&mut w.mutate, focus.mutate >= 30),
        (&mut w.wrong, focus.wrong >= 25),
        (&mut w.head, focus.head >= 30),
        (&mut w.badval, focus.badval >= 30),
        (&mut w.fail, focus.fail >= 40),
        (&mut w.panic, focus.panic >= 40),
        (&mut w.delay, focus.delay >= 75),
        (&mut w.badbody, focus.badbody >= 30),
        (&mut w.cut, focus.cut >= 40),
        (&mut w.faults, focus.faults >= 80),
        (&mut w.stream, focus.stream >= 55),
        (&mut w.split, focus.split >= 80),
        (&mut w.hfail, focus.hfail >= 30),
        (&mut w.big, false),
        (&mut w.headers, focus.headers >= 80),
    ] {
        off(&mut r, f, k);
    }
    let mut g = G { r, w, m, prop, long: false, huge: false, focus: None, storm: 0 };
    let modes = g.w.modes.clone();
    let mode = g.weighted(&modes);
    let direct = mode != Mode::H1 && mode != Mode::H2;
    g.long = direct;

    // simulator and network
    let tight = g.r.pct(g.w.tight);
    let mut sim = SimKnobs {
        sched: *g.r.pick(&[0u32, 1, 2, 2, 2, 3, 3]),
        delay_poll: *g.r.pick(&[0u32, 0, 20, 100]),
        spurious_poll: *g.r.pick(&[0u32, 0, 30, 120]),
        runners: *g.r.pick(&[0u32, 1, 2, 3, 4]),
        block_cap: if tight { 1 + g.r.below(3) as u32 } else { 100 },
        block_spurious: *g.r.pick(&[0u32, 0, 150, 400]),
        pool_shutdown_at: 0,
        preempt: *g.r.pick(&[0u32, 0, 15, 60, 250]),
        hop: 0,
        wall: vec![],
    };
    if g.r.pct(25) {
        sim.hop = *g.r.pick(&[40u32, 200, 500, 900]);
    }
    if g.r.pct(15) {
        for _ in 0..1 + g.r.below(3) {
            let t = g.r.below(60_000);
            let s = *g.r.pick(&[-1_000_000i64, -3600, -2, -1, 1, 5, 86_400, 900_000_000, -1_700_000_000]);
            sim.wall.push((t, s));
        }
    }
    let mss = *g.r.pick(&[0u32, 0, 1, 3, 16, 100, 536, 1460]);
    let window = *g.r.pick(&[64u32, 300, 2_000, 16_384, 65_536, 1 << 20]);
    let small = mss != 0 && mss < 100 || window < 2_000;
    let net = NetKnobs {
        lat_min: 10 + g.r.below(2_000),
        lat_jitter: *g.r.pick(&[0u64, 50, 1_000, 5_000]),
        mss,
        short_read: *g.r.pick(&[0u32, 0, 100, 400]),
        short_write: *g.r.pick(&[0u32, 0, 100, 400]),
        would_block: *g.r.pick(&[0u32, 0, 50, 200]),
        window,
        free_writes: mode == Mode::H1,
    };

    // servers
    let (lo, hi) = g.w.servers;
    let ns = if mode == Mode::BlockApi { 1 } else { g.r.range(lo, hi) };
    let mut servers: Vec<ServerCfg> = vec![];
    for i in 0..ns as usize {
        let mut app = g.pick_app();
        if i > 0 && g.r.pct(45) {
            // the same type behind several services
            app = servers[i - 1].app.clone();
        }
        let s = g.server(i, &app, mode);
        servers.push(s);
    }
    if mode == Mode::SyncCall {
        sim.block_spurious = 0;
        sim.block_cap = 1000;
    }
    let mut scn = Scenario {
        profile: prop.to_string(),
        prog_seed: crate::apps::PROG_SEED,
        seed,
        mode,
        sim,
        net,
        servers,
        conns: vec![],
        faults: vec![],
        pump: None,
    };

    // connections; now and then very many requests one after the other, or very many at once
    let scale = g.r.below(1000);
    let big_net = direct || mss == 0 || mss >= 536;
    if scale < 4 && direct && !scn.servers.iter().any(|s| s.app.starts_with("Wide")) {
        // one service that lives very long
        g.w.conns = (1, 1);
        g.w.reqs = if g.r.pct(30) { (4_000, 12_000) } else { (700, 4_000) };
        g.w.delay = g.w.delay.min(3);
        g.w.split = g.w.split.min(5);
        g.w.stream = g.w.stream.min(5);
        g.w.cut = g.w.cut.min(2);
        g.w.big = 0;
        g.w.stall30 = 0;
        g.w.headers = g.w.headers.min(10);
        g.long = false;
        scn.sim.preempt = 0;
        scn.sim.delay_poll = scn.sim.delay_poll.min(20);
    } else if scale < 12 && (direct || big_net && window >= 16_384) {
        // a marathon
        g.w.conns = (1, 2);
        g.w.reqs = if direct { (100, 400) } else if mode == Mode::H1 { (50, 150) } else { (30, 80) };
        g.w.delay = g.w.delay.min(15);
        g.w.split = g.w.split.min(25);
        g.w.stream = g.w.stream.min(15);
        g.w.cut = if direct { g.w.cut.min(4) } else { 0 };
        g.w.big = g.w.big.min(1);
        g.w.stall30 = 0;
        if !direct {
            g.w.faults = 0;
        }
    } else if scale < 20 && (direct || big_net && window >= 2_000) {
        // a crowd
        g.w.conns = (16, 64);
        g.w.reqs = (1, 2);
        g.w.delay = 80;
        g.w.split = g.w.split.min(25);
    } else if scale < 90 && direct && mode != Mode::BlockApi {
        // a stampede: many threads in the same code at once
        g.focus = Some(g.r.next());
        g.w.conns = (3, 10);
        g.w.reqs = (1, 4);
        g.w.mutate = g.w.mutate.min(10);
        scn.sim.preempt = *g.r.pick(&[60u32, 150, 400]);
        scn.sim.runners = 4;
        scn.sim.delay_poll = 0;
        scn.sim.sched = *g.r.pick(&[0u32, 2, 2, 2]);
    }
    if scale >= 90 && scale < 104 && direct {
        // few requests, polled very often
        g.storm = 3_000;
        g.w.conns = (1, 3);
        g.w.reqs = (1, 2);
        scn.sim.preempt = 0;
        if scn.sim.block_spurious > 0 {
            scn.sim.block_spurious = *g.r.pick(&[950u32, 990, 999]);
        }
        scn.sim.spurious_poll = *g.r.pick(&[0u32, 500, 900]);
    }
    g.huge = scale >= 104 && (direct || mode == Mode::H1 && big_net && window >= 65_536);
    let (lo, hi) = g.w.conns;
    let nc = g.r.range(lo, hi);
    let mut id = 0;
    for ci in 0..nc as usize {
        let server = if g.focus.is_some() && g.r.pct(80) { 0 } else { g.r.below(ns) as usize };
        let catch = scn.servers[server].wraps.contains(&Wrap::Catch);
        let panics = catch || (direct && mode != Mode::Direct) || mode == Mode::Direct && g.r.pct(30);
        let (lo, hi) = g.w.reqs;
        let nr = g.r.range(lo, hi);
        let start = if g.focus.is_none() && g.r.pct(60) { g.r.below(20_000) as u32 } else { 0 };
        let mut reqs = vec![];
        for ri in 0..nr as usize {
            id += 1;
            let q = g.req(id, &scn, server, mode, panics, small && !direct, ci, ri);
            reqs.push(q);
        }
        scn.conns.push(ConnCfg { server, start, reqs });
    }

    // requests made from within a step of another one
    if (mode == Mode::Direct || mode == Mode::Decode) && id > 1 && scale >= 12 && g.r.pct(25) {
        let mut depth: std::collections::BTreeMap<u32, u32> = Default::default();
        for c in &mut scn.conns {
            for q in &mut c.reqs {
                if q.id > 1 && g.r.pct(45) {
                    // (ids grow, so there are no circles)
                    let parent = 1 + g.r.below(u64::from(q.id) - 1) as u32;
                    let d = depth.get(&parent).cloned().unwrap_or(0) + 1;
                    if d <= 3 {
                        depth.insert(q.id, d);
                        q.inside = Some((parent, 1 + g.r.below(5) as u32));
                        q.gap += 50_000;
                    }
                }
            }
        }
    }

    // a flood of requests that are turned away
    if mode == Mode::Direct && scale >= 960 {
        let ci = g.r.below(nc) as usize;
        let server = scn.conns[ci].server;
        let first = u64::from(scn.conns[ci].start) + u64::from(scn.conns[ci].reqs[0].gap);
        let app: &'static AppModel = g.m[scn.servers[server].app.as_str()];
        let mut spec = scn.conns[0].reqs[0].clone();
        spec.id = 0;
        for (method, target) in &[("DELETE", "/common"), ("GET", "/~none"), ("PATCH", "/~a/~b/~c"), ("OPTIONS", "/"), ("GET", "/zz/y/x/w/v/u")] {
            spec.method = method.to_string();
            spec.target = target.to_string();
            let find = |n: &str| g.m[n];
            let p = crate::model::predict(app, &crate::model::ReqIn { spec: &spec, ctx: 0, body_ok: true, find: &find });
            let status = match p.res {
                Err(crate::model::Fail::Hd(s, _)) if p.steps.is_empty() => s,
                _ => continue,
            };
            let wide = scn.servers[server].app.starts_with("Wide");
            let count = if wide { 300 } else { *g.r.pick(&[300u32, 1_500, 5_000, 70_000, 70_000]) };
            scn.sim.preempt = 0;
            scn.pump = Some(Pump {
                at: first + *g.r.pick(&[0u64, 100, 500, 2_000, 5_000, 20_000, 60_000]),
                inside: if g.r.pct(65) {
                    let q = &scn.conns[ci].reqs;
                    Some((q[g.r.below(q.len() as u64) as usize].id, 1 + g.r.below(5) as u32))
                } else {
                    None
                },
                server,
                count,
                method: spec.method.clone(),
                target: spec.target.clone(),
                status,
            });
            break;
        }
    }

    // faults
    let nf = if g.r.pct(g.w.faults) { 1 + g.r.below(2) + if g.w.faults > 60 { g.r.below(2) } else { 0 } } else { 0 };
    for _ in 0..nf {
        let ci = g.r.below(nc) as usize;
        let c = &scn.conns[ci];
        let rid = c.reqs[g.r.below(c.reqs.len() as u64) as usize].id;
        let trig = if g.r.pct(70) {
            Trig::Step {
                req: rid,
                n: 1 + g.r.below(6) as u32,
                lag: match g.r.below(4) {
                    0 => 0,
                    1 => 1 + g.r.below(20) as u32,
                    2 => g.r.below(1_000) as u32,
                    _ => g.r.below(30_000) as u32,
                },
            }
        } else {
            Trig::Time(match g.r.below(3) {
                0 => g.r.below(3_000),
                1 => g.r.below(30_000),
                _ => g.r.below(300_000),
            })
        };
        let act = match mode {
            Mode::Direct | Mode::Decode | Mode::BlockApi => Act::Cancel(rid),
            Mode::H1 => match g.r.below(if prop == "P16" { 6 } else { 4 }) {
                0 => Act::Rst(ci),
                1 | 2 => Act::Fin(ci),
                _ => Act::Stall(ci, if g.r.pct(50) { 20_000_000 } else { g.r.below(100_000) }),
            },
            Mode::H2 => match g.r.below(if prop == "P16" { 9 } else { 6 }) {
                0 => Act::Rst(ci),
                1 => Act::Fin(ci),
                2 | 3 | 4 => Act::Cancel(rid),
                _ => Act::Stall(ci, if g.r.pct(50) { 20_000_000 } else { g.r.below(100_000) }),
            },
            Mode::SyncCall => break,
        };
        scn.faults.push(Fault { trig, act });
    }
    if mode == Mode::BlockApi && g.r.pct(25) {
        scn.sim.pool_shutdown_at = 1 + g.r.below(200_000);
    }
    scn
}
