//! Turns apps.dsl (hand-written applications) plus seeded random applications into Rust
//! source: the derived types themselves and static tables for the reference model.
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
struct Field {
    name: String,
    kind: String,
    ty: String,
    param: Option<String>,
}
#[derive(Clone, Debug, Default)]
struct Var {
    name: String,
    routes: Vec<(String, String)>,
    fields: Vec<Field>,
}
#[derive(Clone, Debug, Default)]
struct App {
    name: String,
    ctx: Option<String>,
    is_struct: bool,
    vars: Vec<Var>,
}

fn parse(src: &str) -> Vec<App> {
    let mut apps: Vec<App> = vec![];
    for (ln, line) in src.lines().enumerate() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let w: Vec<&str> = line.split_whitespace().collect();
        match w[0] {
            "app" => {
                let mut a = App { name: w[1].into(), ..Default::default() };
                for o in &w[2..] {
                    if *o == "struct" {
                        a.is_struct = true;
                    } else if o.starts_with("ctx=") {
                        a.ctx = Some(o[4..].into());
                    } else {
                        panic!("line {}: bad option {}", ln + 1, o);
                    }
                }
                apps.push(a);
            }
            "v" => apps.last_mut().unwrap().vars.push(Var { name: w[1].into(), ..Default::default() }),
            "r" => apps
                .last_mut()
                .unwrap()
                .vars
                .last_mut()
                .unwrap()
                .routes
                .push((w[1].into(), w[2].into())),
            "f" => {
                let (param, ty) = match w[3].find('=') {
                    Some(i) => (Some(w[3][..i].to_string()), w[3][i + 1..].to_string()),
                    None => (None, w[3].to_string()),
                };
                apps.last_mut().unwrap().vars.last_mut().unwrap().fields.push(Field {
                    name: w[1].into(),
                    kind: w[2].into(),
                    ty,
                    param,
                })
            }
            x => panic!("line {}: bad directive {}", ln + 1, x),
        }
    }
    apps
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pct(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    fn pick<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.n(xs.len())]
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Seg {
    Lit(String),
    Ph,
    Rest,
}

/// Conservative overlap test: treats a placeholder as overlapping everything (the derive
/// also considers `{x}` and the empty segment to overlap).
fn overlap(a: &[Seg], b: &[Seg]) -> bool {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return true,
            (Some(Seg::Rest), Some(_)) | (Some(_), Some(Seg::Rest)) => return true,
            (None, _) | (_, None) => return false,
            (Some(Seg::Lit(x)), Some(Seg::Lit(y))) => {
                if x != y {
                    return false;
                }
            }
            _ => {}
        }
        i += 1;
    }
}

const LONG: &str = "organisation-administration-settings";

fn random_app(r: &mut Rng, name: String, inner: &[(String, String)]) -> App {
    const LITS: &[&str] = &[
        "a", "b", "users", "x.y", "v1+", "", "long-segment_name", "(p)", "A", "a*", "%41", "..", "me",
        "organisation-administration-settings-alpha", "organisation-administration-settings-bravo", "users2", "user", "0", "true",
    ];
    const PT: &[&str] = &[
        "u32", "String", "Even", "MeOr", "bool", "i64", "char", "u8", "String", "u16", "u64", "i8", "i128", "f64", "Ip", "String",
    ];
    const QT: &[&str] = &["QPage", "QReq", "QPairs", "QMap"];
    // contexts: some applications have one, with guards and bodies that use parts of it
    let ctx = match r.n(10) {
        0 => "A",
        1 => "B",
        2 => "C",
        3 => "D",
        4 => "E",
        _ => "none",
    };
    let mut gt: Vec<&str> = vec!["G0", "G1", "G2", "G3"];
    let mut bt: Vec<&str> = vec!["Json<JPay>", "Json<JVal>", "HtmlForm<FPay>", "HtmlForm<QPairs>", "RawBody", "NoRead"];
    match ctx {
        "A" => {
            gt.extend(&["GA", "GA2", "GS", "GT", "GS"]);
            bt.extend(&["RawBodyA", "RawBodyS"]);
        }
        "B" => {
            gt.extend(&["GB", "GS", "GT", "GS"]);
            bt.extend(&["RawBodyS"]);
        }
        "C" => {
            gt.extend(&["GC", "GS", "GT", "GS"]);
            bt.extend(&["RawBodyC", "RawBodyS"]);
        }
        "D" => {
            gt.extend(&["GD", "GA", "GA2", "GA"]);
            bt.extend(&["RawBodyA"]);
        }
        "E" => gt.extend(&["GE", "GE"]),
        _ => {}
    }
    let gt: &[&str] = &gt;
    let bt: &[&str] = &bt;
    let inner: Vec<String> = inner
        .iter()
        .filter(|(_, c)| c == ctx)
        .map(|x| x.0.clone())
        .collect();
    let many = if r.pct(15) { 9 } else { 4 };
    const M: &[&str] = &["GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE"];
    let mut app = App { name, ctx: if ctx == "none" { None } else { Some(ctx.into()) }, ..Default::default() };
    // disjoint path shapes
    let mut shapes: Vec<Vec<Seg>> = vec![];
    let want = 2 + r.n(6);
    // a path that many of the applications know, each with methods of its own
    let common = r.pct(45);
    if common {
        shapes.push(vec![Seg::Lit("common".into())]);
    }
    let mut tries = 0;
    while shapes.len() < want && tries < 200 {
        tries += 1;
        let n = 1 + r.n(4);
        let mut s = vec![];
        for i in 0..n {
            if i + 1 == n && r.pct(12) && i > 0 {
                s.push(Seg::Rest);
            } else if r.pct(40) {
                s.push(Seg::Ph);
            } else {
                let mut l = r.pick(LITS).to_string();
                if l.is_empty() && i + 1 != n {
                    l = "mid".into();
                }
                s.push(Seg::Lit(l));
            }
        }
        if shapes.iter().all(|t| !overlap(t, &s)) {
            shapes.push(s);
        }
    }
    let render = |s: &[Seg], names: &[String]| {
        let mut k = 0;
        let mut out = String::new();
        for g in s {
            out.push('/');
            match g {
                Seg::Lit(l) => out.push_str(l),
                Seg::Ph => {
                    let _ = write!(out, "{{{}}}", names[k]);
                    k += 1;
                }
                Seg::Rest => {
                    let _ = write!(out, "{{{}...}}", names[k]);
                    k += 1;
                }
            }
        }
        out
    };
    let nph = |s: &[Seg]| s.iter().filter(|g| !matches!(g, Seg::Lit(_))).count();
    let mut used: BTreeSet<(usize, String)> = BTreeSet::new();
    let nv = 2 + r.n(6);
    for vi in 0..nv {
        let mut v = Var { name: format!("V{}", vi), ..Default::default() };
        let si = r.n(shapes.len());
        let k = nph(&shapes[si]);
        let names: Vec<String> = (0..k).map(|i| format!("p{}", (i * 7 + vi) % 10)).collect();
        let mut cands = vec![si];
        for (j, s) in shapes.iter().enumerate() {
            if j != si && nph(s) == k {
                cands.push(j);
            }
        }
        let nr = 1 + if r.pct(35) { 1 + r.n(2) } else { 0 };
        for q in 0..nr {
            let sj = if q == 0 { si } else { cands[r.n(cands.len())] };
            let m = r.pick(M).to_string();
            if used.insert((sj, m.clone())) {
                v.routes.push((m, render(&shapes[sj], &names)));
            }
        }
        if v.routes.is_empty() {
            continue;
        }
        let mut fs = vec![];
        for n in &names {
            fs.push(Field { name: n.clone(), kind: "path".into(), ty: r.pick(PT).into(), param: None });
        }
        for g in 0..r.n(many) {
            fs.push(Field { name: format!("g{}", g), kind: "guard".into(), ty: r.pick(gt).into(), param: None });
        }
        if r.pct(30) {
            fs.push(Field { name: "q".into(), kind: "query".into(), ty: r.pick(QT).into(), param: None });
        }
        if r.pct(45) {
            fs.push(Field { name: "d".into(), kind: "body".into(), ty: r.pick(bt).into(), param: None });
        } else if r.pct(14) {
            let ty = match ctx {
                "A" => "HandA",
                "B" => "CtxOtherIn",
                "C" => "HandC",
                "D" => "HandD",
                "E" => "HandE",
                _ => "HandN",
            };
            fs.push(Field { name: "d".into(), kind: "fwd".into(), ty: ty.into(), param: None });
        }
        // shuffle declaration order
        for i in (1..fs.len()).rev() {
            let j = r.n(i + 1);
            fs.swap(i, j);
        }
        v.fields = fs;
        app.vars.push(v);
    }
    if common {
        const ALL: &[&str] = &["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "CONNECT"];
        let keep = 1 + r.n(9);
        for k in 0..1 + r.n(2) {
            let mut v = Var { name: format!("C{}", k), ..Default::default() };
            for m in ALL {
                if r.n(9) < keep && r.pct(60) && used.insert((0, m.to_string())) {
                    v.routes.push((m.to_string(), "/common".into()));
                }
            }
            if r.pct(30) {
                v.fields.push(Field { name: "g".into(), kind: "guard".into(), ty: r.pick(gt).into(), param: None });
            }
            if !v.routes.is_empty() {
                app.vars.push(v);
            }
        }
    }
    if r.pct(if common { 65 } else { 40 }) {
        let mut v = Var { name: "Fall".into(), ..Default::default() };
        for g in 0..r.n(3) {
            v.fields.push(Field { name: format!("g{}", g), kind: "guard".into(), ty: r.pick(gt).into(), param: None });
        }
        let ty = inner[r.n(inner.len())].clone();
        v.fields.push(Field { name: "inner".into(), kind: "fwd".into(), ty, param: None });
        app.vars.push(v);
    }
    if app.vars.is_empty() {
        app.vars.push(Var { name: "Z".into(), routes: vec![("GET".into(), "/z".into())], fields: vec![] });
    }
    app
}

/// More routes than fit a machine word, one path per variant, some with several methods.
fn wide_app() -> App {
    let mut app = App { name: "Wide".into(), ..Default::default() };
    for i in 0..92 {
        let mut v = Var { name: format!("V{}", i), ..Default::default() };
        match i % 4 {
            0 => v.routes.push(("GET".into(), format!("/w/{}/{:03}", LONG, i))),
            1 => {
                v.routes.push(("POST".into(), format!("/w/{:03}/x", i)));
                v.routes.push(("PUT".into(), format!("/w/{}/{:03}", LONG, i)));
            }
            2 => {
                v.routes.push(("GET".into(), format!("/p/{:03}/{{a}}", i)));
                v.fields.push(Field { name: "a".into(), kind: "path".into(), ty: "u16".into(), param: None });
            }
            _ => {
                v.routes.push(("PATCH".into(), format!("/p/{:03}/{{b}}", i - 1)));
                v.routes.push(("DELETE".into(), format!("/w/{:03}/y/{{b}}", i)));
                v.fields.push(Field { name: "b".into(), kind: "path".into(), ty: "String".into(), param: None });
            }
        }
        app.vars.push(v);
    }
    app
}

fn emit(app: &App, out: &mut String) {
    let mut params: Vec<(String, String)> = vec![];
    for v in &app.vars {
        for f in &v.fields {
            if let Some(p) = &f.param {
                if !params.iter().any(|q| q.0 == *p) {
                    params.push((p.clone(), f.ty.clone()));
                }
            }
        }
    }
    let plist = if params.is_empty() {
        String::new()
    } else {
        format!("<{}>", params.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", "))
    };
    let dlist = if params.is_empty() {
        String::new()
    } else {
        format!("<{}>", params.iter().map(|p| format!("{}: Desc", p.0)).collect::<Vec<_>>().join(", "))
    };
    let clist = if params.is_empty() {
        String::new()
    } else {
        format!("<{}>", params.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", "))
    };
    let field = |f: &Field| {
        let ty = f.param.clone().unwrap_or_else(|| f.ty.clone());
        let attr = match f.kind.as_str() {
            "body" => "#[body] ",
            "query" => "#[query_params] ",
            "fwd" => "#[forward] ",
            _ => "",
        };
        format!("{}{}: {}", attr, f.name, ty)
    };
    let _ = writeln!(out, "#[derive(FromRequest)]");
    if let Some(c) = &app.ctx {
        let _ = writeln!(out, "#[context(Ctx{})]", c);
    }
    let routes = |v: &Var| {
        v.routes
            .iter()
            .map(|(m, p)| format!("    #[{}({:?})]\n", m.to_lowercase(), p))
            .collect::<String>()
    };
    if app.is_struct {
        let v = &app.vars[0];
        let _ = write!(out, "{}", routes(v));
        let _ = writeln!(
            out,
            "pub struct {}{} {{ {} }}",
            app.name,
            plist,
            v.fields.iter().map(field).collect::<Vec<_>>().join(", ")
        );
    } else {
        let _ = writeln!(out, "pub enum {}{} {{", app.name, plist);
        for (i, v) in app.vars.iter().enumerate() {
            let _ = write!(out, "{}", routes(v));
            if v.fields.is_empty() {
                if i % 2 == 0 {
                    let _ = writeln!(out, "    {},", v.name);
                } else {
                    let _ = writeln!(out, "    {} {{}},", v.name);
                }
            } else {
                let _ = writeln!(
                    out,
                    "    {} {{ {} }},",
                    v.name,
                    v.fields.iter().map(field).collect::<Vec<_>>().join(", ")
                );
            }
        }
        let _ = writeln!(out, "}}");
    }
    // Desc
    let _ = writeln!(out, "impl{} Desc for {}{} {{ fn desc(&self) -> String {{ match self {{", dlist, app.name, plist);
    for v in &app.vars {
        if v.routes.is_empty() && v.fields.is_empty() {
            continue;
        }
        let path = if app.is_struct { app.name.clone() } else { format!("{}::{}", app.name, v.name) };
        let names: Vec<String> = v.fields.iter().map(|f| f.name.clone()).collect();
        let fmt = v.fields.iter().map(|f| format!("{}={{}}", f.name)).collect::<Vec<_>>().join(",");
        let args = names.iter().map(|n| format!(", {}.desc()", n)).collect::<String>();
        let _ = writeln!(
            out,
            "  {} {{ {} }} => format!(\"{}::{}{{{{{}}}}}\"{}),",
            path,
            names.join(", "),
            app.name,
            v.name,
            fmt,
            args
        );
    }
    let _ = writeln!(out, "  #[allow(unreachable_patterns)] _ => \"dead\".into() }} }} }}");
    // model
    let _ = writeln!(out, "pub static M_{}: AppModel = AppModel {{ name: {:?}, ctx: {:?}, variants: &[", app.name, app.name, app.ctx.clone().unwrap_or_else(|| "none".into()));
    for v in &app.vars {
        let _ = writeln!(
            out,
            "  VariantM {{ name: {:?}, routes: &[{}], fields: &[{}] }},",
            v.name,
            v.routes.iter().map(|(m, p)| format!("({:?}, {:?})", m, p)).collect::<Vec<_>>().join(", "),
            v.fields
                .iter()
                .map(|f| format!("FieldM {{ name: {:?}, kind: {:?}, ty: {:?} }}", f.name, f.kind, f.ty))
                .collect::<Vec<_>>()
                .join(", ")
        );
    }
    let _ = writeln!(out, "] }};");
    let _ = writeln!(
        out,
        "fn e_{n}() -> AppEntry {{ {f}::<{n}{c}>(&M_{n}) }}",
        n = app.name,
        c = clist,
        f = if app.ctx.is_none() { "entry_new" } else { "entry" }
    );
}

fn main() {
    println!("cargo:rerun-if-changed=apps.dsl");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=HD_PROG_SEED");
    let seed: u64 = std::env::var("HD_PROG_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut apps = parse(&std::fs::read_to_string("apps.dsl").unwrap());
    let mut r = Rng(seed.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ 0x1234);
    let mut inner: Vec<(String, String)> = [
        ("Inner", "none"),
        ("Basic", "none"),
        ("HandN", "none"),
        ("FallB", "none"),
        ("HandA", "A"),
        ("CtxGuards", "A"),
        ("CtxOther", "B"),
        ("HandC", "C"),
        ("CtxOtherIn", "B"),
        ("HandD", "D"),
        ("HandE", "E"),
        ("CtxEnum", "E"),
        ("CtxTuple", "C"),
        ("CtxField", "D"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    apps.push(wide_app());
    for i in 0..16 {
        let name = format!("Rnd{}", i);
        let a = random_app(&mut r, name.clone(), &inner);
        inner.push((name, a.ctx.clone().unwrap_or_else(|| "none".into())));
        apps.push(a);
    }
    let mut out = String::new();
    for a in &apps {
        emit(a, &mut out);
    }
    let _ = writeln!(out, "pub const PROG_SEED: u64 = {};", seed);
    let _ = writeln!(out, "pub fn all() -> Vec<AppEntry> {{ vec![");
    for a in &apps {
        let _ = writeln!(out, "  e_{}(),", a.name);
    }
    let _ = writeln!(out, "] }}");
    let dst = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("apps.rs");
    std::fs::write(&dst, out).unwrap();
}
