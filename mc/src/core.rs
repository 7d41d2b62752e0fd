//! Execution of the real parser on one case, worker pool, watchdog, reporting and evidence.
use sql_parse::{
    parse_statement, parse_statements, Issues, Level, ParseOptions, SQLArguments, SQLDialect,
    Spanned, Statement,
};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Opts {
    pub dialect: u8, // 0 maria 1 pg 2 sqlite
    pub args: u8,    // 0 none 1 percent 2 question 3 dollar
    pub warn_ident: bool,
    pub warn_kw: bool,
    pub list: bool,
}
pub const BASE: Opts = Opts {
    dialect: 0,
    args: 2,
    warn_ident: false,
    warn_kw: false,
    list: false,
};

impl Opts {
    pub fn to_parse(self) -> ParseOptions {
        ParseOptions::new()
            .dialect(match self.dialect {
                0 => SQLDialect::MariaDB,
                1 => SQLDialect::PostgreSQL,
                _ => SQLDialect::Sqlite,
            })
            .arguments(match self.args {
                0 => SQLArguments::None,
                1 => SQLArguments::Percent,
                2 => SQLArguments::QuestionMark,
                _ => SQLArguments::Dollar,
            })
            .warn_unquoted_identifiers(self.warn_ident)
            .warn_none_capital_keywords(self.warn_kw)
            .list_hack(self.list)
    }
    pub fn show(self) -> String {
        format!(
            "dialect={} args={} warn_ident={} warn_kw={} list={}",
            self.dialect, self.args, self.warn_ident as u8, self.warn_kw as u8, self.list as u8
        )
    }
    pub fn read(s: &str) -> Opts {
        let mut o = BASE;
        for kv in s.split_whitespace() {
            let Some((k, v)) = kv.split_once('=') else {
                continue;
            };
            let n: u8 = v.parse().unwrap_or(0);
            match k {
                "dialect" => o.dialect = n,
                "args" => o.args = n,
                "warn_ident" => o.warn_ident = n != 0,
                "warn_kw" => o.warn_kw = n != 0,
                "list" => o.list = n != 0,
                _ => {}
            }
        }
        o
    }
    pub fn dialect(self, d: u8) -> Opts {
        Opts { dialect: d, ..self }
    }
}

/// The smallest set of option combinations that covers every pair of option values.
pub fn all_opts() -> Vec<Opts> {
    let mut v = Vec::new();
    for dialect in 0..3 {
        for args in 0..4 {
            for f in 0..8 {
                v.push(Opts {
                    dialect,
                    args,
                    warn_ident: f & 1 != 0,
                    warn_kw: f & 2 != 0,
                    list: f & 4 != 0,
                })
            }
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frag {
    pub message: String,
    pub span: (usize, usize),
    pub seg: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Iss {
    pub err: bool,
    pub message: String,
    pub span: (usize, usize),
    pub seg: String,
    pub frags: Vec<Frag>,
}

#[derive(Clone, Debug)]
pub struct Stmt {
    pub dbg: String,
    /// Err is the panic message
    pub span: Result<(usize, usize), String>,
    pub nodes: Result<Vec<Node>, String>,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub panic: Option<String>,
    pub stmts: Vec<Stmt>,
    pub issues: Vec<Iss>,
    pub display: String,
}

impl Out {
    pub fn errors(&self) -> usize {
        self.issues.iter().filter(|i| i.err).count()
    }
    pub fn ok(&self) -> bool {
        self.panic.is_none() && self.errors() == 0
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if let Some(p) = &self.panic {
            s.push_str(&format!("panic: {}\n", p));
        }
        for st in &self.stmts {
            s.push_str(&format!("statement span {:?}: {}\n", st.span, st.dbg));
        }
        for i in &self.issues {
            s.push_str(&format!("issue {:?}\n", i));
        }
        s
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let own = i
            .location()
            .map(|l| l.file().starts_with("src/"))
            .unwrap_or(false);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
        if verbose || (own && !IN_PARSER.with(|f| *f.borrow())) {
            def(i);
        }
    }));
}
thread_local! {
    static IN_PARSER: RefCell<bool> = const { RefCell::new(false) };
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_PARSER.with(|p| *p.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())));
    IN_PARSER.with(|p| *p.borrow_mut() = false);
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    One,
    Many,
}

#[derive(Clone, Copy, Default)]
pub struct Want {
    pub dbg: bool,
    pub span: bool,
    pub display: bool,
    /// spans of the inner nodes; also the spans recorded below each
    pub nodes: bool,
    pub hulls: bool,
}
pub const NOTHING: Want = Want {
    dbg: false,
    span: false,
    display: false,
    nodes: false,
    hulls: false,
};
pub const FULL: Want = Want {
    dbg: true,
    span: true,
    display: false,
    ..NOTHING
};

/// An inner node with a span of its own: its type, that span, the smallest and greatest position recorded in it.
pub type Node = (&'static str, (usize, usize), Option<(usize, usize)>);

struct Nodes {
    v: Vec<Node>,
    at: &'static str,
    hulls: bool,
}
impl crate::visit::Visitor for Nodes {
    fn node<T: Spanned + std::fmt::Debug>(&mut self, name: &'static str, x: &T) {
        self.at = name;
        let s = x.span();
        let mut hull: Option<(usize, usize)> = None;
        if self.hulls {
            scan_dbg(&format!("{:?}", x), &mut |e| {
                if let Ev::Span(a, b) = e {
                    let h = hull.get_or_insert((a, b));
                    *h = (h.0.min(a), h.1.max(b));
                }
            });
        }
        self.v.push((name, (s.start, s.end), hull));
    }
}

fn nodes(st: &Statement, hulls: bool) -> Result<Vec<Node>, String> {
    use crate::visit::Walk;
    let mut n = Nodes {
        v: Vec::new(),
        at: "",
        hulls,
    };
    let r = guarded(std::panic::AssertUnwindSafe(|| st.walk(&mut n)));
    match r {
        Ok(()) => Ok(n.v),
        Err(p) => Err(format!("{}: {}", n.at, p)),
    }
}

/// Run the real parser once.
pub fn run(sql: &str, opts: Opts, mode: Mode, want: Want) -> Out {
    let po = opts.to_parse();
    let mut out = Out {
        panic: None,
        stmts: Vec::new(),
        issues: Vec::new(),
        display: String::new(),
    };
    let before = crate::alloc::now();
    let r = guarded(|| {
        let mut issues = Issues::new(sql);
        let st: Vec<Statement<'_>> = match mode {
            Mode::One => parse_statement(sql, &mut issues, &po).into_iter().collect(),
            Mode::Many => parse_statements(sql, &mut issues, &po),
        };
        (st, issues)
    });
    crate::alloc::record(before);
    match r {
        Err(p) => out.panic = Some(p),
        Ok((st, issues)) => {
            for s in &st {
                let dbg = if want.dbg {
                    format!("{:?}", s)
                } else {
                    String::new()
                };
                let span = if want.span {
                    guarded(|| {
                        let s = s.span();
                        (s.start, s.end)
                    })
                } else {
                    Ok((0, 0))
                };
                let nodes = if want.nodes {
                    nodes(s, want.hulls)
                } else {
                    Ok(Vec::new())
                };
                out.stmts.push(Stmt { dbg, span, nodes });
            }
            if want.display {
                match guarded(|| format!("{}", issues)) {
                    Ok(s) => out.display = s,
                    Err(p) => out.panic = Some(format!("printing the issues: {}", p)),
                }
            }
            out.issues = convert(&issues);
        }
    }
    out
}

pub fn convert(issues: &Issues) -> Vec<Iss> {
    issues
        .get()
        .iter()
        .map(|i| Iss {
            err: i.level == Level::Error,
            message: i.message.to_string(),
            span: (i.span.start, i.span.end),
            seg: i.sql_segment.to_string(),
            frags: i
                .fragments
                .iter()
                .map(|f| Frag {
                    message: f.message.to_string(),
                    span: (f.span.start, f.span.end),
                    seg: f.sql_segment.to_string(),
                })
                .collect(),
        })
        .collect()
}

/// Replace every `a..b` of a Debug string by `@i..j` in token positions and drop blanks outside
/// strings, so that it can be compared with the tree of a derivation.  `pos` gives the byte range of
/// each token.
pub fn canon(dbg: &str, pos: &[(usize, usize)], tok_base: usize) -> String {
    let mut o = String::with_capacity(dbg.len());
    scan_dbg(dbg, &mut |ev| match ev {
        Ev::Text(t) => o.push_str(t),
        Ev::Ch(c) => o.push(c),
        Ev::Span(a, b) => {
            use std::fmt::Write;
            let i = pos.binary_search_by(|p| p.0.cmp(&a));
            let j = pos.binary_search_by(|p| p.1.cmp(&b));
            match (i, j) {
                (Ok(i), Ok(j)) if j >= i => {
                    let _ = write!(
                        o,
                        "@{}..{}",
                        i - tok_base.min(i),
                        j + 1 - tok_base.min(j + 1)
                    );
                }
                _ => {
                    let _ = write!(o, "@?{}..{}", a, b);
                }
            }
        }
    });
    o
}

pub enum Ev<'a> {
    /// string literal with its quotes, still escaped
    Text(&'a str),
    Ch(char),
    Span(usize, usize),
}

pub fn scan_dbg<'a>(dbg: &'a str, f: &mut dyn FnMut(Ev<'a>)) {
    let b = dbg.as_bytes();
    let mut i = 0;
    let mut prev = b' ';
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            let s = i;
            i += 1;
            while b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            f(Ev::Text(&dbg[s..i]));
        } else if c.is_ascii_digit()
            && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'.')
        {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i + 2 < b.len() && b[i] == b'.' && b[i + 1] == b'.' && b[i + 2].is_ascii_digit() {
                let a: usize = dbg[s..i].parse().unwrap_or(usize::MAX);
                let s2 = i + 2;
                i += 2;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                f(Ev::Span(a, dbg[s2..i].parse().unwrap_or(usize::MAX)));
            } else {
                for ch in dbg[s..i].chars() {
                    f(Ev::Ch(ch))
                }
            }
            prev = b'0';
            continue;
        } else if c == b' ' {
            i += 1;
        } else {
            f(Ev::Ch(c as char));
            i += 1;
        }
        prev = c;
    }
}

/// All spans recorded in a Debug string.
pub fn spans_of(dbg: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    scan_dbg(dbg, &mut |e| {
        if let Ev::Span(a, b) = e {
            v.push((a, b))
        }
    });
    v
}

/// The Debug string without blanks and with all spans shifted by -base (those of 0..0 kept).
pub fn shift_dbg(dbg: &str, base: usize) -> String {
    let mut o = String::with_capacity(dbg.len());
    scan_dbg(dbg, &mut |ev| match ev {
        Ev::Text(t) => o.push_str(t),
        Ev::Ch(c) => o.push(c),
        Ev::Span(a, b) => {
            use std::fmt::Write;
            let _ = write!(o, "{}..{}", a as i64 - base as i64, b as i64 - base as i64);
        }
    });
    o
}

// ------------------------------------------------------------------------------------------------

pub struct Violation {
    pub key: String,
    pub what: String,
    pub sql: String,
    pub opts: Opts,
    pub mode: Mode,
    pub detail: String,
}

struct Slot {
    started: AtomicU64,
    case: Mutex<(String, Opts, Mode)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub known: Vec<(String, String)>,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub evals: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub states: Vec<Mutex<HashSet<u64>>>,
    pub samples: Mutex<Vec<String>>,
    pub viols: Mutex<Vec<Violation>>,
    pub known_hits: Mutex<Vec<String>>,
    pub extra: Mutex<Vec<(String, String)>>,
    pub max_viol: usize,
    pub wall_cap: f64,
    slots: Vec<Slot>,
    pub nworkers: usize,
    trace: Option<Vec<std::fs::File>>,
}

pub fn hash64<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64) -> Ctx {
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix(&format!("known: property={} key=", prop)) {
                    let (k, d) = r.split_once(' ').unwrap_or((r, ""));
                    known.push((k.to_string(), d.to_string()));
                }
            }
        }
        let nworkers = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(1, 8);
        let trace = std::env::var("MC_TRACE").ok().map(|d| {
            (0..nworkers)
                .map(|i| std::fs::File::create(format!("{}/w{}", d, i)).unwrap())
                .collect::<Vec<_>>()
        });
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            start: Instant::now(),
            known,
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            evals: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(Vec::new()),
            viols: Mutex::new(Vec::new()),
            known_hits: Mutex::new(Vec::new()),
            extra: Mutex::new(Vec::new()),
            max_viol: std::env::var("MC_MAX")
                .ok()
                .and_then(|v| v.parse().ok())
                .unwrap_or(1),
            wall_cap: std::env::var("MC_CAP")
                .ok()
                .and_then(|v| v.parse().ok())
                .unwrap_or(if thorough { 3000.0 } else { 500.0 }),
            slots: (0..nworkers)
                .map(|_| Slot {
                    started: AtomicU64::new(0),
                    case: Mutex::new((String::new(), BASE, Mode::One)),
                })
                .collect(),
            nworkers,
            trace,
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        false
    }

    pub fn state(&self, h: u64) -> bool {
        self.states[(h % 64) as usize].lock().unwrap().insert(h)
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }

    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().push((k.into(), v.to_string()));
    }

    pub fn violation(&self, v: Violation) {
        if let Some((k, d)) = self.known.iter().find(|(k, _)| *k == v.key) {
            let mut h = self.known_hits.lock().unwrap();
            let line = format!("KNOWN-FINDING: property={} {} {}", self.prop, k, d);
            if !h.contains(&line) {
                println!("{}", line);
                h.push(line);
            }
            return;
        }
        let mut vs = self.viols.lock().unwrap();
        if vs.len() < self.max_viol {
            vs.push(v);
        }
        if vs.len() >= self.max_viol {
            self.stop.store(true, Relaxed);
        }
    }

    /// Run `f(worker)` on all workers, with a watchdog.
    pub fn par(&self, f: impl Fn(&Worker) + Sync) {
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..self.nworkers)
                .map(|i| {
                    let f = &f;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            f(&Worker { ctx: self, id: i });
                        })
                        .unwrap()
                })
                .collect();
            s.spawn(|| {
                while !done.load(Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    self.watch();
                }
            });
            let mut bad = None;
            for h in hs {
                if let Err(e) = h.join() {
                    bad = Some(e)
                }
            }
            done.store(true, Relaxed);
            if let Some(e) = bad {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                eprintln!("engine error: worker panicked: {:?}", m);
                std::process::exit(3);
            }
        });
    }

    /// Distribute the items of an indexable work list.
    pub fn each<T: Sync>(&self, items: &[T], f: impl Fn(&Worker, &T) + Sync) {
        let next = AtomicU64::new(0);
        self.par(|w| loop {
            if w.stop() {
                return;
            }
            let i = next.fetch_add(1, Relaxed) as usize;
            if i >= items.len() {
                return;
            }
            f(w, &items[i]);
        });
    }

    fn watch(&self) {
        if self.elapsed() > self.wall_cap && !self.stop.load(Relaxed) {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
        }
        let now = self.start.elapsed().as_millis() as u64 + 1;
        let rss = rss_bytes();
        let mut worst: Option<(u64, usize)> = None;
        for (i, s) in self.slots.iter().enumerate() {
            let st = s.started.load(Relaxed);
            if st != 0 {
                let d = now.saturating_sub(st);
                if worst.map(|w| d > w.0).unwrap_or(true) {
                    worst = Some((d, i));
                }
            }
        }
        let Some((d, i)) = worst else { return };
        if d > 20_000 || (rss > 14 << 30 && d > 1000) {
            let (sql, opts, mode) = self.slots[i].case.lock().unwrap().clone();
            // The parse cannot be interrupted: report and leave.
            self.violation(Violation {
                key: "no-termination".into(),
                what: format!("parsing has not returned after {} ms", d),
                sql,
                opts,
                mode,
                detail: String::new(),
            });
            let c = self.finish();
            std::process::exit(if c == 0 { 0 } else { 1 });
        }
    }

    pub fn finish(&self) -> i32 {
        let vs = self.viols.lock().unwrap();
        let nstates: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let capped = self.capped.load(Relaxed);
        let mut samples = self.samples.lock().unwrap().clone();
        if samples.is_empty() {
            samples.push("(none)".into());
        }
        let mut ex = String::new();
        for (k, v) in self.extra.lock().unwrap().iter() {
            ex.push_str(&format!(", {}: {}", jstr(k), jstr(v)));
        }
        let j = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"executions_of_the_parser\": {}, \"exhaustive\": {}, \"known_findings_seen\": [{}], \"samples\": [{}]{}}}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
            jstr(&self.prop),
            if self.thorough { "\"thorough\"" } else { "\"quick\"" },
            self.seed,
            nstates,
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.evals.load(Relaxed),
            !capped && vs.is_empty(),
            self.known_hits.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
            samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
            ex,
            self.elapsed(),
            vs.len()
        );
        let dir = verif_dir();
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        std::fs::write(format!("{}/evidence/{}.json", dir, self.prop), j).expect("write evidence");
        println!(
            "{} {}: states={} transitions={} traces={} executions={} wall={:.1}s{}",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            nstates,
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.evals.load(Relaxed),
            self.elapsed(),
            if capped { " CAPPED" } else { "" }
        );
        for (n, v) in vs.iter().enumerate() {
            let p = write_replay(&self.prop, n, v);
            println!("{}", v.what);
            println!(
                "  input: {:?} ({}, {:?})",
                clip(&v.sql, 400),
                v.opts.show(),
                v.mode
            );
            if !v.detail.is_empty() {
                println!("{}", clip(&v.detail, 6000));
            }
            println!("VIOLATION property={} replay={}", self.prop, p);
        }
        if vs.is_empty() {
            0
        } else {
            1
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.into()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

pub fn write_replay(prop: &str, n: usize, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.txt", dir, prop, n);
    let t = format!(
        "property: {}\nkey: {}\nwhat: {}\nopts: {}\nmode: {:?}\nsql: {:?}\n\n{}\n\nReplay with: mc/run replay {}\nOr as a unit test in /repo/src/lib.rs:\n#[test]\nfn replay() {{\n    let sql = {:?};\n    let options = ParseOptions::new().dialect(SQLDialect::{}).arguments(SQLArguments::{}).warn_unquoted_identifiers({}).warn_none_capital_keywords({}).list_hack({});\n    let mut issues = Issues::new(sql);\n    let r = {}(sql, &mut issues, &options);\n    panic!(\"{{:#?}}\\n{{}}\", r, issues);\n}}\n",
        prop, v.key, v.what, v.opts.show(), v.mode, v.sql, v.detail, p, v.sql,
        ["MariaDB", "PostgreSQL", "Sqlite"][v.opts.dialect as usize],
        ["None", "Percent", "QuestionMark", "Dollar"][v.opts.args as usize],
        v.opts.warn_ident, v.opts.warn_kw, v.opts.list,
        if v.mode == Mode::One { "parse_statement" } else { "parse_statements" },
    );
    std::fs::write(&p, t).expect("write replay");
    p
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| {
            s.split_whitespace()
                .nth(1)
                .and_then(|v| v.parse::<u64>().ok())
        })
        .map(|p| p * 4096)
        .unwrap_or(0)
}

pub struct Worker<'c> {
    pub ctx: &'c Ctx,
    pub id: usize,
}

impl<'c> Worker<'c> {
    pub fn stop(&self) -> bool {
        self.ctx.stopped()
    }
    /// Mark the worker as busy with this case, for the watchdog.
    fn busy<R>(&self, sql: &str, opts: Opts, mode: Mode, f: impl FnOnce() -> R) -> R {
        let slot = &self.ctx.slots[self.id];
        {
            let mut c = slot.case.lock().unwrap();
            c.0.clear();
            c.0.push_str(sql);
            c.1 = opts;
            c.2 = mode;
        }
        if let Some(t) = &self.ctx.trace {
            use std::os::unix::fs::FileExt;
            let m = [
                format!("{} mode={:?}\n{}", opts.show(), mode, sql).as_bytes(),
                &[0xff],
            ]
            .concat();
            let _ = t[self.id].write_all_at(&m, 0);
        }
        slot.started
            .store(self.ctx.start.elapsed().as_millis() as u64 + 1, Relaxed);
        let r = f();
        slot.started.store(0, Relaxed);
        self.ctx.evals.fetch_add(1, Relaxed);
        r
    }
    pub fn run(&self, sql: &str, opts: Opts, mode: Mode, want: Want) -> Out {
        self.busy(sql, opts, mode, || run(sql, opts, mode, want))
    }
    /// Run the parser and look at what it returns in place; Err if it panics.
    pub fn parse<R>(
        &self,
        sql: &str,
        opts: Opts,
        mode: Mode,
        f: impl FnOnce(&[Statement], &Issues) -> R,
    ) -> Result<R, String> {
        let po = opts.to_parse();
        self.busy(sql, opts, mode, || {
            guarded(|| {
                let mut issues = Issues::new(sql);
                let st: Vec<Statement<'_>> = match mode {
                    Mode::One => parse_statement(sql, &mut issues, &po).into_iter().collect(),
                    Mode::Many => parse_statements(sql, &mut issues, &po),
                };
                f(&st, &issues)
            })
        })
    }
    pub fn bad(
        &self,
        key: &str,
        what: impl ToString,
        sql: &str,
        opts: Opts,
        mode: Mode,
        detail: String,
    ) {
        self.ctx.violation(Violation {
            key: key.into(),
            what: what.to_string(),
            sql: sql.into(),
            opts,
            mode,
            detail,
        });
    }
}
