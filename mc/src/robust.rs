//! C01-C04 and C06: what must hold for every input, however malformed.
use crate::alloc;
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::grammar::*;
use crate::stress::*;
use std::sync::atomic::Ordering::Relaxed;

fn stress(ctx: &Ctx, want: Want) -> Stress<'_> {
    Stress {
        ctx,
        want,
        chars: true,
        deep: ctx.thorough,
        lists: true,
        dialects: true,
    }
}

fn shape(c: &Case) -> String {
    c.sql.split_whitespace().collect::<Vec<_>>().join("_")
}

// ------------------------------------------------------------------------------------------- C01

pub fn c01(ctx: &Ctx) {
    stress(ctx, Want::default()).run(&|w, c, o| {
        ctx.traces.fetch_add(1, Relaxed);
        if let Some(p) = &o.panic {
            w.bad(
                &format!("panic:{}", shape(c)),
                format!("parsing panicked: {}", p),
                c.sql,
                c.opts,
                c.mode,
                String::new(),
            );
        }
    });
    nesting(ctx);
}

/// (name, opening part, innermost part, closing part)
pub const NESTS: &[(&str, &str, &str, &str)] = &[
    ("parentheses", "SELECT |(", "1", ")|"),
    ("subqueries", "SELECT |(SELECT ", "1", ")|"),
    ("unary-minus", "SELECT |- ", "1", "|"),
    ("not", "SELECT |NOT ", "a", "|"),
    ("functions", "SELECT |f(", "1", ")|"),
    ("case", "SELECT |CASE WHEN a THEN ", "1", " END|"),
    ("in", "SELECT |a IN (", "1", ")|"),
    ("exists", "SELECT |EXISTS (SELECT ", "1", ")|"),
    ("cast", "SELECT |CAST(", "1", " AS INT)|"),
    ("additions", "SELECT |1 + ", "1", "|"),
    ("ands", "SELECT |a AND ", "1", "|"),
    ("joins", "SELECT a FROM |a JOIN ", "b", "|"),
    (
        "derived-tables",
        "SELECT a FROM |(SELECT a FROM ",
        "b",
        ") AS c|",
    ),
    ("table-parentheses", "SELECT a FROM |(", "b", ")|"),
    ("unions", "SELECT 1 |UNION (SELECT 1 ", "", ")|"),
    ("union-parentheses", "|(", "SELECT 1", ")|"),
    (
        "blocks",
        "CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW |BEGIN ",
        "SELECT 1;",
        " END;|",
    ),
    ("ifs", "|IF a THEN ", "SELECT 1;", " END IF;|"),
    (
        "case-statements",
        "|CASE WHEN a THEN ",
        "SELECT 1;",
        " END;|",
    ),
    ("interval", "SELECT |DATE_ADD(", "a", ", INTERVAL 1 DAY)|"),
    ("if-functions", "SELECT |IF(a, b, ", "c", ")|"),
    ("with", "|WITH a AS (", "SELECT 1", ") SELECT 1|"),
    ("case-values", "SELECT |CASE ", "a", " WHEN 1 THEN 2 END|"),
    ("brackets", "SELECT |[", "", "]|"),
    ("strings", "SELECT |'a' ", "'b'", "|"),
    ("unclosed-parentheses", "SELECT |(", "", "|"),
    ("unclosed-blocks", "|BEGIN ", "", "|"),
    ("unclosed-ifs", "|IF a THEN ", "", "|"),
    ("unclosed-functions", "SELECT |f(a, ", "", "|"),
    ("explain", "|EXPLAIN ", "SELECT 1", "|"),
];

pub fn nest(n: &(&str, &str, &str, &str), depth: usize) -> String {
    let (a, open) = n.1.split_once('|').unwrap();
    let (close, z) = n.3.split_once('|').unwrap();
    format!(
        "{}{}{}{}{}",
        a,
        open.repeat(depth),
        n.2,
        close.repeat(depth),
        z
    )
}

fn nesting(ctx: &Ctx) {
    ctx.note("nesting constructs", NESTS.len());
    ctx.each(NESTS, |w, n| {
        for depth in (1..=40).chain([64, 100, 200]) {
            let sql = nest(n, depth);
            for d in 0..3 {
                for mode in [Mode::One, Mode::Many] {
                    let o = w.run(&sql, BASE.dialect(d), mode, FULL);
                    if let Some(p) = &o.panic {
                        w.bad(
                            &format!("nest:{}:{}", n.0, depth),
                            format!("parsing panicked: {}", p),
                            &sql,
                            BASE.dialect(d),
                            mode,
                            String::new(),
                        );
                    }
                }
            }
        }
        // far beyond any sensible statement: in a process of its own
        let sql = nest(n, 1_000_000);
        let dir = std::env::temp_dir().join(format!("mc-nest-{}-{}", std::process::id(), n.0));
        std::fs::create_dir_all(&dir).unwrap();
        let f = dir.join("one.txt");
        std::fs::write(
            &f,
            format!(
                "opts: {}\nmode: {:?}\nsql: {:?}\n",
                BASE.show(),
                Mode::Many,
                sql
            ),
        )
        .unwrap();
        let s = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["parse", f.to_str().unwrap()])
            .stderr(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .status()
            .expect("run single");
        let _ = std::fs::remove_dir_all(&dir);
        if s.code().is_none() {
            w.bad(
                &format!("deep-nesting:{}", n.0),
                format!("parsing a million nested {} ends the process: {}", n.0, s),
                &sql,
                BASE,
                Mode::Many,
                String::new(),
            );
        }
    });
}

// ------------------------------------------------------------------------------------------- C02

/// Bound on the memory requests (number, bytes) of parsing a text: a constant plus a constant per byte.
const CALLS: (u64, u64) = (100, 5);
const BYTES: (u64, u64) = (20_000, 2_500);

fn bounded(w: &Worker, sql: &str, opts: Opts, mode: Mode, o: &Out, calls: u64, bytes: u64) {
    let n = sql.len() as u64 + 1;
    let mut bad = None;
    if o.issues.len() as u64 > 3 * n {
        bad = Some(format!("{} issues for {} bytes", o.issues.len(), n - 1));
    } else if o.stmts.len() as u64 > n {
        bad = Some(format!("{} statements for {} bytes", o.stmts.len(), n - 1));
    } else if calls > CALLS.0 + CALLS.1 * n || bytes > BYTES.0 + BYTES.1 * n {
        bad = Some(format!(
            "parsing {} bytes requested memory {} times, {} bytes in total",
            n - 1,
            calls,
            bytes
        ));
    }
    if let Some(b) = bad {
        w.bad(
            &format!("growth:{}", clip(&sql.replace(' ', "_"), 300)),
            b,
            sql,
            opts,
            mode,
            String::new(),
        );
    }
}

pub fn c02(ctx: &Ctx) {
    let most = (
        std::sync::atomic::AtomicU64::new(0),
        std::sync::atomic::AtomicU64::new(0),
    );
    let rec = |n: usize, c: u64, b: u64| {
        most.0.fetch_max(c * 100 / (n as u64 + 10), Relaxed);
        most.1.fetch_max(b / (n as u64 + 10), Relaxed);
    };
    stress(ctx, Want::default()).run(&|w, c, o| {
        ctx.traces.fetch_add(1, Relaxed);
        let (calls, bytes) = alloc::last();
        rec(c.sql.len(), calls, bytes);
        bounded(w, c.sql, c.opts, c.mode, o, calls, bytes);
    });
    // every window of tokens of every statement repeated many times
    let g = load();
    let gen = Gen::new(&g);
    let base = collect(ctx, &gen, "stmt", 1, |_| true);
    let reps: &[usize] = if ctx.thorough {
        &[20, 100, 400]
    } else {
        &[20, 60]
    };
    ctx.each(&base, |w, d| {
        let t: Vec<&str> = d.toks.iter().map(|t| t.text.as_str()).collect();
        for i in 0..t.len() {
            for j in i + 1..=t.len().min(i + 6) {
                for k in reps {
                    if w.stop() {
                        return;
                    }
                    let win = format!(" {} ", t[i..j].join(" "));
                    let sql = format!("{}{}{}", t[..i].join(" "), win.repeat(*k), t[j..].join(" "));
                    for mode in [Mode::One, Mode::Many] {
                        let o = w.run(&sql, BASE, mode, Want::default());
                        ctx.transitions.fetch_add(1, Relaxed);
                        let (calls, bytes) = alloc::last();
                        rec(sql.len(), calls, bytes);
                        bounded(w, &sql, BASE, mode, &o, calls, bytes);
                    }
                }
            }
        }
    });
    ctx.each(NESTS, |w, n| {
        for depth in [5, 10, 20, 40, 80, 160, 320] {
            let sql = nest(n, depth);
            let o = w.run(&sql, BASE, Mode::Many, Want::default());
            let (calls, bytes) = alloc::last();
            rec(sql.len(), calls, bytes);
            bounded(w, &sql, BASE, Mode::Many, &o, calls, bytes);
        }
    });
    ctx.note(
        "most memory requests per 100 bytes of input",
        most.0.load(Relaxed),
    );
    ctx.note(
        "most memory requested per byte of input",
        most.1.load(Relaxed),
    );
}

// ------------------------------------------------------------------------------------------- C03

fn line_of(sql: &str, at: usize) -> usize {
    sql.as_bytes()[..at].iter().filter(|b| **b == b'\n').count() + 1
}

/// What is wrong with the issues of a run, if anything.
fn issue_fault(sql: &str, issues: &[Iss], display: &str) -> Option<String> {
    let span_ok = |s: (usize, usize), seg: &str, what: &str| -> Option<String> {
        if s.0 > s.1 || s.1 > sql.len() {
            return Some(format!(
                "{} span {:?} is not inside the source of {} bytes",
                what,
                s,
                sql.len()
            ));
        }
        if !sql.is_char_boundary(s.0) || !sql.is_char_boundary(s.1) {
            return Some(format!("{} span {:?} splits a character", what, s));
        }
        if &sql[s.0..s.1] != seg {
            return Some(format!(
                "{} segment {:?} is not the text {:?} of its span",
                what,
                seg,
                &sql[s.0..s.1]
            ));
        }
        None
    };
    for i in issues {
        if let Some(f) = span_ok(i.span, &i.seg, "issue") {
            return Some(f);
        }
        if i.message.is_empty() {
            return Some("issue without a message".into());
        }
        for f in &i.frags {
            if let Some(f) = span_ok(f.span, &f.seg, "fragment") {
                return Some(f);
            }
        }
    }
    // the printed form, layout aside
    if issues.is_empty() {
        if !display.to_lowercase().contains("no issues") {
            return Some(format!("printed form without issues is {:?}", display));
        }
        return None;
    }
    let mut rest = display;
    let mut eat = |s: &str, what: &str| -> Option<String> {
        match rest.find(s) {
            Some(p) => {
                rest = &rest[p + s.len()..];
                None
            }
            None => Some(format!("printed form lacks {} {:?} in its place", what, s)),
        }
    };
    let mut lines = 0;
    for i in issues {
        let parts = std::iter::once((i.span.0, i.message.as_str(), i.seg.as_str())).chain(
            i.frags
                .iter()
                .map(|f| (f.span.0, f.message.as_str(), f.seg.as_str())),
        );
        if let Some(f) = eat(if i.err { "Error" } else { "Warning" }, "level") {
            return Some(f);
        }
        for (at, m, s) in parts {
            lines += 1;
            let r = eat(m, "message")
                .or_else(|| eat(&format!("line {},", line_of(sql, at)), "line number"))
                .or_else(|| eat(s, "segment"));
            if r.is_some() {
                return r;
            }
        }
    }
    if !sql.contains("At line ") && display.matches("At line ").count() != lines {
        return Some(format!(
            "printed form has {} positions for {} issues and fragments",
            display.matches("At line ").count(),
            lines
        ));
    }
    None
}

pub fn c03(ctx: &Ctx) {
    let mut st = stress(
        ctx,
        Want {
            dbg: false,
            span: false,
            display: true, ..NOTHING
        },
    );
    st.dialects = ctx.thorough;
    st.run(&|w, c, o| {
        ctx.traces.fetch_add(1, Relaxed);
        let f = match &o.panic {
            Some(p) => p.starts_with("printing").then(|| format!("panic {}", p)),
            None => issue_fault(c.sql, &o.issues, &o.display),
        };
        if let Some(f) = f {
            w.bad(
                &format!("issue:{}", shape(c)),
                f,
                c.sql,
                c.opts,
                c.mode,
                format!("{}{}", o.show(), o.display),
            );
        }
    });
    // issues in the middle of several lines: every statement of budget 1 with one token per line
    let g = load();
    let gen = Gen::new(&g);
    let base = collect(ctx, &gen, "stmt", 1, |_| true);
    ctx.each(&base, |w, d| {
        for i in 0..d.toks.len() {
            for x in [
                "",
                "é",
                "\n",
                "'é\n",
                "(",
                "SELECT",
                "\r\n,",
                "/* \n */ )",
                "`é`",
                "x'é'",
            ] {
                let mut sql = String::from("\n");
                for (k, t) in d.toks.iter().enumerate() {
                    sql.push_str(if k == i { x } else { &t.text });
                    sql.push_str(if k % 3 == 2 { " /* é */\n" } else { "\n" });
                }
                for dd in 0..3 {
                    for (mode, lint) in [(Mode::One, false), (Mode::Many, true)] {
                        let opts = Opts {
                            warn_ident: lint,
                            warn_kw: lint,
                            ..BASE.dialect(dd)
                        };
                        let o = w.run(
                            &sql,
                            opts,
                            mode,
                            Want {
                                dbg: false,
                                span: false,
                                display: true, ..NOTHING
                            },
                        );
                        ctx.transitions.fetch_add(1, Relaxed);
                        if o.panic.is_some() {
                            continue;
                        }
                        if let Some(f) = issue_fault(&sql, &o.issues, &o.display) {
                            w.bad(
                                &format!("issue:{}", sql.replace(char::is_whitespace, "_")),
                                f,
                                &sql,
                                opts,
                                mode,
                                format!("{}{}", o.show(), o.display),
                            );
                        }
                    }
                }
            }
        }
    });
    api(ctx);
}

/// Every issue with up to two fragments built through the public interface on short sources.
fn api(ctx: &Ctx) {
    let mut srcs = vec![String::new()];
    let mut last = srcs.clone();
    for _ in 0..if ctx.thorough { 5 } else { 4 } {
        last = last
            .iter()
            .flat_map(|s| {
                ["a", "\n", "é", "\r"]
                    .iter()
                    .map(move |c| format!("{}{}", s, c))
            })
            .collect();
        srcs.extend(last.clone());
    }
    ctx.note("sources for issues built by hand", srcs.len());
    // far down and far to the right
    let lines: Vec<usize> = (0..300).chain([511, 512, 513, 999, 1000, 1001, 65535, 65536, 65537]).collect();
    ctx.each(&lines, |w, &n| {
        for nl in ["\n", "\r\n", "é\n", "a", "é", "\r"] {
            let s = format!("{}xé\ny", nl.repeat(n));
            for p in [(0, 0), (s.len() - 5, s.len() - 4), (s.len() - 4, s.len() - 2), (s.len() - 1, s.len()), (0, s.len()), (s.len(), s.len())] {
                let r = guarded(|| {
                    let mut is = sql_parse::Issues::new(&s);
                    is.err("m1", &(p.0..p.1)).frag("f1", &(0..0));
                    is.warn("m2", &(s.len() - 1..s.len())).frag("f2", &(p.0..p.1));
                    (convert(&is), format!("{}", is))
                });
                ctx.transitions.fetch_add(1, Relaxed);
                let f = match r {
                    Err(p) => Some(format!("panic: {}", p)),
                    Ok((v, d)) => issue_fault(&s, &v, &d),
                };
                if let Some(f) = f {
                    w.bad(&format!("api:{}x{}:{:?}", n, nl.escape_debug(), p), f, &s, BASE, Mode::One, String::new());
                }
            }
        }
        // and many issues
        let s = "é\n".repeat(n);
        let r = guarded(|| {
            let mut is = sql_parse::Issues::new(&s);
            for k in 0..n.min(300) {
                let mut h = is.err(format!("m{}", k), &(3 * k..3 * k + 2));
                for j in 0..k % 7 {
                    h.frag(format!("f{}", j), &(3 * j..3 * k + 3));
                }
            }
            (convert(&is), format!("{}", is))
        });
        let f = match r {
            Err(p) => Some(format!("panic: {}", p)),
            Ok((v, d)) => issue_fault(&s, &v, &d).or_else(|| {
                let ok = v.len() == n.min(300)
                    && v.iter().enumerate().all(|(k, i)| {
                        i.message == format!("m{}", k) && i.span == (3 * k, 3 * k + 2) && i.frags.len() == k % 7
                    });
                (!ok).then(|| "issues are not kept as they were added".to_string())
            }),
        };
        if let Some(f) = f {
            w.bad(&format!("api:many{}", n), f, &s, BASE, Mode::One, String::new());
        }
    });
    ctx.each(&srcs, |w, s| {
        let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let spans: Vec<(usize, usize)> = b
            .iter()
            .flat_map(|x| b.iter().filter(move |y| *y >= x).map(move |y| (*x, *y)))
            .collect();
        for &p in &spans {
            for &q in &spans {
                for kind in 0..5 {
                    w.ctx.transitions.fetch_add(1, Relaxed);
                    let r = guarded(|| {
                        let mut is = sql_parse::Issues::new(s);
                        let empty = is.is_ok() && is.get().is_empty();
                        match kind {
                            0 => {
                                is.err("m1", &(p.0..p.1)).frag("f1", &(q.0..q.1));
                            }
                            1 => {
                                is.warn("m1", &(p.0..p.1))
                                    .frag("f1", &(q.0..q.1))
                                    .frag("f2", &(p.0..p.1));
                            }
                            2 => {
                                is.err("m1", &(p.0..p.1));
                                is.warn("m2", &(q.0..q.1));
                            }
                            3 => {
                                is.warn("m1", &(p.0..p.1)).frag("f1", &(q.0..q.1));
                                is.err("m2", &(q.0..q.1)).frag("f2", &(p.0..p.1));
                            }
                            _ => {
                                is.warn(String::from("m1"), &(p.0..p.1));
                            }
                        }
                        let d = format!("{}", is);
                        let seg = is.segment(p.0..p.1) == &s[p.0..p.1];
                        let ok = is.is_ok();
                        let l = is.get().len();
                        let v = convert(&is);
                        (empty, seg, ok, l == is.into_vec().len(), v, d)
                    });
                    let fault = match r {
                        Err(p) => Some(format!("panic: {}", p)),
                        Ok((empty, seg, ok, len, v, d)) => {
                            let want: Vec<(
                                bool,
                                &str,
                                (usize, usize),
                                Vec<(&str, (usize, usize))>,
                            )> = match kind {
                                0 => vec![(true, "m1", p, vec![("f1", q)])],
                                1 => vec![(false, "m1", p, vec![("f1", q), ("f2", p)])],
                                2 => vec![(true, "m1", p, vec![]), (false, "m2", q, vec![])],
                                3 => vec![
                                    (false, "m1", p, vec![("f1", q)]),
                                    (true, "m2", q, vec![("f2", p)]),
                                ],
                                _ => vec![(false, "m1", p, vec![])],
                            };
                            let got: Vec<_> = v
                                .iter()
                                .map(|i| {
                                    (
                                        i.err,
                                        i.message.as_str(),
                                        i.span,
                                        i.frags
                                            .iter()
                                            .map(|f| (f.message.as_str(), f.span))
                                            .collect::<Vec<_>>(),
                                    )
                                })
                                .collect();
                            if !empty || !seg || ok || !len {
                                Some("is_ok, get, segment or into_vec disagree".to_string())
                            } else if got != want {
                                Some(format!("issues recorded {:?} instead of {:?}", got, want))
                            } else {
                                issue_fault(s, &v, &d)
                            }
                        }
                    };
                    if let Some(f) = fault {
                        w.bad(
                            &format!("api:{}:{:?}:{:?}:{}", s.escape_debug(), p, q, kind),
                            f,
                            s,
                            BASE,
                            Mode::One,
                            String::new(),
                        );
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- C04

pub fn c04(ctx: &Ctx) {
    let want = Want {
        nodes: true,
        ..FULL
    };
    let mut st = stress(ctx, want);
    st.dialects = ctx.thorough;
    st.run(&|w, c, o| {
        if o.panic.is_some() {
            return;
        }
        ctx.traces.fetch_add(1, Relaxed);
        for s in &o.stmts {
            let ok = |s: (usize, usize)| s.0 <= s.1 && s.1 <= c.sql.len() && c.sql.is_char_boundary(s.0) && c.sql.is_char_boundary(s.1);
            let fault = match &s.span {
                Err(p) => Some(format!("span() of a returned statement panicked: {}", p)),
                Ok(x) if !ok(*x) => Some(format!("span() {:?} of a returned statement does not lie in the source of {} bytes", x, c.sql.len())),
                _ => {
                    let mut bad = None;
                    scan_dbg(&s.dbg, &mut |e| {
                        if let Ev::Span(a, b) = e {
                            if !ok((a, b)) {
                                bad = Some((a, b));
                            }
                        }
                    });
                    bad.map(|b| format!("a returned tree holds the span {}..{}, which does not lie in the source of {} bytes", b.0, b.1, c.sql.len()))
                }
            };
            let fault = fault.or_else(|| match &s.nodes {
                Err(p) => Some(format!("span() of a node panicked: {}", p)),
                Ok(v) => v.iter().find(|n| !ok(n.1)).map(|n| {
                    format!("span() {:?} of a {} does not lie in the source of {} bytes", n.1, n.0, c.sql.len())
                }),
            });
            if let Some(f) = fault {
                w.bad(&format!("span:{}", shape(c)), f, c.sql, c.opts, c.mode, o.show());
            }
        }
        // the statements of a list come in order and apart from each other
        for k in 1..o.stmts.len() {
            if let (Ok(a), Ok(b)) = (&o.stmts[k - 1].span, &o.stmts[k].span) {
                if b.0 < a.1 {
                    let f = format!("span() {:?} of a returned statement reaches back into the one before it, {:?}", b, a);
                    w.bad(&format!("order:{}", shape(c)), f, c.sql, c.opts, c.mode, o.show());
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- C06

/// Tokens of the alphabets that change the tokens after them.
fn disturbs(t: &str) -> bool {
    matches!(
        t,
        "'open"
            | "\"open"
            | "`open"
            | "/* open"
            | "`"
            | "x'41'"
            | "X''"
            | "é'"
            | "'x' DAY"
            | "'a' 'b'"
            | "DELIMITER"
    ) || t.starts_with(";\n")
}

fn word(t: &(&str, Kind)) -> bool {
    match t.1 {
        Kind::Kw => t.0.starts_with(|c: char| c.is_ascii_lowercase()),
        Kind::Id | Kind::Num | Kind::Str | Kind::Arg => true,
        Kind::Punct => false,
    }
}

pub fn c06(ctx: &Ctx) {
    let mut st = stress(
        ctx,
        Want {
            dbg: true,
            span: false,
            display: false, ..NOTHING
        },
    );
    st.chars = false;
    let accepted = std::sync::atomic::AtomicU64::new(0);
    st.run(&|w, c, o| {
        if o.panic.is_some() || o.errors() > 0 {
            return;
        }
        accepted.fetch_add(1, Relaxed);
        ctx.traces.fetch_add(1, Relaxed);
        if let Some(f) = silent(c, o) {
            w.bad(
                &format!("silent:{}", shape(c)),
                f,
                c.sql,
                c.opts,
                c.mode,
                o.show(),
            );
        }
    });
    // valid statements in which names, numbers or strings are written twice
    let g = load();
    let gen = Gen::new(&g);
    let twice = std::sync::atomic::AtomicU64::new(0);
    let budget = if ctx.thorough { 4 } else { 3 };
    let n = explore(ctx, &gen, g.rule("stmt"), budget, |w, d| {
        for kind in [Kind::Id, Kind::Num, Kind::Str] {
            let at: Vec<usize> = (0..d.toks.len())
                .filter(|i| d.toks[*i].kind == kind)
                .collect();
            if at.len() < 2 {
                continue;
            }
            let far = if ctx.thorough { at.len() } else { 1 };
            let near = |a: usize| a + 1..at.len().min(a + 1 + far);
            let pairs = (0..at.len()).flat_map(|a| near(a).map(move |b| (a, b)));
            for pair in pairs.map(Some).chain(std::iter::once(None)) {
                let mut d = d.clone();
                match pair {
                    Some((a, b)) => d.toks[at[b]].text = d.toks[at[a]].text.clone(),
                    None => at
                        .iter()
                        .for_each(|i| d.toks[*i].text = d.toks[at[0]].text.clone()),
                }
                let (sql, pos) = layout(&d.toks);
                let toks: Vec<(&str, Kind)> =
                    d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect();
                // the first dialect that has the construct; the thorough tier takes all
                let has = (0..3).filter(|x| d.in_dialect(*x) && d.accepted_in(*x));
                for dialect in has.take(if ctx.thorough { 3 } else { 1 }) {
                    if w.stop() {
                        return;
                    }
                    let opts = BASE.dialect(dialect);
                    let o = w.run(
                        &sql,
                        opts,
                        Mode::One,
                        Want {
                            dbg: true,
                            span: false,
                            display: false, ..NOTHING
                        },
                    );
                    ctx.transitions.fetch_add(1, Relaxed);
                    if o.panic.is_some() || o.errors() > 0 {
                        continue;
                    }
                    twice.fetch_add(1, Relaxed);
                    let c = Case {
                        sql: &sql,
                        toks: &toks,
                        pos: &pos,
                        opts,
                        mode: Mode::One,
                    };
                    if let Some(f) = silent(&c, &o) {
                        w.bad(
                            &format!("silent:{}", shape(&c)),
                            f,
                            &sql,
                            opts,
                            Mode::One,
                            o.show(),
                        );
                    }
                }
            }
        }
    });
    ctx.note(
        "inputs accepted without an Error, whose words were all looked for",
        accepted.load(Relaxed),
    );
    ctx.note("derivations in which neighbouring (thorough: all) names, numbers and strings, and all of them, were made the same", n);
    ctx.note(
        "of valid statements with a name, number or string written twice",
        twice.load(Relaxed),
    );
}

fn silent(c: &Case, o: &Out) -> Option<String> {
    if c.mode == Mode::One && o.stmts.len() != 1 {
        return Some(format!(
            "no Error but {} statements returned",
            o.stmts.len()
        ));
    }
    for s in &o.stmts {
        for p in ["Invalid(", "(Unknown,", "Function(Unknown"] {
            if s.dbg.contains(p) && !(p == "(Unknown," && !s.dbg.contains("Function(Unknown")) {
                return Some("no Error but an invalid placeholder is returned".into());
            }
        }
    }
    if c.toks.iter().any(|t| disturbs(t.0)) {
        return None;
    }
    let mut spans: Vec<(usize, usize)> = o.stmts.iter().flat_map(|s| spans_of(&s.dbg)).collect();
    spans.sort();
    let data: Vec<(usize, usize)> = o
        .stmts
        .iter()
        .filter(|s| s.dbg.starts_with("Stdin("))
        .filter_map(|s| spans_of(&s.dbg).last().copied())
        .collect();
    let mut values: Option<Vec<String>> = None;
    for (i, t) in c.toks.iter().enumerate() {
        if !word(t) {
            continue;
        }
        let p = c.pos[i];
        if data.iter().any(|d| d.0 <= p.0 && p.1 <= d.1) {
            continue;
        }
        // a number has its value in the tree, wherever it stands
        if t.1 == Kind::Num && t.0.bytes().all(|b| b.is_ascii_digit()) && !exempt(c, i) {
            let vs = values
                .get_or_insert_with(|| o.stmts.iter().flat_map(|s| values_of(&s.dbg)).collect());
            let v = t.0.trim_start_matches('0');
            let v = if v.is_empty() { "0" } else { v };
            if !vs.iter().any(|x| x == v || x == t.0) {
                return Some(format!(
                    "no Error but the value of {:?} at {}..{} is nowhere in the returned statements",
                    t.0, p.0, p.1
                ));
            }
        }
        if spans.binary_search(&p).is_ok() {
            continue;
        }
        // adjacent strings share one span
        if t.1 == Kind::Str {
            let str_like = |k: usize| {
                c.toks[k].1 == Kind::Str
                    || c.toks[k].0.starts_with("--")
                    || c.toks[k].0.starts_with("/*")
            };
            let (mut a, mut b) = (i, i);
            while a > 0 && str_like(a - 1) {
                a -= 1;
            }
            while b + 1 < c.toks.len() && str_like(b + 1) {
                b += 1;
            }
            if (a..=i)
                .any(|a| (i..=b).any(|b| spans.binary_search(&(c.pos[a].0, c.pos[b].1)).is_ok()))
            {
                continue;
            }
        }
        // not recorded with its own span: then at least its value, as often as it was written
        let vs =
            values.get_or_insert_with(|| o.stmts.iter().flat_map(|s| values_of(&s.dbg)).collect());
        let v = value(t.0);
        let written = c.toks.iter().filter(|x| word(x) && value(x.0) == v).count();
        let found: usize = match t.1 {
            Kind::Str if v.is_empty() => written,
            Kind::Str => vs.iter().map(|x| x.matches(v).count()).sum(),
            _ => vs.iter().filter(|x| **x == v).count(),
        };
        if found >= written || exempt(c, i) {
            continue;
        }
        return Some(format!(
            "no Error but {:?} at {}..{} appears nowhere in the returned statements",
            t.0, p.0, p.1
        ));
    }
    None
}

fn value(t: &str) -> &str {
    t.trim_matches(|c| c == '`' || c == '\'' || c == '"')
}

/// The strings and numbers of a Debug string that are not spans.
fn values_of(dbg: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    scan_dbg(dbg, &mut |e| match e {
        Ev::Ch(c) if c.is_ascii_alphanumeric() || c == '_' || c == '.' => cur.push(c),
        e => {
            if cur.starts_with(|c: char| c.is_ascii_digit()) {
                v.push(std::mem::take(&mut cur));
            }
            cur.clear();
            if let Ev::Text(t) = e {
                v.push(t[1..t.len() - 1].to_string());
            }
        }
    });
    v
}

/// Parts of statements for which the tree has no place by design.
fn exempt(c: &Case, i: usize) -> bool {
    let has = |s: &[(&str, Kind)], w: &str| s.iter().any(|t| t.0.eq_ignore_ascii_case(w));
    let before = &c.toks[..i];
    // the quoted body of a PostgreSQL function
    if has(before, "FUNCTION") && has(before, "$$") && has(&c.toks[i..], "$$") {
        return true;
    }
    // table-level foreign keys of CREATE TABLE
    if has(before, "CREATE") && has(before, "TABLE") && has(before, "FOREIGN") {
        let mut depth = 0;
        let mut commas = Vec::new();
        for t in before.iter().rev() {
            match t.0 {
                ")" => depth += 1,
                "(" => depth -= 1,
                "," => commas.push(depth),
                x if x.eq_ignore_ascii_case("FOREIGN") => {
                    if !commas.contains(&depth) {
                        return true;
                    }
                }
                _ => {}
            }
        }
    }
    // EXCEPTION handlers of a block
    has(before, "EXCEPTION") && has(before, "BEGIN")
}
