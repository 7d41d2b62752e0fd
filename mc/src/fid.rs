//! Tree fidelity: for every derivation of the reference grammar the real parser must return exactly
//! the tree of the derivation, with no error, in every dialect that has the construct.
use crate::core::*;
use crate::explore::*;
use crate::grammar::*;

pub struct Root {
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
}
const fn r(rule: &'static str, quick: u32, thorough: u32) -> Root {
    Root {
        rule,
        quick,
        thorough,
    }
}

pub fn roots(prop: &str) -> Vec<Root> {
    match prop {
        "C19" => vec![r("select", 3, 4), r("union", 3, 4), r("with", 3, 4)],
        "C20" => vec![r("insert", 4, 5), r("update", 4, 4), r("delete", 4, 5)],
        "C21" => vec![r("create_table", 4, 5)],
        "C22" => vec![
            r("create_view", 3, 4),
            r("create_index", 5, 6),
            r("create_trigger", 4, 4),
            r("create_function", 3, 4),
            r("create_type", 6, 8),
        ],
        "C23" => vec![r("alter", 4, 5)],
        "C24" => vec![
            r("drop", 6, 6),
            r("truncate", 6, 8),
            r("rename", 6, 8),
            r("set", 4, 5),
            r("signal", 4, 5),
            r("control", 1, 1),
            r("return", 4, 5),
            r("copy", 6, 8),
            r("if", 3, 4),
            r("case", 3, 4),
            r("do", 4, 4),
        ],
        "C25" => vec![r("xstmt", 4, 5)],
        _ => panic!("no roots for {}", prop),
    }
}

pub const DN: [&str; 3] = ["MariaDB", "PostgreSQL", "Sqlite"];

/// First difference of two strings, with context.
pub fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let mut s = n.saturating_sub(70);
    while !a.is_char_boundary(s) || !b.is_char_boundary(s) {
        s -= 1;
    }
    format!(
        "  specified: ...{}\n  returned:  ...{}",
        clip(&a[s..], 200),
        clip(&b[s..], 200)
    )
}

/// Compare one derivation with the parser; None if all is well.
pub fn check(
    d: &Deriv,
    sql: &str,
    pos: &[(usize, usize)],
    opts: Opts,
    o: &Out,
) -> Option<(&'static str, String, String)> {
    let m = 1u8 << opts.dialect;
    if let Some(p) = &o.panic {
        return Some((
            "panic",
            format!("the parser panicked: {}", p),
            String::new(),
        ));
    }
    let bad: Vec<_> = d.restr.iter().filter(|r| r.2 & m == 0).collect();
    if bad.is_empty() {
        if o.errors() > 0 {
            return Some((
                "rejected",
                format!(
                    "valid {} statement is reported as an error",
                    DN[opts.dialect as usize]
                ),
                o.show(),
            ));
        }
        if o.stmts.len() != 1 {
            return Some((
                "lost",
                format!("{} statements returned", o.stmts.len()),
                o.show(),
            ));
        }
        let c = canon(&o.stmts[0].dbg, pos, 0);
        if c != d.tree {
            return Some((
                "tree",
                "the returned tree is not the specified one".into(),
                diff(&d.tree, &c),
            ));
        }
    } else if o.errors() == 0 {
        return Some((
            "accepted",
            format!(
                "construct that {} does not have is accepted without an error",
                DN[opts.dialect as usize]
            ),
            o.show(),
        ));
    } else {
        let (a, b) = (pos[bad[0].0].0, pos[bad[0].1 - 1].1);
        if !o
            .issues
            .iter()
            .any(|i| i.err && i.span.0 < b && a < i.span.1.max(i.span.0 + 1))
        {
            return Some((
                "elsewhere",
                format!(
                    "no error points at the construct {:?} that {} does not have",
                    &sql[a..b],
                    DN[opts.dialect as usize]
                ),
                o.show(),
            ));
        }
    }
    None
}

fn report(w: &Worker, d: &Deriv, sql: &str, pos: &[(usize, usize)], opts: Opts, o: &Out, rule: &str, how: &str) {
    if let Some((key, what, detail)) = check(d, sql, pos, opts, o) {
        w.bad(
            &format!("{}:{}", key, sql.replace(' ', "_")),
            format!("{} (rule {}{})", what, rule, how),
            sql,
            opts,
            Mode::One,
            detail,
        );
    }
}

const TREE: Want = Want {
    dbg: true,
    ..NOTHING
};

/// Names, numbers and strings of unusual length and value, one at a time and all at once.
fn values(ctx: &Ctx, gen: &Gen, r: &Root, budget: u32) -> u64 {
    let all = std::sync::Mutex::new(Vec::new());
    explore_choices(ctx, gen, gen.g.rule(r.rule), budget, |_, d, c| {
        all.lock().unwrap().push((c, d.clone()))
    });
    let mut all = all.into_inner().unwrap();
    all.sort_by(|a, b| a.0.cmp(&b.0));
    let n = std::sync::atomic::AtomicU64::new(0);
    let long = |c: &str, n: usize| c.repeat(n.div_ceil(c.len()));
    let lens = [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025];
    let mut texts: Vec<String> = lens.iter().map(|n| long("q", *n)).collect();
    texts.extend(lens.iter().map(|n| long("x1_", *n)));
    texts.extend(["_", "q_", "_1", "x9", "zZ", "Q"].map(String::from));
    let strs: Vec<String> = lens
        .iter()
        .flat_map(|n| ["a", "é", " ", "0", "; "].map(|c| long(c, *n)))
        .chain(["", "NULL", "-- x", "/*", "SELECT 1", "i1", "?", "%s", "$$", "\u{1F600}", "0x10", "DELIMITER"].map(String::from))
        .collect();
    let ints: Vec<String> = [
        0u64, 1, 2, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295,
        4294967296, 9007199254740993, 9223372036854775807, 9223372036854775808, 18446744073709551614,
        18446744073709551615,
    ]
    .iter()
    .map(|v| v.to_string())
    .collect();
    ctx.each(&all, |w, (c, d)| {
        let count = |k: Kind| d.toks.iter().filter(|t| t.kind == k).count() as u32;
        for (what, vals, k) in [(0, &texts, count(Kind::Id)), (1, &ints, count(Kind::Num)), (2, &strs, count(Kind::Str))] {
            if k == 0 {
                continue;
            }
            for v in vals {
                if w.stop() {
                    return;
                }
                // 0: all at once
                for i in if k == 1 { 0..=0 } else { 0..=k } {
                    let f = |n: u32| (i == 0 || n == i).then(|| v.clone());
                    let no = |_: u32| None;
                    let vs = match what {
                        0 => Values { id: &f, int: &no, str: &no },
                        1 => Values { id: &no, int: &f, str: &no },
                        _ => Values { id: &no, int: &no, str: &f },
                    };
                    let d = gen.derive_with(gen.g.rule(r.rule), c.clone(), Some(&vs));
                    let (sql, pos) = layout(&d.toks);
                    for dialect in (0..3).filter(|x| d.in_dialect(*x)) {
                        let opts = BASE.dialect(dialect);
                        let o = w.run(&sql, opts, Mode::One, TREE);
                        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        // outside expressions, numbers need not be supported beyond 32 bits
                        if what == 1
                            && o.errors() > 0
                            && v.parse::<u64>().unwrap() > u32::MAX as u64
                            && !d.tree.contains(&format!("Integer(({},", v))
                        {
                            continue;
                        }
                        report(w, &d, &sql, &pos, opts, &o, r.rule, ", unusual value");
                    }
                }
            }
        }
    });
    n.into_inner()
}

/// The body of a PostgreSQL function is any text between `$$` and the next `$$`: whatever it is, the
/// tree is that of the function with an empty body, nothing is reported, and parsing goes on after it.
fn bodies(ctx: &Ctx) {
    const CHARS: [&str; 16] = [
        "'", "\"", "`", "\\", "$", "-", "/", "*", ";", "\n", " ", "a", "1", "\u{e9}", "(", "%s",
    ];
    const PARTS: [&str; 22] = [
        "BEGIN", "END", "SELECT", "i1", "'it''s'", "'", "\"a\"", "`", "E'it\\'s'", "-- don't\n", "/* ' */", "/*", "*/",
        "$1", "$q$", ";", "\\.", "@@x", "0x", "LANGUAGE", "\u{1F600}", "DELIMITER",
    ];
    let head = "CREATE FUNCTION i1 ( ) RETURNS INT AS $$";
    let tail = "$$ LANGUAGE PLPGSQL";
    let mut list: Vec<String> = vec![String::new()];
    let mut all: Vec<String> = vec![String::new()];
    for _ in 0..4 + ctx.thorough as usize {
        list = list.iter().flat_map(|b| CHARS.iter().map(move |c| format!("{}{}", b, c))).collect();
        all.extend(list.iter().cloned());
    }
    list = vec![String::new()];
    for _ in 0..3 + ctx.thorough as usize {
        list = list
            .iter()
            .flat_map(|b| PARTS.iter().map(move |c| if b.is_empty() { c.to_string() } else { format!("{} {}", b, c) }))
            .collect();
        all.extend(list.iter().cloned());
    }
    for n in [1usize, 63, 64, 65, 255, 256, 257, 4096, 65537] {
        for c in CHARS.iter().filter(|c| **c != "$") {
            all.push(c.repeat(n));
        }
    }
    all.retain(|b| !b.contains("$$") && !b.ends_with('$'));
    let opts = BASE.dialect(1);
    let warn = Opts { warn_ident: true, warn_kw: true, ..opts };
    let none = format!("{}{}", head, tail);
    let base: std::sync::OnceLock<Option<(Out, Out)>> = std::sync::OnceLock::new();
    ctx.each(&all, |w, body| {
        let Some((own, lint)) = base.get_or_init(|| {
            let a = w.run(&none, opts, Mode::One, FULL);
            let b = w.run(&none, warn, Mode::One, FULL);
            if !a.ok() || a.stmts.len() != 1 {
                w.bad("body", "a function with an empty body is not accepted", &none, opts, Mode::One, a.show());
                return None;
            }
            Some((a, b))
        }) else {
            return;
        };
        let sql = format!("{}{}{}", head, body, tail);
        let moved = |at: usize| if at >= head.len() { at + body.len() } else { at };
        let tree = |dbg: &str, f: &dyn Fn(usize) -> usize| {
            let mut o = String::new();
            scan_dbg(dbg, &mut |ev| match ev {
                Ev::Text(t) => o.push_str(t),
                Ev::Ch(c) => o.push(c),
                Ev::Span(a, b) => o.push_str(&format!("{}..{}", f(a), f(b))),
            });
            o
        };
        w.ctx.state(hash64(body));
        let want = tree(&own.stmts[0].dbg, &moved);
        let o = w.run(&sql, opts, Mode::One, FULL);
        if !o.ok() || o.stmts.len() != 1 {
            w.bad("body", "the text between $$ and $$ is not taken as a body", &sql, opts, Mode::One, o.show());
            return;
        }
        let same = tree(&o.stmts[0].dbg, &|x| x);
        if same != want || !o.issues.is_empty() || o.stmts[0].span != Ok((0, sql.len())) {
            w.bad(
                "body",
                "the body of a function changes the tree or the issues",
                &sql,
                opts,
                Mode::One,
                format!("{}\n{}", diff(&same, &want), o.show()),
            );
        }
        // the lint options do not look into it
        let l = w.run(&sql, warn, Mode::One, FULL);
        let at = |o: &Out, f: &dyn Fn(usize) -> usize| -> Vec<(String, usize, usize)> {
            o.issues.iter().map(|i| (i.message.clone(), f(i.span.0), f(i.span.1))).collect()
        };
        if at(&l, &|x| x) != at(lint, &moved) {
            w.bad("body", "the body of a function changes the warnings", &sql, warn, Mode::One, l.show());
        }
        // in lists, also under another delimiter
        for (pre, d) in [("", ";"), ("DELIMITER $$ ", " $$")] {
            let text = format!("{}{}{}SELECT i2{}", pre, sql, d, d);
            let m = w.run(&text, opts, Mode::Many, FULL);
            let ends = pre.len() + sql.len();
            if !m.ok()
                || m.stmts.len() != 2
                || m.stmts[0].span != Ok((pre.len(), ends))
                || m.stmts[1].span != Ok((ends + d.len(), ends + d.len() + 9))
            {
                w.bad("body", "parsing does not go on after the body of a function", &text, opts, Mode::Many, m.show());
            }
        }
        // left open
        let open = format!("{}{}", head, body);
        let u = w.run(&open, opts, Mode::One, FULL);
        if u.panic.is_some() || u.errors() == 0 {
            w.bad("body", "no Error for a body that is not closed", &open, opts, Mode::One, u.show());
        }
        w.ctx.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    ctx.note("texts between $$ and $$", all.len());
}

/// The string of an INTERVAL is a list of numbers: it is returned as these numbers, or there is an Error at it.
pub fn intervals(ctx: &Ctx) {
    const CHARS: [&str; 11] = ["0", "1", "7", ":", "!", ",", ".", "-", " ", "a", "\u{e9}"];
    const SEPS: [char; 6] = [':', '!', ',', '.', '-', ' '];
    const NUMS: [&str; 22] = [
        "0", "00", "007", "9", "10", "99", "127", "128", "255", "256", "32767", "32768", "65536", "2147483647",
        "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
        "9223372036854775808", "18446744073709551616", "99999999999999999999999999",
    ];
    let mut all: Vec<String> = vec![String::new()];
    let mut list = all.clone();
    for _ in 0..5 + ctx.thorough as usize {
        list = list.iter().flat_map(|b| CHARS.iter().map(move |c| format!("{}{}", b, c))).collect();
        all.extend(list.iter().cloned());
    }
    for s in SEPS {
        for a in NUMS {
            all.push(a.into());
            for b in NUMS {
                all.push(format!("{}{}{}", a, s, b));
                for t in SEPS {
                    all.push(format!("1{}{}{}{}", s, a, t, b));
                }
            }
        }
        for n in TIMES {
            for step in [1usize, 1_000_000_007] {
                let v: Vec<String> = (0..*n).map(|i| (i * step + 1).to_string()).collect();
                all.push(v.join(&s.to_string()));
                for bad in [0, n / 2, n - 1] {
                    let mut v = v.clone();
                    v[bad].push('x');
                    all.push(v.join(&s.to_string()));
                }
            }
        }
    }
    let n = all.len();
    ctx.each(&all, |w, text| {
        let parts: Option<Vec<i64>> = text
            .split(SEPS)
            .map(|p| p.bytes().all(|b| b.is_ascii_digit()).then(|| p.parse().ok()).flatten())
            .collect();
        for (dialect, q) in [(0u8, '\''), (0, '"'), (1, '\''), (2, '\'')] {
            let sql = format!("SELECT i1 + INTERVAL {q}{text}{q} DAY");
            let opts = BASE.dialect(dialect);
            let at = 21usize;
            let o = w.run(&sql, opts, Mode::One, FULL);
            ctx.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let (start, end) = (at, at + text.len() + 2);
            match &parts {
                _ if w.stop() => return,
                Some(p) => {
                    let want: String = format!("time_interval: ({:?}, {}..{})", p, start, end);
                    if !o.ok() || !o.stmts.first().is_some_and(|s| s.dbg.contains(&want)) {
                        w.bad("interval", "the numbers of an interval are not returned", &sql, opts, Mode::One, format!("specified: {}\n{}", want, o.show()));
                    }
                }
                None => {
                    if o.panic.is_some() || !o.issues.iter().any(|i| i.err && i.span.0 >= start && i.span.1 <= end) {
                        w.bad("interval", "an interval that is not a list of numbers has no Error at it", &sql, opts, Mode::One, o.show());
                    }
                }
            }
        }
        w.ctx.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    });
    ctx.note("strings of intervals", n);
}

pub fn run(ctx: &Ctx, prop: &str) {
    let g = load();
    let gen = Gen::new(&g);
    if prop == "C22" {
        bodies(ctx);
    }
    if prop == "C25" {
        intervals(ctx);
    }
    for r in roots(prop) {
        let budget = match r.rule {
            "with" => 1,
            "create_index" | "xstmt" | "alter" | "drop" | "rename" | "signal" | "create_type" => 3,
            _ => 2,
        } + ctx.thorough as u32;
        let t0 = ctx.elapsed();
        let n = pump(ctx, &gen, g.rule(r.rule), budget, 65, 257, |w, d, times| {
            let (sql, pos) = layout(&d.toks);
            for dialect in (0..3).filter(|x| d.in_dialect(*x)) {
                let opts = BASE.dialect(dialect);
                let o = w.run(&sql, opts, Mode::One, TREE);
                report(w, d, &sql, &pos, opts, &o, r.rule, &format!(", repeated {} times", times));
            }
            ctx.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        });
        ctx.note(&format!("derivations of <{}> with at most {} deviations and one stretch repeated up to 257 times", r.rule, budget), n);
        let t1 = ctx.elapsed();
        let budget = 1 + (ctx.thorough && r.rule != "with") as u32;
        let m = values(ctx, &gen, &r, budget);
        ctx.note(&format!("derivations of <{}> with at most {} deviations and unusual values", r.rule, budget), m);
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("{} pump: {} {:.1}s, values: {} {:.1}s", r.rule, n, t1 - t0, m, ctx.elapsed() - t1);
        }
    }
    for r in roots(prop) {
        let budget = if ctx.thorough { r.thorough } else { r.quick };
        all(ctx, &gen, &r, budget, true, "");
    }
    // more features at once, some rules having only their plainest form
    for (r, plain) in deep(prop) {
        let gen = Gen::new(&g).freeze(&plain.split(' ').collect::<Vec<_>>());
        let budget = if ctx.thorough { r.thorough } else { r.quick };
        all(ctx, &gen, &r, budget, false, &format!(", plain: {}", plain));
    }
}

/// Rules explored deeper, and the rules that have only their first form then.
fn deep(prop: &str) -> Vec<(Root, &'static str)> {
    match prop {
        "C19" => vec![
            (r("select", 4, 5), "e le qname trefs sitems"),
            (r("select", 5, 6), "e le qname sitem tprim"),
            (r("union", 5, 6), "e le qname sitem tref sflags where group having locking"),
        ],
        "C20" => vec![
            (r("insert", 7, 8), "e le qname select"),
            (r("update", 6, 7), "e le qname tprim"),
            (r("delete", 5, 6), "e le qname tref where"),
        ],
        "C21" => vec![(r("create_table", 5, 6), "e qname topts cdefs")],
        "C22" => vec![(r("create_trigger", 5, 5), "e qname")],
        "C23" => vec![(r("alter", 5, 6), "e qname aspecs")],
        "C24" => vec![(r("if", 4, 5), "e bsel"), (r("case", 4, 5), "e"), (r("signal", 4, 5), "e")],
        _ => vec![],
    }
}

/// Every derivation of a rule, also with every name the same.
fn all(ctx: &Ctx, gen: &Gen, r: &Root, budget: u32, same: bool, kind: &str) {
        let n = explore(ctx, gen, gen.g.rule(r.rule), budget, |w, d| {
            // the same with every name the same
            let one = if same && d.names() > 1 {
                Some(d.rename(&|_| 1))
            } else {
                None
            };
            for d in [Some(d), one.as_ref()].into_iter().flatten() {
                let (sql, pos) = layout(&d.toks);
                if !ctx.state(hash64(&d.tree)) {
                    // another derivation of the same tree: still executed
                }
                let mut used = false;
                for dialect in 0..3 {
                    if !d.in_dialect(dialect) {
                        continue;
                    }
                    used = true;
                    let opts = BASE.dialect(dialect);
                    let o = w.run(
                        &sql,
                        opts,
                        Mode::One,
                        Want {
                            dbg: true,
                            span: false,
                            display: false, ..NOTHING
                        },
                    );
                    report(w, d, &sql, &pos, opts, &o, r.rule, "");
                }
                if used {
                    ctx.traces
                        .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
                if hash64(&sql) % 4096 == ctx.seed % 4096 {
                    ctx.sample(|| sql.clone());
                }
            }
        });
        ctx.note(
            &format!(
                "derivations of <{}> with at most {} deviations{}",
                r.rule, budget, kind
            ),
            n,
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            println!(
                "{} budget {}{}: {} derivations, {:.1}s",
                r.rule,
                budget,
                kind,
                n,
                ctx.elapsed()
            );
        }
}
