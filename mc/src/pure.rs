//! C28: a result depends on the text and the options only.  C29: spans join, names compare.
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::grammar::*;
use sql_parse::{
    parse_statement, parse_statements, Identifier, Issues, Level, OptSpanned, ParseOptions, SQLArguments, SQLDialect,
    SString, Span, Spanned,
};
use std::borrow::{Borrow, Cow};
use std::sync::atomic::Ordering::Relaxed;

const SEE: Want = Want {
    dbg: true,
    span: false,
    display: true,
    ..NOTHING
};

/// Results are the same.
fn differ(a: &Out, b: &Out) -> Option<String> {
    if a.panic != b.panic {
        return Some(format!("panic {:?} instead of {:?}", b.panic, a.panic));
    }
    if a.stmts.len() != b.stmts.len() || a.stmts.iter().zip(&b.stmts).any(|(x, y)| x.dbg != y.dbg) {
        return Some("other statements".into());
    }
    if a.issues != b.issues {
        return Some("other issues".into());
    }
    if a.display != b.display {
        return Some("issues printed otherwise".into());
    }
    None
}

// ------------------------------------------------------------------------------------------- C28

const CALLS: usize = 13;

/// One call on the options, and what it means.
fn call(k: usize, p: ParseOptions, o: &mut Opts) -> ParseOptions {
    match k {
        0..=2 => {
            o.dialect = k as u8;
            p.dialect(match k {
                0 => SQLDialect::MariaDB,
                1 => SQLDialect::PostgreSQL,
                _ => SQLDialect::Sqlite,
            })
        }
        3..=6 => {
            o.args = k as u8 - 3;
            p.arguments(match k {
                3 => SQLArguments::None,
                4 => SQLArguments::Percent,
                5 => SQLArguments::QuestionMark,
                _ => SQLArguments::Dollar,
            })
        }
        7 | 8 => {
            o.warn_ident = k == 8;
            p.warn_unquoted_identifiers(k == 8)
        }
        9 | 10 => {
            o.warn_kw = k == 10;
            p.warn_none_capital_keywords(k == 10)
        }
        _ => {
            o.list = k == 12;
            p.list_hack(k == 12)
        }
    }
}

const DEFAULT: Opts = Opts {
    dialect: 0,
    args: 0,
    warn_ident: false,
    warn_kw: false,
    list: false,
};

/// Texts whose results tell every combination of options from every other.
const PROBES: [&str; 2] = [
    "SELECT ?; SELECT %s; SELECT $1; SELECT _LIST_; SELECT `a`; SELECT 'x\\n'; SELECT a; select 1;",
    "select \"c\", `b` FROM d WHERE e IN (_LIST_, ?, ?, $2, %s); CREATE OR REPLACE TABLE t (a SERIAL);",
];

fn execute(sql: &str, po: &ParseOptions, mode: Mode, is: &mut Issues<'static>, text: &'static str) -> Vec<String> {
    debug_assert_eq!(sql, text);
    match mode {
        Mode::One => parse_statement(text, is, po).iter().map(|s| format!("{:?}", s)).collect(),
        Mode::Many => parse_statements(text, is, po).iter().map(|s| format!("{:?}", s)).collect(),
    }
}

pub fn c28(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    // every sequence of calls on the options
    let len = if th { 6 } else { 5 };
    let index = |o: &Opts| {
        ((o.dialect as usize * 4 + o.args as usize) * 2 + o.warn_ident as usize) * 4
            + o.warn_kw as usize * 2
            + o.list as usize
    };
    let table: Vec<std::sync::OnceLock<Vec<(Vec<String>, Vec<Iss>)>>> = (0..96).map(|_| Default::default()).collect();
    let look = |po: &ParseOptions| -> Vec<(Vec<String>, Vec<Iss>)> {
        PROBES
            .iter()
            .map(|p| {
                guarded(|| {
                    let mut is = Issues::new(p);
                    let t = execute(p, po, Mode::Many, &mut is, p);
                    (t, convert(&is))
                })
                .unwrap_or_else(|p| (vec![p], Vec::new()))
            })
            .collect()
    };
    for o in all_opts() {
        // the one order of calls all other checks use
        let _ = table[index(&o)].set(look(&o.to_parse()));
    }
    let mut distinct: Vec<_> = table.iter().map(|t| t.get()).collect();
    distinct.sort_by_key(|t| format!("{:?}", t));
    distinct.dedup();
    ctx.note("combinations of options told apart by the probes", format!("{} of 96", distinct.len()));
    let roots: Vec<usize> = (0..CALLS * CALLS + 1).collect();
    ctx.each(&roots, |w, r| {
        // sequences of fewer than two calls are root 0
        let mut todo: Vec<Vec<usize>> = if *r == 0 {
            std::iter::once(vec![]).chain((0..CALLS).map(|k| vec![k])).collect()
        } else {
            vec![vec![(r - 1) / CALLS, (r - 1) % CALLS]]
        };
        while let Some(seq) = todo.pop() {
            if w.stop() {
                return;
            }
            let mut o = DEFAULT;
            let mut p = if seq.len() % 2 == 0 { ParseOptions::new() } else { ParseOptions::default() };
            for k in &seq {
                p = call(*k, p, &mut o);
            }
            ctx.transitions.fetch_add(1, Relaxed);
            ctx.traces.fetch_add(1, Relaxed);
            ctx.state(hash64(index(&o)));
            let d = match p.get_dialect() {
                SQLDialect::MariaDB => 0,
                SQLDialect::PostgreSQL => 1,
                SQLDialect::Sqlite => 2,
            };
            let got = look(&p);
            let also = look(&p.clone());
            let fault = if d != o.dialect {
                Some("get_dialect does not return the dialect that was set last")
            } else if Some(&got) != table[index(&o)].get() {
                Some("the order of the calls that set the options, or a call that was overridden, matters")
            } else if also != got {
                Some("a clone of the options behaves differently")
            } else {
                None
            };
            if let Some(f) = fault {
                w.bad(
                    &format!("calls:{:?}", seq),
                    f,
                    PROBES[0],
                    o,
                    Mode::Many,
                    format!("calls {:?}\n{:?}\ninstead of\n{:?}", seq, got, table[index(&o)].get()),
                );
                return;
            }
            if *r > 0 && seq.len() < len {
                for k in 0..CALLS {
                    let mut x = seq.clone();
                    x.push(k);
                    todo.push(x);
                }
            }
        }
    });
    ctx.note(
        &format!("sequences of up to {} calls on the options", len),
        (0..=len as u32).map(|n| 13u64.pow(n)).sum::<u64>(),
    );

    // actions: a text under some options in one of the two forms
    let mut texts: Vec<String> = Vec::new();
    for d in collect(ctx, &gen, "stmt", 0, |_| true) {
        let (s, _) = layout(&d.toks);
        texts.push(s.clone());
        texts.push(format!("{};", s));
        let t: Vec<&str> = s.split(' ').collect();
        if t.len() > 2 {
            texts.push(format!("{};{};", t[..t.len() / 2].join(" "), t[t.len() / 2..].join(" ")));
        }
    }
    texts.extend(
        [
            "",
            "SELECT ?, $1, %s, _LIST_, ?;SELECT ?;",
            "DELIMITER $$ SELECT 1$$",
            "DELIMITER $$ BEGIN SELECT 1; ",
            "COPY t (a) FROM STDIN;\na\n\\.\nSELECT 1;",
            "COPY t (a) FROM STDIN;\na\n",
            "SELECT 'open",
            "SELECT `open",
            "SELECT /* open",
            "DO $$ BEGIN SELECT 1;",
            "IF a THEN COMMIT; END IF",
            "select `a`, B from é",
            "SELECT 'it''s' 'a\\n'",
            "SELECT @@GLOBAL.a, @@session.time_zone, @b",
            "SELECT 99999999999999999999999, 1.5",
            "SELECT ((((((a))))))",
            "SELECT ((((((a)))",
            "DELIMITER + COMMIT + DELIMITER } COMMIT }",
            "DELIMITER",
            "select 1 from",
        ]
        .map(|s| s.to_string()),
    );
    let variants = [
        BASE,
        Opts {
            args: 3,
            warn_ident: true,
            ..BASE.dialect(1)
        },
        Opts {
            args: 1,
            warn_kw: true,
            list: true,
            ..BASE.dialect(2)
        },
    ];
    let actions: Vec<(&str, Opts, Mode)> = texts
        .iter()
        .flat_map(|t| {
            variants
                .iter()
                .flat_map(move |o| [Mode::One, Mode::Many].map(|m| (t.as_str(), *o, m)))
        })
        .collect();
    let fresh: Vec<std::sync::OnceLock<Out>> = actions.iter().map(|_| Default::default()).collect();
    let all: Vec<usize> = (0..actions.len()).collect();
    let act = |w: &Worker, k: usize| {
        let (s, o, m) = actions[k];
        w.run(s, o, m, SEE)
    };
    ctx.each(&all, |w, k| {
        let _ = fresh[*k].set(act(w, *k));
    });
    let same = |w: &Worker, path: &[usize], got: &Out| -> bool {
        let k = *path.last().unwrap();
        let Some(f) = differ(fresh[k].get().unwrap(), got) else {
            return true;
        };
        let (s, o, m) = actions[k];
        w.bad(
            &format!("history:{:?}", path),
            format!("earlier parses change the result: {}", f),
            s,
            o,
            m,
            format!(
                "after {:?}\n{}\nat first:\n{}",
                path[..path.len() - 1].iter().map(|k| actions[*k]).collect::<Vec<_>>(),
                got.show(),
                fresh[k].get().unwrap().show()
            ),
        );
        false
    };
    ctx.each(&all, |w, a| {
        for b in 0..actions.len() {
            act(w, *a);
            ctx.transitions.fetch_add(1, Relaxed);
            let o = act(w, b);
            ctx.traces.fetch_add(1, Relaxed);
            if !same(w, &[*a, b], &o) {
                return;
            }
        }
    });
    ctx.note("histories of two parses", actions.len() * actions.len());
    let few: Vec<usize> = (0..actions.len()).filter(|k| th || k % 4 == 0).collect();
    ctx.each(&few, |w, a| {
        for b in &few {
            for c in &few {
                for k in [a, b] {
                    act(w, *k);
                }
                ctx.transitions.fetch_add(1, Relaxed);
                let o = act(w, *c);
                ctx.traces.fetch_add(1, Relaxed);
                if !same(w, &[*a, *b, *c], &o) {
                    return;
                }
            }
            if w.stop() {
                return;
            }
        }
    });
    ctx.note("histories of three parses", few.len().pow(3));
    // the same parse again and again
    ctx.each(&all, |w, k| {
        for n in 0..if th { 3000 } else { 300 } {
            let o = act(w, *k);
            ctx.transitions.fetch_add(1, Relaxed);
            if !same(w, &vec![*k; n + 2], &o) {
                return;
            }
        }
    });
    ctx.note("parses repeated", actions.len());

    // every statement, and each with a word left out: twice in a row, and once more in the other order
    let many = collect(ctx, &gen, "stmt", if th { 3 } else { 2 }, |_| true);
    let seen: Vec<std::sync::atomic::AtomicU64> = many.iter().map(|_| Default::default()).collect();
    let sum = |o: &Out| {
        let t: Vec<&str> = o.stmts.iter().map(|s| s.dbg.as_str()).collect();
        hash64(&format!("{:?}{:?}{:?}{:?}", t, o.issues, o.display, o.panic))
    };
    let forms = |d: &Deriv, k: usize| {
        let (s, _) = layout(&d.toks);
        let t: Vec<&str> = s.split(' ').collect();
        let mut v = vec![s.clone(), s.to_lowercase()];
        v.extend((0..t.len()).map(|k| [&t[..k], &t[k + 1..]].concat().join(" ")));
        v.into_iter().enumerate().map(move |(n, s)| {
            let o = Opts { args: ((k + n) % 4) as u8, warn_ident: n % 3 == 1, warn_kw: n % 3 < 2, list: n % 2 == 0, ..BASE.dialect((n % 3) as u8) };
            (s, o, if (n + k) % 2 == 0 { Mode::One } else { Mode::Many })
        })
    };
    let ids: Vec<usize> = (0..many.len()).collect();
    ctx.each(&ids, |w, k| {
        let mut h = 1u64;
        for (s, o, m) in forms(&many[*k], *k) {
            if w.stop() {
                return;
            }
            let a = w.run(&s, o, m, SEE);
            let b = w.run(&s, o, m, SEE);
            ctx.transitions.fetch_add(2, Relaxed);
            ctx.traces.fetch_add(1, Relaxed);
            if let Some(f) = differ(&a, &b) {
                w.bad(&format!("again:{}", s), format!("the same text again: {}", f), &s, o, m, format!("{}\nat first:\n{}", b.show(), a.show()));
                return;
            }
            h = hash64(&(h, sum(&a)));
        }
        seen[*k].store(h, Relaxed);
    });
    let ids: Vec<usize> = (0..many.len()).rev().collect();
    ctx.each(&ids, |w, k| {
        let mut h = 1u64;
        let mut last = None;
        for (s, o, m) in forms(&many[*k], *k) {
            let a = w.run(&s, o, m, SEE);
            ctx.transitions.fetch_add(1, Relaxed);
            h = hash64(&(h, sum(&a)));
            last = Some((s, o, m, a));
        }
        let before = seen[*k].load(Relaxed);
        if let Some((s, o, m, a)) = last.filter(|_| before != 0 && before != h) {
            if !w.stop() {
                w.bad(&format!("later:{}", s), format!("{:?}, or the same with a word left out, has another result later", s), &s, o, m, a.show());
            }
        }
    });
    ctx.note("statements, and each without each of its words, parsed twice and then in the reverse order", many.len());

    // issues that hold something already, and texts that are part of a longer one
    let base = collect(ctx, &gen, "stmt", if th { 2 } else { 1 }, |_| true);
    ctx.each(&base, |w, d| {
        let (s, _) = layout(&d.toks);
        let t: Vec<&str> = s.split(' ').collect();
        let mut v = vec![s.clone(), format!("{} ;", s), s.to_lowercase()];
        for k in 0..t.len() {
            let mut x = t.clone();
            x.remove(k);
            v.push(x.join(" "));
        }
        for (n, s) in v.iter().enumerate() {
            for (k, o) in variants.iter().enumerate() {
                if w.stop() {
                    return;
                }
                let one = w.run(s, *o, Mode::One, SEE);
                let many = w.run(s, *o, Mode::Many, SEE);
                if one.panic.is_some() || many.panic.is_some() {
                    continue;
                }
                ctx.transitions.fetch_add(1, Relaxed);
                // inside a longer text
                let big = format!("SELECT 'é{}' ; \\. $$ {}", &s, &s);
                let at = "SELECT 'é".len();
                for (m, want) in [(Mode::One, &one), (Mode::Many, &many)] {
                    let o2 = w.run(&big[at..at + s.len()], *o, m, SEE);
                    if let Some(f) = differ(want, &o2) {
                        w.bad(
                            &format!("inside:{}", s),
                            format!("what surrounds the text in memory changes the result: {}", f),
                            s,
                            *o,
                            m,
                            o2.show(),
                        );
                        return;
                    }
                }
                // into issues that are not empty
                let po = o.to_parse();
                let own = (n + k) % 3;
                let end = s.len();
                let r = guarded(|| {
                    let mut is = Issues::new(s);
                    for j in 0..own {
                        if j == 0 {
                            is.warn("mine", &(0..end)).frag("part", &(end..end));
                        } else {
                            is.err(format!("mine {}", j), &(0..0));
                        }
                    }
                    let before = convert(&is);
                    let ok0 = is.is_ok();
                    let a: Vec<String> = parse_statement(s, &mut is, &po).iter().map(|x| format!("{:?}", x)).collect();
                    let b: Vec<String> = parse_statements(s, &mut is, &po).iter().map(|x| format!("{:?}", x)).collect();
                    let c: Vec<String> = parse_statement(s, &mut is, &po).iter().map(|x| format!("{:?}", x)).collect();
                    let ok1 = is.is_ok();
                    let got = convert(&is);
                    let vec: Vec<_> = is.get().to_vec();
                    let same_vec = is.into_vec() == vec;
                    (before, ok0, a, b, c, ok1, got, same_vec)
                });
                let trees = |o: &Out| o.stmts.iter().map(|s| s.dbg.clone()).collect::<Vec<_>>();
                let fault = match r {
                    Err(p) => Some(format!("panic {}", p)),
                    Ok((before, ok0, a, b, c, ok1, got, same_vec)) => {
                        let want: Vec<Iss> = before
                            .iter()
                            .chain(&one.issues)
                            .chain(&many.issues)
                            .chain(&one.issues)
                            .cloned()
                            .collect();
                        if a != trees(&one) || b != trees(&many) || c != trees(&one) {
                            Some("issues that hold something change the parsed statements".into())
                        } else if got != want {
                            Some("the issues of a parse are not those it reports alone, added to the ones there".into())
                        } else if ok0 != before.is_empty() || ok1 != want.is_empty() || !same_vec {
                            Some("is_ok or into_vec do not say what the issues are".into())
                        } else {
                            None
                        }
                    }
                };
                ctx.traces.fetch_add(1, Relaxed);
                if let Some(f) = fault {
                    w.bad(&format!("reuse:{}:{}", own, s), f, s, *o, Mode::One, one.show());
                    return;
                }
            }
        }
    });
    ctx.note("statements, and each without each of its words, parsed into used issues", base.len());
}

// ------------------------------------------------------------------------------------------- C29

fn hull(v: &[Span]) -> Option<Span> {
    let a = v.iter().map(|s| s.start).min()?;
    let b = v.iter().map(|s| s.end).max()?;
    Some(a..b)
}

pub fn c29(ctx: &Ctx) {
    let n = if ctx.thorough { 9 } else { 6 };
    let spans: Vec<Span> = (0..=n).flat_map(|a| (a..=n).map(move |b| a..b)).collect();
    let opts: Vec<Option<Span>> = std::iter::once(None).chain(spans.iter().cloned().map(Some)).collect();
    let id = |s: &Span| Identifier::new("n", s.clone());
    let fail = |w: &Worker, what: &str, args: String, got: String, want: String| {
        w.bad(
            &format!("{}:{}", what, args),
            format!("{} of {} is {}, not {}", what, args, got, want),
            "",
            BASE,
            Mode::One,
            String::new(),
        );
    };
    ctx.each(&spans, |w, a| {
        let eq = |what: &str, args: String, got: Option<Span>, want: Option<Span>| {
            w.ctx.transitions.fetch_add(1, Relaxed);
            w.ctx.traces.fetch_add(1, Relaxed);
            if got != want {
                fail(w, what, args, format!("{:?}", got), format!("{:?}", want));
            }
        };
        let g = |f: &mut dyn FnMut()| {
            if let Err(p) = guarded(f) {
                fail(w, "span", format!("{:?}", a), format!("panic {}", p), "a span".into());
            }
        };
        g(&mut || {
            let own = Some(a.clone());
            eq("span", format!("{:?}", a), Some(a.span()), own.clone());
            eq("span of a box", format!("{:?}", a), Some(Box::new(a.clone()).span()), own.clone());
            eq("opt_span", format!("{:?}", a), a.opt_span(), own.clone());
            eq("span of a name", format!("{:?}", a), Some(id(a).span()), own.clone());
            eq(
                "span of a string",
                format!("{:?}", a),
                Some(SString::new("s".into(), a.clone()).span()),
                own.clone(),
            );
            eq("span of (usize, _)", format!("{:?}", a), Some((9usize, a.clone()).span()), own.clone());
            eq("span of (usize, usize, _)", format!("{:?}", a), Some((9usize, 0usize, a.clone()).span()), own.clone());
            eq("span of (u32, _)", format!("{:?}", a), Some((9u32, a.clone()).span()), own.clone());
            eq("span of (u64, _)", format!("{:?}", a), Some((9u64, a.clone()).span()), own.clone());
            eq("span of (f64, _)", format!("{:?}", a), Some((9f64, a.clone()).span()), own.clone());
            eq("span of (bool, _)", format!("{:?}", a), Some((true, a.clone()).span()), own.clone());
            eq("span of (&str, _)", format!("{:?}", a), Some(("x", a.clone()).span()), own.clone());
            eq("span of (Cow, _)", format!("{:?}", a), Some((Cow::from("x"), a.clone()).span()), own.clone());
        });
        for b in &opts {
            let all: Vec<Span> = std::iter::once(a.clone()).chain(b.clone()).collect();
            let h = hull(&all);
            let args = format!("{:?}, {:?}", a, b);
            g(&mut || {
                eq("join_span", args.clone(), Some(a.join_span(b)), h.clone());
                eq("join_span of a name", args.clone(), Some(id(a).join_span(b)), h.clone());
                eq("join_span of a box", args.clone(), Some(Box::new(a.clone()).join_span(b)), h.clone());
                eq("opt_join_span", args.clone(), a.opt_join_span(b), h.clone());
                eq("opt_join_span turned round", args.clone(), b.opt_join_span(a), h.clone());
                eq("opt_join_span of an option", args.clone(), Some(a.clone()).opt_join_span(b), h.clone());
                eq("span of a pair", args.clone(), Some((a.clone(), b.clone()).span()), h.clone());
                if let Some(b) = b {
                    eq("join_span", args.clone(), Some(a.join_span(b)), h.clone());
                    eq("join_span turned round", args.clone(), Some(b.join_span(a)), h.clone());
                    eq("join_span with a name", args.clone(), Some(a.join_span(&id(b))), h.clone());
                }
            });
            for c in &opts {
                let mut all = all.clone();
                all.extend(c.clone());
                let h = hull(&all);
                let args = format!("{:?}, {:?}, {:?}", a, b, c);
                let v: Vec<Span> = b.clone().into_iter().chain(c.clone()).collect();
                let vo = vec![b.clone(), c.clone()];
                g(&mut || {
                    eq("span of a triple", args.clone(), Some((a.clone(), b.clone(), c.clone()).span()), h.clone());
                    eq("join_span with a list", args.clone(), Some(a.join_span(&v)), h.clone());
                    eq("join_span with a list of options", args.clone(), Some(a.join_span(&vo)), h.clone());
                    eq("opt_span of a list", args.clone(), v.opt_span(), hull(&v));
                    eq("opt_span of a slice", args.clone(), v[..].opt_span(), hull(&v));
                    eq("opt_span of a list of options", args.clone(), vo.opt_span(), hull(&v));
                    eq("opt_join_span of a list", args.clone(), v.opt_join_span(a), h.clone());
                    eq("opt_join_span of options", args.clone(), b.opt_join_span(c), hull(&v));
                    let names: Vec<Identifier> = all.iter().map(id).collect();
                    eq("opt_span of names", args.clone(), names.opt_span(), h.clone());
                    eq("opt_span of a slice of names", args.clone(), names[..].opt_span(), h.clone());
                    for k in 0..3 {
                        let mut three = [Some(a.clone()), b.clone(), c.clone()];
                        three.rotate_left(k);
                        let list = three.to_vec();
                        eq("opt_span of a slice of three options", args.clone(), three[..].opt_span(), h.clone());
                        eq("opt_span of a list of three options", args.clone(), list.opt_span(), h.clone());
                        eq("opt_join_span with a list of options", args.clone(), a.opt_join_span(&list), h.clone());
                    }
                });
                w.ctx.state(hash64(&args));
            }
        }
    });
    ctx.note("spans, each joined with every pair of spans or nothing", spans.len());
    // long lists of spans, in every rotation
    let lens: Vec<usize> = (0..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect();
    ctx.each(&lens, |w, n| {
        for at in 0..(*n).max(1) {
            let v: Vec<Span> = (0..*n).map(|k| (k + at) % n).map(|k| 3 * k..3 * k + 2).collect();
            let mut r = v.clone();
            r.reverse();
            for v in [v, r] {
                let some: Vec<Option<Span>> =
                    v.iter().flat_map(|s| [None, Some(s.clone()), None]).collect();
                let got = guarded(|| (v.opt_span(), v[..].opt_span(), some.opt_span(), some[..].opt_span()));
                w.ctx.transitions.fetch_add(1, Relaxed);
                let h = hull(&v);
                if got != Ok((h.clone(), h.clone(), h.clone(), h)) {
                    fail(w, "opt_span", format!("{} spans from {}", n, at), format!("{:?}", got), format!("{:?}", hull(&v)));
                    return;
                }
            }
        }
    });
    // names
    let cs = ["", "a", "B", "b", "_", "0", "é", "`", "A"];
    let mut words = vec![String::new()];
    for _ in 0..3 {
        words = words.iter().flat_map(|a| cs.iter().map(move |c| format!("{}{}", a, c))).collect();
    }
    words.sort();
    words.dedup();
    ctx.each(&words, |w, a| {
        for (k, b) in words.iter().enumerate() {
            w.ctx.transitions.fetch_add(1, Relaxed);
            w.ctx.traces.fetch_add(1, Relaxed);
            let x = Identifier::new(a, 1..2);
            let y = Identifier::new(b, if k % 2 == 0 { 1..2 } else { 0..k });
            let args = format!("{:?} and {:?}", a, b);
            if (x == y) != (a == b) || (x != y) != (a != b) {
                fail(w, "equality", args, format!("{}", x == y), format!("{}", a == b));
                return;
            }
            if x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) || (x < y) != (a < b) {
                fail(w, "order", args, format!("{:?}", x.cmp(&y)), format!("{:?}", a.cmp(b)));
                return;
            }
        }
        let i = Identifier::new(a, 3..5);
        let bo: &str = i.borrow();
        let de: &str = &i;
        for (what, got, want) in [
            ("as_str", i.as_str().to_string(), a.to_string()),
            ("value", i.value.to_string(), a.to_string()),
            ("borrow", bo.to_string(), a.to_string()),
            ("deref", de.to_string(), a.to_string()),
            ("display", format!("{}", i), a.to_string()),
            ("padded display", format!("{:>6}|{:-<5}|{:.1}", i, i, i), format!("{:>6}|{:-<5}|{:.1}", a, a, a)),
            ("span", format!("{:?}", i.span), "3..5".into()),
        ] {
            if got != want {
                fail(w, what, format!("the name {:?}", a), got, want);
            }
        }
        for s in [SString::new(Cow::Borrowed(a), 3..5), SString::new(Cow::Owned(a.clone()), 3..5)] {
            let de: &str = &s;
            if s.as_str() != a || de != a || s.value != *a || s.span != (3..5) {
                fail(w, "value", format!("the string {:?}", a), s.as_str().into(), a.clone());
            }
        }
    });
    ctx.note("pairs of names compared", words.len() * words.len());
    // levels and dialects
    if !(Level::Warning < Level::Error && Level::Error > Level::Warning && Level::Error == Level::Error) {
        ctx.violation(Violation {
            key: "levels".into(),
            what: "an Error is not above a Warning".into(),
            sql: String::new(),
            opts: BASE,
            mode: Mode::One,
            detail: String::new(),
        });
    }
    for (k, d) in [SQLDialect::MariaDB, SQLDialect::PostgreSQL, SQLDialect::Sqlite].iter().enumerate() {
        if [d.is_maria(), d.is_postgresql(), d.is_sqlite()] != [k == 0, k == 1, k == 2] {
            ctx.violation(Violation {
                key: format!("dialect:{}", k),
                what: "a dialect does not say which one it is".into(),
                sql: String::new(),
                opts: BASE.dialect(k as u8),
                mode: Mode::One,
                detail: String::new(),
            });
        }
    }
}
