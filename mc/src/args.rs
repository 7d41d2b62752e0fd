//! C10: query placeholders are recognised and numbered in source order.
use crate::core::*;
use crate::explore::*;
use crate::fid::diff;
use crate::grammar::*;
use std::sync::atomic::Ordering::Relaxed;

/// Placeholder nodes of a Debug string: number and span.
pub fn args_of(dbg: &str) -> Vec<(usize, (usize, usize), bool)> {
    let mut flat = String::with_capacity(dbg.len());
    let mut spans = Vec::new();
    scan_dbg(dbg, &mut |e| match e {
        Ev::Ch(c) => flat.push(c),
        Ev::Text(_) => flat.push('\''),
        Ev::Span(a, b) => {
            flat.push('@');
            spans.push((a, b));
        }
    });
    let mut v = Vec::new();
    for (key, hack) in [("Arg((", false), ("ListHack((", true)] {
        let mut from = 0;
        while let Some(p) = flat[from..].find(key) {
            let p = from + p;
            from = p + key.len();
            if p > 0 && flat.as_bytes()[p - 1].is_ascii_alphanumeric() {
                continue;
            }
            let d: String = flat[from..]
                .chars()
                .take_while(|c| c.is_ascii_digit())
                .collect();
            let n = flat[..from].matches('@').count();
            v.push((d.parse().unwrap_or(usize::MAX), spans[n], hack));
        }
    }
    v.sort_by_key(|a| a.1);
    v
}

const STYLES: [&str; 4] = ["", "%s", "?", "$"];

fn spell(style: u8, n: usize) -> String {
    if style == 3 {
        format!("${}", n + 1)
    } else {
        STYLES[style as usize].into()
    }
}

pub fn c10(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let deep = ctx.thorough as u32;
    // the grammar's own placeholders, in each style, under each selected style
    let budget = 3 + deep;
    let n = explore(ctx, &gen, g.rule("stmt"), budget, |w, d| {
        let at: Vec<usize> = (0..d.toks.len())
            .filter(|i| d.toks[*i].kind == Kind::Arg)
            .collect();
        if at.is_empty() {
            return;
        }
        ctx.state(hash64(&d.tree));
        for dialect in 0..3u8 {
            if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                continue;
            }
            for spelt in 1..4u8 {
                let mut toks = d.toks.clone();
                for (n, i) in at.iter().enumerate() {
                    toks[*i].text = spell(spelt, n);
                }
                let (sql, pos) = layout(&toks);
                for chosen in 0..4u8 {
                    let opts = Opts {
                        args: chosen,
                        list: hash64(&sql) % 2 == 0,
                        ..BASE.dialect(dialect)
                    };
                    let o = w.run(
                        &sql,
                        opts,
                        Mode::One,
                        Want {
                            dbg: true,
                            span: false,
                            display: false, ..NOTHING
                        },
                    );
                    ctx.traces.fetch_add(1, Relaxed);
                    if chosen == spelt {
                        if !o.ok() || o.stmts.len() != 1 {
                            w.bad(
                                &format!("rejected:{}", sql),
                                "a placeholder of the selected style is not accepted",
                                &sql,
                                opts,
                                Mode::One,
                                o.show(),
                            );
                            continue;
                        }
                        let got = canon(&o.stmts[0].dbg, &pos, 0);
                        if got != d.tree {
                            w.bad(&format!("number:{}", sql), "placeholders are not returned as arguments numbered in source order", &sql, opts, Mode::One, diff(&d.tree, &got));
                        }
                    } else {
                        let turned = o.stmts.iter().any(|s| !args_of(&s.dbg).is_empty());
                        if o.panic.is_some() || o.errors() == 0 || turned {
                            w.bad(&format!("style:{}", sql), "a placeholder of another style than the selected one is not refused", &sql, opts, Mode::One, o.show());
                        }
                    }
                }
            }
            // numbers of $n are its own, whatever the order
            let opts = Opts {
                args: 3,
                ..BASE.dialect(dialect)
            };
            let ns: [&[usize]; 3] = [&[7], &[3, 2, 1], &[1000000, 1, 18446744073709551615]];
            for nn in ns {
                let mut toks = d.toks.clone();
                let mut want = d.tree.clone();
                for (n, i) in at.iter().enumerate() {
                    let v = nn[n % nn.len()];
                    toks[*i].text = format!("${}", v);
                    want = want.replace(
                        &format!("Arg(({},@{}..{}", n, i, i + 1),
                        &format!("Arg(({},@{}..{}", v - 1, i, i + 1),
                    );
                }
                let (sql, pos) = layout(&toks);
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                let got = o
                    .stmts
                    .first()
                    .map(|s| canon(&s.dbg, &pos, 0))
                    .unwrap_or_default();
                if !o.ok() || got != want {
                    w.bad(
                        &format!("dollar:{}", sql),
                        "$n is not returned as argument n-1",
                        &sql,
                        opts,
                        Mode::One,
                        diff(&want, &got),
                    );
                }
            }
            // any of them as list placeholders, in each style; with $n those alone are numbered
            for mask in 1..1usize << at.len().min(4) {
                for style in [2u8, 1, 3] {
                    let mut toks = d.toks.clone();
                    let mut want = d.tree.clone();
                    let mut lists = 0;
                    let mut plain = false;
                    for (n, k) in at.iter().enumerate() {
                        if n > 3 || mask >> n & 1 == 0 {
                            toks[*k].text = spell(style, n);
                            continue;
                        }
                        toks[*k].text = "_LIST_".into();
                        let from = format!("Arg(({},@{}..{}", n, k, k + 1);
                        let num = if style == 3 { lists } else { n };
                        lists += 1;
                        // a place that takes a plain placeholder only
                        plain |= !want.contains(&from);
                        want = want.replace(&from, &format!("ListHack(({},@{}..{}", num, k, k + 1));
                    }
                    if plain {
                        continue;
                    }
                    let (sql, pos) = layout(&toks);
                    let opts = Opts {
                        args: style,
                        list: true,
                        ..BASE.dialect(dialect)
                    };
                    let o = w.run(&sql, opts, Mode::One, Want { dbg: true, ..NOTHING });
                    let got = o
                        .stmts
                        .first()
                        .map(|s| canon(&s.dbg, &pos, 0))
                        .unwrap_or_default();
                    if !o.ok() || got != want {
                        w.bad(
                            &format!("list:{}", sql),
                            "_LIST_ is not returned as a list argument numbered in source order",
                            &sql,
                            opts,
                            Mode::One,
                            diff(&want, &got),
                        );
                    }
                }
            }
        }
    });
    ctx.note(
        &format!("derivations of <stmt> with at most {} deviations", budget),
        n,
    );
    // any one or two words replaced by placeholders: each must come back once, in order
    let repl = |w: &Worker, d: &Deriv, at: &[usize]| {
        for style in [2u8, 1, 3] {
            let mut toks = d.toks.clone();
            for (n, i) in at.iter().enumerate() {
                toks[*i].text = spell(style, n);
                toks[*i].kind = Kind::Arg;
            }
            let holes: Vec<usize> = (0..toks.len())
                .filter(|i| toks[*i].kind == Kind::Arg)
                .collect();
            for (n, i) in holes.iter().enumerate() {
                toks[*i].text = spell(style, n);
            }
            let (sql, pos) = layout(&toks);
            // the text of a quoted function body is not kept
            let quoted = |i: usize| toks[..i].iter().filter(|t| t.text == "$$").count() % 2 == 1;
            for dialect in 0..3u8 {
                if holes.iter().any(|i| quoted(*i))
                    || !d.in_dialect(dialect)
                    || (dialect > 0 && style != 2)
                {
                    continue;
                }
                let opts = Opts {
                    args: style,
                    ..BASE.dialect(dialect)
                };
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                ctx.transitions.fetch_add(1, Relaxed);
                if o.panic.is_some() || o.errors() > 0 {
                    continue;
                }
                ctx.traces.fetch_add(1, Relaxed);
                let got: Vec<_> = o.stmts.iter().flat_map(|s| args_of(&s.dbg)).collect();
                let want: Vec<_> = holes
                    .iter()
                    .enumerate()
                    .map(|(n, i)| (n, pos[*i], false))
                    .collect();
                if got != want {
                    w.bad(
                        &format!("order:{}", sql),
                        "placeholders are not returned once each, numbered in source order",
                        &sql,
                        opts,
                        Mode::One,
                        format!(
                            "specified (number, span): {:?}\nreturned: {:?}\n{}",
                            want,
                            got,
                            o.show()
                        ),
                    );
                }
            }
        }
    };
    let n = explore(ctx, &gen, g.rule("stmt"), 2 + deep, |w, d| {
        for i in 0..d.toks.len() {
            if matches!(d.toks[i].kind, Kind::Id | Kind::Num | Kind::Str | Kind::Kw) {
                repl(w, d, &[i]);
            }
        }
    });
    ctx.note(
        &format!(
            "derivations of <stmt> with at most {} deviations, each word replaced by a placeholder",
            2 + deep
        ),
        n,
    );
    let n = explore(ctx, &gen, g.rule("stmt"), 1 + deep, |w, d| {
        let at: Vec<usize> = (0..d.toks.len())
            .filter(|i| matches!(d.toks[*i].kind, Kind::Id | Kind::Num | Kind::Str))
            .collect();
        repl(w, d, &at);
        for (k, i) in at.iter().enumerate() {
            for j in &at[k + 1..] {
                repl(w, d, &[*i, *j]);
            }
        }
    });
    ctx.note(&format!("derivations of <stmt> with at most {} deviations, each pair of words replaced by placeholders", 1 + deep), n);
    // every operand of every expression a placeholder
    let operands = |w: &Worker, d: &Deriv| {
        let mut toks = d.toks.clone();
        let mut want = d.tree.clone();
        let mut n = 0;
        let mut holes = Vec::new();
        for i in 0..toks.len() {
            let t = &toks[i];
            let node = match t.kind {
                Kind::Id => format!(
                    "Identifier([Name(Identifier{{value:\"{}\",span:@{}..{}}})])",
                    t.text.trim_matches('`'),
                    i,
                    i + 1
                ),
                Kind::Num => format!("Integer(({},@{}..{}))", t.text, i, i + 1),
                Kind::Str => format!(
                    "String(SString{{value:\"{}\",span:@{}..{}}})",
                    t.text.trim_matches('\''),
                    i,
                    i + 1
                ),
                Kind::Arg => String::new(),
                _ => continue,
            };
            let to = format!("Arg(({},@{}..{}))", n, i, i + 1);
            if t.kind == Kind::Arg {
                // renumbered: counted from the end of the tree's own numbers
                let own = d.toks[..i].iter().filter(|t| t.kind == Kind::Arg).count();
                want = want.replace(&format!("Arg(({},@{}..{}))", own, i, i + 1), &to);
            } else if want.contains(&node) {
                want = want.replace(&node, &to);
            } else {
                continue;
            }
            toks[i].kind = Kind::Arg;
            holes.push(i);
            n += 1;
        }
        if n < 2 {
            return;
        }
        for style in [2u8, 1, 3] {
            for (n, i) in holes.iter().enumerate() {
                toks[*i].text = spell(style, n);
            }
            let (sql, pos) = layout(&toks);
            for dialect in 0..3u8 {
                if !d.in_dialect(dialect) || !d.accepted_in(dialect) || (dialect > 0 && style != 2) {
                    continue;
                }
                let opts = Opts {
                    args: style,
                    ..BASE.dialect(dialect)
                };
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        ..NOTHING
                    },
                );
                ctx.transitions.fetch_add(1, Relaxed);
                let got = o
                    .stmts
                    .first()
                    .map(|s| canon(&s.dbg, &pos, 0))
                    .unwrap_or_default();
                if !o.ok() || got != want {
                    w.bad(
                        &format!("operands:{}", sql),
                        "placeholders as operands are not returned as arguments numbered in source order",
                        &sql,
                        opts,
                        Mode::One,
                        diff(&want, &got),
                    );
                }
            }
        }
    };
    for (rule, budget) in [("stmt", 2), ("xstmt", 3)] {
        let n = explore(ctx, &gen, g.rule(rule), budget + deep, |w, d| operands(w, d));
        ctx.note(&format!("derivations of <{}> with at most {} deviations, every operand a placeholder", rule, budget + deep), n);
    }
    for (rule, budget) in [("stmt", 1), ("xstmt", 2)] {
        let n = pump(ctx, &gen, g.rule(rule), budget + deep, 65, 257, |w, d, _| operands(w, d));
        ctx.note(&format!("derivations of <{}> with at most {} deviations and one stretch repeated up to 257 times, every operand a placeholder", rule, budget + deep), n);
    }
    // numbering continues over the statements of a list
    let base = crate::corpus::collect(ctx, &gen, "stmt", 1, |d| {
        d.in_dialect(0)
            && d.accepted_in(0)
            && d.toks.iter().any(|t| t.kind == Kind::Arg)
            && d.toks[0].text != "COPY"
    });
    let small: Vec<Deriv> = base.iter().take(12).cloned().collect();
    ctx.each(&base, |w, a| {
        for b in &base {
            for c in [None].into_iter().chain(small.iter().map(Some)) {
                for style in [2u8, 1, 3] {
                    let mut sql = String::new();
                    let mut want = Vec::new();
                    for (k, d) in [Some(a), Some(b), c].into_iter().flatten().enumerate() {
                        let mut toks = d.toks.clone();
                        let base = want.len();
                        let mut own = 0;
                        for t in toks.iter_mut().filter(|t| t.kind == Kind::Arg) {
                            t.text = spell(style, own);
                            own += 1;
                        }
                        let (s, p) = layout(&toks);
                        let off = sql.len();
                        for (n, i) in (0..toks.len())
                            .filter(|i| toks[*i].kind == Kind::Arg)
                            .enumerate()
                        {
                            let num = if style == 3 { n } else { base + n };
                            want.push((num, (p[i].0 + off, p[i].1 + off), false));
                        }
                        sql.push_str(&s);
                        sql.push_str([" ; ", ";", ";\n;"][k]);
                    }
                    let opts = Opts {
                        args: style,
                        ..BASE
                    };
                    let o = w.run(
                        &sql,
                        opts,
                        Mode::Many,
                        Want {
                            dbg: true,
                            span: false,
                            display: false, ..NOTHING
                        },
                    );
                    ctx.traces.fetch_add(1, Relaxed);
                    ctx.transitions.fetch_add(1, Relaxed);
                    let got: Vec<_> = o.stmts.iter().flat_map(|s| args_of(&s.dbg)).collect();
                    if !o.ok() || got != want {
                        w.bad(
                            &format!("continue:{}", sql),
                            "placeholders are not numbered through the statements of a list",
                            &sql,
                            opts,
                            Mode::Many,
                            format!(
                                "specified (number, span): {:?}\nreturned: {:?}\n{}",
                                want,
                                got,
                                o.show()
                            ),
                        );
                        return;
                    }
                }
            }
        }
    });
    // and over whatever stands between them
    let between: &[[&str; 3]] = &[
        ["", " ; DELIMITER $$ ", " $$"],
        ["DELIMITER $$ ", " $$ DELIMITER ; ", " ;"],
        ["DELIMITER $$ ", " $$ ", "$$ DELIMITER ;"],
        ["DELIMITER } ", " } ", "} DELIMITER ;"],
        ["", ";COPY t ( a ) FROM STDIN ;\n? %s $1\n\\.\n", ";"],
        ["", "; -- ? %s $1\n/* ? %s $1 */ SELECT '?%s$1' , `a` ; COMMIT ;", ";"],
        ["COMMIT;", ";COMMIT;;BEGIN;", ";"],
    ];
    ctx.each(&base, |w, a| {
        for b in &base {
            for t in between {
                for style in [2u8, 1, 3] {
                    if [a, b].iter().any(|d| d.toks.iter().any(|t| t.text == "$$")) {
                        continue;
                    }
                    let mut sql = String::new();
                    let mut want = Vec::new();
                    for (k, d) in [a, b].into_iter().enumerate() {
                        sql.push_str(t[k]);
                        let mut toks = d.toks.clone();
                        let base = want.len();
                        let mut own = 0;
                        for t in toks.iter_mut().filter(|t| t.kind == Kind::Arg) {
                            t.text = spell(style, own);
                            own += 1;
                        }
                        let (s, p) = layout(&toks);
                        let holes = (0..toks.len()).filter(|i| toks[*i].kind == Kind::Arg);
                        for (n, i) in holes.enumerate() {
                            let num = if style == 3 { n } else { base + n };
                            want.push((num, (p[i].0 + sql.len(), p[i].1 + sql.len()), false));
                        }
                        sql.push_str(&s);
                    }
                    sql.push_str(t[2]);
                    let opts = Opts {
                        args: style,
                        ..BASE
                    };
                    let o = w.run(&sql, opts, Mode::Many, Want { dbg: true, ..NOTHING });
                    ctx.traces.fetch_add(1, Relaxed);
                    ctx.transitions.fetch_add(1, Relaxed);
                    let got: Vec<_> = o.stmts.iter().flat_map(|s| args_of(&s.dbg)).collect();
                    if !o.ok() || got != want {
                        w.bad(
                            &format!("between:{}", sql),
                            "placeholders are not numbered through the statements of a list",
                            &sql,
                            opts,
                            Mode::Many,
                            format!("specified (number, span): {:?}\nreturned: {:?}\n{}", want, got, o.show()),
                        );
                        return;
                    }
                }
            }
        }
    });
    ctx.note("kinds of text between two statements with placeholders", between.len());
}
