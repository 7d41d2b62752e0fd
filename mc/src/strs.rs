//! C08: string literals decode to the value they denote.
use crate::core::*;
use crate::explore::*;
use crate::fid::diff;
use crate::grammar::*;
use crate::ops::{Cut, Frame};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Debug, PartialEq)]
pub enum Lits {
    /// the whole text is adjacent literals with this value; end of the last one
    Value(String, usize),
    Unterminated,
    Other,
}

/// Independent reading of a text that starts with a quote.
pub fn literals(text: &str, backslash: bool) -> Lits {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let mut i = 0;
    let mut v = String::new();
    let mut end = 0;
    loop {
        while i < cs.len() && " \t\r\n".contains(cs[i].1) {
            i += 1;
        }
        if i == cs.len() {
            return Lits::Value(v, end);
        }
        let q = cs[i].1;
        if q != '\'' && q != '"' {
            return Lits::Other;
        }
        i += 1;
        loop {
            let Some(&(p, c)) = cs.get(i) else {
                return Lits::Unterminated;
            };
            i += 1;
            if c == '\\' && backslash {
                let Some(&(_, e)) = cs.get(i) else {
                    return Lits::Unterminated;
                };
                i += 1;
                match e {
                    'n' => v.push('\n'),
                    't' => v.push('\t'),
                    'r' => v.push('\r'),
                    '0' => v.push('\0'),
                    'b' => v.push('\x08'),
                    'Z' => v.push('\x1a'),
                    '%' => v.push_str("\\%"),
                    '_' => v.push_str("\\_"),
                    e => v.push(e),
                }
            } else if c == q {
                if cs.get(i).map(|x| x.1) == Some(q) {
                    v.push(q);
                    i += 1;
                } else {
                    end = p + 1;
                    break;
                }
            } else {
                v.push(c);
            }
        }
    }
}

/// Double quotes are those of a name for PostgreSQL.
fn has_name(text: &str) -> bool {
    name_at(text).is_some()
}

fn name_at(text: &str) -> Option<usize> {
    let mut q = None;
    for (p, c) in text.char_indices() {
        match q {
            None if c == '"' => return Some(p),
            None if c == '\'' => q = Some(c),
            Some(x) if x == c => q = None,
            _ => {}
        }
    }
    None
}

/// Judge `SELECT <text>` (or another frame).
fn judge(w: &Worker, cut: &Cut, text: &str, opts: Opts) {
    let h = cut.pre.len();
    if opts.dialect == 1 && has_name(text) {
        // a name after literals is not one of them
        if let (Some(p), Lits::Value(..)) = (name_at(text).filter(|p| *p > 0), literals(text, false)) {
            if let Lits::Value(v, _) = literals(&text[..p], false) {
                let sql = format!("{} {}", cut.pre.join(" "), text);
                let o = w.run(&sql, opts, Mode::One, FULL);
                w.ctx.traces.fetch_add(1, Relaxed);
                let same = o.stmts.len() == 1 && o.stmts[0].dbg.contains(&format!("value: {:?}", v));
                if o.panic.is_some() || o.ok() && !same {
                    w.bad(
                        &format!("name-in-value:{}", sql),
                        format!("a name that follows a literal is read as part of its value {:?}", v),
                        &sql,
                        opts,
                        Mode::One,
                        o.show(),
                    );
                }
            }
        }
        return;
    }
    match literals(text, opts.dialect == 0) {
        Lits::Other => {}
        Lits::Unterminated => {
            let sql = format!("{} {}", cut.pre.join(" "), text);
            let o = w.run(&sql, opts, Mode::One, Want::default());
            if o.panic.is_some() || o.errors() == 0 {
                w.bad(
                    &format!("unterminated:{}", sql),
                    "a literal that does not end is accepted without an error",
                    &sql,
                    opts,
                    Mode::One,
                    o.show(),
                );
            }
        }
        Lits::Value(v, end) => {
            let c = crate::ops::Case {
                toks: vec![text[..end].to_string()],
                tree: format!("String(SString{{value:{:?},span:@{}..{}}})", v, h, h + 1),
            };
            let (sql, pos, want) = cut.fill(&c);
            w.ctx.traces.fetch_add(1, Relaxed);
            w.ctx.state(hash64(&v));
            let o = w.run(
                &sql,
                opts,
                Mode::One,
                Want {
                    dbg: true,
                    span: false,
                    display: false, ..NOTHING
                },
            );
            if o.ok() && o.stmts.len() == 1 {
                let got = canon(&o.stmts[0].dbg, &pos, 0);
                if got != want {
                    w.bad(
                        &format!("value:{}", sql),
                        format!(
                            "the literal {:?} does not have the value {:?}",
                            &text[..end],
                            v
                        ),
                        &sql,
                        opts,
                        Mode::One,
                        diff(&want, &got),
                    );
                }
            } else {
                w.bad(
                    &format!("rejected:{}", sql),
                    format!("the literal {:?} is not accepted", &text[..end]),
                    &sql,
                    opts,
                    Mode::One,
                    o.show(),
                );
            }
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let cuts: Vec<Cut> = (0..3)
        .filter_map(|d| {
            Cut::new(
                &Frame {
                    pre: "SELECT",
                    post: "",
                },
                BASE.dialect(d),
            )
            .ok()
        })
        .collect();
    if cuts.len() < 3 {
        ctx.violation(Violation {
            key: "frame".into(),
            what: "a plain SELECT of a name is not accepted".into(),
            sql: "SELECT zz".into(),
            opts: BASE,
            mode: Mode::One,
            detail: String::new(),
        });
        return;
    }
    // every text over an alphabet, up to a length, that starts with a quote
    let t = ctx.thorough as usize;
    let alphabets: &[(&[char], usize)] = &[
        (&['\'', '"', '\\', 'n', 'a', ' '], 8 + t),
        (&['\'', '\\', '0', 'é', '\n', '%', '_', 'Z', 't'], 7 + t),
        (&['"', '\'', '\\'], 13 + 2 * t),
        (
            &[
                '\'', '"', '\\', '\r', '\0', '𝄞', 'b', 'r', '-', '/', '*', '#', ';', '$', '`', '?',
                '\u{1a}', '\u{feff}',
            ],
            5 + t,
        ),
    ];
    for (al, n) in alphabets {
        let mut roots = Vec::new();
        for q in ['\'', '"'] {
            for a in *al {
                for b in *al {
                    roots.push(format!("{}{}{}", q, a, b));
                }
            }
        }
        ctx.each(&roots, |w, r| {
            let mut stack = vec![(r.clone(), 3)];
            while let Some((s, k)) = stack.pop() {
                if w.stop() {
                    return;
                }
                for d in 0..3u8 {
                    if d == 2 && k + 1 >= *n {
                        continue; // the two dialects without escapes, one step shallower
                    }
                    judge(w, &cuts[d as usize], &s, BASE.dialect(d));
                }
                ctx.transitions.fetch_add(1, Relaxed);
                if k < *n {
                    for c in *al {
                        let mut x = s.clone();
                        x.push(*c);
                        stack.push((x, k + 1));
                    }
                }
            }
        });
        ctx.note(
            &format!(
                "every text of up to {} characters of {:?} after a quote",
                n, al
            ),
            "all",
        );
    }
    // every character, escaped, plain, doubled, at the ends and in the middle
    let cs: Vec<char> = (0u32..0x3000)
        .chain(0xd7f0..0xe010)
        .chain(0xfff0..0x10010)
        .chain(0x1f600..0x1f610)
        .chain([0x10ffff])
        .filter_map(char::from_u32)
        .collect();
    ctx.each(&cs, |w, c| {
        for q in ['\'', '"'] {
            for s in [
                format!("{q}{c}{q}"),
                format!("{q}\\{c}{q}"),
                format!("{q}{c}{c}{q}"),
                format!("{q}a{c}b{q}"),
                format!("{q}a\\{c}b{q}"),
                format!("{q}\\{c}\\{c}{q}"),
                format!("{q}\\\\{c}{q}"),
                format!("{q}{q}{q}{c}{q}"),
                format!("{q}x\\{c}{q}  {q}{c}y{q}"),
                format!("{q}x{c}{q} {q}{q} 'z'\n\"w\\{c}\""),
            ] {
                for d in 0..3u8 {
                    judge(w, &cuts[d as usize], &s, BASE.dialect(d));
                }
            }
        }
    });
    ctx.note("characters tried plain, escaped and doubled", cs.len());
    // long literals: every pair of pieces, the first many times, at every distance
    let pieces = [
        "a", "é", "𝄞", " ", "\n", "''", "\"\"", "\\'", "\\\"", "\\\\", "\\n", "\\%", "\\q", "\\0", "\0", "--", "/*", ";",
        "'' ''", "\"\" \"\"",
    ];
    let times: Vec<usize> = (1..=if ctx.thorough { 600 } else { 140 })
        .chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537])
        .collect();
    ctx.each(&times, |w, n| {
        let n = *n;
        for (i, p) in pieces.iter().enumerate() {
            let many = p.repeat(n);
            for (j, r) in pieces.iter().enumerate() {
                if n > 5000 && (i * 7 + j) % 5 > 0 {
                    continue;
                }
                for q in ['\'', '"'] {
                    for s in [
                        format!("{q}{many}{r}{q}"),
                        format!("{q}{r}{many}{q}"),
                        format!("{q}{many}{r}z{r}{many}{q}"),
                        format!("{q}{r}{q} {q}{many}{q}\n{q}{r}{q}"),
                    ] {
                        for d in 0..3u8 {
                            if d == 2 && (i + j + n) % 3 > 0 {
                                continue;
                            }
                            judge(w, &cuts[d as usize], &s, BASE.dialect(d));
                        }
                        ctx.transitions.fetch_add(1, Relaxed);
                    }
                }
                if w.stop() {
                    return;
                }
            }
        }
    });
    ctx.note(
        "long literals: each pair of pieces, the first of them up to 65537 times",
        format!("{} pieces x {} counts", pieces.len(), times.len()),
    );
    // every place of the grammar that takes a string
    let lits: &[&str] = &[
        "''",
        "\"\"",
        "'it''s'",
        "\"it's\"",
        "\"say \"\"hi\"\"\"",
        "'a\\nb'",
        "'\\\\'",
        "'a\\'",
        "'a\\'b'",
        "'a' 'b'",
        "\"a\"\n'b' 'c''d'",
        "'x\\%y\\_z\\q'",
        "'é\\é𝄞'",
        "'; -- /* '",
        "'a\nb'",
        "'\\0\\Z\\b\\t\\r'",
        "'$$'",
        "'?'",
    ];
    let budget = 2 + ctx.thorough as u32;
    let n = explore(ctx, &gen, g.rule("stmt"), budget, |w, d| {
        if !d.toks.iter().any(|t| t.kind == Kind::Str) {
            return;
        }
        for dialect in 0..3u8 {
            if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                continue;
            }
            let opts = BASE.dialect(dialect);
            // one literal throughout (in turn), so that neighbours differ
            for k in 0..lits.len() {
                let mut toks = d.toks.clone();
                let mut want = d.tree.clone();
                let mut any = false;
                for (j, t) in toks.iter_mut().enumerate() {
                    if t.kind != Kind::Str || !t.text.starts_with("'s") {
                        continue;
                    }
                    let key = format!(
                        "value:\"{}\",span:@{}..{}",
                        t.text.trim_matches('\''),
                        j,
                        j + 1
                    );
                    if !want.contains(&key) {
                        continue;
                    }
                    let l = lits[(k + j) % lits.len()];
                    if dialect == 1 && has_name(l) {
                        continue;
                    }
                    let Lits::Value(v, _) = literals(l, dialect == 0) else {
                        continue;
                    };
                    want = want.replace(&key, &format!("value:{:?},span:@{}..{}", v, j, j + 1));
                    t.text = l.into();
                    any = true;
                }
                if !any {
                    continue;
                }
                let (sql, pos) = layout(&toks);
                // adjacent strings of the statement itself would merge
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                ctx.traces.fetch_add(1, Relaxed);
                if !o.ok() || o.stmts.len() != 1 {
                    w.bad(
                        &format!("place-rejected:{}", sql),
                        "a string literal is not accepted where strings are",
                        &sql,
                        opts,
                        Mode::One,
                        o.show(),
                    );
                    continue;
                }
                let got = canon(&o.stmts[0].dbg, &pos, 0);
                if got != want {
                    w.bad(
                        &format!("place:{}", sql),
                        "a string literal is not returned with its value",
                        &sql,
                        opts,
                        Mode::One,
                        diff(&want, &got),
                    );
                }
            }
        }
    });
    ctx.note(&format!("derivations of <stmt> with at most {} deviations, each string in turn every one of {} literals", budget, lits.len()), n);
}
