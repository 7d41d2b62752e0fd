//! C05: spans of error-free statements.
use crate::core::*;
use crate::explore::*;
use crate::grammar::*;
use std::sync::atomic::Ordering::Relaxed;

const NODES: Want = Want {
    nodes: true,
    hulls: true,
    ..FULL
};

/// Lay the tokens out with the given separators in turn (never empty between words).
pub fn layout_with(
    toks: &[Tok],
    seps: &[&str],
    first: &str,
    last: &str,
) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from(first);
    let mut p = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(seps[i % seps.len()]);
        }
        let a = s.len();
        s.push_str(&t.text);
        p.push((a, s.len()));
    }
    s.push_str(last);
    (s, p)
}

/// Identifier, literal and placeholder nodes of a Debug string with their recorded text and span.
fn leaves(dbg: &str) -> Vec<(char, String, (usize, usize))> {
    let mut v = Vec::new();
    let mut flat = String::new();
    let mut texts: Vec<String> = Vec::new();
    let mut spans: Vec<(usize, usize)> = Vec::new();
    scan_dbg(dbg, &mut |e| match e {
        Ev::Ch(c) => flat.push(c),
        Ev::Text(t) => {
            flat.push('\u{1}');
            texts.push(t[1..t.len() - 1].to_string());
        }
        Ev::Span(a, b) => {
            flat.push('\u{2}');
            spans.push((a, b));
        }
    });
    // number of texts/spans before each position
    let (mut nt, mut ns) = (0, 0);
    let cs: Vec<char> = flat.chars().collect();
    let s: String = cs.iter().collect();
    let starts = |i: usize, p: &str| s[char_off(&s, &cs, i)..].starts_with(p);
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\u{1}' => nt += 1,
            '\u{2}' => ns += 1,
            'I' if starts(i, "Identifier{value:\u{1},span:\u{2}") => {
                v.push(('i', texts[nt].clone(), spans[ns]))
            }
            'S' if starts(i, "SString{value:\u{1},span:\u{2}") => {
                v.push(('s', texts[nt].clone(), spans[ns]))
            }
            _ => {}
        }
        i += 1;
    }
    v
}

fn char_off(_s: &str, _cs: &[char], i: usize) -> usize {
    // everything outside string literals is ASCII
    i
}

pub fn fault(sql: &str, pos: &[(usize, usize)], toks: &[Tok], st: &Stmt) -> Option<String> {
    let sp = match &st.span {
        Ok(s) => *s,
        Err(p) => return Some(format!("span() panicked: {}", p)),
    };
    let i = pos.binary_search_by(|p| p.0.cmp(&sp.0)).ok();
    let j = pos.binary_search_by(|p| p.1.cmp(&sp.1)).ok();
    let (Some(i), Some(j)) = (i, j) else {
        return Some(format!(
            "the statement's span {:?} does not run from token to token",
            sp
        ));
    };
    // what is not kept in the tree has no span: a quoted function body, and the parts of a FOREIGN
    // KEY constraint of CREATE TABLE
    let unkept = |k: usize| match toks[k].text.as_str() {
        "AS" => {
            toks.get(k + 1).is_some_and(|t| t.text == "$$") && toks[toks.len() - 1].text == "$$"
        }
        "FOREIGN" => {
            toks[0].text == "CREATE" && toks[1..5.min(toks.len())].iter().any(|t| t.text == "TABLE")
        }
        _ => false,
    };
    let end = (j + 1..toks.len())
        .find(|k| unkept(*k))
        .unwrap_or(toks.len());
    if toks[..i].iter().any(|t| t.text != "(")
        || toks[j + 1..end]
            .iter()
            .any(|t| t.text != ")" && t.text != "(")
    {
        return Some(format!(
            "the statement's span is that of {:?}, leaving out {:?} and {:?}",
            clip(&sql[sp.0..sp.1], 200),
            &sql[..sp.0],
            &sql[sp.1..]
        ));
    }
    for (a, b) in spans_of(&st.dbg) {
        let (Ok(x), Ok(y)) = (
            pos.binary_search_by(|p| p.0.cmp(&a)),
            pos.binary_search_by(|p| p.1.cmp(&b)),
        ) else {
            return Some(format!(
                "inner span {}..{} does not run from token to token",
                a, b
            ));
        };
        if y < x {
            return Some(format!("inner span {}..{} is backwards", a, b));
        }
        if a < sp.0 || b > sp.1 {
            // closing parentheses may be left out of the statement
            if !toks[..i.min(x)].is_empty() && x < i
                || y > j
                    && toks[j + 1..=y]
                        .iter()
                        .any(|t| t.text != ")" && t.text != "(")
            {
                return Some(format!(
                    "inner span {}..{} ({:?}) lies outside the statement's span {:?}",
                    a,
                    b,
                    &sql[a..b],
                    sp
                ));
            }
        }
    }
    match &st.nodes {
        Err(p) => return Some(format!("span() of a node panicked: {}", p)),
        Ok(v) => {
            for n in v {
                if n.2.is_some_and(|h| h != n.1) {
                    return Some(format!(
                        "the span of a {} is {}..{} ({:?}), that of its parts together {:?}",
                        n.0,
                        n.1 .0,
                        n.1 .1,
                        &sql[n.1 .0..n.1 .1],
                        n.2.map(|h| &sql[h.0..h.1])
                    ));
                }
            }
        }
    }
    for (k, text, (a, b)) in leaves(&st.dbg) {
        let src = &sql[a..b];
        let plain = src.trim_matches(|c| c == '`' || c == '"' || c == '\'');
        if k == 'i' && plain != text {
            return Some(format!("identifier {:?} has the span of {:?}", text, src));
        }
        if k == 's'
            && plain != text
            && !(src.len() > text.len() + 2
                && text.starts_with(&plain[..plain.find(['\'', '"']).unwrap_or(0)]))
        {
            return Some(format!("string {:?} has the span of {:?}", text, src));
        }
    }
    None
}

pub fn c05(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let budget = if ctx.thorough { 4 } else { 3 };
    let covered = |w: &Worker, d: &Deriv| {
        for dialect in 0..3 {
            if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                continue;
            }
            let h = hash64(&d.tree);
            ctx.state(h);
            let opts = BASE.dialect(dialect);
            let layouts: &[(&[&str], &str, &str)] = &[
                (&[" "], "", ""),
                (&["\n", " /* é */ ", "\t"], "-- ü\n", " // ß"),
            ];
            for (k, l) in layouts.iter().enumerate() {
                if k as u64 != h % 2 && !ctx.thorough {
                    continue;
                }
                let (sql, pos) = layout_with(&d.toks, l.0, l.1, l.2);
                let o = w.run(&sql, opts, Mode::One, NODES);
                if !o.ok() || o.stmts.len() != 1 {
                    continue;
                }
                ctx.traces.fetch_add(1, Relaxed);
                if let Some(f) = fault(&sql, &pos, &d.toks, &o.stmts[0]) {
                    w.bad(
                        &format!("span:{}", layout(&d.toks).0.replace(' ', "_")),
                        f,
                        &sql,
                        opts,
                        Mode::One,
                        o.show(),
                    );
                }
            }
        }
    };
    let n = explore(ctx, &gen, g.rule("stmt"), budget, covered);
    ctx.note(
        &format!("derivations of <stmt> with at most {} deviations", budget),
        n,
    );
    for (rule, budget) in [("stmt", 1), ("xstmt", 2)] {
        let budget = budget + ctx.thorough as u32;
        let n = pump(ctx, &gen, g.rule(rule), budget, 33, 33, |w, d, _| covered(w, d));
        ctx.note(&format!("derivations of <{}> with at most {} deviations and one stretch repeated up to 33 times", rule, budget), n);
    }
    // lists: in order, apart, each covering its own statement
    let base = crate::corpus::collect(ctx, &gen, "stmt", 1, |d| {
        d.in_dialect(0) && d.accepted_in(0) && d.toks[0].text != "COPY"
    });
    ctx.each(&base, |w, a| {
        for b in &base {
            if w.stop() {
                return;
            }
            let semi = Tok {
                text: ";".into(),
                kind: Kind::Punct,
            };
            let toks: Vec<Tok> = a
                .toks
                .iter()
                .chain([&semi])
                .chain(&b.toks)
                .chain([&semi])
                .cloned()
                .collect();
            let (sql, pos) = layout(&toks);
            let o = w.run(&sql, BASE, Mode::Many, NODES);
            ctx.transitions.fetch_add(1, Relaxed);
            if !o.ok() || o.stmts.len() != 2 {
                continue;
            }
            let n = a.toks.len();
            for (st, r) in o.stmts.iter().zip([0..n, n + 1..n + 1 + b.toks.len()]) {
                // a statement's share of the text, as if it stood there alone
                let (from, to) = (pos[r.start].0, pos[r.end - 1].1);
                let sh: Vec<(usize, usize)> = pos[r.clone()].to_vec();
                let f = match st.span {
                    Ok(s) if s.0 < from || s.1 > to => Some(format!(
                        "span {:?} of a statement leaves its text {}..{}",
                        s, from, to
                    )),
                    _ => fault_in(&sql, &sh, &toks[r], st),
                };
                if let Some(f) = f {
                    w.bad(
                        &format!("span:{}", sql.replace(' ', "_")),
                        f,
                        &sql,
                        BASE,
                        Mode::Many,
                        o.show(),
                    );
                }
            }
        }
    });
    inner(ctx, &gen);
}

/// The parts of a statement that have a span of their own: name and token range (from/to relative to
/// the construct that is varied).
fn parts(st: &sql_parse::Statement) -> Vec<(&'static str, (usize, usize))> {
    use sql_parse::{CreateDefinition, Spanned, Statement};
    let mut v = Vec::new();
    let mut add = |n, s: sql_parse::Span| v.push((n, (s.start, s.end)));
    match st {
        Statement::Select(s) => match (&s.table_references, &s.where_, &s.order_by) {
            (None, ..) => {
                add("the select item", s.select_exprs[0].span());
                add("the expression", s.select_exprs[0].expr.span());
            }
            (_, Some((e, _)), _) => add("the condition", e.span()),
            (Some(t), ..) => add("the table reference", t[0].span()),
        },
        Statement::CreateTable(t) => {
            add("the column definition", t.create_definitions[0].span());
            if let CreateDefinition::ColumnDefinition { data_type, .. } = &t.create_definitions[0] {
                add("the data type", data_type.span());
            }
        }
        Statement::AlterTable(t) => add("the alteration", t.alter_specifications[0].span()),
        _ => {}
    }
    v
}

fn inner(ctx: &Ctx, gen: &Gen) {
    let deep = ctx.thorough as u32;
    let frames: &[(&str, &str, u32, &str, bool)] = &[
        ("x", "SELECT ", 2 + deep, "", false),
        ("x", "SELECT 1 FROM t WHERE ", 2 + deep, "", false),
        ("tref", "SELECT 1 FROM ", 3 + deep, "", false),
        ("coltype", "CREATE TABLE t ( c ", 3 + deep, " )", true),
        ("aspec", "ALTER TABLE t ", 3 + deep, "", false),
    ];
    for (rule, pre, budget, post, col) in frames {
        let n = explore(ctx, gen, gen.g.rule(rule), *budget, |w, d| {
            for dialect in 0..3 {
                if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                    continue;
                }
                let opts = BASE.dialect(dialect);
                let (sql, pos) = layout_with(&d.toks, &[" "], pre, post);
                let got = w.parse(&sql, opts, Mode::One, |st, iss| {
                    (st.len() == 1 && iss.is_ok()).then(|| parts(&st[0]))
                });
                let got = match got {
                    Ok(Some(g)) => g,
                    Ok(None) => continue,
                    Err(p) => {
                        w.bad(
                            "inner-panic",
                            format!("panic: {}", p),
                            &sql,
                            opts,
                            Mode::One,
                            String::new(),
                        );
                        continue;
                    }
                };
                ctx.traces.fetch_add(1, Relaxed);
                for (name, (a, b)) in got {
                    // the column's name belongs to the definition
                    let from = if *col && name == "the column definition" {
                        pre.len() - 2
                    } else {
                        pos[0].0
                    };
                    let to = pos[pos.len() - 1].1;
                    // parentheses around and closing the construct may be left out; the word EXISTS has no
                    // place in the tree
                    let head = if a >= from { sql.get(from..a) } else { None };
                    let tail = if b <= to { sql.get(b..to) } else { None };
                    let fine = |s: Option<&str>| {
                        s.is_some_and(|s| {
                            s.replace("EXISTS", "").chars().all(|c| "() ".contains(c))
                        })
                    };
                    if !(a < b && fine(head) && fine(tail)) {
                        w.bad(
                            &format!("inner:{}", sql.replace(' ', "_")),
                            format!(
                                "the span of {} is that of {:?}, not of {:?}",
                                name,
                                sql.get(a..b),
                                &sql[from..to]
                            ),
                            &sql,
                            opts,
                            Mode::One,
                            String::new(),
                        );
                    }
                }
            }
        });
        ctx.note(
            &format!(
                "derivations of <{}> in {:?}, spans of inner nodes",
                rule,
                format!("{}..{}", pre, post)
            ),
            n,
        );
    }
}

fn fault_in(sql: &str, pos: &[(usize, usize)], toks: &[Tok], st: &Stmt) -> Option<String> {
    fault(sql, pos, toks, st)
}
