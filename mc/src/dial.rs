//! C18, C26, C27 and the function names of C25.
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::fid;
use crate::grammar::*;
use crate::stress::{edits_at, vocabulary, SMALL};
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;

const TREES: Want = Want {
    dbg: true,
    span: false,
    display: false, ..NOTHING
};

fn toks_of(d: &Deriv) -> Vec<(&str, Kind)> {
    d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect()
}

// ------------------------------------------------------------------------------------------- C18

/// Inside the quoted body of a function, which is not looked at.
fn opaque(d: &Deriv, i: usize) -> bool {
    let has = |s: &[Tok], t: &str| s.iter().any(|x| x.text == t);
    has(&d.toks, "FUNCTION") && has(&d.toks[..i], "$$") && has(&d.toks[i..], "$$")
}

pub fn c18(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    let restricted = std::sync::atomic::AtomicU64::new(0);
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 4 } else { 3 }, |w, d| {
        w.ctx.state(hash64(&d.tree));
        let (sql, pos) = layout(&d.toks);
        let mut first: Option<(u8, Out)> = None;
        for dialect in 0..3 {
            if !d.in_dialect(dialect) {
                continue;
            }
            let opts = BASE.dialect(dialect);
            let o = w.run(&sql, opts, Mode::One, TREES);
            w.ctx.traces.fetch_add(1, Relaxed);
            let mut bad = fid::check(d, &sql, &pos, opts, &o);
            if !d.accepted_in(dialect) {
                restricted.fetch_add(1, Relaxed);
            } else if bad.is_none() {
                match &first {
                    None => first = Some((dialect, o)),
                    Some((d0, o0)) => {
                        if o0.issues != o.issues || o0.stmts[0].dbg != o.stmts[0].dbg {
                            bad = Some((
                                "differs",
                                format!(
                                    "{} and {} disagree about a statement common to both",
                                    fid::DN[*d0 as usize],
                                    fid::DN[dialect as usize]
                                ),
                                format!("{}\n{}", o0.show(), o.show()),
                            ));
                        }
                    }
                }
            }
            if let Some((key, what, detail)) = bad {
                w.bad(
                    &format!("{}:{}:{}", key, dialect, sql.replace(' ', "_")),
                    what,
                    &sql,
                    opts,
                    Mode::One,
                    detail,
                );
            }
        }
    });
    ctx.note("derivations compared between dialects", n);
    ctx.note(
        "of them with a construct the dialect lacks",
        restricted.load(Relaxed),
    );
    // the two quotings of names
    let quoted = std::sync::atomic::AtomicU64::new(0);
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 3 } else { 2 }, |w, d| {
        let ids: Vec<usize> = (0..d.toks.len())
            .filter(|i| d.toks[*i].kind == Kind::Id)
            .collect();
        for which in ids.iter().map(|i| vec![*i]).chain([ids.clone()]) {
            for (q, dialects) in [('`', [0u8, 1, 2].as_slice()), ('"', &[1])] {
                let mut e = d.clone();
                for i in &ids {
                    // names not quoted here are bare
                    let bare = e.toks[*i].text.trim_matches('`').to_string();
                    e.toks[*i].text = if which.contains(i) {
                        format!("{}{}{}", q, bare, q)
                    } else {
                        bare
                    };
                }
                let (sql, pos) = layout(&e.toks);
                for &dialect in dialects {
                    if d.plain & (1 << dialect) == 0 || !d.accepted_in(dialect) || w.stop() {
                        continue;
                    }
                    quoted.fetch_add(1, Relaxed);
                    w.ctx.transitions.fetch_add(1, Relaxed);
                    if dialect == 1 && which.iter().any(|i| opaque(d, *i)) {
                        continue;
                    }
                    // PostgreSQL has no variables of this kind, and so no quoting of their names
                    if dialect == 1
                        && which
                            .iter()
                            .any(|i| *i > 1 && d.toks[i - 2].text.starts_with("@@"))
                    {
                        continue;
                    }
                    let opts = BASE.dialect(dialect);
                    let o = w.run(&sql, opts, Mode::One, TREES);
                    let bad = if q == '`' && dialect == 1 {
                        match &o.panic {
                            Some(p) => Some(format!("panic {}", p)),
                            None => which.iter().find_map(|i| {
                                let p = pos[*i];
                                let hit = |s: (usize, usize)| s.0 < p.1 && p.0 < s.1.max(s.0 + 1);
                                let hit = o.issues.iter().any(|x| x.err && hit(x.span));
                                (!hit && which.len() == 1).then(|| {
                                    format!(
                                        "PostgreSQL has no Error at the backtick-quoted {}",
                                        e.toks[*i].text
                                    )
                                })
                            }),
                        }
                    } else {
                        fid::check(&e, &sql, &pos, opts, &o).map(|b| format!("{}\n{}", b.1, b.2))
                    };
                    if let Some(f) = bad {
                        w.bad(
                            &format!("quoted:{}:{}", dialect, sql.replace(' ', "_")),
                            f,
                            &sql,
                            opts,
                            Mode::One,
                            o.show(),
                        );
                    }
                }
            }
        }
    });
    ctx.note("derivations whose names were quoted one by one", n);
    ctx.note("texts with quoted names", quoted.load(Relaxed));
}

// ------------------------------------------------------------------------------------------- C26

/// One and the same text alone and as a list of one.
fn both(w: &Worker, toks: &[(&str, Kind)], opts: Opts, suffix: &str) {
    let sql = toks.iter().map(|t| t.0).collect::<Vec<_>>().join(" ");
    if toks
        .iter()
        .any(|t| matches!(t.0, ";" | "DELIMITER" | "STDIN" | "delimiter" | "stdin"))
    {
        return;
    }
    let one = w.run(&sql, opts, Mode::One, TREES);
    let list = format!("{}{}", sql, suffix);
    let many = w.run(&list, opts, Mode::Many, TREES);
    w.ctx.transitions.fetch_add(1, Relaxed);
    if one.panic.is_some() || many.panic.is_some() {
        return;
    }
    let single = one.stmts.len() == 1 && one.errors() == 0;
    let single_of_list = many.stmts.len() == 1 && many.errors() == 0;
    if !single && !single_of_list {
        return;
    }
    w.ctx.traces.fetch_add(1, Relaxed);
    let bad = if one.stmts.len() != many.stmts.len() {
        Some(format!(
            "{} statements alone, {} in a list",
            one.stmts.len(),
            many.stmts.len()
        ))
    } else if one.issues != many.issues {
        Some("the issues differ".to_string())
    } else if one.stmts[0].dbg != many.stmts[0].dbg {
        Some(format!(
            "the statements differ\n{}",
            fid::diff(&one.stmts[0].dbg, &many.stmts[0].dbg)
        ))
    } else {
        None
    };
    if let Some(f) = bad {
        w.bad(
            &format!("list:{}", sql.replace(' ', "_")),
            f,
            &list,
            opts,
            Mode::Many,
            format!("alone: {}\nin a list: {}", one.show(), many.show()),
        );
    }
}

/// A statement and something after it.
fn trailing(w: &Worker, d: &str, own: &Out, tail: &str, always: bool, opts: Opts) {
    let sql = format!("{}{}", d, tail);
    let o = w.run(&sql, opts, Mode::One, TREES);
    w.ctx.transitions.fetch_add(1, Relaxed);
    if o.panic.is_some() || o.errors() > 0 {
        return;
    }
    if always || o.stmts.is_empty() || o.stmts[0].dbg == own.stmts[0].dbg {
        w.bad(
            &format!("trailing:{}", sql.replace(' ', "_")),
            format!("no Error although {:?} follows the statement", tail),
            &sql,
            opts,
            Mode::One,
            o.show(),
        );
    }
}

pub fn c26(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    // nothing at all
    let blanks = [
        "",
        " ",
        "\n",
        "\t\r\n",
        "-- c",
        "-- c\n",
        "//c",
        "/* c */",
        "/**/ -- ;\n",
        "  --\n/*;*/",
    ];
    let opts = all_opts();
    ctx.each(&opts, |w, o| {
        for b in blanks {
            let one = w.run(b, *o, Mode::One, TREES);
            if one.panic.is_some() || one.errors() == 0 || !one.stmts.is_empty() {
                w.bad(
                    &format!("empty:{:?}", b),
                    "empty input is not an Error",
                    b,
                    *o,
                    Mode::One,
                    one.show(),
                );
            }
            let many = w.run(b, *o, Mode::Many, TREES);
            if many.panic.is_some() || !many.issues.is_empty() || !many.stmts.is_empty() {
                w.bad(
                    &format!("empty-list:{:?}", b),
                    "an empty list is not valid",
                    b,
                    *o,
                    Mode::Many,
                    many.show(),
                );
            }
        }
    });
    ctx.note(
        "texts without a statement, under every combination of options",
        blanks.len(),
    );
    // valid statements
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 4 } else { 3 }, |w, d| {
        w.ctx.state(hash64(&d.tree));
        let t = toks_of(d);
        for dialect in 0..3 {
            if d.in_dialect(dialect) {
                both(w, &t, BASE.dialect(dialect), ";");
            }
        }
    });
    ctx.note("derivations parsed alone and as a list", n);
    let b1 = collect(ctx, &gen, "stmt", 1, |_| true);
    ctx.each(&b1, |w, d| {
        let mut t = toks_of(d);
        for o in &opts {
            if !w.stop() && d.in_dialect(o.dialect) {
                for s in [";", " ; ", "\n;\n", ";;", "; -- x"] {
                    both(w, &t, *o, s);
                }
            }
        }
        // every word in turn a placeholder
        for i in 0..t.len() {
            for (a, x) in [(1, "%s"), (2, "?"), (3, "$1"), (0, "?"), (2, "_LIST_")] {
                let was = std::mem::replace(&mut t[i], (x, Kind::Arg));
                let o = Opts {
                    args: a,
                    list: x == "_LIST_",
                    ..BASE.dialect(if d.in_dialect(0) { 0 } else { 1 })
                };
                both(w, &t, o, ";");
                t[i] = was;
            }
        }
    });
    // malformed statements
    let small: Vec<(String, Kind)> = SMALL.iter().map(|t| (t.to_string(), kind_of(t))).collect();
    let voc = vocabulary(&g);
    let b2 = if th {
        collect(ctx, &gen, "stmt", 2, |_| true)
    } else {
        b1.clone()
    };
    ctx.each(&b1, |w, d| {
        let t = toks_of(d);
        for i in 0..=t.len() {
            for (k, e) in edits_at(&t, i, &voc).iter().enumerate() {
                if w.stop() {
                    return;
                }
                for dialect in 0..3 {
                    if th || k % 3 == dialect {
                        both(w, e, BASE.dialect(dialect as u8), "\n;");
                    }
                }
            }
        }
    });
    ctx.each(&b2, |w, d| {
        let t = toks_of(d);
        for i in 0..=t.len() {
            for (k, e) in edits_at(&t, i, &small).iter().enumerate() {
                if w.stop() {
                    return;
                }
                let o = BASE.dialect((k % 3) as u8);
                let o = Opts {
                    warn_ident: true,
                    warn_kw: true,
                    list: true,
                    ..o
                };
                both(w, e, o, "\n;");
            }
        }
    });
    // text after the statement
    let b2 = collect(ctx, &gen, "stmt", if th { 3 } else { 2 }, |_| true);
    ctx.each(&b2, |w, d| {
        let (sql, _) = layout(&d.toks);
        let Some(dialect) = (0..3).find(|x| d.in_dialect(*x) && d.accepted_in(*x)) else {
            return;
        };
        let opts = BASE.dialect(dialect);
        let own = w.run(&sql, opts, Mode::One, TREES);
        if !own.ok() || own.stmts.len() != 1 {
            return;
        }
        for t in [
            ";",
            " ;",
            "\n;\n",
            ";;",
            " )",
            " ]",
            " }",
            " {",
            " $$",
            "; SELECT 1",
            ";SELECT i1;",
            "\n;\n-- x\n",
            "; COMMIT",
            ";(",
            ";é",
            "; ;",
            " ; 'x",
            ";\u{0}",
        ] {
            trailing(w, &sql, &own, t, true, opts);
        }
        for (t, _) in &voc {
            if w.stop() {
                return;
            }
            if !t.starts_with("--") && !t.starts_with("/*") {
                trailing(w, &sql, &own, &format!(" {}", t), false, opts);
            }
        }
    });
    // the same statement twice, and every other statement after it
    let mut pairs = Vec::new();
    let b0 = collect(ctx, &gen, "stmt", 0, |_| true);
    for a in &b1 {
        for b in &b0 {
            pairs.push((a, b));
        }
    }
    ctx.each(&pairs, |w, (a, b)| {
        let (sql, _) = layout(&a.toks);
        let (tail, _) = layout(&b.toks);
        let Some(dialect) = (0..3).find(|x| a.in_dialect(*x) && a.accepted_in(*x)) else {
            return;
        };
        let opts = BASE.dialect(dialect);
        let own = w.run(&sql, opts, Mode::One, TREES);
        if own.ok() && own.stmts.len() == 1 {
            trailing(w, &sql, &own, &format!(" {}", tail), false, opts);
            trailing(w, &sql, &own, &format!("; {}", tail), true, opts);
        }
    });
}

// ------------------------------------------------------------------------------------------- C27

/// All words the parser knows with their being reserved or not, and words it does not know.
fn words() -> Vec<(&'static str, bool)> {
    let mut v: Vec<(&str, bool)> = include_str!("../spec/words.txt")
        .lines()
        .map(|l| {
            let (w, r) = l.split_once(' ').unwrap();
            (w, r == "R")
        })
        .collect();
    for w in [
        "foo",
        "Foo",
        "FOO_BAR",
        "_x",
        "__",
        "a1",
        "SELECTS",
        "SELEC",
        "FROM_",
        "_FROM",
        "INT5",
        "TABLES_",
        "x",
        "X",
        "xx",
        "e",
        "n",
        "b",
        "N1",
        "WHERE1",
        "ORDERS",
        "users",
        "KEY_",
        "valuess",
        "intersecta",
        "CURRENT",
        "QUOTED_IDENTIFIER",
        "NOT_A_KEYWORD",
        "eE1",
        "x1x",
    ] {
        v.push((w, false));
    }
    v
}

/// The derivation with identifier token `i` written `text` and called `name`.
fn put(d: &Deriv, i: usize, text: &str, name: &str) -> Deriv {
    let old = d.toks[i].text.trim_matches('`').to_string();
    let mut e = d.clone();
    e.toks[i].text = text.to_string();
    e.tree = e
        .tree
        .replace(&format!("\"{}\"", old), &format!("\"{}\"", name));
    e
}

/// What follows a SELECT does not depend on what precedes it, and its flags may be repeated.
fn select_key(toks: &[Tok], upto: usize, word: &str) -> u64 {
    let s = toks[..upto]
        .iter()
        .rposition(|t| t.text == "SELECT")
        .unwrap_or(0);
    if toks[s].text == "SELECT" && toks[s..upto].iter().all(|t| t.kind == Kind::Kw) {
        return key(&toks[s..=s], 1, word);
    }
    key(&toks[s..], upto - s, word)
}

fn key(toks: &[Tok], upto: usize, word: &str) -> u64 {
    let mut h = String::new();
    for t in &toks[..upto] {
        match t.kind {
            Kind::Kw | Kind::Punct => h.push_str(&t.text),
            k => h.push_str(&format!("{:?}", k)),
        }
        h.push(' ');
    }
    h.push('|');
    h.push_str(word);
    hash64(&h)
}

pub fn c27(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    let words = words();
    ctx.note("words", words.len());
    ctx.note("of them reserved", words.iter().filter(|w| w.1).count());
    // what the grammar lets follow a beginning
    let means: std::sync::Mutex<HashSet<u64>> = Default::default();
    explore(ctx, &gen, g.rule("stmt"), 3, |_, d| {
        let mut v = Vec::new();
        for (i, t) in d.toks.iter().enumerate() {
            match t.kind {
                Kind::Kw => {
                    v.push(key(&d.toks, i, &t.text));
                    v.push(select_key(&d.toks, i, &t.text));
                }
                Kind::Num => v.push(key(&d.toks, i, "7")),
                _ => {}
            }
        }
        means.lock().unwrap().extend(v);
    });
    let means = means.into_inner().unwrap();
    // keywords that may start an expression
    let starts: std::sync::Mutex<HashSet<String>> = Default::default();
    explore(ctx, &gen, g.rule("xstmt"), 3, |_, d| {
        if d.toks.len() > 1 && d.toks[1].kind == Kind::Kw {
            starts.lock().unwrap().insert(d.toks[1].text.clone());
        }
    });
    let starts = starts.into_inner().unwrap();
    ctx.note("keywords that may start an expression", starts.len());
    let functions: HashSet<&str> = include_str!("../spec/functions.txt")
        .lines()
        .map(|l| l.split_once(' ').unwrap().0)
        .collect();
    let meaning = |d: &Deriv, i: usize, word: &str, number: bool| {
        means.contains(&key(&d.toks, i, word))
            || means.contains(&select_key(&d.toks, i, word))
            || (number || means.contains(&key(&d.toks, i, "7"))) && starts.contains(word)
            || d.toks.get(i + 1).is_some_and(|t| t.text == "(") && functions.contains(word)
    };
    ctx.note(
        "beginnings of statements and the keywords that may follow them",
        means.len(),
    );
    let base = collect(ctx, &gen, "stmt", if th { 2 } else { 1 }, |_| true);
    let items: Vec<(&Deriv, usize, usize)> = base
        .iter()
        .flat_map(|d| {
            let ids = d
                .toks
                .iter()
                .enumerate()
                .filter(|(_, t)| t.kind == Kind::Id);
            ids.flat_map(move |(i, _)| (0..8).map(move |p| (d, i, p)))
        })
        .collect();
    surroundings(ctx, &words);
    let excused = std::sync::atomic::AtomicU64::new(0);
    ctx.each(&items, |w, &(d, i, part)| {
        w.ctx.state(key(&d.toks, i, "") ^ part as u64);
        // names of these positions are not plain names: a function body, variables, types
        if opaque(d, i)
            || i > 1 && d.toks[i - 2].text.starts_with("@@")
            || d.tree.contains(&format!("type_:Named(@{}..{})", i, i + 1))
        {
            return;
        }
        // a place where an expression may stand
        let number = (0..3).any(|dialect| {
            let e = put(d, i, "7", "7");
            let o = w.run(&layout(&e.toks).0, BASE.dialect(dialect), Mode::One, TREES);
            d.in_dialect(dialect) && o.panic.is_none() && o.errors() == 0
        });
        for (k, &(word, reserved)) in words.iter().enumerate() {
            if k % 8 != part {
                continue;
            }
            if w.stop() {
                return;
            }
            let lower = word.to_ascii_lowercase();
            for form in 0..4 {
                let (text, name) = match form {
                    0 => (word.to_string(), word),
                    1 => (lower.clone(), lower.as_str()),
                    2 => (format!("`{}`", word), word),
                    _ => (format!("\"{}\"", lower), lower.as_str()),
                };
                let e = put(d, i, &text, name);
                let (sql, pos) = layout(&e.toks);
                for dialect in 0..3u8 {
                    // backticks outside PostgreSQL, double quotes in it
                    if d.plain & (1 << dialect) == 0
                        || !d.accepted_in(dialect)
                        || form == 2 && dialect == 1
                        || form == 3 && dialect != 1
                        || dialect == 1
                            && d.toks
                                .iter()
                                .enumerate()
                                .any(|(k, t)| k != i && t.text.starts_with('`'))
                    {
                        continue;
                    }
                    let opts = BASE.dialect(dialect);
                    let o = w.run(&sql, opts, Mode::One, TREES);
                    w.ctx.transitions.fetch_add(1, Relaxed);
                    w.ctx.traces.fetch_add(1, Relaxed);
                    let bad = if form < 2 && reserved {
                        (o.panic.is_none()
                            && o.errors() == 0
                            && o.stmts.len() == 1
                            && canon(&o.stmts[0].dbg, &pos, 0) == e.tree)
                            .then(|| "a reserved word is accepted as a name".to_string())
                    } else {
                        fid::check(&e, &sql, &pos, opts, &o).map(|b| format!("{}\n{}", b.1, b.2))
                    };
                    let Some(f) = bad else { continue };
                    if form < 2 && !reserved && meaning(d, i, &word.to_ascii_uppercase(), number) {
                        excused.fetch_add(1, Relaxed);
                        continue;
                    }
                    w.bad(
                        &format!("word:{}:{}:{}", form, dialect, sql.replace(' ', "_")),
                        format!("{:?} as a name: {}", text, f),
                        &sql,
                        opts,
                        Mode::One,
                        String::new(),
                    );
                }
            }
        }
    });
    ctx.note(
        "results that differ because the keyword has a meaning there",
        excused.load(Relaxed),
    );
}

/// Every word as a plain name in statements inside of other text: in lists, bodies, under another delimiter,
/// in subqueries.
fn surroundings(ctx: &Ctx, words: &[(&'static str, bool)]) {
    const NAMED: [&str; 3] =
        ["SELECT 1 FROM a AS @", "INSERT INTO a ( b , @ ) VALUES ( 1 , 2 )", "SELECT a . @ FROM b"];
    const AROUND: [(&str, &str, bool, u8); 16] = [
        ("", "", false, 7),
        ("", ";", true, 7),
        ("COMMIT ; ", " ; COMMIT ;", true, 7),
        ("DELIMITER $$ ", "$$", true, 7),
        ("DELIMITER $$ COMMIT $$ DELIMITER ; ", ";", true, 7),
        ("CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW ", ";", true, 1),
        ("CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN ", " ; END", false, 1),
        ("CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN SET x = 1 ; ", " ; END ; COMMIT ;", true, 1),
        ("DELIMITER $$ CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN ", " ; END $$", true, 1),
        ("DELIMITER $$ CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN IF x THEN ", " ; END IF ; END $$", true, 1),
        ("DELIMITER $$ CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN SET x = 1 ; END $$ ", " $$", true, 1),
        ("IF x THEN ", " ; ELSE COMMIT ; END IF", false, 1),
        ("DELIMITER $$ IF x THEN COMMIT ; ELSE ", " ; END IF $$", true, 1),
        ("( ", " )", false, 7),
        ("WITH x AS ( ", " ) SELECT 1 FROM x", false, 2),
        ("CREATE VIEW v AS ", " ; ", true, 7),
    ];
    let mut items = Vec::new();
    for (k, n) in NAMED.iter().enumerate() {
        for a in &AROUND {
            // queries only
            if k == 1 && (a.0 == "( " || a.0.starts_with("CREATE VIEW")) {
                continue;
            }
            items.push((n, a));
        }
    }
    let base: Vec<_> = items.iter().flat_map(|i| (0..3u8).map(move |d| (i.0, i.1, d))).collect();
    let skipped = std::sync::atomic::AtomicU64::new(0);
    ctx.each(&base, |w, &(named, &(pre, post, list, dialects), dialect)| {
        if dialects & (1 << dialect) == 0 {
            return;
        }
        let (head, tail) = named.split_once('@').unwrap();
        let mode = if list { Mode::Many } else { Mode::One };
        let opts = BASE.dialect(dialect);
        let plain = w.run(&format!("{pre}{head}zz{tail}{post}"), opts, mode, FULL);
        if !plain.ok() {
            // the other checks judge the text itself
            skipped.fetch_add(1, Relaxed);
            return;
        }
        for &(word, reserved) in words {
            let lower = word.to_ascii_lowercase();
            let mixed: String =
                lower.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            let quote = if dialect == 1 { '"' } else { '`' };
            for (form, name) in [word, lower.as_str(), mixed.as_str(), lower.as_str()].into_iter().enumerate() {
                let text = if form == 3 { format!("{quote}{name}{quote}") } else { name.to_string() };
                let start = pre.len() + head.len();
                let sql = format!("{pre}{head}{text}{tail}{post}");
                let o = w.run(&sql, opts, mode, FULL);
                w.ctx.transitions.fetch_add(1, Relaxed);
                w.ctx.traces.fetch_add(1, Relaxed);
                if w.stop() {
                    return;
                }
                let end = start + text.len();
                let bad = if o.panic.is_some() {
                    Some("the parser panics")
                } else if form < 3 && reserved {
                    let hit = o.issues.iter().any(|i| i.err && i.span.0 < end && start < i.span.1);
                    (!hit).then_some("no Error at a reserved word used as a name")
                } else {
                    let want = format!("Identifier {{ value: {:?}, span: {}..{} }}", name, start, end);
                    (!o.ok() || !o.stmts.iter().any(|s| s.dbg.contains(&want)))
                        .then_some("a word that may be a name is not returned as one")
                };
                if let Some(f) = bad {
                    w.bad(&format!("around:{}:{}", dialect, sql.replace(' ', "_")), f, &sql, opts, mode, o.show());
                }
            }
        }
    });
    ctx.note("texts around statements with a name in every spelling", base.len());
    ctx.note("of them not of the dialect", skipped.into_inner());
}

// ------------------------------------------------------------------------------------------- C25

/// Every word as the name of a function: its own function if there is one, a user function if not.
pub fn functions(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let table: std::collections::HashMap<&str, &str> = include_str!("../spec/functions.txt")
        .lines()
        .map(|l| l.split_once(' ').unwrap())
        .collect();
    let starts: std::sync::Mutex<HashSet<String>> = Default::default();
    explore(ctx, &gen, g.rule("xstmt"), 3, |_, d| {
        if d.toks.len() > 1 && d.toks[1].kind == Kind::Kw {
            starts.lock().unwrap().insert(d.toks[1].text.clone());
        }
    });
    let starts = starts.into_inner().unwrap();
    // words with a grammar of their own before a parenthesis
    let own = |w: &str| {
        matches!(w, "EXISTS" | "POSITION") || starts.contains(w) && !table.contains_key(w)
    };
    let words = words();
    let (mut known, mut user) = (0, 0);
    for (w, r) in &words {
        if own(w) {
        } else if table.contains_key(w) {
            known += 1;
        } else if !r {
            user += 1;
        }
    }
    ctx.note("names of functions of the language", known);
    ctx.note("names of user functions", user);
    let frames: [(&str, &str); 6] = [
        ("SELECT ", ""),
        ("SELECT 1 + ", " > 2"),
        ("SELECT i1 FROM i2 WHERE NOT ", " AND i3"),
        ("UPDATE i1 SET i2 = ", ", i3 = 1"),
        ("SELECT ( ", " )"),
        ("INSERT INTO i1 VALUES ( 1 , ", " , 2 )"),
    ];
    let items: Vec<(&str, bool, usize)> = words
        .iter()
        .flat_map(|w| (0..frames.len()).map(move |f| (w.0, w.1, f)))
        .collect();
    ctx.each(&items, |w, &(word, reserved, f)| {
        let upper = word.to_ascii_uppercase();
        // flags of a SELECT
        if own(&upper) || f == 0 && matches!(word, "SQL_NO_CACHE" | "SQL_BUFFER_RESULT") {
            return;
        }
        for form in 0..5 {
            let text = match form {
                0 => word.to_string(),
                1 => word.to_ascii_lowercase(),
                2 => word
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
                    .collect(),
                3 => format!("`{}`", word),
                _ => format!("\"{}\"", word),
            };
            let name = match table.get(upper.as_str()) {
                Some(n) if form < 3 => n.to_string(),
                _ if form < 3 && reserved => continue,
                _ => format!("Other({:?})", text.trim_matches(['`', '"'])),
            };
            for (n, over) in (0..6).map(|n| (n, false)).chain((0..3).map(|n| (n, true))) {
                for gap in ["", " "] {
                    let mut sql = frames[f].0.to_string();
                    let at = sql.len();
                    sql.push_str(&text);
                    let name_span = format!("{}..{}", at, sql.len());
                    sql.push_str(gap);
                    sql.push('(');
                    let mut args = Vec::new();
                    for k in 0..n {
                        sql.push_str(if k > 0 { ", " } else { "" });
                        let a = sql.len();
                        match k % 3 {
                            0 => {
                                sql.push_str(&format!("a{}", k));
                                args.push(format!(
                                    "Identifier([Name(Identifier {{ value: \"a{}\", span: {}..{} }})])",
                                    k, a, sql.len()
                                ));
                            }
                            1 => {
                                sql.push_str(&format!("'s{}'", k));
                                args.push(format!(
                                    "String(SString {{ value: \"s{}\", span: {}..{} }})",
                                    k, a, sql.len()
                                ));
                            }
                            _ => {
                                sql.push_str("NULL");
                                args.push(format!("Null({}..{})", a, sql.len()));
                            }
                        }
                    }
                    sql.push(')');
                    let want = if over {
                        let o = sql.len() + 1;
                        sql.push_str(" OVER ( ORDER BY o1 DESC , o2 )");
                        format!(
                            "WindowFunction {{ function: {}, args: [{}], function_span: {}, over_span: {}..{}, window_spec: WindowSpec {{ order_by: ({}..{}, [(Identifier([Name(Identifier {{ value: \"o1\", span: {}..{} }})]), Desc({}..{})), (Identifier([Name(Identifier {{ value: \"o2\", span: {}..{} }})]), None)]) }} }}",
                            name, args.join(", "), name_span, o, o + 4, o + 7, o + 15, o + 16, o + 18, o + 19, o + 23, o + 26, o + 28
                        )
                    } else {
                        format!("Function({}, [{}], {})", name, args.join(", "), name_span)
                    };
                    sql.push_str(frames[f].1);
                    for dialect in 0..3u8 {
                        if form == 3 && dialect == 1 || form == 4 && dialect != 1 {
                            continue;
                        }
                        if w.stop() {
                            return;
                        }
                        let opts = BASE.dialect(dialect);
                        let o = w.run(&sql, opts, Mode::One, TREES);
                        w.ctx.transitions.fetch_add(1, Relaxed);
                        let bad = if o.panic.is_some() || o.errors() > 0 || o.stmts.len() != 1 {
                            Some("a call of a function is rejected")
                        } else if o.stmts[0].dbg.matches(&want).count() != 1 {
                            Some("a call of a function is not returned as written")
                        } else {
                            None
                        };
                        if let Some(b) = bad {
                            w.bad(
                                &format!("function:{}:{}", dialect, sql.replace(' ', "_")),
                                b,
                                &sql,
                                opts,
                                Mode::One,
                                format!("specified: {}\n{}", want, o.show()),
                            );
                        }
                    }
                }
            }
        }
        w.ctx.traces.fetch_add(1, Relaxed);
    });
}
