//! C15-C17: what whitespace, comments, letter case and lint options must not change.
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::grammar::*;
use crate::lexref;
use crate::lists::shift_all;
use crate::stress::{edits_at, SMALL};
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;

type Pos = Vec<(usize, usize)>;
type Toks<'a> = [(&'a str, Kind)];

// ------------------------------------------------------------------------------------------- C15

/// What may stand between two tokens.
const TRIVIA: &[&str] = &[
    "\n",
    "\t",
    "\r\n",
    "   ",
    " -- c\n",
    "--\n",
    "-- ;\n",
    "-- 'it\r\n",
    " //c\n",
    "/* c */",
    "/**/",
    "/*'*/",
    "/* ; $$ */",
    "/***/",
    "/* * / \n */",
    "/*/**/",
    "/* é */-- é\n",
    "\n--a\n--b\n",
    "//\r",
    "/*;*/ /*\"*/",
];

/// The same for the larger sets of statements.
const MID: &[&str] = &[
    "\n",
    "\r\n",
    "-- ;\n",
    "-- 'it\r\n",
    "/**/",
    "/*'*/",
    "/* ; $$ */",
    "//\r",
];

/// The same for inputs with errors.
const FEW: &[&str] = &["\n", "/**/", " --c ;\n ", "/*'*/ ", "\t//x\r\n"];

/// The tokens with a blank after each; gap number k (before token k) holds `with(k)` instead.
fn lay(toks: &Toks, with: &dyn Fn(usize) -> Option<&'static str>) -> (String, Pos) {
    let mut s = String::new();
    let mut p = Vec::with_capacity(toks.len());
    // the body of a PostgreSQL function: any text up to the next $$, be that in a comment or not
    let func = toks.iter().position(|t| t.0.eq_ignore_ascii_case("FUNCTION"));
    let mut quotes = toks.iter().enumerate().filter(|t| t.1.0 == "$$").map(|t| t.0);
    let open = func.and_then(|f| quotes.find(|q| *q > f)).unwrap_or(usize::MAX);
    let close = quotes.next().unwrap_or(usize::MAX);
    for (i, t) in toks.iter().enumerate() {
        let body = i > open && i <= close;
        match with(i).filter(|w| !body || !w.contains("$$")) {
            Some(w) => {
                // a minus or slash must not become part of the start of a comment
                if (s.ends_with('-') || s.ends_with('/'))
                    && w.starts_with(['-', '/'])
                    && i > 0
                    && toks[i - 1].0.len() == 1
                {
                    s.push(' ');
                }
                s.push_str(w)
            }
            None if i > 0 => s.push(' '),
            None => {}
        }
        let a = s.len();
        s.push_str(t.0);
        p.push((a, s.len()));
    }
    if toks.last().is_some_and(|t| t.0 == "-" || t.0 == "/") {
        s.push(' ');
    }
    s.push_str(with(toks.len()).unwrap_or(" "));
    (s, p)
}

/// The two tokens may stand next to each other.
fn joinable(a: &(&str, Kind), b: &(&str, Kind)) -> bool {
    let odd = |t: &(&str, Kind)| {
        t.1 == Kind::Str || t.1 == Kind::Arg || t.0 == "$$" || t.0.starts_with("@@")
    };
    let plain = |t: &(&str, Kind)| {
        t.0.len() == 1 && matches!(t.0, "(" | ")" | "," | ";" | "=" | "+" | "*" | "[" | "]")
    };
    if odd(a) || odd(b) {
        return plain(a) && (plain(b) || b.1 != Kind::Punct) || plain(b) && a.1 != Kind::Punct;
    }
    let s = format!("{}{}", a.0, b.0);
    let v = lexref::lex(&s);
    let l = lexref::lex(a.0);
    if l.len() != 1 || lexref::lex(b.0).len() != 1 {
        return false;
    }
    v.len() == 2 && v[0].1 == 0 && v[0].2 == a.0.len() && v[1].1 == a.0.len() && v[1].2 == s.len()
}

/// Where a position of the first layout lies in the second.
fn carry(at: usize, from: &Pos, to: &Pos, ends: (usize, usize), is_end: bool) -> usize {
    if at >= ends.0 {
        return ends.1;
    }
    // a position between two tokens with a blank between them belongs to one of them only
    let k = from.partition_point(|p| p.1 < at);
    let k = if k >= from.len() {
        return usize::MAX;
    } else {
        k
    };
    let (a, b) = from[k];
    if is_end && at == a && k > 0 && from[k - 1].1 == at {
        return to[k - 1].1;
    }
    if at < a {
        // inside the gap
        return usize::MAX - 1;
    }
    if at == b {
        return to[k].1;
    }
    to[k].0 + (at - a)
}

struct View {
    trees: Vec<String>,
    issues: Vec<(bool, String, (usize, usize), Vec<(String, (usize, usize))>)>,
}

fn view(o: &Out, first: (usize, usize), mv: &dyn Fn(usize, bool) -> usize) -> View {
    let sp = |s: (usize, usize)| {
        if s.0 == s.1 && (s.0 == 0 || s.0 == first.0) {
            // made up by the parser, or the start of the text
            (first.1, first.1)
        } else if s.0 == s.1 {
            (mv(s.0, false), mv(s.0, false))
        } else {
            (mv(s.0, false), mv(s.1, true))
        }
    };
    View {
        trees: o
            .stmts
            .iter()
            .map(|s| {
                let mut t = String::with_capacity(s.dbg.len());
                scan_dbg(&s.dbg, &mut |e| match e {
                    Ev::Text(x) => t.push_str(x),
                    Ev::Ch(c) => t.push(c),
                    Ev::Span(a, b) => {
                        use std::fmt::Write;
                        let (a, b) = sp((a, b));
                        let _ = write!(t, "{}..{}", a, b);
                    }
                });
                t
            })
            .collect(),
        issues: o
            .issues
            .iter()
            .map(|i| {
                let f = i.frags.iter().map(|f| (f.message.clone(), sp(f.span)));
                (i.err, i.message.clone(), sp(i.span), f.collect())
            })
            .collect(),
    }
}

fn view_diff(a: &View, b: &View) -> Option<String> {
    if a.issues.len() != b.issues.len() {
        return Some(format!(
            "{} issues instead of {}",
            b.issues.len(),
            a.issues.len()
        ));
    }
    for (x, y) in a.issues.iter().zip(&b.issues) {
        if x != y {
            return Some(format!("issue {:?} instead of {:?}", y, x));
        }
    }
    if a.trees.len() != b.trees.len() {
        return Some(format!(
            "{} statements instead of {}",
            b.trees.len(),
            a.trees.len()
        ));
    }
    for (x, y) in a.trees.iter().zip(&b.trees) {
        if x != y {
            return Some(format!("another statement:\n{}", crate::fid::diff(x, y)));
        }
    }
    None
}

const TREES: Want = Want {
    dbg: true,
    span: false,
    display: false, ..NOTHING
};

/// Compare the layouts of one token sequence. `each`: trivia put into one gap at a time, `all`: into
/// all gaps at once; `min`: leave out every blank that may be left out.
fn layouts(
    w: &Worker,
    toks: &Toks,
    opts: Opts,
    mode: Mode,
    each: &[&'static str],
    all: &[&'static str],
    min: bool,
) {
    let (base, bpos) = lay(toks, &|_| None);
    let o = w.run(&base, opts, mode, TREES);
    if o.panic.is_some() {
        return;
    }
    w.ctx.traces.fetch_add(1, Relaxed);
    let n = toks.len();
    let try_one = |with: &dyn Fn(usize) -> Option<&'static str>| {
        let (sql, pos) = lay(toks, with);
        let v = w.run(&sql, opts, mode, TREES);
        w.ctx.transitions.fetch_add(1, Relaxed);
        let start = pos.first().map_or(0, |p| p.0);
        let a = view(&o, (0, start), &|at, e| {
            carry(at, &bpos, &pos, (base.len(), sql.len()), e)
        });
        let b = view(&v, (start, start), &|at, _| at);
        let f = match &v.panic {
            Some(p) => Some(format!("panic {}", p)),
            None => view_diff(&a, &b),
        };
        if let Some(f) = f {
            w.bad(
                &format!("layout:{}", sql.escape_debug()),
                format!("whitespace changes the result of {:?}: {}", base, f),
                &sql,
                opts,
                mode,
                format!("{}\nwith blanks:\n{}", v.show(), o.show()),
            );
        }
    };
    for k in 0..=n {
        if w.stop() {
            return;
        }
        for t in each {
            try_one(&|i| if i == k { Some(t) } else { None });
        }
        if k > 0 && k < n && min && joinable(&toks[k - 1], &toks[k]) {
            try_one(&|i| if i == k { Some("") } else { None });
        }
    }
    if min {
        try_one(&|i| (i == 0 || i == n || joinable(&toks[i - 1], &toks[i])).then_some(""));
        // a last comment without an end of line
        try_one(&|i| (i == n).then_some("--"));
        try_one(&|i| (i == n).then_some("-- x"));
        try_one(&|i| (i == n).then_some("//x"));
    }
    for t in all {
        try_one(&|_| Some(t));
    }
}

fn toks_of(d: &Deriv) -> Vec<(&str, Kind)> {
    d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect()
}

fn lint(o: Opts) -> Opts {
    Opts {
        warn_ident: true,
        warn_kw: true,
        ..o
    }
}

fn first_dialect(d: &Deriv) -> Option<u8> {
    (0..3).find(|x| d.in_dialect(*x) && d.accepted_in(*x))
}

pub fn c15(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    let copy = |d: &Deriv| d.toks.iter().any(|t| t.text == "STDIN");
    // valid statements, one gap at a time
    let b2 = collect(ctx, &gen, "stmt", 2, |_| true);
    let b1 = collect(ctx, &gen, "stmt", 1, |_| true);
    let short: HashSet<&str> = b1.iter().map(|d| d.tree.as_str()).collect();
    ctx.note("kinds of whitespace and comments", TRIVIA.len());
    ctx.note("of them used with the larger sets of statements", MID.len());
    ctx.each(&b2, |w, d| {
        let toks = toks_of(d);
        w.ctx.state(hash64(&d.tree));
        for dialect in 0..3 {
            if !d.in_dialect(dialect) || (!th && Some(dialect) != first_dialect(d)) {
                continue;
            }
            let opts = BASE.dialect(dialect);
            let all = th || short.contains(d.tree.as_str());
            let t = if all { TRIVIA } else { MID };
            layouts(w, &toks, opts, Mode::One, t, TRIVIA, true);
            if all {
                layouts(w, &toks, lint(opts), Mode::One, t, &[], true);
            } else {
                layouts(w, &toks, lint(opts), Mode::One, &FEW[1..2], &[], true);
            }
        }
    });
    // all gaps at once
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 4 } else { 3 }, |w, d| {
        let Some(dialect) = first_dialect(d) else {
            return;
        };
        let t = if th { TRIVIA } else { MID };
        layouts(
            w,
            &toks_of(d),
            BASE.dialect(dialect),
            Mode::One,
            &[],
            t,
            true,
        );
    });
    ctx.note("derivations with all gaps changed at once", n);
    // statements with one wrong token
    let small: Vec<(String, Kind)> = SMALL
        .iter()
        .filter(|t| !t.contains("open") && **t != "é")
        .map(|t| (t.to_string(), kind_of(t)))
        .collect();
    ctx.note(
        "tokens put into statements to make them malformed",
        small.len(),
    );
    ctx.each(&b1, |w, d| {
        let t = toks_of(d);
        for i in 0..=t.len() {
            for (k, e) in edits_at(&t, i, &small).iter().enumerate() {
                if w.stop() {
                    return;
                }
                let dialect = (k % 3) as u8;
                let mode = if k / 3 % 2 == 0 || copy(d) {
                    Mode::One
                } else {
                    Mode::Many
                };
                let opts = BASE.dialect(dialect);
                let opts = if k / 6 % 2 == 0 { opts } else { lint(opts) };
                layouts(
                    w,
                    e,
                    opts,
                    mode,
                    if th { FEW } else { &FEW[1..2 - k / 12 % 2] },
                    if th { FEW } else { &FEW[k % 2..] },
                    k % 2 == 0,
                );
            }
        }
    });
    // lists
    let lists: &[&[&str]] = &[
        &[";", "SELECT", "i1", ";"],
        &[";", ";", "BEGIN", ";"],
        &[";", "DELIMITER", "$$", "SELECT", "i1", "$$"],
        &[";", "(", ";", "SELECT", "i1"],
    ];
    let items: Vec<(&Deriv, usize)> = b1
        .iter()
        .filter(|d| !copy(d))
        .flat_map(|d| (0..lists.len()).map(move |k| (d, k)))
        .collect();
    ctx.each(&items, |w, &(d, k)| {
        let Some(dialect) = first_dialect(d) else {
            return;
        };
        let mut toks = toks_of(d);
        toks.extend(lists[k].iter().map(|t| (*t, kind_of(t))));
        layouts(
            w,
            &toks,
            BASE.dialect(dialect),
            Mode::Many,
            TRIVIA,
            TRIVIA,
            true,
        );
        let mut under: Vec<(&str, Kind)> = vec![("DELIMITER", Kind::Kw), ("$$", Kind::Punct)];
        if d.toks.iter().all(|t| t.text != "$$") {
            under.extend(toks_of(d));
            under.extend([
                ("$$", Kind::Punct),
                ("DELIMITER", Kind::Kw),
                (";", Kind::Punct),
                ("COMMIT", Kind::Kw),
            ]);
            layouts(
                w,
                &under,
                BASE.dialect(dialect),
                Mode::Many,
                FEW,
                TRIVIA,
                true,
            );
        }
    });
}

// ------------------------------------------------------------------------------------------- C16

fn mixed(t: &str, up: bool) -> String {
    let mut u = up;
    t.chars()
        .map(|c| {
            u = !u;
            if u {
                c.to_ascii_lowercase()
            } else {
                c.to_ascii_uppercase()
            }
        })
        .collect()
}

/// Same results, letter case of keywords aside if `loose`.
fn same(a: &Out, b: &Out, loose: bool) -> Option<String> {
    if let Some(p) = &b.panic {
        return Some(format!("panic {}", p));
    }
    let s = |o: &Out| View {
        trees: o
            .stmts
            .iter()
            .map(|s| {
                let t = shift_all(&s.dbg, 0, 0);
                if loose {
                    t.to_ascii_lowercase()
                } else {
                    t
                }
            })
            .collect(),
        issues: o
            .issues
            .iter()
            .map(|i| {
                let l = |m: &str| {
                    if loose {
                        m.to_ascii_lowercase()
                    } else {
                        m.to_string()
                    }
                };
                let f = i.frags.iter().map(|f| (l(&f.message), f.span));
                (i.err, l(&i.message), i.span, f.collect())
            })
            .collect(),
    };
    view_diff(&s(a), &s(b))
}

/// The word with each letter alone in lower case, and with each letter alone in capitals.
fn letters(t: &str) -> Vec<String> {
    let mut v = Vec::new();
    for k in 0..t.len() {
        for up in [true, false] {
            let f = |(i, c): (usize, char)| if (i == k) != up { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            v.push(t.chars().enumerate().map(|x| f(x)).collect());
        }
    }
    // as it is, when it has no letters
    v.retain(|x| x != t);
    v.sort();
    v.dedup();
    v
}

fn case_variants(
    w: &Worker,
    toks: &Toks,
    which: &dyn Fn(usize) -> bool,
    opts: Opts,
    mode: Mode,
    each: bool,
    loose: bool,
) {
    let kws: Vec<usize> = (0..toks.len())
        .filter(|i| (toks[*i].1 == Kind::Kw || toks[*i].0.starts_with("@@")) && which(*i))
        .collect();
    if kws.is_empty() {
        return;
    }
    let lay1 = |f: &dyn Fn(usize) -> Option<String>| {
        let v: Vec<String> = (0..toks.len())
            .map(|i| f(i).unwrap_or_else(|| toks[i].0.to_string()))
            .collect();
        v.join(" ")
    };
    let base = lay1(&|_| None);
    let o = w.run(&base, opts, mode, TREES);
    if o.panic.is_some() {
        return;
    }
    w.ctx.traces.fetch_add(1, Relaxed);
    let check = |sql: String| {
        let v = w.run(&sql, opts, mode, TREES);
        w.ctx.transitions.fetch_add(1, Relaxed);
        if let Some(f) = same(&o, &v, loose) {
            w.bad(
                &format!("case:{}", sql.replace(' ', "_")),
                format!("letter case changes the result of {:?}: {}", base, f),
                &sql,
                opts,
                mode,
                format!("{}\nin capitals:\n{}", v.show(), o.show()),
            );
        }
    };
    if each {
        for &k in &kws {
            if toks.len() <= 12 && mode == Mode::One {
                for f in letters(toks[k].0) {
                    check(lay1(&|i| (i == k).then(|| f.clone())));
                }
            }
            for form in 0..3 {
                check(lay1(&|i| {
                    (i == k).then(|| match form {
                        0 => toks[i].0.to_ascii_lowercase(),
                        n => mixed(toks[i].0, n == 1),
                    })
                }));
            }
        }
    }
    let few = !each && loose;
    for form in 0..3 {
        if few && form == 1 + kws.len() % 2 {
            continue;
        }
        check(lay1(&|i| {
            kws.contains(&i).then(|| match form {
                0 => toks[i].0.to_ascii_lowercase(),
                n => mixed(toks[i].0, n == 1),
            })
        }));
    }
}

pub fn c16(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    let b2 = collect(ctx, &gen, "stmt", if th { 3 } else { 2 }, |_| true);
    ctx.each(&b2, |w, d| {
        let t = toks_of(d);
        w.ctx.state(hash64(&d.tree));
        for dialect in 0..3 {
            if d.in_dialect(dialect) {
                case_variants(
                    w,
                    &t,
                    &|_| true,
                    BASE.dialect(dialect),
                    Mode::One,
                    true,
                    false,
                );
            }
        }
    });
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 4 } else { 3 }, |w, d| {
        for dialect in 0..3 {
            if d.in_dialect(dialect) {
                case_variants(
                    w,
                    &toks_of(d),
                    &|_| true,
                    BASE.dialect(dialect),
                    Mode::One,
                    th,
                    false,
                );
            }
        }
    });
    ctx.note("derivations with the case of all keywords changed", n);
    // malformed statements
    let voc: Vec<(String, Kind)> = crate::stress::vocabulary(&g)
        .into_iter()
        .filter(|t| t.1 == Kind::Kw && t.0.chars().all(|c| !c.is_ascii_lowercase()))
        .collect();
    ctx.note("keywords put into statements", voc.len());
    let b1 = collect(ctx, &gen, "stmt", if th { 2 } else { 1 }, |d| {
        !th || d.toks.len() < 8
    });
    ctx.each(&b1, |w, d| {
        let t = toks_of(d);
        for i in 0..=t.len() {
            for (k, e) in edits_at(&t, i, &voc).iter().enumerate() {
                if w.stop() {
                    return;
                }
                let opts = BASE.dialect((k % 3) as u8);
                let mode = if k / 3 % 2 == 0 {
                    Mode::One
                } else {
                    Mode::Many
                };
                case_variants(w, e, &|_| true, opts, mode, th, true);
            }
        }
    });
    // lists
    ctx.each(&b1, |w, d| {
        let mut t: Vec<(&str, Kind)> = vec![("DELIMITER", Kind::Kw), ("$$", Kind::Punct)];
        if d.toks.iter().any(|t| t.text == "$$" || t.text == "STDIN") {
            return;
        }
        t.extend(toks_of(d));
        for x in ["$$", "DELIMITER", ";", "BEGIN", ";"] {
            t.push((x, kind_of(x)));
        }
        t.extend(toks_of(d));
        for dialect in 0..3 {
            if d.in_dialect(dialect) {
                case_variants(
                    w,
                    &t,
                    &|_| true,
                    BASE.dialect(dialect),
                    Mode::Many,
                    true,
                    false,
                );
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- C17

fn is_word(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// Words that always start a statement.
const STARTS: &[&str] = &[
    "SELECT", "INSERT", "UPDATE", "DELETE", "REPLACE", "CREATE", "ALTER", "DROP", "SET", "WITH",
    "TRUNCATE", "RENAME", "SIGNAL", "BEGIN", "START", "COMMIT", "COPY", "IF", "CASE", "RETURN",
];

fn capitals(t: &str) -> bool {
    t.chars().all(|c| !c.is_ascii_lowercase())
}

/// Run a token sequence under the four combinations of the lint options.
/// `valid`: the kinds of the tokens say what is a keyword and what a name.
fn lints(
    w: &Worker,
    toks: &[(String, Kind)],
    starts: &[usize],
    opts: Opts,
    mode: Mode,
    valid: bool,
) {
    let mut sql = String::new();
    let mut pos = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            sql.push(' ');
        }
        let a = sql.len();
        sql.push_str(&t.0);
        pos.push((a, sql.len()));
    }
    let base = w.run(&sql, opts, mode, TREES);
    if base.panic.is_some() {
        return;
    }
    w.ctx.traces.fetch_add(1, Relaxed);
    // after an Error a word may be read in another role
    let valid = valid && base.errors() == 0;
    for (ident, kw) in [(true, false), (false, true), (true, true)] {
        let lo = Opts {
            warn_ident: ident,
            warn_kw: kw,
            ..opts
        };
        let o = w.run(&sql, lo, mode, TREES);
        w.ctx.transitions.fetch_add(1, Relaxed);
        let mut bad: Option<String> = o.panic.as_ref().map(|p| format!("panic {}", p));
        // the issues without the option, in order, and what was added
        let mut added: Vec<&Iss> = Vec::new();
        let mut rest = base.issues.iter().peekable();
        for i in &o.issues {
            if rest.peek().is_some_and(|r| *r == i) {
                rest.next();
            } else {
                added.push(i);
            }
        }
        if bad.is_none() {
            if let Some(r) = rest.next() {
                bad = Some(format!("the option loses or changes the issue {:?}", r));
            } else if o.stmts.len() != base.stmts.len()
                || o.stmts.iter().zip(&base.stmts).any(|(a, b)| a.dbg != b.dbg)
            {
                bad = Some("the option changes the parsed statements".into());
            }
        }
        for i in added {
            if bad.is_some() {
                break;
            }
            if i.err {
                bad = Some(format!("the option adds the Error {:?}", i));
                break;
            }
            let Some(k) = pos.iter().position(|p| *p == i.span) else {
                bad = Some(format!("the span of the warning {:?} is not a word", i));
                break;
            };
            let t = &toks[k];
            if !is_word(&t.0) {
                bad = Some(format!("{:?} is warned about: {}", t.0, i.message));
                break;
            }
            let as_kw = kw && !capitals(&t.0) && (!valid || t.1 == Kind::Kw);
            let as_id = ident && (!valid || t.1 == Kind::Id);
            if !as_kw && !as_id {
                bad = Some(format!("{:?} is warned about: {}", t.0, i.message));
            }
        }
        for &k in starts.iter().filter(|k| **k < toks.len()) {
            let t = &toks[k];
            let first = valid || k == 0 && STARTS.contains(&&*t.0.to_ascii_uppercase());
            if kw && bad.is_none() && first && t.1 == Kind::Kw && !capitals(&t.0) {
                let warned = o.issues.iter().any(|i| !i.err && i.span == pos[k]);
                if !warned {
                    bad = Some(format!("no warning about the first word {:?}", t.0));
                }
            }
        }
        if let Some(f) = bad {
            w.bad(
                &format!("lint:{}{}:{}", ident as u8, kw as u8, sql.replace(' ', "_")),
                f,
                &sql,
                lo,
                mode,
                format!("{}\nwithout the option:\n{}", o.show(), base.show()),
            );
        }
    }
}

/// Forms of a token sequence: letter case of keywords × quoting of names.
fn forms(toks: &Toks, dialect: u8, f: &mut dyn FnMut(Vec<(String, Kind)>)) {
    let quote = |t: &str| {
        let t = t.trim_matches('`');
        if dialect == 1 {
            format!("\"{}\"", t)
        } else {
            format!("`{}`", t)
        }
    };
    let quotable: Vec<usize> = (0..toks.len())
        .filter(|i| toks[*i].1 == Kind::Id && toks[*i].0.trim_matches('`').starts_with('i'))
        .collect();
    for case in 0..3 {
        for q in 0..3 {
            f(toks
                .iter()
                .enumerate()
                .map(|(i, t)| {
                    let s = match t.1 {
                        Kind::Kw => match case {
                            0 => t.0.to_string(),
                            1 => t.0.to_ascii_lowercase(),
                            _ => mixed(t.0, i % 2 == 0),
                        },
                        Kind::Id if quotable.contains(&i) => match q {
                            0 => t.0.to_string(),
                            1 => quote(t.0),
                            _ if quotable.last() == Some(&i) => t.0.trim_matches('`').to_string(),
                            _ => quote(t.0),
                        },
                        _ => t.0.to_string(),
                    };
                    (s, t.1)
                })
                .collect());
        }
    }
}

pub fn c17(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let th = ctx.thorough;
    let b2 = collect(ctx, &gen, "stmt", 2, |_| true);
    let short: HashSet<&str> = b2.iter().map(|d| d.tree.as_str()).collect();
    let n = explore(ctx, &gen, g.rule("stmt"), if th { 4 } else { 3 }, |w, d| {
        w.ctx.state(hash64(&d.tree));
        for dialect in 0..3 {
            if !d.in_dialect(dialect)
                || (!th && d.toks.len() > 6 && Some(dialect) != first_dialect(d))
            {
                continue;
            }
            let opts = BASE.dialect(dialect);
            let all = th || short.contains(d.tree.as_str());
            let mut n = 0;
            forms(&toks_of(d), dialect, &mut |t| {
                n += 1;
                if !w.stop() && (all || matches!(n, 1 | 4 | 5 | 9)) {
                    lints(w, &t, &[0], opts, Mode::One, d.accepted_in(dialect))
                }
            });
        }
    });
    ctx.note("derivations under all lint options", n);
    // the words that start a statement, also inside a body, with a single letter not in capitals or in capitals
    let b1 = collect(ctx, &gen, "stmt", 1, |_| true);
    ctx.each(&b1, |w, d| {
        let t: Vec<(String, Kind)> = d.toks.iter().map(|t| (t.text.clone(), t.kind)).collect();
        let starts: Vec<usize> = (0..t.len())
            .filter(|k| {
                *k == 0
                    || matches!(t[*k - 1].0.as_str(), ";" | "BEGIN")
                        && STARTS.contains(&t[*k].0.as_str())
                        // the body of a function in $$ is not read
                        && !(t.iter().any(|t| t.0 == "$$") && t.iter().any(|t| t.0 == "FUNCTION"))
            })
            .filter(|k| t[*k].1 == Kind::Kw)
            .collect();
        for &k in &starts {
            for f in letters(&t[k].0) {
                let mut e = t.clone();
                e[k].0 = f;
                for dialect in 0..3 {
                    if d.in_dialect(dialect) {
                        lints(w, &e, &starts, BASE.dialect(dialect), Mode::One, d.accepted_in(dialect));
                    }
                }
            }
        }
    });
    ctx.note("statements whose first words have a single letter not in capitals or in capitals", b1.len());
    // malformed statements
    let voc: Vec<(String, Kind)> = SMALL
        .iter()
        .filter(|t| !t.contains("open") && **t != "é")
        .map(|t| (t.to_string(), kind_of(t)))
        .collect();
    let b1 = collect(ctx, &gen, "stmt", 1, |_| true);
    ctx.each(&b1, |w, d| {
        let t = toks_of(d);
        for i in 0..=t.len() {
            for (k, e) in edits_at(&t, i, &voc).iter().enumerate() {
                let dialect = (k % 3) as u8;
                let mode = if k / 3 % 2 == 0 {
                    Mode::One
                } else {
                    Mode::Many
                };
                let mut n = 0;
                forms(e, dialect, &mut |t| {
                    n += 1;
                    if !w.stop() && (th || n == 1 || n % 3 == k % 3) {
                        lints(w, &t, &[0], BASE.dialect(dialect), mode, false)
                    }
                });
            }
        }
    });
    // every statement of a list
    ctx.each(&b1, |w, d| {
        if d.toks.iter().any(|t| t.text == "$$" || t.text == "STDIN") {
            return;
        }
        let Some(dialect) = first_dialect(d) else {
            return;
        };
        let mut t = toks_of(d);
        t.push((";", Kind::Punct));
        let second = t.len();
        t.extend(toks_of(d));
        forms(&t, dialect, &mut |t| {
            lints(w, &t, &[0, second], BASE.dialect(dialect), Mode::Many, true)
        });
    });
}
