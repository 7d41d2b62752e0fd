//! C11-C14: lists of statements, recovery, delimiters and bodies, COPY data.
use crate::args::args_of;
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::fid::{diff, DN};
use crate::grammar::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

/// The Debug string without blanks, all spans moved by -base and all placeholder numbers by -args.
pub fn shift_all(dbg: &str, base: usize, args: usize) -> String {
    let mut o = String::with_capacity(dbg.len());
    let mut num: Option<i64> = None;
    scan_dbg(dbg, &mut |ev| {
        use std::fmt::Write;
        if let Some(n) = num {
            if let Ev::Ch(c) = &ev {
                if let Some(d) = c.to_digit(10) {
                    num = Some(n * 10 + d as i64);
                    return;
                }
            }
            let _ = write!(o, "{}", n - args as i64);
            num = None;
        }
        match ev {
            Ev::Text(t) => o.push_str(t),
            Ev::Ch(c) => {
                if args != 0
                    && c.is_ascii_digit()
                    && (o.ends_with("Arg((") || o.ends_with("ListHack(("))
                {
                    num = c.to_digit(10).map(|d| d as i64);
                } else {
                    o.push(c)
                }
            }
            Ev::Span(a, b) => {
                let _ = write!(o, "{}..{}", a as i64 - base as i64, b as i64 - base as i64);
            }
        }
    });
    o
}

fn shift_issue(i: &Iss, base: usize) -> Iss {
    let mv = |s: (usize, usize)| (s.0.wrapping_sub(base), s.1.wrapping_sub(base));
    let mut i = i.clone();
    i.span = mv(i.span);
    for f in i.frags.iter_mut() {
        f.span = mv(f.span);
    }
    i
}

/// A statement with what parsing it alone returns.
#[derive(Clone)]
pub struct Alone {
    pub sql: String,
    pub toks: Vec<String>,
    /// None for text without a statement
    pub tree: Option<String>,
    /// the data after a COPY
    pub data: Option<String>,
    pub issues: Vec<Iss>,
    pub nargs: usize,
}

impl Alone {
    pub fn new(w: &Worker, d: &Deriv, opts: Opts) -> Option<Alone> {
        let (sql, _) = layout(&d.toks);
        let o = w.run(&sql, opts, Mode::One, FULL);
        if !o.ok() || o.stmts.len() != 1 {
            return None;
        }
        Some(Alone {
            toks: d.toks.iter().map(|t| t.text.clone()).collect(),
            tree: Some(shift_all(&o.stmts[0].dbg, 0, 0)),
            data: None,
            nargs: args_of(&o.stmts[0].dbg).len(),
            issues: o.issues,
            sql,
        })
    }
    fn empty() -> Alone {
        Alone {
            sql: String::new(),
            toks: vec![],
            tree: None,
            data: None,
            issues: vec![],
            nargs: 0,
        }
    }
    /// A COPY statement with its delimiter, its data and their end.
    fn copy(w: &Worker, head: &str, delim: &str, data: &str, end: &str, opts: Opts) -> Option<Alone> {
        let o = w.run(head, opts, Mode::One, FULL);
        if !o.ok() || o.stmts.len() != 1 {
            return None;
        }
        let at = head.len() + delim.len();
        let skip = data.starts_with('\n') as usize;
        Some(Alone {
            sql: format!("{}{}{}{}", head, delim, data, end),
            toks: head.split(' ').map(|t| t.to_string()).chain([delim.to_string()]).collect(),
            tree: Some(shift_all(&o.stmts[0].dbg, 0, 0)),
            data: Some(shift_all(
                &format!("Stdin({:?}, {}..{})", &data[skip..], at + skip, at + data.len()),
                0,
                0,
            )),
            nargs: 0,
            issues: o.issues,
        })
    }
    fn has(&self, t: &str) -> bool {
        self.toks.iter().any(|x| x == t)
    }
}

/// Parse the list made of the parts, each followed by its delimiter text, and compare with the parts
/// parsed alone.
fn compare(w: &Worker, parts: &[&Alone], delims: &[&str], prefix: &str, opts: Opts) -> bool {
    let mut sql = String::from(prefix);
    let mut offs = Vec::with_capacity(parts.len());
    for (k, p) in parts.iter().enumerate() {
        offs.push(sql.len());
        sql.push_str(&p.sql);
        sql.push_str(delims[k % delims.len()]);
    }
    let o = w.run(
        &sql,
        opts,
        Mode::Many,
        Want {
            dbg: true,
            span: false,
            display: false, ..NOTHING
        },
    );
    w.ctx.transitions.fetch_add(1, Relaxed);
    w.ctx.traces.fetch_add(1, Relaxed);
    let key = || {
        format!(
            "list:{}",
            clip(&sql, 300)
                .split_whitespace()
                .collect::<Vec<_>>()
                .join("_")
        )
    };
    if o.panic.is_some() || o.errors() > 0 {
        w.bad(
            &key(),
            "a list of valid statements is reported as an error",
            &sql,
            opts,
            Mode::Many,
            o.show(),
        );
        return false;
    }
    let want: usize = parts.iter().map(|p| p.tree.is_some() as usize + p.data.is_some() as usize).sum();
    if o.stmts.len() != want {
        w.bad(
            &key(),
            format!("{} statements returned for {}", o.stmts.len(), want),
            &sql,
            opts,
            Mode::Many,
            o.show(),
        );
        return false;
    }
    let mut args = 0;
    let mut n = 0;
    let mut issues = o.issues.iter();
    for (k, p) in parts.iter().enumerate() {
        if let Some(t) = &p.tree {
            let got = shift_all(
                &o.stmts[n].dbg,
                offs[k],
                if opts.args == 3 { 0 } else { args },
            );
            n += 1;
            args += p.nargs;
            if got != *t {
                w.bad(
                    &key(),
                    format!(
                        "statement {} of the list differs from the same statement parsed alone",
                        n
                    ),
                    &sql,
                    opts,
                    Mode::Many,
                    diff(t, &got),
                );
                return false;
            }
        }
        if let Some(t) = &p.data {
            let got = shift_all(&o.stmts[n].dbg, offs[k], 0);
            n += 1;
            if got != *t {
                w.bad(
                    &key(),
                    "the data of a COPY in the list is not returned as it is",
                    &sql,
                    opts,
                    Mode::Many,
                    diff(t, &got),
                );
                return false;
            }
        }
        for i in &p.issues {
            if issues.next().map(|g| shift_issue(g, offs[k])).as_ref() != Some(i) {
                w.bad(
                    &key(),
                    "the issues of the list differ from those of its statements parsed alone",
                    &sql,
                    opts,
                    Mode::Many,
                    o.show(),
                );
                return false;
            }
        }
    }
    if issues.next().is_some() {
        w.bad(
            &key(),
            "the list has issues that its statements parsed alone do not have",
            &sql,
            opts,
            Mode::Many,
            o.show(),
        );
        return false;
    }
    true
}

fn alones(ctx: &Ctx, gen: &Gen, budget: u32, opts: Opts) -> Vec<Alone> {
    let base = collect(ctx, gen, "stmt", budget, |d| {
        d.in_dialect(opts.dialect) && d.accepted_in(opts.dialect) && d.toks[0].text != "COPY"
    });
    let v = std::sync::Mutex::new(Vec::new());
    ctx.each(&base, |w, d| {
        if let Some(a) = Alone::new(w, d, opts) {
            v.lock().unwrap().push(a);
        }
    });
    let mut v = v.into_inner().unwrap();
    v.sort_by(|a, b| (a.sql.len(), &a.sql).cmp(&(b.sql.len(), &b.sql)));
    v
}

/// Every short sequence of statements, delimiters and changes of the delimiter, alone and after many statements:
/// it is accepted exactly if every statement is ended by the delimiter in force, and all statements are returned.
fn separators(ctx: &Ctx) {
    const WORDS: [&str; 7] = ["COMMIT", "SELECT 1", ";", "$$", "DELIMITER $$", "DELIMITER ;", "-- ; $$\n"];
    // the statements of an accepted sequence
    let model = |l: &[usize], mut delim: usize| -> Option<Vec<usize>> {
        let mut stmts = Vec::new();
        let mut open = false;
        for &i in l {
            match i {
                0 | 1 if !open => {
                    stmts.push(i);
                    open = true;
                }
                2 | 3 if i == delim => open = false,
                4 | 5 if !open => delim = if i == 4 { 3 } else { 2 },
                6 => (),
                _ => return None,
            }
        }
        (!open).then_some(stmts)
    };
    let mut tails: Vec<Vec<usize>> = vec![vec![]];
    let mut all = tails.clone();
    for n in 0..6 + ctx.thorough as usize {
        all = all.iter().flat_map(|l| (0..WORDS.len()).map(move |i| [l.as_slice(), &[i]].concat())).collect();
        if n > 2 {
            tails.extend(all.iter().cloned());
        }
    }
    let firsts: Vec<(usize, usize, usize)> = [(0, 2, 0), (0, 2, 1), (0, 3, 1), (0, 3, 2)]
        .into_iter()
        .chain([3, 4, 5, 8, 9, 16, 17, 33].iter().flat_map(|n| [(0, 2, *n), (1, 3, *n)]))
        .collect();
    let items: Vec<(usize, &Vec<usize>)> = (0..firsts.len())
        .flat_map(|f| tails.iter().filter(move |t| f < 4 || t.len() < 5).map(move |t| (f, t)))
        .collect();
    let n = items.len();
    ctx.each(&items, |w, &(f, t)| {
        let (stmt, delim, times) = firsts[f];
        let mut sql = String::new();
        if delim == 3 {
            sql.push_str("DELIMITER $$ ");
        }
        for _ in 0..times {
            sql.push_str(WORDS[stmt]);
            sql.push_str(WORDS[delim]);
        }
        for i in t {
            sql.push(' ');
            sql.push_str(WORDS[*i]);
        }
        let opts = BASE.dialect((t.len() % 3) as u8);
        let o = w.run(&sql, opts, Mode::Many, Want { dbg: true, ..NOTHING });
        w.ctx.transitions.fetch_add(1, Relaxed);
        let bad = match model(t, delim) {
            _ if o.panic.is_some() => Some("the parser panics"),
            None => (o.errors() == 0).then_some("no Error although a statement is not ended by the delimiter in force"),
            Some(l) => {
                w.ctx.traces.fetch_add(1, Relaxed);
                let kinds = std::iter::repeat_n(&stmt, times).chain(&l);
                let same = o.stmts.len() == times + l.len()
                    && kinds.zip(&o.stmts).all(|(k, s)| s.dbg.starts_with(["Commit(", "Select("][*k]));
                (!o.issues.is_empty() || !same).then_some("the statements of a list are not returned")
            }
        };
        if let Some(b) = bad {
            w.bad(&format!("separators:{}", clip(&sql, 200).replace(' ', "_")), b, &sql, opts, Mode::Many, o.show());
        }
    });
    ctx.note("sequences of statements, delimiters and changes of the delimiter", n);
}

pub fn c11(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let deep = ctx.thorough as u32;
    separators(ctx);
    for dialect in 0..3u8 {
        for variant in 0..2 {
            if ctx.stopped() {
                return;
            }
            let opts = match variant {
                0 => BASE.dialect(dialect),
                _ => Opts {
                    warn_ident: true,
                    warn_kw: true,
                    list: true,
                    ..BASE.dialect(dialect)
                },
            };
            let full = dialect == 0 && variant == 0;
            let reps = alones(ctx, &gen, 0, opts);
            let one = alones(ctx, &gen, 1, opts);
            for a in &one {
                ctx.state(hash64(&a.sql));
            }
            // pairs
            let n = one.len();
            let firsts: Vec<&Alone> = if full || ctx.thorough {
                one.iter().collect()
            } else {
                one.iter().step_by(3).collect()
            };
            ctx.each(&firsts, |w, a| {
                for b in &one {
                    if !compare(w, &[*a, b], &["; ", ";"], "", opts) {
                        return;
                    }
                }
                ctx.sample(|| format!("{}; {};", a.sql, one[0].sql));
            });
            ctx.note(
                &format!(
                    "pairs of statements, {} variant {}",
                    DN[dialect as usize], variant
                ),
                firsts.len() * n,
            );
            // long lists: of one statement over and over, and of all kinds in turn
            let times = [5, 8, 9, 10, 16, 17, 32, 33, 65, 129, 257];
            ctx.each(&one, |w, a| {
                let most = match (a.sql.len(), ctx.thorough) {
                    (_, true) => 257,
                    (0..=40, _) => 65,
                    _ => 17,
                };
                for n in times.iter().filter(|n| **n <= most) {
                    if !compare(w, &vec![a; *n], &["; ", ";"], "", opts) {
                        return;
                    }
                }
            });
            let turns: Vec<usize> = (0..reps.len()).collect();
            ctx.each(&turns, |w, at| {
                for n in (5..reps.len() + 2).chain(times).chain([1000]) {
                    let l: Vec<&Alone> = (0..n).map(|k| &reps[(at + k) % reps.len()]).collect();
                    if !compare(w, &l, &[";\n"], "", opts) {
                        return;
                    }
                    let l: Vec<&Alone> = (0..n).map(|k| &reps[(at + k * 7) % reps.len()]).filter(|a| !a.has("$$")).collect();
                    if !compare(w, &l, &["$$"], "DELIMITER $$ ", opts) {
                        return;
                    }
                }
            });
            ctx.note(
                &format!("statements in long lists, {} variant {}", DN[dialect as usize], variant),
                one.len(),
            );
            // longer statements next to the short ones, on either side
            if variant == 0 {
                let two = alones(ctx, &gen, 2 + (full as u32) * deep, opts);
                ctx.each(&two, |w, a| {
                    for b in &reps {
                        if !(compare(w, &[a, b], &[";\n", " ;"], " ", opts)
                            && compare(w, &[b, a], &[" ;", ";\n"], "\n", opts))
                        {
                            return;
                        }
                    }
                });
                ctx.note(
                    &format!(
                        "statements of two deviations next to the default ones, {}",
                        DN[dialect as usize]
                    ),
                    two.len() * reps.len() * 2,
                );
            }
            // COPY and its data among the others
            let copies = std::sync::Mutex::new((Vec::new(), Vec::new(), Vec::new()));
            ctx.each(&[()], |w, _| {
                let mut c = copies.lock().unwrap();
                for head in ["COPY t (a) FROM STDIN", "COPY t (a, b, c) FROM STDIN"] {
                    for data in ["\n", "\n1\t2\n", "\n;\n$$\n'\n", "\nBEGIN\n\\.x\n", "\nDELIMITER $$\n--\n\n"] {
                        c.0.extend(Alone::copy(w, head, ";", data, "\\.\n", opts));
                        c.1.extend(Alone::copy(w, head, "$$", data, "\\.\n", opts));
                        c.2.extend(Alone::copy(w, head, ";", data, "", opts));
                        c.2.extend(Alone::copy(w, head, ";", data, "\\.", opts));
                    }
                }
            });
            let (semi, dollar, last) = copies.into_inner().unwrap();
            if semi.len() != 10 || dollar.len() != 10 || last.len() != 20 {
                ctx.violation(Violation {
                    key: "copy".into(),
                    what: "a plain COPY is not accepted alone".into(),
                    sql: "COPY t (a) FROM STDIN".into(),
                    opts,
                    mode: Mode::One,
                    detail: String::new(),
                });
            }
            ctx.each(&one, |w, a| {
                for c in &semi {
                    let b = &one[(hash64(&a.sql) % one.len() as u64) as usize];
                    if !(compare(w, &[c, a], &["", ";"], "", opts)
                        && compare(w, &[a, c, b], &["; ", "", ";"], "", opts)
                        && compare(w, &[c, c, a, c, a], &["", " ;", ";", "\n", ";"], " ", opts))
                    {
                        return;
                    }
                }
                for c in &last {
                    if !compare(w, &[a, c], &[";", ""], "", opts) {
                        return;
                    }
                }
                if a.has("$$") {
                    return;
                }
                for (c, s) in dollar.iter().zip(&semi) {
                    if !(compare(w, &[a, c, a], &["$$", "", "$$"], "DELIMITER $$ ", opts)
                        && compare(w, &[c, s, a, c], &["DELIMITER ; ", "", "; DELIMITER $$ ", " "], "DELIMITER $$ ", opts))
                    {
                        return;
                    }
                }
            });
            ctx.note(
                &format!("statements before and after COPY and its data, {} variant {}", DN[dialect as usize], variant),
                one.len() * (3 * 10 + 20 + 2 * 10),
            );
            // triples and quadruples of representatives, with empty statements and changes of delimiter
            let step = if ctx.thorough { 4 } else { 16 };
            let mut tri: Vec<Alone> = reps.clone();
            tri.push(Alone::empty());
            tri.extend(one.iter().step_by(step).cloned());
            let nd = |a: &Alone| !a.has("$$");
            ctx.each(&tri, |w, a| {
                for b in &tri {
                    for c in &tri {
                        if !compare(w, &[a, b, c], &[";", " ; ", ";\n"], "", opts) {
                            return;
                        }
                    }
                }
            });
            ctx.note(
                &format!(
                    "triples of statements, {} variant {}",
                    DN[dialect as usize], variant
                ),
                tri.len().pow(3),
            );
            let dol: Vec<Alone> = tri.iter().filter(|a| nd(a)).cloned().collect();
            let small: Vec<Alone> = reps
                .iter()
                .filter(|a| nd(a))
                .cloned()
                .chain([Alone::empty()])
                .collect();
            ctx.each(&dol, |w, a| {
                for b in &dol {
                    if !(compare(w, &[a, b], &["$$", " $$ "], "DELIMITER $$ ", opts)
                        && compare(
                            w,
                            &[a, b],
                            &["$$\nDELIMITER ;\n", ";"],
                            "DELIMITER $$\n",
                            opts,
                        )
                        && compare(w, &[a, b], &["; DELIMITER $$ ", " $$ $$"], ";", opts))
                    {
                        return;
                    }
                    for c in &small {
                        if !(compare(
                            w,
                            &[a, b, c],
                            &["$$ DELIMITER ; ", "; DELIMITER $$ ", "$$"],
                            "DELIMITER $$ ",
                            opts,
                        ) && compare(
                            w,
                            &[a, c, b],
                            &[";;", "; DELIMITER $$ $$", "$$ $$ "],
                            ";;",
                            opts,
                        )) {
                            return;
                        }
                    }
                }
            });
            ctx.note(
                &format!(
                    "lists with changes of the delimiter, {} variant {}",
                    DN[dialect as usize], variant
                ),
                dol.len().pow(2) * (3 + 2 * small.len()),
            );
            let quad: Vec<Alone> = reps
                .iter()
                .step_by(if ctx.thorough { 1 } else { 2 })
                .cloned()
                .chain([Alone::empty()])
                .collect();
            ctx.each(&quad, |w, a| {
                for b in &quad {
                    for c in &quad {
                        for d in &quad {
                            if !compare(w, &[a, b, c, d], &[";", " ;", ";\n", "; ;"], " ", opts) {
                                return;
                            }
                        }
                    }
                }
            });
            ctx.note(
                &format!(
                    "quadruples of statements, {} variant {}",
                    DN[dialect as usize], variant
                ),
                quad.len().pow(4),
            );
        }
    }
    // no statements at all
    let ws = [
        "",
        " ",
        "\n",
        ";",
        ";;",
        " ; ",
        "-- c\n",
        "/* ; */",
        "// c\n;",
        "DELIMITER ;",
        "DELIMITER $$",
        "$$",
        "DELIMITER $$ $$ DELIMITER ; ;",
    ];
    ctx.each(&ws, |w, a| {
        for b in ws {
            for c in ws {
                let sql = format!("{} {} {}", a, b, c);
                // leave out texts with the wrong delimiter
                let mut d = ";";
                let plain = sql
                    .replace("-- c\n", "\n")
                    .replace("// c\n", "\n")
                    .replace("/* ; */", " ")
                    .replace("-- c", " ")
                    .replace("// c", " ");
                let mut ok = true;
                let toks: Vec<&str> = plain.split_whitespace().collect();
                let mut k = 0;
                while k < toks.len() {
                    if toks[k] == "DELIMITER" {
                        if k + 1 >= toks.len() || !["$$", ";"].contains(&toks[k + 1]) {
                            ok = false;
                            break;
                        }
                        d = toks[k + 1];
                        k += 2;
                        continue;
                    }
                    if toks[k].chars().any(|c| !d.contains(c)) {
                        ok = false;
                        break;
                    }
                    k += 1;
                }
                if !ok {
                    continue;
                }
                for dialect in 0..3 {
                    let o = w.run(&sql, BASE.dialect(dialect), Mode::Many, FULL);
                    ctx.traces.fetch_add(1, Relaxed);
                    if o.panic.is_some() || !o.stmts.is_empty() || !o.issues.is_empty() {
                        w.bad(
                            "empty",
                            "a list of empty statements is not empty",
                            &sql,
                            BASE.dialect(dialect),
                            Mode::Many,
                            o.show(),
                        );
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- C12

/// Malformed one-token edits of a statement.
fn corruptions(t: &[String], words: &[&str]) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = Vec::new();
    for i in 0..t.len() {
        let mut x = t.to_vec();
        x.remove(i);
        v.push(x);
        let mut x = t.to_vec();
        x.insert(i, t[i].clone());
        v.push(x);
        if i + 1 < t.len() {
            let mut x = t.to_vec();
            x.swap(i, i + 1);
            v.push(x);
        }
        v.push(t[..i].to_vec());
        v.push(t[i..].to_vec());
        for w in words {
            let mut x = t.to_vec();
            x[i] = w.to_string();
            v.push(x);
            let mut x = t.to_vec();
            x.insert(i, w.to_string());
            v.push(x);
        }
    }
    for w in words {
        let mut x = t.to_vec();
        x.push(w.to_string());
        v.push(x);
    }
    v
}

fn recover(w: &Worker, a: &Alone, bad: &str, b: &Alone, delim: &str, opts: Opts) -> bool {
    let prefix = if delim == ";" { "" } else { "DELIMITER $$ " };
    let sql = format!(
        "{}{} {d} {} {d} {} {d}",
        prefix,
        a.sql,
        bad,
        b.sql,
        d = delim
    );
    let oa = prefix.len();
    let ob = oa + a.sql.len() + delim.len() + 2;
    let oe = ob + bad.len() + delim.len() + 1;
    let oc = oe + 1;
    let o = w.run(
        &sql,
        opts,
        Mode::Many,
        Want {
            dbg: true,
            span: false,
            display: false, ..NOTHING
        },
    );
    w.ctx.transitions.fetch_add(1, Relaxed);
    w.ctx.traces.fetch_add(1, Relaxed);
    let key = || {
        format!(
            "recover:{}",
            clip(&sql, 300)
                .split_whitespace()
                .collect::<Vec<_>>()
                .join("_")
        )
    };
    if let Some(p) = &o.panic {
        w.bad(
            &key(),
            format!("the parser panicked: {}", p),
            &sql,
            opts,
            Mode::Many,
            String::new(),
        );
        return false;
    }
    let (ta, tb) = (a.tree.as_ref().unwrap(), b.tree.as_ref().unwrap());
    // the malformed statement may leave a part of itself, but never more than one statement
    if o.stmts.len() < 2 || o.stmts.len() > 3 {
        w.bad(
            &key(),
            format!(
                "{} statements are returned for two good ones and a malformed one between them",
                o.stmts.len()
            ),
            &sql,
            opts,
            Mode::Many,
            o.show(),
        );
        return false;
    }
    if o.stmts.len() == 3 {
        let mut first = usize::MAX;
        scan_dbg(&o.stmts[1].dbg, &mut |e| {
            if let Ev::Span(a, b) = e {
                if b > 0 {
                    first = first.min(a)
                }
            }
        });
        if first != usize::MAX
            && (first < ob || first > oe || sql[ob..first].chars().any(|c| c != '(' && c != ' '))
        {
            w.bad(
                &key(),
                "a statement is returned that starts in the middle of the malformed one",
                &sql,
                opts,
                Mode::Many,
                o.show(),
            );
            return false;
        }
    }
    let got = shift_all(&o.stmts[0].dbg, oa, 0);
    if got != *ta {
        w.bad(
            &key(),
            "the statement before a malformed one is damaged",
            &sql,
            opts,
            Mode::Many,
            diff(ta, &got),
        );
        return false;
    }
    let last = &o.stmts.last().unwrap().dbg;
    // placeholders may have been counted in the malformed statement
    let base = if b.nargs > 0 {
        args_of(last).first().map(|x| x.0).unwrap_or(0)
    } else {
        0
    };
    let got = shift_all(last, oc, base);
    if got != *tb {
        w.bad(
            &key(),
            "the statement after a malformed one is damaged",
            &sql,
            opts,
            Mode::Many,
            diff(tb, &got),
        );
        return false;
    }
    for i in &o.issues {
        let inside = |s: (usize, usize)| s.0 >= ob && s.1 <= oe;
        if !inside(i.span) || i.frags.iter().any(|f| !inside(f.span)) {
            w.bad(
                &key(),
                "an issue is reported outside the malformed statement",
                &sql,
                opts,
                Mode::Many,
                format!("malformed: {}..{}\n{}", ob, oe, o.show()),
            );
            return false;
        }
    }
    if o.errors() == 0 {
        w.bad(
            &key(),
            "no error is reported for a malformed statement",
            &sql,
            opts,
            Mode::Many,
            o.show(),
        );
        return false;
    }
    true
}

pub fn c12(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    const WORDS: [&str; 10] = [
        ";",
        "(",
        ")",
        ",",
        "SELECT",
        "i9",
        "99999999999999999999",
        "END",
        "'s'",
        "{",
    ];
    for dialect in 0..3u8 {
        if ctx.stopped() {
            return;
        }
        let opts = BASE.dialect(dialect);
        let goods: Vec<Alone> = alones(ctx, &gen, 0, opts)
            .into_iter()
            .filter(|a| !a.has("$$"))
            .collect();
        let more: Vec<Alone> = alones(ctx, &gen, 1, opts)
            .into_iter()
            .filter(|a| !a.has("$$"))
            .collect();
        let budget = if ctx.thorough { 2 } else { 1 };
        let d = collect(ctx, &gen, "stmt", budget, |d| {
            d.in_dialect(dialect) && d.toks[0].text != "COPY"
        });
        let cnt = std::sync::atomic::AtomicU64::new(0);
        // the shortest malformed statement of every kind, the kind being what is reported and returned
        let kinds = std::sync::Mutex::new(BTreeMap::<(&str, String), (usize, String)>::new());
        ctx.each(&d, |w, d| {
            let t: Vec<String> = d.toks.iter().map(|t| t.text.clone()).collect();
            for c in corruptions(&t, &WORDS) {
                if c.is_empty() || c[0] == "COPY" {
                    continue;
                }
                let bad = c.join(" ");
                let h = hash64(&bad);
                let o = w.run(&bad, opts, Mode::One, Want::default());
                if o.panic.is_some() || o.errors() == 0 {
                    continue;
                }
                cnt.fetch_add(1, Relaxed);
                ctx.state(h);
                // its delimiter must not be able to be a part of it: inside a body that is still open, or as
                // the quote of a DO or function body
                let semi = c
                    .iter()
                    .any(|x| [";", "THEN", "BEGIN", "ELSE", "DO"].contains(&x.as_str()))
                    || c.iter().filter(|x| *x == "$$").count() % 2 == 1;
                let dollar = c
                    .iter()
                    .any(|x| ["$$", "DO", "FUNCTION"].contains(&x.as_str()));
                let plain = !semi && !c.iter().any(|x| ["?", ";", "$$"].contains(&x.as_str()));
                for (under, ok) in [(";", plain), ("$$", !dollar && !c.iter().any(|x| x == "?"))] {
                    if !ok {
                        continue;
                    }
                    let kind = format!(
                        "{} {} {}",
                        o.issues.iter().map(|i| i.message.as_str()).collect::<Vec<_>>().join("|"),
                        o.stmts.len(),
                        c.iter().any(|x| x == ";"),
                    );
                    let v = (bad.len(), bad.clone());
                    let mut k = kinds.lock().unwrap();
                    match k.get_mut(&(under, kind.clone())) {
                        Some(x) if *x <= v => (),
                        Some(x) => *x = v,
                        None => {
                            k.insert((under, kind), v);
                        }
                    }
                }
                let n = goods.len();
                for (delim, ok) in [(";", !semi), ("$$", !dollar)] {
                    if !ok {
                        continue;
                    }
                    // every malformed statement between good ones in turn, every default one among them for short ones
                    let many = if t.len() <= 4 { n } else { 2 };
                    for k in 0..many {
                        let a = &goods[(h as usize + k) % n];
                        let b = &more[(h as usize / 7 + k * 13) % more.len()];
                        if !recover(w, a, &bad, b, delim, opts) {
                            return;
                        }
                    }
                }
            }
        });
        ctx.note(
            &format!("malformed statements, {}", DN[dialect as usize]),
            cnt.load(Relaxed),
        );
        // two malformed statements in a row
        let kinds = kinds.into_inner().unwrap();
        for (delim, before) in [(";", ""), ("$$", "DELIMITER $$ ")] {
        let bads: Vec<&String> = kinds.iter().filter(|k| k.0.0 == delim).map(|k| &k.1.1).collect();
        let dbg = Want {
            dbg: true,
            span: false,
            display: false, ..NOTHING
        };
        ctx.each(&bads, |w, a| {
            for b in &bads {
                let both = format!("{}{} {d} {} {d}", before, a, b, d = delim);
                let (oa, ob) = (
                    w.run(&format!("{}{} {}", before, a, delim), opts, Mode::Many, dbg),
                    w.run(&format!("{}{} {}", before, b, delim), opts, Mode::Many, dbg),
                );
                let o = w.run(&both, opts, Mode::Many, dbg);
                w.ctx.transitions.fetch_add(1, Relaxed);
                w.ctx.traces.fetch_add(1, Relaxed);
                let off = a.len() + delim.len() + 2;
                let trees: Vec<String> = o
                    .stmts
                    .iter()
                    .enumerate()
                    .map(|(k, s)| shift_all(&s.dbg, if k < oa.stmts.len() { 0 } else { off }, 0))
                    .collect();
                let want: Vec<String> =
                    oa.stmts.iter().chain(&ob.stmts).map(|s| shift_all(&s.dbg, 0, 0)).collect();
                let issues: Vec<Iss> = o
                    .issues
                    .iter()
                    .enumerate()
                    .map(|(k, i)| shift_issue(i, if k < oa.issues.len() { 0 } else { off }))
                    .collect();
                let wissues: Vec<Iss> = oa.issues.iter().chain(&ob.issues).cloned().collect();
                if o.panic.is_some() || trees != want || issues != wissues {
                    w.bad(
                        &format!("two:{}", clip(&both, 300).split_whitespace().collect::<Vec<_>>().join("_")),
                        "two malformed statements in a row differ from each of them alone",
                        &both,
                        opts,
                        Mode::Many,
                        format!("{}\n{}", diff(&want.join("\n"), &trees.join("\n")), o.show()),
                    );
                    return;
                }
            }
        });
        ctx.note(
            &format!("pairs of malformed statements under {}, {}", delim, DN[dialect as usize]),
            bads.len() * bads.len(),
        );
        }
    }
}

// ------------------------------------------------------------------------------------------- C13

pub fn c13(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let deep = ctx.thorough as u32;
    let visit = |w: &Worker, d: &Deriv, all: bool| {
        if !d.toks.iter().any(|t| t.text == ";") {
            return;
        }
        ctx.state(hash64(&d.tree));
        let dollar = d.toks.iter().any(|t| t.text == "$$");
        let first = &d.toks[0].text;
        let mut toks: Vec<Tok> = Vec::with_capacity(d.toks.len() + 12);
        let t = |s: &str| Tok {
            text: s.into(),
            kind: kind_of(s),
        };
        // (tokens before, tokens after): alone, in a list, between others, under each delimiter
        let frames: &[(&[&str], &[&str], usize, usize, bool)] = &[
            (&[], &[";"], 0, 0, false),
            (&["DELIMITER", "$$"], &["$$"], 0, 0, true),
            (&["BEGIN", ";"], &[";", "END", ";"], 1, 1, false),
            (
                &["DELIMITER", "$$", "BEGIN", "$$"],
                &["$$", "END", "$$", "DELIMITER", ";", "COMMIT", ";"],
                1,
                2,
                true,
            ),
            (
                &[
                    "DELIMITER",
                    "$$",
                    "SET",
                    "x",
                    "=",
                    "1",
                    "$$",
                    "DELIMITER",
                    ";",
                ],
                &[";", "END", ";", "BEGIN", ";"],
                1,
                2,
                false,
            ),
        ];
        for dialect in 0..3u8 {
            if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                continue;
            }
            for (n, (pre, post, before, after, dd)) in frames.iter().enumerate() {
                if (*dd && dollar) || (!all && n % 5 != (d.toks.len() + dialect as usize) % 5) {
                    continue;
                }
                toks.clear();
                toks.extend(pre.iter().map(|s| t(s)));
                let base = toks.len();
                toks.extend(d.toks.iter().cloned());
                toks.extend(post.iter().map(|s| t(s)));
                let (sql, pos) = layout(&toks);
                let opts = BASE.dialect(dialect);
                let o = w.run(
                    &sql,
                    opts,
                    Mode::Many,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                ctx.traces.fetch_add(1, Relaxed);
                let key = || format!("nest:{}", sql.replace(' ', "_"));
                if o.panic.is_some() || o.errors() > 0 {
                    w.bad(
                        &key(),
                        "a valid compound statement in a list is reported as an error",
                        &sql,
                        opts,
                        Mode::Many,
                        o.show(),
                    );
                    return;
                }
                if o.stmts.len() != before + 1 + after {
                    w.bad(
                        &key(),
                        format!(
                            "{} statements are returned instead of {}",
                            o.stmts.len(),
                            before + 1 + after
                        ),
                        &sql,
                        opts,
                        Mode::Many,
                        o.show(),
                    );
                    return;
                }
                let got = canon(&o.stmts[*before].dbg, &pos, base);
                if got != d.tree {
                    w.bad(&key(), "the statements of the body are not returned inside their own blocks in order", &sql, opts, Mode::Many, diff(&d.tree, &got));
                    return;
                }
                // BEGIN, END and COMMIT around it are statements of their own
                let kinds: Vec<String> = o
                    .stmts
                    .iter()
                    .map(|s| s.dbg.split('(').next().unwrap().to_string())
                    .collect();
                let want: Vec<&str> = [*pre, *post]
                    .iter()
                    .flat_map(|p| p.iter())
                    .filter_map(|s| match *s {
                        "BEGIN" => Some("Begin"),
                        "END" => Some("End"),
                        "COMMIT" => Some("Commit"),
                        "SET" => Some("Set"),
                        _ => None,
                    })
                    .collect();
                let got: Vec<&str> = kinds
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| i != before)
                    .map(|(_, k)| k.as_str())
                    .collect();
                if got != want {
                    w.bad(
                        &key(),
                        format!(
                            "{:?} are returned around the compound statement instead of {:?}",
                            got, want
                        ),
                        &sql,
                        opts,
                        Mode::Many,
                        o.show(),
                    );
                    return;
                }
            }
            // the last statement of a body may do without its semicolon before END; alone it is parsed the same
            if all {
                let (sql, pos) = layout(&d.toks);
                let opts = BASE.dialect(dialect);
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                let got = o
                    .stmts
                    .first()
                    .map(|s| canon(&s.dbg, &pos, 0))
                    .unwrap_or_default();
                if !o.ok() || got != d.tree {
                    w.bad(
                        &format!("one:{}", sql.replace(' ', "_")),
                        "the body of a statement parsed alone is not what was written",
                        &sql,
                        opts,
                        Mode::One,
                        diff(&d.tree, &got),
                    );
                    return;
                }
                // with another delimiter a body still wants semicolons
                if !dollar && first != "DO" && dialect == 0 {
                    for (i, x) in d.toks.iter().enumerate().filter(|x| x.1.text == ";") {
                        let _ = x;
                        let mut v = vec![t("DELIMITER"), t("$$")];
                        v.extend(d.toks.iter().cloned());
                        v[i + 2].text = "$$".into();
                        v.push(t("$$"));
                        let (sql, _) = layout(&v);
                        let o = w.run(&sql, opts, Mode::Many, Want::default());
                        ctx.traces.fetch_add(1, Relaxed);
                        if o.panic.is_some() || o.errors() == 0 {
                            w.bad(
                                &format!("inner:{}", sql.replace(' ', "_")),
                                "a statement of a body may end with the delimiter of the list",
                                &sql,
                                opts,
                                Mode::Many,
                                o.show(),
                            );
                            return;
                        }
                    }
                }
            }
        }
    };
    let b = 4 + deep;
    let n = explore(ctx, &gen, g.rule("body"), b, |w, d| visit(w, d, true));
    ctx.note(
        &format!("derivations of <body> with at most {} deviations", b),
        n,
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        println!("body {} {:.1}s", n, ctx.elapsed());
    }
    for (rule, b) in [
        ("do", 3),
        ("if", 3),
        ("case", 3),
        ("create_trigger", 3),
        ("create_function", 3),
    ] {
        let n = explore(ctx, &gen, g.rule(rule), b + deep, |w, d| visit(w, d, false));
        ctx.note(
            &format!(
                "derivations of <{}> with at most {} deviations",
                rule,
                b + deep
            ),
            n,
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("{} {} {:.1}s", rule, n, ctx.elapsed());
        }
    }
    for (rule, b) in [("body", 2), ("do", 2), ("if", 2), ("case", 2), ("create_trigger", 1)] {
        let t = ctx.elapsed();
        let n = pump(ctx, &gen, g.rule(rule), b + deep, 65, 129, |w, d, times| visit(w, d, times < 6));
        ctx.note(
            &format!("derivations of <{}> with at most {} deviations and one stretch repeated up to 129 times", rule, b + deep),
            n,
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("{} pump {} {:.1}s", rule, n, ctx.elapsed() - t);
        }
    }
    transactions(ctx);
}

/// All short lists of transaction statements, changes of delimiter and a few others.
fn transactions(ctx: &Ctx) {
    const ITEMS: [(&str, &str); 9] = [
        ("BEGIN", "Begin"),
        ("END", "End"),
        ("COMMIT", "Commit"),
        ("START TRANSACTION", "StartTransaction"),
        ("SET a = 1", "Set"),
        ("IF a THEN BEGIN COMMIT; END; END IF", "If"),
        (
            "CREATE TRIGGER t AFTER INSERT ON u FOR EACH ROW BEGIN SET a = 1; END",
            "CreateTrigger",
        ),
        ("CASE WHEN a THEN COMMIT; END", "Case"),
        ("DELIMITER", ""),
    ];
    let len = if ctx.thorough { 7 } else { 6 };
    let starts: Vec<usize> = (0..81).collect();
    ctx.each(&starts, |w, s| {
        let mut idx = vec![s / 9, s % 9];
        let total = 9usize.pow(len as u32 - 2);
        idx.resize(len, 0);
        for n in 0..total {
            let mut m = n;
            for x in idx.iter_mut().skip(2) {
                *x = m % 9;
                m /= 9;
            }
            let mut sql = String::new();
            let mut want: Vec<&str> = Vec::new();
            let mut dollar = false;
            for i in &idx {
                if *i == 8 {
                    dollar = !dollar;
                    sql.push_str(if dollar {
                        "DELIMITER $$\n"
                    } else {
                        "DELIMITER ;\n"
                    });
                } else {
                    sql.push_str(ITEMS[*i].0);
                    sql.push_str(if dollar { "$$" } else { ";" });
                    want.push(ITEMS[*i].1);
                }
            }
            let opts = BASE.dialect((n % 3) as u8);
            let o = w.run(
                &sql,
                opts,
                Mode::Many,
                Want {
                    dbg: true,
                    span: false,
                    display: false, ..NOTHING
                },
            );
            ctx.transitions.fetch_add(1, Relaxed);
            let ok = o.ok()
                && o.stmts.len() == want.len()
                && o.stmts
                    .iter()
                    .zip(&want)
                    .all(|(s, k)| s.dbg.starts_with(*k) && s.dbg[k.len()..].starts_with('('));
            if !ok {
                w.bad(
                    &format!(
                        "history:{}",
                        sql.split_whitespace().collect::<Vec<_>>().join("_")
                    ),
                    "a list of transaction and compound statements is not returned as such",
                    &sql,
                    opts,
                    Mode::Many,
                    format!("specified: {:?}\n{}", want, o.show()),
                );
                return;
            }
        }
    });
    ctx.note(
        &format!(
            "lists of {} transaction statements, compound statements and changes of delimiter",
            len
        ),
        9u64.pow(len as u32),
    );
}

// ------------------------------------------------------------------------------------------- C14

/// Where the data that follows position `from` starts and ends and where SQL goes on.
fn copy_data(s: &str, from: usize) -> (usize, usize, usize) {
    let rest = &s[from..];
    let blanks = rest.len() - rest.trim_start_matches([' ', '\t', '\r', '\x0c']).len();
    let mut start = from + blanks;
    // a data line starts at `line`
    let mut line = None;
    if s[start..].starts_with('\n') {
        start += 1;
        line = Some(start);
    }
    let mut p = start;
    loop {
        if let Some(l) = line {
            // the terminating line
            let e = s[l..].find('\n').map(|i| l + i).unwrap_or(s.len());
            if &s[l..e] == "\\." {
                return (start, l, (e + 1).min(s.len()));
            }
        }
        match s[p..].find('\n') {
            Some(i) => {
                p += i + 1;
                line = Some(p);
            }
            None => return (start, s.len(), s.len()),
        }
    }
}

pub fn c14(ctx: &Ctx) {
    // statement, text before it, its delimiter, kinds of the statements before its data
    const HEADS: [(&str, &str, &[&str]); 6] = [
        ("COPY t (a) FROM STDIN", ";", &["Copy"]),
        ("COPY t (a, b) FROM STDIN", " ;", &["Copy"]),
        ("COPY t () FROM STDIN ", ";", &["Copy"]),
        ("SELECT 1; COPY t (a) FROM STDIN", ";", &["Select", "Copy"]),
        ("DELIMITER $$ COPY t (a) FROM STDIN", "$$", &["Copy"]),
        (
            "COPY t (a) FROM STDIN; x\n\\.\nCOPY t (a) FROM STDIN",
            ";",
            &["Copy", "Stdin", "Copy"],
        ),
    ];
    const TAILS: [&str; 4] = ["", "\n\\.\nCOMMIT", "\\.\nCOMMIT", "\n\\."];
    const ALPHA: [&str; 12] = [
        "\n", "\\", ".", ";", "a", " ", "'", "\r", "$$", "é", "\t", "-- ",
    ];
    let k = ALPHA.len() as u64;
    let len = if ctx.thorough { 6 } else { 5 };
    let one = |w: &Worker, data: &str, h: usize, dialect: u8, tail: &str| {
        let (head, delim, kinds) = HEADS[h];
        let mut sql = String::with_capacity(100);
        sql.push_str(head);
        sql.push_str(delim);
        let from = sql.len();
        sql.push_str(data);
        sql.push_str(tail);
        let (a, b, mut c) = copy_data(&sql, from);
        // SQL goes on only when the tail is still a statement of its own
        let mut after = Vec::new();
        if c < sql.len() && sql[c..] != *"COMMIT" {
            // what follows would be other SQL: replace it
            sql.truncate(c);
        }
        if c < sql.len() {
            after.push("Commit");
            sql.push_str(delim);
        }
        // a carriage return after the terminator would make another line
        c = c.min(sql.len());
        let _ = c;
        let opts = BASE.dialect(dialect);
        let o = w.run(
            &sql,
            opts,
            Mode::Many,
            Want {
                dbg: true,
                span: true,
                display: false, ..NOTHING
            },
        );
        ctx.traces.fetch_add(1, Relaxed);
        let want: Vec<&str> = kinds
            .iter()
            .copied()
            .chain(["Stdin"])
            .chain(after)
            .collect();
        let item = format!("Stdin({:?}, {}..{})", &sql[a..b], a, b);
        let got: Vec<&str> = o
            .stmts
            .iter()
            .map(|s| s.dbg.split('(').next().unwrap())
            .collect();
        if !o.ok()
            || !o.issues.is_empty()
            || got != want
            || o.stmts[kinds.len()].dbg != item
            || o.stmts[kinds.len()].span != Ok((a, b))
        {
            w.bad(
                &format!("copy:{:?}", sql),
                "COPY data is not returned verbatim",
                &sql,
                opts,
                Mode::Many,
                format!("specified {:?} with {}\n{}", want, item, o.show()),
            );
            return false;
        }
        ctx.state(hash64((a, b, &sql)));
        true
    };
    for n in 0..=len {
        let total = k.pow(n);
        let chunks: Vec<u64> = (0..total.div_ceil(512)).collect();
        ctx.each(&chunks, |w, c| {
            for m in c * 512..((c + 1) * 512).min(total) {
                let mut s = String::new();
                let mut x = m;
                for _ in 0..n {
                    s.push_str(ALPHA[(x % k) as usize]);
                    x /= k;
                }
                ctx.transitions.fetch_add(1, Relaxed);
                for (t, tail) in TAILS.iter().enumerate() {
                    for h in 0..HEADS.len() {
                        // all contexts for short data, in turn for long
                        if n > 4 && (m as usize + t) % HEADS.len() != h {
                            continue;
                        }
                        if !one(w, &s, h, ((m as usize + h) % 3) as u8, tail) {
                            return;
                        }
                    }
                }
            }
        });
    }
    ctx.note(
        &format!("data strings over {} pieces up to length {}", k, len),
        k.pow(len),
    );
    // longer strings over the pieces that matter
    let crit = ["\n", "\\", ".", "a", "\r"];
    let len2 = if ctx.thorough { 10 } else { 8 };
    let total = 5u64.pow(len2);
    let chunks: Vec<u64> = (0..total.div_ceil(512)).collect();
    ctx.each(&chunks, |w, c| {
        for m in c * 512..((c + 1) * 512).min(total) {
            let mut s = String::new();
            let mut x = m;
            for _ in 0..len2 {
                s.push_str(crit[(x % 5) as usize]);
                x /= 5;
            }
            ctx.transitions.fetch_add(1, Relaxed);
            if !one(
                w,
                &s,
                (m % 5) as usize,
                (m % 3) as u8,
                TAILS[(m / 5 % 4) as usize],
            ) {
                return;
            }
        }
    });
    ctx.note(
        &format!(
            "data strings over line ends, backslash, period and a letter of length {}",
            len2
        ),
        total,
    );
    // every character where it could matter
    let cs: Vec<char> = (0u32..0x3000)
        .chain(0xfe00..0x10010)
        .chain([0x1f600, 0x10ffff])
        .filter_map(char::from_u32)
        .collect();
    ctx.each(&cs, |w, c| {
        for (i, s) in [
            format!("{c}"),
            format!("{c}{c}x"),
            format!("\n{c}\\.\n"),
            format!("\n\\{c}.\na"),
            format!("\n\\.{c}"),
            format!("\n\\.{c}\na"),
            format!("\na{c}"),
            format!(" \t{c}\n b"),
            format!("\n\\{c}"),
            format!("\n{c}\n"),
        ]
        .iter()
        .enumerate()
        {
            for (t, tail) in TAILS.iter().enumerate() {
                if !one(w, s, (i + t) % HEADS.len(), ((i + *c as usize) % 3) as u8, tail) {
                    return;
                }
            }
        }
    });
    ctx.note("characters tried in every position of the data that could matter", cs.len());
    // long data: every pair of pieces, the first many times
    let pieces = [
        "a", "é", "\n", "\r\n", "\\", ".", "\n\\", "\n\\.a", "\n\\..", "a\n", "\t", ";\n", "'", "\n\\.\r", "\\.", " ",
    ];
    let times: Vec<usize> = (1..=if ctx.thorough { 600 } else { 140 })
        .chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537])
        .collect();
    ctx.each(&times, |w, n| {
        for (i, p) in pieces.iter().enumerate() {
            let many = p.repeat(*n);
            for (j, r) in pieces.iter().enumerate() {
                if *n > 5000 && (i * 7 + j) % 5 > 0 {
                    continue;
                }
                for (k, s) in [format!("\n{many}{r}"), format!("{r}{many}"), format!("\n{r}\n{many}\n{r}")].iter().enumerate() {
                    for (t, tail) in TAILS.iter().enumerate() {
                        if *n > 150 && (i + j + k + t) % 4 > 0 {
                            continue;
                        }
                        if !one(w, s, (i + j + n + t) % HEADS.len(), ((i + j + k) % 3) as u8, tail) {
                            return;
                        }
                    }
                    ctx.transitions.fetch_add(1, Relaxed);
                }
            }
        }
    });
    ctx.note(
        "long data: each pair of pieces, the first of them up to 65537 times",
        format!("{} pieces x {} counts", pieces.len(), times.len()),
    );
}
