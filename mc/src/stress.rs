//! Exhaustive families of malformed (and well-formed) inputs: edits of every statement of the
//! grammar, short token sequences, short character strings, truncations, statement lists.
use crate::core::*;
use crate::corpus::collect;
use crate::explore::*;
use crate::grammar::*;
use std::collections::BTreeSet;

/// One input with the byte range of every token it was made from (empty for character strings).
pub struct Case<'a> {
    pub sql: &'a str,
    pub toks: &'a [(&'a str, Kind)],
    pub pos: &'a [(usize, usize)],
    pub opts: Opts,
    pub mode: Mode,
}

/// Tokens that are not in the grammar, or are there but rarely.
pub const EXTRA: &[&str] = &[
    ";",
    "$$",
    "DELIMITER",
    "x'41'",
    "X''",
    "'open",
    "\"open",
    "`open",
    "/* open",
    "/* c */",
    "é",
    "\u{1F600}",
    "`",
    "99999999999999999999",
    "123456789012345678901234567890",
    "1.",
    ".5",
    "$0",
    "$1",
    "$99999999999999999999",
    "%s",
    "?",
    "_LIST_",
    "{",
    "}",
    "[",
    "]",
    "\\",
    "::",
    ":",
    "@@global",
    "@@session",
    "@@x",
    "@",
    "#",
    "=>",
    "BETWEEN",
    "COLLATE",
    "^",
    "~",
    "%",
    "!!",
    "||",
    "&&",
    "|",
    "&",
    "<=>",
    "<>",
    "<<",
    ">>",
    "DIV",
    "MOD",
    "ELSEIF",
    "EXCEPTION",
    "LOOP",
    "WHILE",
    "REPEAT",
    "CALL",
    "EXPLAIN",
    "SHOW",
    "LOCK",
    "UNLOCK",
    "FLUSH",
    "ANALYZE",
    "GRANT",
    "RETURNING",
    "WINDOW",
    "PARTITION",
    "OUT",
    "INOUT",
    "-- x\n",
    "''",
    "\"\"",
    "``",
    "''''",
    "'a' 'b'",
    "\"a\"",
    "`a`",
    "a",
    "é'",
    "EACH",
    "ROW",
    "FOR",
    "AS",
    "BY",
    "KEY",
    "(",
    ")",
    ",",
    ".",
    "*",
    "-",
    "NOT",
    "NULL",
    "IN",
    "IS",
    "LIKE",
    "CASE",
    "WHEN",
    "END",
    "BEGIN",
    "IF",
    "THEN",
    "ELSE",
    "INTERVAL",
    "'x' DAY",
    "OVER",
    "CAST",
    "COUNT",
    "EXTRACT",
    "GROUP_CONCAT",
    "TIMESTAMPADD",
    "TIMESTAMPDIFF",
    "EXISTS",
];

/// A small alphabet with one token of every role.
pub const SMALL: &[&str] = &[
    ";",
    "$$",
    "(",
    ")",
    ",",
    ".",
    "*",
    "=",
    "-",
    "a",
    "`b`",
    "1",
    "1.5",
    "'s'",
    "\"d\"",
    "?",
    "NOT",
    "NULL",
    "AND",
    "SELECT",
    "FROM",
    "AS",
    "END",
    "BEGIN",
    "IF",
    "SET",
    "CASE",
    "WHEN",
    "THEN",
    "é",
    "'open",
    "/* open",
    "BY",
    "TABLE",
    "ON",
    "TO",
    "KEY",
    "INT",
    "VALUES",
    "DEFAULT",
    "IN",
    "IS",
    "INDEX",
    "[",
    "]",
    "}",
    "{",
    "@",
    "%s",
    "$1",
    "99999999999999999999",
    "123456789012345678901234567890",
];

pub fn vocabulary(g: &Grammar) -> Vec<(String, Kind)> {
    let mut s: BTreeSet<String> = g.literals().into_iter().collect();
    for e in EXTRA {
        s.insert(e.to_string());
    }
    for e in ["i1", "`i2`", "7", "2.5", "'str'"] {
        s.insert(e.into());
    }
    s.into_iter()
        .map(|t| {
            let k = kind_of(&t);
            (t, k)
        })
        .collect()
}

fn lay<'a>(toks: &[(&'a str, Kind)], sql: &mut String, pos: &mut Vec<(usize, usize)>) {
    sql.clear();
    pos.clear();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            sql.push(' ');
        }
        let a = sql.len();
        sql.push_str(t.0);
        pos.push((a, sql.len()));
    }
}

pub struct Stress<'c> {
    pub ctx: &'c Ctx,
    pub want: Want,
    /// also run texts without tokens (character strings)
    pub chars: bool,
    /// scale of the exploration: 0 quick, 1 thorough
    pub deep: bool,
    /// include statement-list mode
    pub lists: bool,
    /// run every case in all dialects (otherwise the dialects take turns)
    pub dialects: bool,
}

pub type Sink<'s> = dyn Fn(&Worker, &Case, &Out) + Sync + 's;

impl<'c> Stress<'c> {
    fn go(
        &self,
        w: &Worker,
        toks: &[(&str, Kind)],
        opts: Opts,
        mode: Mode,
        buf: &mut (String, Vec<(usize, usize)>),
        f: &Sink,
    ) {
        let (sql, pos) = buf;
        lay(toks, sql, pos);
        let o = w.run(sql, opts, mode, self.want);
        f(
            w,
            &Case {
                sql,
                toks,
                pos,
                opts,
                mode,
            },
            &o,
        );
    }

    fn all(
        &self,
        w: &Worker,
        toks: &[(&str, Kind)],
        n: u64,
        buf: &mut (String, Vec<(usize, usize)>),
        f: &Sink,
    ) {
        for d in 0..3u8 {
            if !self.dialects && d as u64 != n / 2 % 3 {
                continue;
            }
            let opts = BASE.dialect(d);
            // the flags are crossed with the cases in turn
            let opts = if n % 5 == 4 {
                Opts {
                    warn_ident: true,
                    warn_kw: true,
                    list: true,
                    args: (n / 5 % 4) as u8,
                    ..opts
                }
            } else {
                opts
            };
            self.go(w, toks, opts, Mode::One, buf, f);
            if self.lists && (self.deep || !self.dialects || n % 3 == d as u64) {
                // next to other statements, on either side in turn
                match n % 4 {
                    0 => self.go(w, toks, opts, Mode::Many, buf, f),
                    k => {
                        let (pre, post): (&[_], &[_]) = (
                            &[("SELECT", Kind::Kw), ("7", Kind::Num), (";", Kind::Punct)],
                            &[(";", Kind::Punct), ("COMMIT", Kind::Kw), (";", Kind::Punct)],
                        );
                        let v = [
                            if k != 2 { pre } else { &[] },
                            toks,
                            if k != 1 { post } else { &[] },
                        ]
                        .concat();
                        self.go(w, &v, opts, Mode::Many, buf, f)
                    }
                }
            }
        }
    }

    pub fn run(&self, f: &Sink) {
        let ctx = self.ctx;
        let g = load();
        let gen = Gen::new(&g);
        let voc = vocabulary(&g);
        ctx.note("vocabulary", voc.len());
        let small: Vec<(String, Kind)> =
            SMALL.iter().map(|t| (t.to_string(), kind_of(t))).collect();
        self.edits1(&gen, if self.deep { 2 } else { 1 }, &voc, f);
        self.edits1(
            &gen,
            if self.deep { 3 } else { 2 },
            &small[..if self.deep { 14 } else { 5 }],
            f,
        );
        self.edits2(&gen, if self.deep { 1 } else { 0 }, &small, f);
        self.sequences(&voc, &small[..if self.deep { small.len() } else { 20 }], f);
        if self.chars {
            self.strings(f);
        }
        if self.lists {
            self.histories(&gen, f);
        }
        self.options(&gen, f);
    }

    /// Every edit of one token (delete, double, swap, cut before, cut after, replace, insert).
    fn edits1(&self, gen: &Gen, budget: u32, voc: &[(String, Kind)], f: &Sink) {
        let base = collect(self.ctx, gen, "stmt", budget, |_| true);
        self.ctx.note(
            &format!(
                "one-token edits with {} tokens of the derivations of budget {}",
                voc.len(),
                budget
            ),
            base.len(),
        );
        self.ctx.each(&base, |w, d| {
            let t: Vec<(&str, Kind)> = d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect();
            let mut buf = (String::new(), Vec::new());
            let mut n = 0;
            let mut v: Vec<(&str, Kind)> = Vec::with_capacity(t.len() + 2);
            for i in 0..=t.len() {
                if w.stop() {
                    return;
                }
                w.ctx.state(hash64(&t[..i]));
                macro_rules! case {
                    ($($p:expr),*) => {{
                        v.clear();
                        $(v.extend_from_slice($p);)*
                        n += 1;
                        self.all(w, &v, n, &mut buf, f);
                    }};
                }
                case!(&t[..i]);
                if i < t.len() {
                    case!(&t[..i], &t[i + 1..]);
                    case!(&t[..i], &t[i..i + 1], &t[i..]);
                    if i > 0 {
                        case!(&t[i..]);
                    }
                    if i + 1 < t.len() {
                        case!(&t[..i], &t[i + 1..i + 2], &t[i..i + 1], &t[i + 2..]);
                        case!(&t[..i], &t[i + 2..]);
                    }
                }
                for x in voc {
                    let x = [(x.0.as_str(), x.1)];
                    case!(&t[..i], &x, &t[i..]);
                    if i < t.len() {
                        case!(&t[..i], &x, &t[i + 1..]);
                    }
                    case!(&t[..i], &x);
                }
            }
            w.ctx
                .transitions
                .fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            if hash64(&d.tree) % 1024 == w.ctx.seed % 1024 {
                w.ctx.sample(|| format!("edits of: {}", layout(&d.toks).0));
            }
        });
    }

    /// Every pair of edits (replace, insert, delete) with the small alphabet.
    fn edits2(&self, gen: &Gen, budget: u32, small: &[(String, Kind)], f: &Sink) {
        let base = collect(self.ctx, gen, "stmt", budget, |d| {
            budget == 0 || d.toks.len() <= 9
        });
        self.ctx.note(
            &format!("two-token edits of the derivations of budget {}", budget),
            base.len(),
        );
        let items: Vec<(usize, usize)> = base
            .iter()
            .enumerate()
            .flat_map(|(k, d)| (0..=d.toks.len()).map(move |i| (k, i)))
            .collect();
        self.ctx.each(&items, |w, &(k, i)| {
            let d = &base[k];
            let t: Vec<(&str, Kind)> = d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect();
            let mut buf = (String::new(), Vec::new());
            let mut n = 0;
            let firsts = edits_at(&t, i, small);
            for e in &firsts {
                if w.stop() {
                    return;
                }
                for j in i + 1..=e.len() {
                    for e2 in edits_at(e, j, small) {
                        n += 1;
                        self.all(w, &e2, n, &mut buf, f);
                    }
                }
            }
            w.ctx
                .transitions
                .fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        });
    }

    /// Every short sequence of tokens.
    fn sequences(&self, voc: &[(String, Kind)], small: &[(String, Kind)], f: &Sink) {
        self.ctx.note(
            "token sequences of length 2 over the vocabulary, 3 after every first word",
            voc.len(),
        );
        self.ctx.each(voc, |w, a| {
            let mut buf = (String::new(), Vec::new());
            let a = (a.0.as_str(), a.1);
            let mut n = 0;
            self.all(w, &[a], 0, &mut buf, f);
            for b in voc {
                if w.stop() {
                    return;
                }
                let b = (b.0.as_str(), b.1);
                self.all(w, &[a, b], n, &mut buf, f);
                for c in small {
                    n += 1;
                    self.all(w, &[a, b, (c.0.as_str(), c.1)], n, &mut buf, f);
                }
            }
            w.ctx
                .transitions
                .fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        });
    }

    /// Every string over lexically significant characters.
    fn strings(&self, f: &Sink) {
        let alphabets: &[(&str, &str, usize)] = &[
            (
                "",
                "a1.'\"`\\-/*?%s$@x;()é\n &|<>=!:#_",
                if self.deep { 5 } else { 4 },
            ),
            (
                "SELECT ",
                "a1.'\\-/*$@x;(,\n&<=!",
                if self.deep { 6 } else { 5 },
            ),
            ("SELECT ", "'\"\\ax\né`", if self.deep { 8 } else { 6 }),
            ("SELECT ", "0189.$-", if self.deep { 8 } else { 6 }),
            (
                "COPY t (a) FROM STDIN;",
                "\n\\.;a'é ",
                if self.deep { 8 } else { 6 },
            ),
            ("@@", "sesionglbaSIx", 4),
        ];
        for (pre, chars, max) in alphabets {
            let cs: Vec<char> = chars.chars().collect();
            let mut firsts = vec![String::new()];
            for a in &cs {
                for b in &cs {
                    firsts.push(format!("{}{}", a, b));
                }
                firsts.push(a.to_string());
            }
            let max = *max;
            self.ctx.note(
                &format!(
                    "strings of length at most {} over {:?} after {:?}",
                    max, chars, pre
                ),
                (0..=max as u32)
                    .map(|k| (cs.len() as u64).pow(k))
                    .sum::<u64>(),
            );
            self.ctx.each(&firsts, |w, first| {
                let mut s = String::from(*pre);
                s.push_str(first);
                let n0 = first.chars().count();
                let mut count = 0;
                self.extend(
                    w,
                    &mut s,
                    if n0 < 2 { 0 } else { max - 2 },
                    &cs,
                    &mut count,
                    f,
                );
                w.ctx
                    .transitions
                    .fetch_add(count, std::sync::atomic::Ordering::Relaxed);
            });
        }
        // long runs of one piece, in every lexical context
        let pieces = [
            "a", "é", "_", "0", "9", "1.", ".", "'", "''", "\\'", "`", "``", "\"", "\\", "-", "/", "*", "%", "%s", "$", "$$", "$1",
            "@", "x", "\n", "\r\n", " ", "\t", "(", ")", ";", "e", "?", ",", "\u{1F600}", "\u{0}", "ß", "\u{feff}", "=", "<", ">", "!",
            "&", "|", "&&", "+", "-- ", "/*", "*/", "// \n", "/**/", "1 ", "a,", "a.", "A ", "\\.", "\n\\.", "{", "}", "[", ":", "#", "~", "^",
        ];
        let frames = [
            ("", ""),
            ("SELECT ", ""),
            ("SELECT a", ""),
            ("SELECT '", "'"),
            ("SELECT \"", "\""),
            ("SELECT `", "` FROM t"),
            ("SELECT x'", "'"),
            ("SELECT _utf8'", "'"),
            ("SELECT 1", ""),
            ("SELECT 0x", ""),
            ("SELECT 1.", ""),
            ("SELECT 1e", ""),
            ("SELECT $", ""),
            ("SELECT @", ""),
            ("SELECT @@", ""),
            ("SELECT 1 -- ", "\n, 2"),
            ("SELECT 1 // ", "\n, 2"),
            ("SELECT 1 /* ", " */, 2"),
            ("SELECT 1", "; SELECT 2"),
            ("DELIMITER ", "\nSELECT 1;"),
            ("COPY t (a) FROM STDIN;\n", "\n\\.\nSELECT 1;"),
            ("COPY t (a) FROM STDIN;", ""),
            ("DO $$ BEGIN ", " END $$"),
            ("CREATE TABLE t (a INT) ENGINE=", ""),
            ("é SELECT ", " é"),
            ("SELECT a FROM t WHERE (", ") ORDER BY a"),
        ];
        let lens: &[usize] = &[
            1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 4097,
        ];
        self.ctx.note("pieces x contexts x lengths up to 4097", pieces.len() * frames.len() * lens.len());
        self.ctx.each(&pieces, |w, p| {
            for (pre, post) in frames {
                for &n in lens {
                    // nested far below the depth at which C01's findings begin
                    if w.stop() || n > 257 && !p.chars().all(|c| c.is_alphanumeric() || c.is_whitespace()) {
                        break;
                    }
                    let s = format!("{}{}{}", pre, p.repeat(n), post);
                    w.ctx.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    for d in 0..3 {
                        for mode in [Mode::One, Mode::Many] {
                            let opts = Opts {
                                args: (n % 4) as u8,
                                ..BASE.dialect(d)
                            };
                            let o = w.run(&s, opts, mode, self.want);
                            f(
                                w,
                                &Case {
                                    sql: &s,
                                    toks: &[],
                                    pos: &[],
                                    opts,
                                    mode,
                                },
                                &o,
                            );
                        }
                    }
                }
            }
        });
        // truncations at every character and non-ASCII characters at every byte position
        let texts = [
            "SELECT `a`, 'é''x\\'y' /* ü */ -- ö\n FROM t WHERE b IN (1.5, .5, $1, %s, ?) // x\n AND @@session.time_zone = \"q\"\"r\"",
            "CREATE TRIGGER t BEFORE INSERT ON u FOR EACH ROW BEGIN IF a THEN SET b = 1; ELSE SET c = 'é'; END IF; END",
            "DELIMITER $$\nCREATE FUNCTION f(a INT) RETURNS INT DETERMINISTIC BEGIN RETURN 1; END $$\nDELIMITER ;\nSELECT 1;",
            "COPY t (a, b) FROM STDIN;\n1\té\n\\.\nSELECT 1; DO $$ BEGIN SELECT 2; END $$;",
            "CREATE TABLE t (id INT(11) NOT NULL AUTO_INCREMENT COMMENT 'x', e ENUM('a','b'), PRIMARY KEY (id)) ENGINE=InnoDB CHARSET=utf8",
        ];
        self.ctx.each(&texts, |w, t| {
            let ps: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
            for (k, &i) in ps.iter().enumerate() {
                for d in 0..3 {
                    for mode in [Mode::One, Mode::Many] {
                        let go = |s: &str| {
                            let opts = BASE.dialect(d);
                            let o = w.run(s, opts, mode, self.want);
                            f(
                                w,
                                &Case {
                                    sql: s,
                                    toks: &[],
                                    pos: &[],
                                    opts,
                                    mode,
                                },
                                &o,
                            );
                        };
                        go(&t[..i]);
                        go(&t[i..]);
                        for x in [
                            "é",
                            "'",
                            "\"",
                            "`",
                            "/*",
                            "\\",
                            ";",
                            "\n",
                            "(",
                            ")",
                            "\u{0}",
                            "\u{1F600}",
                            "x'",
                            "$$",
                            "\r\n",
                            "\u{feff}",
                        ] {
                            go(&format!("{}{}{}", &t[..i], x, &t[i..]));
                            if let Some(&j) = ps.get(k + 1) {
                                go(&format!("{}{}{}", &t[..i], x, &t[j..]));
                            }
                        }
                        for &j in &ps[k..] {
                            go(&format!("{}{}", &t[..i], &t[j..]));
                        }
                    }
                }
            }
        });
    }

    fn extend(&self, w: &Worker, s: &mut String, left: usize, cs: &[char], n: &mut u64, f: &Sink) {
        if w.stop() {
            return;
        }
        for d in 0..2u8 {
            if !self.dialects && d as u64 != *n / 4 % 2 {
                continue;
            }
            let opts = Opts {
                args: (*n % 4) as u8,
                ..BASE.dialect(d)
            };
            for mode in [Mode::One, Mode::Many] {
                if mode == Mode::Many && !self.lists {
                    continue;
                }
                let o = w.run(s, opts, mode, self.want);
                f(
                    w,
                    &Case {
                        sql: s,
                        toks: &[],
                        pos: &[],
                        opts,
                        mode,
                    },
                    &o,
                );
            }
        }
        *n += 1;
        if left > 0 {
            for c in cs {
                s.push(*c);
                self.extend(w, s, left - 1, cs, n, f);
                s.pop();
            }
        }
    }

    /// Every sequence of up to three statements, some of them broken or cut, with every delimiter.
    fn histories(&self, gen: &Gen, f: &Sink) {
        let base = collect(self.ctx, gen, "stmt", 0, |_| true);
        let mut parts: Vec<Vec<(&str, Kind)>> = vec![
            vec![],
            vec![(";", Kind::Punct)],
            vec![("$$", Kind::Punct)],
            vec![("DELIMITER", Kind::Kw)],
            vec![("DELIMITER", Kind::Kw), ("$$", Kind::Punct)],
            vec![("DELIMITER", Kind::Kw), (";", Kind::Punct)],
            vec![("DELIMITER", Kind::Kw), ("a", Kind::Id)],
            vec![("DELIMITER", Kind::Kw), ("'open", Kind::Str)],
            vec![("END", Kind::Kw), (";", Kind::Punct)],
            vec![
                ("COPY", Kind::Kw),
                ("t", Kind::Id),
                ("(", Kind::Punct),
                ("a", Kind::Id),
                (")", Kind::Punct),
                ("FROM", Kind::Kw),
                ("STDIN", Kind::Kw),
                (";\n1\n\\.\n", Kind::Punct),
            ],
            vec![
                ("BEGIN", Kind::Kw),
                ("SELECT", Kind::Kw),
                ("1", Kind::Num),
                (";", Kind::Punct),
            ],
            vec![(")", Kind::Punct), ("'open", Kind::Str)],
        ];
        for d in &base {
            let t: Vec<(&str, Kind)> = d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect();
            parts.push([&t[..], &[(";", Kind::Punct)]].concat());
            parts.push([&t[..], &[("$$", Kind::Punct)]].concat());
            parts.push(t[..t.len() / 2].to_vec());
            parts.push([&t[..t.len() - 1], &[(";", Kind::Punct)]].concat());
            parts.push([&t[..t.len() - 1], &[("(", Kind::Punct), (";", Kind::Punct)]].concat());
        }
        self.ctx
            .note("statement histories of length 3 over parts", parts.len());
        self.ctx.each(&parts, |w, a| {
            let mut buf = (String::new(), Vec::new());
            let mut n = 0;
            for b in &parts {
                if w.stop() {
                    return;
                }
                for c in &parts {
                    let v = [&a[..], &b[..], &c[..]].concat();
                    n += 1;
                    let opts = BASE.dialect((n % 3) as u8);
                    self.go(w, &v, opts, Mode::Many, &mut buf, f);
                    w.ctx.state(hash64((n, a)));
                }
            }
            w.ctx
                .transitions
                .fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        });
    }

    /// Every combination of options on every statement and every deletion of one token.
    fn options(&self, gen: &Gen, f: &Sink) {
        let base = collect(self.ctx, gen, "stmt", 1, |_| true);
        let all = all_opts();
        self.ctx.note("option combinations", all.len());
        self.ctx.each(&base, |w, d| {
            let t: Vec<(&str, Kind)> = d.toks.iter().map(|t| (t.text.as_str(), t.kind)).collect();
            let mut buf = (String::new(), Vec::new());
            for opts in &all {
                if w.stop() {
                    return;
                }
                self.go(w, &t, *opts, Mode::One, &mut buf, f);
                for i in 0..t.len() {
                    let v = [&t[..i], &t[i + 1..]].concat();
                    self.go(w, &v, *opts, Mode::One, &mut buf, f);
                }
            }
        });
    }
}

pub fn edits_at<'a>(
    t: &[(&'a str, Kind)],
    i: usize,
    voc: &'a [(String, Kind)],
) -> Vec<Vec<(&'a str, Kind)>> {
    let mut r = Vec::new();
    if i < t.len() {
        r.push([&t[..i], &t[i + 1..]].concat());
    }
    for x in voc {
        let x = [(x.0.as_str(), x.1)];
        r.push([&t[..i], &x, &t[i..]].concat());
        if i < t.len() {
            r.push([&t[..i], &x, &t[i + 1..]].concat());
        }
    }
    r
}
