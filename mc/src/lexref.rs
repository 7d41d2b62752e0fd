//! C09: identifiers and numbers keep their exact value, and text is divided into tokens by SQL's
//! rules.  An independent lexer and expression parser decide what short character strings mean.
use crate::core::*;
use crate::explore::*;
use crate::fid::diff;
use crate::grammar::*;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Int,
    Float,
    /// unquoted
    Word,
    /// in backticks
    Quoted,
    Sym(&'static str),
    /// certainly not SQL
    Bad,
    /// not judged
    Odd,
}

const SYMS: &[&str] = &[
    "<=>", "<=", "<>", "<<", "<", ">=", ">>", ">", "!=", "!!", "!", "=>", "=", "||", "|", "&&",
    "&", "::", ":", "-", "+", "*", "/", "(", ")", ",", ".", "?", ";", "%", "^", "~", "[", "]", "{",
    "}", "@", "\\",
];

/// Tokens of a text with their byte ranges.
pub fn lex(s: &str) -> Vec<(T, usize, usize)> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    'next: while i < b.len() {
        let st = i;
        let rest = &s[i..];
        if b" \t\r\n".contains(&b[i]) {
            i += 1;
            continue;
        }
        if rest.starts_with("--") || rest.starts_with("//") {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            continue;
        }
        if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                Some(n) => {
                    i += n + 4;
                    continue;
                }
                None => {
                    v.push((T::Bad, st, b.len()));
                    return v;
                }
            }
        }
        if b[i].is_ascii_digit()
            || (b[i] == b'.' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()))
        {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let mut f = false;
            if i < b.len() && b[i] == b'.' {
                f = true;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            v.push((if f { T::Float } else { T::Int }, st, i));
            continue;
        }
        if (b[i] | 32) == b'x' && b.get(i + 1) == Some(&b'\'') {
            v.push((T::Odd, st, b.len()));
            return v;
        }
        if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            v.push((T::Word, st, i));
            continue;
        }
        if b[i] == b'`' {
            i += 1;
            while i < b.len() && (word(b[i]) || b[i] == b'-') {
                i += 1;
            }
            if i < b.len() && b[i] == b'`' {
                i += 1;
                v.push((T::Quoted, st, i));
                continue;
            }
            v.push((T::Bad, st, i));
            return v;
        }
        if b[i] == b'\''
            || b[i] == b'"'
            || rest.starts_with("@@")
            || rest.starts_with("%s")
            || b[i] == b'$'
            || b[i] == b'#'
        {
            v.push((T::Odd, st, b.len()));
            return v;
        }
        for y in SYMS {
            if rest.starts_with(y) {
                i += y.len();
                v.push((T::Sym(y), st, i));
                continue 'next;
            }
        }
        v.push((T::Bad, st, b.len()));
        return v;
    }
    v
}

/// What the text of a list of expressions means.
pub enum M {
    Tree(Vec<String>),
    Error,
    Unknown,
}

struct P<'a> {
    s: &'a str,
    t: Vec<(T, usize, usize)>,
    i: usize,
    base: usize,
    odd: bool,
}

fn bin(t: &T) -> Option<(&'static str, u32)> {
    let T::Sym(s) = t else { return None };
    Some(match *s {
        "*" => ("Mult", 4),
        "/" => ("Divide", 4),
        "+" => ("Add", 5),
        "-" => ("Subtract", 5),
        "<<" => ("ShiftLeft", 6),
        ">>" => ("ShiftRight", 6),
        "&" => ("BitAnd", 7),
        "|" => ("BitOr", 8),
        "=" => ("Eq", 9),
        "<=>" => ("NullSafeEq", 9),
        ">=" => ("GtEq", 9),
        ">" => ("Gt", 9),
        "<=" => ("LtEq", 9),
        "<" => ("Lt", 9),
        "<>" | "!=" => ("Neq", 9),
        "&&" => ("And", 11),
        "||" => ("Or", 13),
        _ => return None,
    })
}

impl P<'_> {
    fn at(&self, k: usize) -> String {
        format!("{}..{}", self.t[k].1 + self.base, self.t[k].2 + self.base)
    }
    fn tok(&self) -> Option<&T> {
        self.t.get(self.i).map(|t| &t.0)
    }
    fn is(&self, s: &str) -> bool {
        matches!(self.tok(), Some(T::Sym(x)) if *x == s)
    }
    fn name(&self, k: usize) -> String {
        let x = &self.s[self.t[k].1..self.t[k].2];
        format!(
            "Name(Identifier{{value:{:?},span:{}}})",
            x.trim_matches('`'),
            self.at(k)
        )
    }
    fn expr(&mut self, max: u32) -> Option<String> {
        let k = self.i;
        let t = self.tok()?.clone();
        self.i += 1;
        let text = self.s[self.t[k].1..self.t[k].2].to_string();
        let mut l = match t {
            T::Int => match text.parse::<u64>() {
                Ok(v) => format!("Integer(({},{}))", v, self.at(k)),
                Err(_) => return None,
            },
            T::Float => {
                let v: f64 = text.parse().ok()?;
                format!("Float(({:?},{}))", v, self.at(k))
            }
            T::Word | T::Quoted => {
                if self.is("(") {
                    self.odd |= t == T::Quoted;
                    self.i += 1;
                    let mut args = Vec::new();
                    if !self.is(")") {
                        loop {
                            args.push(self.expr(99)?);
                            if !self.is(",") {
                                break;
                            }
                            self.i += 1;
                        }
                    }
                    if !self.is(")") {
                        return None;
                    }
                    self.i += 1;
                    format!(
                        "Function(Other({:?}),[{}],{})",
                        text,
                        args.join(","),
                        self.at(k)
                    )
                } else {
                    let mut parts = vec![self.name(k)];
                    while self.is(".") {
                        self.i += 1;
                        match self.tok()? {
                            T::Word | T::Quoted => parts.push(self.name(self.i)),
                            T::Sym("*") => parts.push(format!("Star({})", self.at(self.i))),
                            _ => return None,
                        }
                        self.i += 1;
                        if self.t[self.i - 1].0 == T::Sym("*") {
                            self.odd |= self.is(".");
                        }
                    }
                    format!("Identifier([{}])", parts.join(","))
                }
            }
            T::Sym("*") => format!("Identifier([Star({})])", self.at(k)),
            T::Sym("?") => {
                self.odd = true;
                String::new()
            }
            T::Sym("-") | T::Sym("!") => {
                let (n, p) = if t == T::Sym("-") {
                    ("Minus", 3)
                } else {
                    ("LogicalNot", 2)
                };
                let x = self.expr(p)?;
                format!("Unary{{op:{},op_span:{},operand:{}}}", n, self.at(k), x)
            }
            T::Sym("(") => {
                let x = self.expr(99)?;
                if !self.is(")") {
                    return None;
                }
                self.i += 1;
                x
            }
            _ => return None,
        };
        while let Some((n, p)) = self.tok().and_then(bin) {
            if p > max {
                break;
            }
            let k = self.i;
            self.i += 1;
            let r = self.expr(p - 1)?;
            l = format!(
                "Binary{{op:{},op_span:{},lhs:{},rhs:{}}}",
                n,
                self.at(k),
                l,
                r
            );
        }
        Some(l)
    }
}

pub fn meaning(s: &str, base: usize) -> M {
    let t = lex(s);
    if t.iter().any(|t| t.0 == T::Odd) {
        return M::Unknown;
    }
    // a semicolon after one complete statement is trailing text
    let mut p = P {
        s,
        t,
        i: 0,
        base,
        odd: false,
    };
    let mut v = Vec::new();
    let ok = loop {
        match p.expr(99) {
            Some(x) => v.push(x),
            None => break false,
        }
        if p.is(",") {
            p.i += 1;
            continue;
        }
        break p.i == p.t.len();
    };
    if p.odd {
        M::Unknown
    } else if ok {
        M::Tree(v)
    } else {
        M::Error
    }
}

fn judge(w: &Worker, text: &str, dialect: u8) {
    let m = meaning(text, 7);
    let want = match &m {
        M::Unknown => return,
        M::Error => None,
        M::Tree(v) => Some(format!(
            "Select(Select{{select_span:0..6,flags:[],select_exprs:[{}],from_span:None,table_references:None,where_:None,group_by:None,having:None,window_span:None,order_by:None,limit:None,locking:None}})",
            v.iter().map(|e| format!("SelectExpr{{expr:{},as_:None}}", e)).collect::<Vec<_>>().join(",")
        )),
    };
    if dialect == 1 && text.contains('`') {
        return;
    }
    let sql = format!("SELECT {}", text);
    let opts = BASE.dialect(dialect);
    let o = w.run(
        &sql,
        opts,
        Mode::One,
        Want {
            dbg: want.is_some(),
            span: false,
            display: false,
            ..NOTHING
        },
    );
    w.ctx.traces.fetch_add(1, Relaxed);
    match want {
        None => {
            if o.panic.is_some() || o.errors() == 0 {
                w.bad(
                    &format!("accepted:{}", sql),
                    "text that is not an expression is accepted without an error",
                    &sql,
                    opts,
                    Mode::One,
                    o.show(),
                );
            }
        }
        Some(want) => {
            w.ctx.state(hash64(&want));
            if !o.ok() || o.stmts.len() != 1 {
                w.bad(
                    &format!("rejected:{}", sql),
                    "a valid expression is reported as an error",
                    &sql,
                    opts,
                    Mode::One,
                    o.show(),
                );
                return;
            }
            let got = shift_dbg(&o.stmts[0].dbg, 0);
            if got != want {
                w.bad(
                    &format!("tokens:{}", sql),
                    "the text is not divided into the tokens it is made of",
                    &sql,
                    opts,
                    Mode::One,
                    diff(&want, &got),
                );
            }
        }
    }
}

/// Numbers around every width's limits, and odd spellings.
fn numbers() -> Vec<String> {
    let mut v: Vec<u128> = vec![0, 1, 9, 10, 99];
    for bits in [7u32, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 127] {
        let p = 1u128 << bits;
        v.extend([p - 1, p, p + 1]);
    }
    v.push(10u128.pow(19));
    v.push(10u128.pow(38));
    v.sort();
    v.dedup();
    let mut r: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    r.extend(
        [
            "00",
            "007",
            "000000000000000000000000000000000042",
            "18446744073709551615000",
        ]
        .map(|s| s.to_string()),
    );
    r.push("9".repeat(400));
    r
}

const NAMES: &[(&str, u8)] = &[
    // name, dialects
    ("a", 7),
    ("_", 7),
    ("__9", 7),
    ("FooBar_Baz9", 7),
    ("x", 7),
    ("X1", 7),
    ("selec", 7),
    ("SELECTS", 7),
    ("Orders", 7),
    ("e5", 7),
    ("`select`", 5),
    ("`From`", 5),
    ("`a-b`", 5),
    ("`1`", 5),
    ("`FooBar`", 5),
    ("`_`", 5),
    ("\"select\"", 2),
    ("\"From\"", 2),
    ("\"Foo bar\"", 2),
    ("\"a;--/*\"", 2),
    ("\"é\"", 2),
];

pub fn c09(ctx: &Ctx) {
    let g = load();
    let gen = Gen::new(&g);
    let t = ctx.thorough as usize;
    // every text over an alphabet up to a length
    let spaces: &[(&str, usize)] = &[
        ("10.a -", 7 + t),
        ("<=>!a ", 7 + t),
        ("|&a1-+", 7 + t),
        ("-/*a\n 1", 7 + t),
        ("/*a\r-", 8 + t),
        ("`a.-_* ", 7 + t),
        ("a(),*1 ", 7 + t),
        ("aA_x1Xe.", 6 + t),
        ("9a.+-*/", 7 + t),
        ("a1`~!@^&*()-_=+[{]}\\|;:,<.>/? \n\t\r%", 4),
        ("a1é\u{a0}\u{2028}\0\u{1f}\u{7f}-/*", 5),
    ];
    for (al, n) in spaces {
        let cs: Vec<char> = al.chars().collect();
        let mut roots = vec![String::new()];
        for _ in 0..2 {
            roots = roots
                .iter()
                .flat_map(|r| {
                    std::iter::once(r.clone()).chain(cs.iter().map(move |c| format!("{}{}", r, c)))
                })
                .collect();
            roots.sort();
            roots.dedup();
        }
        let leaf: Vec<String> = roots
            .iter()
            .filter(|r| r.chars().count() == 2)
            .cloned()
            .collect();
        ctx.each(&leaf, |w, r| {
            let mut stack = vec![(r.clone(), 2)];
            while let Some((s, k)) = stack.pop() {
                if w.stop() {
                    return;
                }
                judge(w, &s, 0);
                if k + 1 < *n {
                    judge(w, &s, 1);
                    judge(w, &s, 2);
                }
                ctx.transitions.fetch_add(1, Relaxed);
                if k < *n {
                    for c in &cs {
                        let mut x = s.clone();
                        x.push(*c);
                        stack.push((x, k + 1));
                    }
                }
            }
        });
        let short: Vec<&String> = roots.iter().filter(|r| r.chars().count() < 2).collect();
        ctx.each(&short, |w, s| judge(w, s, 0));
        ctx.note(
            &format!("every text of up to {} characters of {:?}", n, al),
            "all",
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("{:?} {} {:.1}s", al, n, ctx.elapsed());
        }
    }
    // long names, numbers, blanks and comments
    let reps = [
        "1", "0", "9", "a", "_", "A", "a1", "x", "e", " ", "\n", "\r\n\t", "/*a*/", "/*/ * **/", "--a\n", "//\r", "/**/a", "-",
    ];
    let ends = [
        "", "1", "0", "a", "_", "A", "x", "e5", ".", ".5", "0.", " ", "+a", "*b", "`a`", ",c", "-", "/*", "/*b*/", "--", ".b",
    ];
    let times: Vec<usize> = (1..=if ctx.thorough { 600 } else { 140 })
        .chain([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537])
        .collect();
    ctx.each(&times, |w, n| {
        let n = *n;
        for (i, p) in reps.iter().enumerate() {
            let many = p.repeat(n);
            for (j, r) in ends.iter().enumerate() {
                if n > 5000 && (i * 7 + j) % 5 > 0 {
                    continue;
                }
                for s in [
                    format!("{many}{r}"),
                    format!("{r}{many}"),
                    format!("a {many}{r}"),
                    format!("`{many}`{r}"),
                    format!("a{r}/*{many}*/"),
                    format!("1{many}2{r}"),
                    format!("0.{many}{r}"),
                    format!("b.{many}{r}"),
                    format!("/*{r}{many}{r}*/a{r}"),
                    format!("a--{many}{r}\n{r}"),
                ] {
                    for d in 0..3 {
                        if d > 0 && (i + j + n) % 3 > 0 {
                            continue;
                        }
                        judge(w, &s, d);
                    }
                    ctx.transitions.fetch_add(1, Relaxed);
                }
                if w.stop() {
                    return;
                }
            }
        }
    });
    ctx.note(
        "long names, numbers, blanks and comments, up to 65537 pieces",
        format!("{} pieces x {} ends x {} counts", reps.len(), ends.len(), times.len()),
    );
    // floats: every split of digit strings by a point
    let mut fl = Vec::new();
    for d in [
        "5",
        "50",
        "05",
        "314159",
        "123456789012345678901234567890",
        "000",
        "99999999999999999999",
    ] {
        for k in 0..=d.len() {
            fl.push(format!("{}.{}", &d[..k], &d[k..]));
        }
    }
    fl.push(format!("{}.5", "9".repeat(320)));
    fl.push(format!("0.{}1", "0".repeat(330)));
    ctx.each(&fl, |w, f| {
        for s in [
            f.clone(),
            format!("-{}", f),
            format!("{}+{}", f, f),
            format!("a,{}", f),
        ] {
            for d in 0..3 {
                judge(w, &s, d);
            }
        }
    });
    // numbers in every place of the grammar that takes one
    let nums = numbers();
    let budget = 2 + ctx.thorough as u32;
    let n = explore(ctx, &gen, g.rule("stmt"), budget, |w, d| {
        let dialect = (0..3u8).find(|x| d.in_dialect(*x) && d.accepted_in(*x));
        let Some(dialect) = dialect else { return };
        let opts = BASE.dialect(dialect);
        for (j, t) in d.toks.iter().enumerate() {
            // the grammar's own numbers are 11, 12, ...; others are fixed parts of a construct
            if t.kind != Kind::Num || t.text.len() != 2 || t.text.contains('.') {
                continue;
            }
            let at = format!(",@{}..{}", j, j + 1);
            let key = format!("{}{}", t.text, at);
            let Some(p) = d.tree.find(&key) else { continue };
            // a list of parts before the span (intervals) ends with a bracket and is left alone
            for num in &nums {
                let mut toks = d.toks.clone();
                toks[j].text = num.clone();
                let (sql, pos) = layout(&toks);
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                ctx.traces.fetch_add(1, Relaxed);
                let v = num.trim_start_matches('0');
                let v = if v.is_empty() { "0" } else { v };
                let want = format!("{}{}{}", &d.tree[..p], v, &d.tree[p + t.text.len()..]);
                let small = v.parse::<u64>().is_ok_and(|x| x < 128);
                if o.panic.is_some() {
                    w.bad(
                        &format!("number:{}", sql),
                        "the parser panicked on a number",
                        &sql,
                        opts,
                        Mode::One,
                        o.show(),
                    );
                } else if o.errors() > 0 {
                    // rejected: allowed only if it does not fit
                    let e = d.tree[..p].ends_with("Integer((");
                    if small || (e && v.parse::<u64>().is_ok()) {
                        w.bad(
                            &format!("number:{}", sql),
                            format!("the number {} is rejected", num),
                            &sql,
                            opts,
                            Mode::One,
                            o.show(),
                        );
                    }
                } else {
                    let got = o
                        .stmts
                        .first()
                        .map(|s| canon(&s.dbg, &pos, 0))
                        .unwrap_or_default();
                    if got != want {
                        w.bad(
                            &format!("number:{}", sql),
                            format!("the number {} is not returned with its value", num),
                            &sql,
                            opts,
                            Mode::One,
                            diff(&want, &got),
                        );
                    }
                }
            }
        }
    });
    ctx.note(&format!("derivations of <stmt> with at most {} deviations, each number in turn every one of {} values", budget, nums.len()), n);
    if std::env::var("MC_VERBOSE").is_ok() {
        println!("numbers {:.1}s", ctx.elapsed());
    }
    chains(ctx);
    // names in every place of the grammar that takes one
    let n = explore(ctx, &gen, g.rule("stmt"), budget, |w, d| {
        for dialect in 0..3u8 {
            if !d.in_dialect(dialect) || !d.accepted_in(dialect) {
                continue;
            }
            let opts = BASE.dialect(dialect);
            for k in 0..NAMES.len() {
                let mut toks = d.toks.clone();
                let mut want = d.tree.clone();
                let mut any = false;
                for (j, t) in toks.iter_mut().enumerate() {
                    if t.kind != Kind::Id {
                        continue;
                    }
                    let (name, ds) = NAMES[(k + j) % NAMES.len()];
                    if ds & (1 << dialect) == 0 {
                        continue;
                    }
                    let bare = t.text.trim_matches('`').to_string();
                    let plain = format!("Identifier{{value:\"{}\",span:@{}..{}}}", bare, j, j + 1);
                    let value = name.trim_matches(|c| c == '`' || c == '"');
                    if want.contains(&plain) {
                        want = want.replace(
                            &plain,
                            &format!("Identifier{{value:{:?},span:@{}..{}}}", value, j, j + 1),
                        );
                    } else if value.len() == name.len()
                        && want.contains(&format!("Other(\"{}\")", bare))
                    {
                        // functions and variables named by a word
                        want = want.replace(
                            &format!("Other(\"{}\")", bare),
                            &format!("Other({:?})", value),
                        );
                    } else {
                        continue;
                    }
                    t.text = name.into();
                    any = true;
                }
                if !any {
                    continue;
                }
                let (sql, pos) = layout(&toks);
                let o = w.run(
                    &sql,
                    opts,
                    Mode::One,
                    Want {
                        dbg: true,
                        span: false,
                        display: false, ..NOTHING
                    },
                );
                ctx.traces.fetch_add(1, Relaxed);
                if !o.ok() || o.stmts.len() != 1 {
                    w.bad(
                        &format!("name-rejected:{}", sql),
                        "a name is not accepted where names are",
                        &sql,
                        opts,
                        Mode::One,
                        o.show(),
                    );
                    continue;
                }
                let got = canon(&o.stmts[0].dbg, &pos, 0);
                if got != want {
                    w.bad(
                        &format!("name:{}", sql),
                        "a name is not returned with its spelling",
                        &sql,
                        opts,
                        Mode::One,
                        diff(&want, &got),
                    );
                }
            }
        }
    });
    ctx.note(
        &format!(
            "derivations of <stmt> with at most {} deviations, each name in turn every one of {}",
            budget,
            NAMES.len()
        ),
        n,
    );
}

/// Qualified names: every way to quote each of their parts, up to a length, with and without spaces, alone
/// and between other tokens.
fn chains(ctx: &Ctx) {
    const PARTS: [(&str, &str, u8); 8] = [
        ("a", "a", 7),
        ("Bb_9", "Bb_9", 7),
        ("`select`", "select", 5),
        ("`c-D`", "c-D", 5),
        ("\"from\"", "from", 2),
        ("\"e f\"", "e f", 2),
        ("date", "date", 7),
        ("*", "*", 7),
    ];
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut list = all.clone();
    for _ in 0..4 + ctx.thorough as usize {
        list = list.iter().flat_map(|l| (0..PARTS.len()).map(move |i| [l.as_slice(), &[i]].concat())).collect();
        all.extend(list.iter().cloned());
    }
    for n in TIMES {
        for i in 0..PARTS.len() - 1 {
            all.push(vec![i; *n]);
            all.push((0..*n).map(|k| (i + k) % (PARTS.len() - 1)).collect());
        }
    }
    all.retain(|l| !l.is_empty() && !l[..l.len() - 1].contains(&7) && l != &[7]);
    let n = all.len();
    ctx.each(&all, |w, l| {
        for dialect in 0..3u8 {
            if l.iter().any(|i| PARTS[*i].2 & (1 << dialect) == 0) {
                continue;
            }
            for (pre, dot, post) in [
                ("SELECT ", ".", ""),
                ("SELECT ", " . ", " + 1"),
                ("SELECT f(", "/**/.\n", ", 1)"),
                ("SELECT 1 FROM t WHERE ", ".", " = 2"),
                ("UPDATE t SET x = ", ".", ""),
            ] {
                if w.stop() {
                    return;
                }
                let mut sql = pre.to_string();
                let mut want = Vec::new();
                for (k, i) in l.iter().enumerate() {
                    if k > 0 {
                        sql.push_str(dot);
                    }
                    let (text, value, _) = PARTS[*i];
                    let at = sql.len();
                    sql.push_str(text);
                    want.push(if text == "*" {
                        format!("Star({}..{})", at, sql.len())
                    } else {
                        format!("Name(Identifier {{ value: {:?}, span: {}..{} }})", value, at, sql.len())
                    });
                }
                sql.push_str(post);
                let want = format!("Identifier([{}])", want.join(", "));
                let opts = BASE.dialect(dialect);
                let o = w.run(&sql, opts, Mode::One, FULL);
                ctx.transitions.fetch_add(1, Relaxed);
                ctx.traces.fetch_add(1, Relaxed);
                if !o.ok() || !o.stmts.first().is_some_and(|s| s.dbg.contains(&want)) {
                    w.bad(
                        &format!("chain:{}", sql),
                        "a qualified name is not returned with all its parts",
                        &sql,
                        opts,
                        Mode::One,
                        format!("specified: {}\n{}", want, o.show()),
                    );
                }
            }
        }
    });
    ctx.note("qualified names", n);
}
