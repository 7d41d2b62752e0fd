//! C07: operator precedence, associativity and identity, against an independent precedence parser.
use crate::core::*;
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sh {
    Pre,
    Bin,
    /// complete after its own tokens
    Post,
    Open,
    Close,
}

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub sh: Sh,
    pub toks: &'static [&'static str],
    pub name: &'static str,
    pub level: u32,
}
const fn op(sh: Sh, toks: &'static [&'static str], name: &'static str, level: u32) -> Op {
    Op {
        sh,
        toks,
        name,
        level,
    }
}
use Sh::*;

/// Levels of MariaDB's documentation, tightest first.
pub const OPS: &[Op] = &[
    op(Pre, &["BINARY"], "Binary", 1),
    op(Pre, &["!"], "LogicalNot", 2),
    op(Pre, &["-"], "Minus", 3),
    op(Bin, &["*"], "Mult", 4),
    op(Bin, &["+"], "Add", 5),
    op(Bin, &["<<"], "ShiftLeft", 6),
    op(Bin, &["&"], "BitAnd", 7),
    op(Bin, &["|"], "BitOr", 8),
    op(Bin, &["="], "Eq", 9),
    op(Post, &["IS", "NULL"], "Null", 9),
    op(Post, &["IN", "(", "p", ")"], "false", 9),
    op(Pre, &["NOT"], "Not", 10),
    op(Bin, &["AND"], "And", 11),
    op(Bin, &["XOR"], "Xor", 12),
    op(Bin, &["OR"], "Or", 13),
    // further spellings and operators of the same levels
    op(Bin, &["/"], "Divide", 4),
    op(Bin, &["-"], "Subtract", 5),
    op(Bin, &[">>"], "ShiftRight", 6),
    op(Bin, &["<=>"], "NullSafeEq", 9),
    op(Bin, &[">="], "GtEq", 9),
    op(Bin, &[">"], "Gt", 9),
    op(Bin, &["<="], "LtEq", 9),
    op(Bin, &["<"], "Lt", 9),
    op(Bin, &["!="], "Neq", 9),
    op(Bin, &["<>"], "Neq", 9),
    op(Bin, &["LIKE"], "Like", 9),
    op(Bin, &["NOT", "LIKE"], "NotLike", 9),
    op(Post, &["NOT", "IN", "(", "p", ",", "q", ")"], "true", 9),
    op(Post, &["IS", "NOT", "NULL"], "NotNull", 9),
    op(Post, &["IS", "TRUE"], "True", 9),
    op(Post, &["IS", "NOT", "TRUE"], "NotTrue", 9),
    op(Post, &["IS", "FALSE"], "False", 9),
    op(Post, &["IS", "NOT", "FALSE"], "NotFalse", 9),
    op(Post, &["IS", "UNKNOWN"], "Unknown", 9),
    op(Post, &["IS", "NOT", "UNKNOWN"], "NotUnknown", 9),
    op(Bin, &["&&"], "And", 11),
    op(Bin, &["||"], "Or", 13),
];
/// the first so many are one of each kind and level
pub const REPS: usize = 15;
const PAREN: &[Op] = &[op(Open, &["("], "", 0), op(Close, &[")"], "", 0)];

/// One token sequence: operators and operands alternate as their shapes ask for.
#[derive(Clone, Copy, Debug)]
pub enum It {
    Atom(u8),
    Op(Op),
}

struct P<'a> {
    its: &'a [It],
    /// first token of each item
    at: &'a [usize],
    i: usize,
    base: usize,
}

pub fn atom_name(k: u8) -> String {
    format!("a{}", k)
}
fn ident(name: &str, t: usize) -> String {
    format!(
        "Identifier([Name(Identifier{{value:\"{}\",span:@{}..{}}})])",
        name,
        t,
        t + 1
    )
}

impl P<'_> {
    fn peek(&self) -> Option<It> {
        self.its.get(self.i).copied()
    }
    /// An expression whose operators are all of level at most `max`.
    fn expr(&mut self, max: u32) -> String {
        let mut l = match self.peek() {
            Some(It::Atom(k)) => {
                let t = self.at[self.i] + self.base;
                self.i += 1;
                ident(&atom_name(k), t)
            }
            Some(It::Op(o)) if o.sh == Pre => {
                let t = self.at[self.i] + self.base;
                self.i += 1;
                let x = self.expr(o.level);
                format!(
                    "Unary{{op:{},op_span:@{}..{},operand:{}}}",
                    o.name,
                    t,
                    t + 1,
                    x
                )
            }
            Some(It::Op(o)) if o.sh == Open => {
                self.i += 1;
                let x = self.expr(u32::MAX);
                assert!(matches!(self.peek(), Some(It::Op(o)) if o.sh == Close));
                self.i += 1;
                x
            }
            x => unreachable!("{:?}", x),
        };
        while let Some(It::Op(o)) = self.peek() {
            if o.sh == Close || o.level > max {
                break;
            }
            let t = self.at[self.i] + self.base;
            self.i += 1;
            l = match o.sh {
                Bin => {
                    let r = self.expr(o.level - 1);
                    format!(
                        "Binary{{op:{},op_span:@{}..{},lhs:{},rhs:{}}}",
                        o.name,
                        t,
                        t + o.toks.len(),
                        l,
                        r
                    )
                }
                _ if o.toks.contains(&"IN") => {
                    let n = o.toks.iter().position(|t| *t == "(").unwrap();
                    let mut items = ident("p", t + n + 1);
                    if o.toks.contains(&",") {
                        items = format!("{},{}", items, ident("q", t + n + 3));
                    }
                    format!(
                        "In{{lhs:{},rhs:[{}],in_span:@{}..{},not_in:{}}}",
                        l,
                        items,
                        t,
                        t + n,
                        o.name
                    )
                }
                _ => format!("Is({},{},@{}..{})", l, o.name, t, t + o.toks.len()),
            };
        }
        l
    }
}

pub struct Case {
    pub toks: Vec<String>,
    pub tree: String,
}

pub fn case(its: &[It], base: usize) -> Case {
    let mut toks = Vec::new();
    let mut at = Vec::new();
    for it in its {
        at.push(toks.len());
        match it {
            It::Atom(k) => toks.push(atom_name(*k)),
            It::Op(o) => toks.extend(o.toks.iter().map(|s| s.to_string())),
        }
    }
    let mut p = P {
        its,
        at: &at,
        i: 0,
        base,
    };
    let tree = p.expr(u32::MAX);
    assert_eq!(p.i, its.len());
    Case { toks, tree }
}

/// All sequences of up to `n` operators (each pair of parentheses counts as one).
fn sequences(
    ops: &[Op],
    parens: bool,
    n: usize,
    its: &mut Vec<It>,
    need: bool,
    depth: usize,
    left: usize,
    f: &mut dyn FnMut(&[It]) -> bool,
) -> bool {
    let _ = n;
    if need {
        let k = its.iter().filter(|i| matches!(i, It::Atom(_))).count() as u8;
        its.push(It::Atom(k));
        if !sequences(ops, parens, n, its, false, depth, left, f) {
            return false;
        }
        its.pop();
        if left > 0 {
            for o in ops.iter().filter(|o| o.sh == Pre) {
                its.push(It::Op(*o));
                if !sequences(ops, parens, n, its, true, depth, left - 1, f) {
                    return false;
                }
                its.pop();
            }
            if parens {
                its.push(It::Op(PAREN[0]));
                if !sequences(ops, parens, n, its, true, depth + 1, left - 1, f) {
                    return false;
                }
                its.pop();
            }
        }
    } else {
        if depth == 0 && !f(its) {
            return false;
        }
        if depth > 0 {
            its.push(It::Op(PAREN[1]));
            if !sequences(ops, parens, n, its, false, depth - 1, left, f) {
                return false;
            }
            its.pop();
        }
        if left > 0 {
            for o in ops.iter().filter(|o| matches!(o.sh, Bin | Post)) {
                its.push(It::Op(*o));
                if !sequences(ops, parens, n, its, o.sh == Bin, depth, left - 1, f) {
                    return false;
                }
                its.pop();
            }
        }
    }
    true
}

/// A statement with a hole for an expression.
pub struct Frame {
    pub pre: &'static str,
    pub post: &'static str,
}
const fn fr(pre: &'static str, post: &'static str) -> Frame {
    Frame {
        pre,
        post,
    }
}
pub const FRAMES: &[Frame] = &[
    fr("SELECT", ""),
    fr("SELECT", "AS c , z"),
    fr("SELECT z ,", "FROM t"),
    fr("SELECT z FROM t WHERE", ""),
    fr("SELECT z FROM t WHERE", "GROUP BY y LIMIT 1"),
    fr("SELECT z FROM t GROUP BY", "HAVING y"),
    fr("SELECT z FROM t GROUP BY y HAVING", "ORDER BY x DESC"),
    fr("SELECT z FROM t ORDER BY", "DESC , y"),
    fr("SELECT z FROM t JOIN u ON", "WHERE y"),
    fr("SELECT z FROM t JOIN u ON", "LEFT JOIN v ON y"),
    fr("SELECT f ( z ,", ", y )"),
    fr("SELECT COUNT ( DISTINCT", ")"),
    fr("SELECT CASE WHEN", "THEN z ELSE y END"),
    fr("SELECT CASE", "WHEN z THEN y END"),
    fr("SELECT CASE WHEN z THEN", "WHEN y THEN x END"),
    fr("SELECT CASE WHEN z THEN x ELSE", "END"),
    fr("SELECT CAST (", "AS CHAR )"),
    fr("SELECT IF (", ", z , y )"),
    fr("SELECT z IN (", ", y )"),
    fr("SELECT EXTRACT ( DAY FROM", ")"),
    fr("SELECT (", ")"),
    fr("SELECT ( SELECT", ")"),
    fr("SELECT EXISTS ( SELECT z FROM t WHERE", ")"),
    fr("SELECT LAG (", ") OVER ( ORDER BY z )"),
    fr("SELECT z UNION SELECT", ""),
    fr("SET v =", ""),
    fr("SET v = z , w =", ""),
    fr("INSERT INTO t ( c ) VALUES ( z ,", ") , ( y )"),
    fr("INSERT INTO t SET c =", ", d = z"),
    fr("UPDATE t SET c =", "WHERE z"),
    fr("UPDATE t SET c = z WHERE", ""),
    fr("DELETE FROM t WHERE", ""),
    fr("IF", "THEN SELECT z ; END IF"),
    fr("CREATE TABLE t ( c INT CHECK (", ") )"),
    fr("RETURN", ""),
    fr("SIGNAL SQLSTATE 'x' SET MESSAGE_TEXT =", ""),
];

/// The canonical tree of a frame with its hole filled by one identifier, split at the hole.
pub struct Cut {
    pub pre: Vec<String>,
    pub post: Vec<String>,
    head: String,
    tail: String,
}

/// Move token indices after the hole.
fn moved(s: &str, hole: usize, n: usize) -> String {
    let mut o = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    let mut inq = false;
    while i < b.len() {
        if b[i] == b'"' {
            inq = !inq;
        }
        if b[i] == b'@' && !inq {
            let e = s[i + 1..]
                .find(|c: char| !(c.is_ascii_digit() || c == '.'))
                .map(|e| e + i + 1)
                .unwrap_or(s.len());
            let (x, y) = s[i + 1..e].split_once("..").unwrap();
            let (x, y): (usize, usize) = (x.parse().unwrap(), y.parse().unwrap());
            let x = if x > hole { x + n - 1 } else { x };
            let y = if y > hole { y + n - 1 } else { y };
            let _ = write!(o, "@{}..{}", x, y);
            i = e;
        } else {
            o.push(b[i] as char);
            i += 1;
        }
    }
    o
}

pub fn join(toks: &[String]) -> (String, Vec<(usize, usize)>) {
    let mut s = String::new();
    let mut p = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let a = s.len();
        s.push_str(t);
        p.push((a, s.len()));
    }
    (s, p)
}

pub fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|s| s.to_string()).collect()
}

impl Cut {
    pub fn new(f: &Frame, opts: Opts) -> Result<Cut, String> {
        let (pre, post) = (words(f.pre), words(f.post));
        let all: Vec<String> = pre
            .iter()
            .cloned()
            .chain(["zz".to_string()])
            .chain(post.iter().cloned())
            .collect();
        let (sql, pos) = join(&all);
        let o = run(&sql, opts, Mode::One, FULL);
        if !o.ok() || o.stmts.len() != 1 {
            return Err(format!("{}\n{}", sql, o.show()));
        }
        let c = canon(&o.stmts[0].dbg, &pos, 0);
        let h = ident("zz", pre.len());
        let Some(k) = c.find(&h) else {
            return Err(format!("{}: {} not in {}", sql, h, c));
        };
        Ok(Cut {
            pre,
            post,
            head: c[..k].into(),
            tail: c[k + h.len()..].into(),
        })
    }
    /// Text and tree of the frame with the expression in the hole.
    pub fn fill(&self, c: &Case) -> (String, Vec<(usize, usize)>, String) {
        let all: Vec<String> = self
            .pre
            .iter()
            .chain(&c.toks)
            .chain(&self.post)
            .cloned()
            .collect();
        let (sql, pos) = join(&all);
        let h = self.pre.len();
        let t = format!(
            "{}{}{}",
            moved(&self.head, h, c.toks.len()),
            c.tree,
            moved(&self.tail, h, c.toks.len())
        );
        (sql, pos, t)
    }
}

fn compare(w: &Worker, sql: &str, pos: &[(usize, usize)], want: &str, opts: Opts) {
    let o = w.run(
        sql,
        opts,
        Mode::One,
        Want {
            dbg: true,
            span: false,
            display: false, ..NOTHING
        },
    );
    w.ctx.traces.fetch_add(1, Relaxed);
    let (what, detail) = if let Some(p) = &o.panic {
        (format!("the parser panicked: {}", p), String::new())
    } else if o.errors() > 0 || o.stmts.len() != 1 {
        (
            "a valid expression is reported as an error".to_string(),
            o.show(),
        )
    } else {
        let c = canon(&o.stmts[0].dbg, pos, 0);
        if c == want {
            return;
        }
        (
            "operators are not grouped as documented".to_string(),
            crate::fid::diff(want, &c),
        )
    };
    w.bad(
        &format!("op:{}", sql.replace(' ', "_")),
        what,
        sql,
        opts,
        Mode::One,
        detail,
    );
}

pub fn c07(ctx: &Ctx) {
    let cuts: Vec<Vec<Cut>> = (0..3u8)
        .map(|d| {
            FRAMES
                .iter()
                .filter_map(|f| match Cut::new(f, BASE.dialect(d)) {
                    Ok(c) => Some(c),
                    Err(e) => {
                        // a frame that its dialect does not have, or that is broken for another reason
                        ctx.note(
                            &format!("frame not used in {}", crate::fid::DN[d as usize]),
                            e.lines().next().unwrap_or(""),
                        );
                        if f.pre == "SELECT" && f.post.is_empty() {
                            ctx.violation(Violation {
                                key: "frame".into(),
                                what: "a plain SELECT of a name is not accepted".into(),
                                sql: "SELECT zz".into(),
                                opts: BASE.dialect(d),
                                mode: Mode::One,
                                detail: e,
                            });
                        }
                        None
                    }
                })
                .collect()
        })
        .collect();
    // (name, operators, parentheses, number of operators, frames, dialects)
    struct Space {
        name: &'static str,
        ops: &'static [Op],
        parens: bool,
        n: usize,
        frames: usize,
        dialects: u8,
    }
    let t = ctx.thorough as usize;
    let spaces = [
        Space {
            name: "every operator",
            ops: OPS,
            parens: false,
            n: 4,
            frames: 1,
            dialects: 3,
        },
        Space {
            name: "one operator per level",
            ops: &OPS[..REPS],
            parens: false,
            n: 6 + t,
            frames: 1,
            dialects: 1,
        },
        Space {
            name: "every operator, parentheses",
            ops: OPS,
            parens: true,
            n: 3,
            frames: 1,
            dialects: 3,
        },
        Space {
            name: "one operator per level, parentheses",
            ops: &OPS[..REPS],
            parens: true,
            n: 5 + t,
            frames: 1,
            dialects: 1,
        },
        Space {
            name: "every operator in every place",
            ops: OPS,
            parens: true,
            n: 2,
            frames: usize::MAX,
            dialects: 3,
        },
        Space {
            name: "one operator per level in every place",
            ops: &OPS[..REPS],
            parens: true,
            n: 3 + t,
            frames: usize::MAX,
            dialects: 1,
        },
    ];
    for s in &spaces {
        // split the space by its first operator
        let mut roots: Vec<Vec<It>> = Vec::new();
        for o in s.ops {
            match o.sh {
                Pre => roots.push(vec![It::Op(*o)]),
                _ => roots.push(vec![It::Atom(0), It::Op(*o)]),
            }
        }
        if s.parens {
            roots.push(vec![It::Op(PAREN[0])]);
        }
        let count = std::sync::atomic::AtomicU64::new(0);
        ctx.each(&roots, |w, first| {
            let mut its = first.clone();
            let (need, depth) = match first[first.len() - 1] {
                It::Op(o) => (o.sh != Post, (o.sh == Open) as usize),
                _ => unreachable!(),
            };
            sequences(
                s.ops,
                s.parens,
                s.n,
                &mut its,
                need,
                depth,
                s.n - 1,
                &mut |its| {
                    count.fetch_add(1, Relaxed);
                    ctx.transitions.fetch_add(its.len() as u64, Relaxed);
                    let mut last = String::new();
                    for d in 0..s.dialects {
                        for c in cuts[d as usize].iter().take(s.frames) {
                            let c0 = case(its, c.pre.len());
                            let (sql, pos, want) = c.fill(&c0);
                            compare(w, &sql, &pos, &want, BASE.dialect(d));
                            last = want;
                        }
                    }
                    ctx.state(hash64(&last));
                    if hash64(&last) % 200_000 == ctx.seed % 200_000 {
                        ctx.sample(|| last);
                    }
                    !w.stop()
                },
            );
        });
        let n = count.load(Relaxed);
        ctx.note(&format!("{}, up to {} operators", s.name, s.n), n);
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("{} {}: {} in {:.1}s", s.name, s.n, n, ctx.elapsed());
        }
    }
    // long chains: every cycle of up to three operators, over and over
    let ops = &OPS[..REPS];
    let mut cycles: Vec<Vec<Op>> = OPS.iter().map(|o| vec![*o]).collect();
    for a in ops {
        for b in ops {
            cycles.push(vec![*a, *b]);
            for c in ops {
                cycles.push(vec![*a, *b, *c]);
            }
        }
    }
    ctx.each(&cycles, |w, cycle| {
        for n in [5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
            if n > 33 && cycle.len() == 3 && !ctx.thorough && n % 2 == 0 {
                continue;
            }
            for open in [0, 3] {
                let mut its = Vec::new();
                let mut need = true;
                let (mut k, mut done, mut depth) = (0u8, 0, 0);
                for o in cycle.iter().cycle().take(n * 4) {
                    if done == n {
                        break;
                    }
                    if o.sh == Pre && !need {
                        continue;
                    }
                    if need && o.sh != Pre {
                        // now and then within parentheses
                        if open > 0 && done % open == 1 {
                            its.push(It::Op(PAREN[0]));
                            depth += 1;
                        }
                        its.push(It::Atom(k));
                        k = k.wrapping_add(1);
                    }
                    its.push(It::Op(*o));
                    need = o.sh != Post;
                    done += 1;
                }
                if need {
                    its.push(It::Atom(k));
                }
                its.extend((0..depth).map(|_| It::Op(PAREN[1])));
                let c = &cuts[0][0];
                let (sql, pos, want) = c.fill(&case(&its, c.pre.len()));
                ctx.transitions.fetch_add(its.len() as u64, Relaxed);
                compare(w, &sql, &pos, &want, BASE);
            }
        }
    });
    ctx.note("cycles of operators repeated up to 257 operators", cycles.len());
    // operands of every kind
    let atoms: Vec<(Vec<String>, String)> = ATOMS
        .iter()
        .filter_map(|a| {
            let toks = words(a);
            let mut all = vec!["SELECT".to_string()];
            all.extend(toks.iter().cloned());
            let (sql, pos) = join(&all);
            let o = run(&sql, BASE, Mode::One, FULL);
            if !o.ok() || o.stmts.len() != 1 {
                return None;
            }
            let c = canon(&o.stmts[0].dbg, &pos, 1);
            let (from, to) = ("expr:", ",as_:None}],from_span:None");
            let (f, t) = (c.find(from)? + from.len(), c.rfind(to)?);
            Some((toks, c[f..t].to_string()))
        })
        .collect();
    ctx.note("kinds of operands", format!("{} of {}", atoms.len(), ATOMS.len()));
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for a in 0..atoms.len() {
        pairs.extend((0..atoms.len()).map(|b| (a, b)));
    }
    let ops: &[Op] = if ctx.thorough { OPS } else { &OPS[..REPS] };
    let count = std::sync::atomic::AtomicU64::new(0);
    ctx.each(&pairs, |w, (a, b)| {
        let mut its = Vec::new();
        sequences(ops, true, 2, &mut its, true, 0, 2, &mut |its| {
            count.fetch_add(1, Relaxed);
            let n = its.iter().filter(|i| matches!(i, It::Atom(_))).count();
            for third in 0..if n > 2 { atoms.len() } else { 1 } {
                let pick = [*a, *b, third];
                let c = &cuts[0][0];
                let small = case(its, 0);
                // put the operands in place of the names, from the last to the first
                let (mut toks, mut tree) = (small.toks, small.tree);
                let at: Vec<usize> = (0..toks.len())
                    .filter(|i| (0..3).any(|k| toks[*i] == atom_name(k)))
                    .collect();
                for (k, i) in at.iter().enumerate().rev() {
                    let (at, atree) = &atoms[pick[k]];
                    let h = ident(&atom_name(k as u8), *i);
                    let p = tree.find(&h).expect("the operand in the tree");
                    tree = format!(
                        "{}{}{}",
                        moved(&tree[..p], *i, at.len()),
                        shifted(atree, *i),
                        moved(&tree[p + h.len()..], *i, at.len())
                    );
                    toks.splice(*i..*i + 1, at.iter().cloned());
                }
                if toks.iter().filter(|t| *t == "?").count() > 1 {
                    continue;
                }
                // placed after SELECT
                let (sql, pos, want) = {
                    let all: Vec<String> = c.pre.iter().chain(&toks).cloned().collect();
                    let (sql, pos) = join(&all);
                    (sql, pos, format!("{}{}{}", c.head, shifted(&tree, c.pre.len()), moved(&c.tail, c.pre.len(), toks.len())))
                };
                ctx.transitions.fetch_add(1, Relaxed);
                compare(w, &sql, &pos, &want, BASE);
            }
            !w.stop()
        });
    });
    ctx.note("operators with operands of every kind", count.into_inner());
}

/// Operands that are not plain names.
const ATOMS: &[&str] = &[
    "a",
    "1",
    "1.5",
    "'s'",
    "NULL",
    "TRUE",
    "t . c",
    "`a`",
    "?",
    "f ( a , 1 )",
    "COUNT ( * )",
    "( SELECT a )",
    "EXISTS ( SELECT a )",
    "CASE WHEN a THEN b ELSE c END",
    "CAST ( a AS CHAR )",
    "( a )",
    "CURRENT_TIMESTAMP",
    "IF ( a , b , c )",
];

/// All token positions of a tree moved by n.
fn shifted(s: &str, n: usize) -> String {
    let mut o = String::new();
    let mut inq = false;
    let mut digits = false;
    let mut num = String::new();
    for c in s.chars().chain(['\0']) {
        if digits && c.is_ascii_digit() {
            num.push(c);
            continue;
        }
        if digits && !num.is_empty() {
            let _ = write!(o, "{}", num.parse::<usize>().unwrap() + n);
            num.clear();
        }
        if digits && c != '.' {
            digits = false;
        }
        if c == '"' {
            inq = !inq;
        }
        if c == '@' && !inq {
            digits = true;
        }
        if c != '\0' {
            o.push(c);
        }
    }
    o
}
