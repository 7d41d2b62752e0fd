//! Synchronous grammar: every alternative gives the text of a construct and the tree the parser must
//! return for it.  The grammar is the reference model; `Chooser`/`explore` enumerate all of its
//! derivations whose number of deviations from the default alternatives is within a bound.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Kw,
    Punct,
    Id,
    Num,
    Str,
    Arg,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
enum TItem {
    Lit(String, Kind, Option<u16>),
    Nt(usize, Option<u16>),
    Id(Option<u16>),
    QId(Option<u16>),
    Int(Option<u16>),
    Str(Option<u16>),
    Float(Option<u16>),
    Arg(Option<u16>),
}

#[derive(Clone, Debug)]
enum TrItem {
    Raw(String),
    Span(u16),
    Sub(u16),
    Val(u16),
}

#[derive(Clone, Debug)]
pub struct Alt {
    cost: u8,
    dial: u8, // bit 0 maria, 1 pg, 2 sqlite
    errlabel: Option<u16>,
    quirk: bool,
    text: Vec<TItem>,
    tree: Vec<TrItem>,
    pub src: String,
    /// in a list: the items of the text, and of the tree, that come again with each further element
    again: Option<(std::ops::Range<usize>, std::ops::Range<usize>)>,
}

impl Alt {
    fn find_list(text: &[TItem], tree: &[TrItem]) -> Option<(std::ops::Range<usize>, std::ops::Range<usize>)> {
        let label = |i: &TItem| match i {
            TItem::Nt(n, l) => l.map(|l| (*n, l)),
            TItem::Id(l) | TItem::QId(l) => l.map(|l| (usize::MAX, l)),
            TItem::Str(l) => l.map(|l| (usize::MAX - 1, l)),
            _ => None,
        };
        for a in 0..text.len() {
            let Some((n, l)) = label(&text[a]) else {
                continue;
            };
            let b = (a + 1..text.len()).find(|b| label(&text[*b]).is_some())?;
            let (n2, l2) = label(&text[b]).unwrap();
            let lit = |t: &TItem| match t {
                TItem::Lit(t, _, _) => t.clone(),
                _ => String::from("?"),
            };
            let between: Vec<String> = text[a + 1..b].iter().map(lit).collect();
            let sep = match between.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
                [] | [","] | [";"] => true,
                ["ELSEIF"] => false,
                _ => continue,
            };
            let at = |l: u16| tree.iter().position(|t| matches!(t, TrItem::Sub(x) if *x == l));
            let (Some(x), Some(y)) = (at(l), at(l2)) else {
                continue;
            };
            if n != n2 || y < x {
                continue;
            }
            let comma = matches!(&tree[x + 1..y], [TrItem::Raw(r)] if r == ",");
            if comma || !sep {
                return Some((a + 1..b + 1, x + 1..y + 1));
            }
        }
        None
    }
}

pub struct Rule {
    pub name: String,
    pub alts: Vec<Alt>,
}

pub struct Grammar {
    pub rules: Vec<Rule>,
    pub by_name: HashMap<String, usize>,
}

/// A complete derivation: tokens, expected canonical tree, and where dialect errors must appear.
#[derive(Clone, Debug, Default)]
pub struct Deriv {
    pub toks: Vec<Tok>,
    pub tree: String,
    pub dial: u8,
    /// dialects in which the unlabelled restrictions allow the derivation
    pub plain: u8,
    /// token range -> dialect mask in which that construct is allowed
    pub restr: Vec<(usize, usize, u8)>,
    /// an alternative whose exact shape is a peculiarity of the implementation
    pub quirk: bool,
}

pub struct Chooser {
    pub prefix: Vec<u16>,
    pos: usize,
    budget: u32,
    trail: Vec<(u16, *const [u8], u32)>,
}

impl Chooser {
    fn remaining(&self) -> u32 {
        self.trail.last().map(|t| t.2).unwrap_or(self.budget)
    }
    /// Choose an alternative; `costs` must outlive the run (grammar data or a static).
    pub fn choose(&mut self, costs: &[u8]) -> usize {
        let rem = self.remaining();
        let c = if self.pos < self.prefix.len() {
            self.prefix[self.pos] as usize
        } else {
            costs
                .iter()
                .position(|c| *c as u32 <= rem)
                .expect("no affordable alternative")
        };
        let rem2 = rem.checked_sub(costs[c] as u32).expect("replay diverged");
        self.pos += 1;
        self.trail.push((c as u16, costs as *const [u8], rem2));
        c
    }
    pub fn with_prefix(budget: u32, prefix: Vec<u16>) -> Self {
        Chooser {
            prefix,
            pos: 0,
            budget,
            trail: Vec::new(),
        }
    }
    pub fn len(&self) -> usize {
        self.trail.len()
    }
    pub fn choices(&self) -> Vec<u16> {
        self.trail.iter().map(|t| t.0).collect()
    }
    /// The choice sequences that follow this one up to a choice point at or after `from` and take a
    /// later alternative there.  Every affordable sequence is the child of exactly one other.
    pub fn children(&self, from: usize, f: &mut dyn FnMut(Vec<u16>)) {
        assert!(self.pos >= self.prefix.len(), "replay diverged");
        for (i, (c, costs, rem2)) in self.trail.iter().enumerate().skip(from) {
            // SAFETY: costs slices live as long as the grammar, see `choose`.
            let costs = unsafe { &**costs };
            let rem = rem2 + costs[*c as usize] as u32;
            for n in *c as usize + 1..costs.len() {
                if costs[n] as u32 <= rem {
                    let mut p: Vec<u16> = self.trail[..i].iter().map(|t| t.0).collect();
                    p.push(n as u16);
                    f(p);
                }
            }
        }
    }
}

fn norm_ws(s: &str) -> String {
    // drop whitespace outside string literals
    let mut o = String::with_capacity(s.len());
    let mut inq = false;
    let mut esc = false;
    for c in s.chars() {
        if inq {
            o.push(c);
            if esc {
                esc = false
            } else if c == '\\' {
                esc = true
            } else if c == '"' {
                inq = false
            }
        } else if c == '"' {
            inq = true;
            o.push(c)
        } else if !c.is_whitespace() {
            o.push(c)
        }
    }
    o
}

pub fn kind_of(t: &str) -> Kind {
    let c = t.chars().next().unwrap();
    if c.is_ascii_alphabetic() || c == '_' {
        Kind::Kw
    } else if c.is_ascii_digit() || (c == '.' && t.len() > 1) {
        Kind::Num
    } else if c == '\'' || c == '"' {
        Kind::Str
    } else if c == '`' {
        Kind::Id
    } else if c == '?' || t == "%s" || (c == '$' && t.len() > 1 && t != "$$") {
        Kind::Arg
    } else {
        Kind::Punct
    }
}

impl Grammar {
    pub fn parse(srcs: &[&str]) -> Grammar {
        let mut by_name = HashMap::new();
        let mut names = Vec::new();
        for s in srcs {
            for l in s.lines() {
                if let Some(n) = l.strip_prefix("rule ") {
                    let n = n.trim().to_string();
                    assert!(
                        by_name.insert(n.clone(), names.len()).is_none(),
                        "duplicate rule {}",
                        n
                    );
                    names.push(n);
                }
            }
        }
        let mut rules: Vec<Rule> = names
            .into_iter()
            .map(|name| Rule {
                name,
                alts: Vec::new(),
            })
            .collect();
        for s in srcs {
            let mut cur: Option<usize> = None;
            let mut pend: Option<(String, String)> = None;
            let mut done: Vec<(usize, String, String)> = Vec::new();
            for l in s.lines() {
                let lt = l.trim_end();
                if lt.starts_with("# ") || lt.is_empty() || lt == "#" {
                    continue;
                }
                if let Some(n) = lt.strip_prefix("rule ") {
                    if let Some((a, b)) = pend.take() {
                        done.push((cur.unwrap(), a, b));
                    }
                    cur = Some(by_name[n.trim()]);
                } else if lt.starts_with('=') {
                    if let Some((a, b)) = pend.take() {
                        done.push((cur.unwrap(), a, b));
                    }
                    pend = Some((lt[1..].to_string(), String::new()));
                } else if let Some(r) = lt.strip_prefix('>') {
                    let p = pend.as_mut().expect("> before =");
                    p.1.push_str(r);
                } else {
                    panic!("bad spec line: {}", lt);
                }
            }
            if let Some((a, b)) = pend.take() {
                done.push((cur.unwrap(), a, b));
            }
            for (r, text, tree) in done {
                let first = rules[r].alts.is_empty();
                let alt = Self::parse_alt(&by_name, &text, &tree, first, &rules[r].name);
                rules[r].alts.push(alt);
            }
        }
        for r in &rules {
            assert!(!r.alts.is_empty(), "rule {} has no alternatives", r.name);
        }
        Grammar { rules, by_name }
    }

    fn parse_alt(
        by_name: &HashMap<String, usize>,
        text: &str,
        tree: &str,
        first: bool,
        rname: &str,
    ) -> Alt {
        let mut labels: Vec<String> = Vec::new();
        fn lab(labels: &mut Vec<String>, s: &str) -> u16 {
            if let Some(i) = labels.iter().position(|l| l == s) {
                i as u16
            } else {
                labels.push(s.to_string());
                (labels.len() - 1) as u16
            }
        }
        // header: optional cost digit and [..] right after '='
        let (head, body) = match text.find(' ') {
            Some(i) => (&text[..i], &text[i + 1..]),
            None => (text, ""),
        };
        let mut cost = if first { 0 } else { 1 };
        let mut dial = 7;
        let mut errlabel = None;
        let mut quirk = false;
        let mut h = head;
        if let Some(c) = h.chars().next() {
            if c.is_ascii_digit() {
                cost = c.to_digit(10).unwrap() as u8;
                h = &h[1..];
            }
        }
        if let Some(inner) = h.strip_prefix('[').and_then(|h| h.strip_suffix(']')) {
            let (ds, el) = match inner.split_once('!') {
                Some((a, b)) => (a, Some(b)),
                None => (inner, None),
            };
            let mut m = 0;
            for c in ds.chars() {
                match c {
                    'm' => m |= 1,
                    'p' => m |= 2,
                    's' => m |= 4,
                    'q' => quirk = true,
                    _ => panic!("bad header {}", head),
                }
            }
            if m != 0 {
                dial = m;
            }
            errlabel = el.map(|e| lab(&mut labels, e));
        } else {
            assert!(h.is_empty(), "bad header {:?} in rule {}", head, rname);
        }
        let mut items = Vec::new();
        for w in body.split_whitespace() {
            if w.len() > 2
                && w.starts_with('<')
                && w.ends_with('>')
                && w[1..w.len() - 1]
                    .chars()
                    .all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':')
            {
                let inner = &w[1..w.len() - 1];
                let (n, l) = match inner.split_once(':') {
                    Some((n, l)) => (n, Some(lab(&mut labels, l))),
                    None => (inner, None),
                };
                items.push(match n {
                    "id" => TItem::Id(l),
                    "qid" => TItem::QId(l),
                    "int" => TItem::Int(l),
                    "str" => TItem::Str(l),
                    "float" => TItem::Float(l),
                    "arg" => TItem::Arg(l),
                    _ => TItem::Nt(
                        *by_name
                            .get(n)
                            .unwrap_or_else(|| panic!("unknown <{}> in {}", n, rname)),
                        l,
                    ),
                });
            } else {
                let (t, l) = match w.rfind('~') {
                    Some(i) if i > 0 => (&w[..i], Some(lab(&mut labels, &w[i + 1..]))),
                    _ => (w, None),
                };
                items.push(TItem::Lit(t.to_string(), kind_of(t), l));
            }
        }
        // tree
        let t = norm_ws(tree);
        let mut tr = Vec::new();
        let mut raw = String::new();
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut inq = false;
        while i < cs.len() {
            let c = cs[i];
            if c == '"' {
                inq = !inq;
            }
            if !inq && (c == '@' || c == '$' || c == '%') {
                let mut j = i + 1;
                while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                    j += 1;
                }
                let l: String = cs[i + 1..j].iter().collect();
                let li = labels.iter().position(|x| *x == l).unwrap_or_else(|| {
                    panic!("label {} not in text of rule {}: {}", l, rname, text)
                }) as u16;
                if !raw.is_empty() {
                    tr.push(TrItem::Raw(std::mem::take(&mut raw)));
                }
                tr.push(match c {
                    '@' => TrItem::Span(li),
                    '$' => TrItem::Sub(li),
                    _ => TrItem::Val(li),
                });
                i = j;
            } else {
                raw.push(c);
                i += 1;
            }
        }
        if !raw.is_empty() {
            tr.push(TrItem::Raw(raw));
        }
        Alt {
            cost,
            dial,
            errlabel,
            quirk,
            again: Alt::find_list(&items, &tr),
            text: items,
            tree: tr,
            src: format!("{} :{}", rname, text),
        }
    }

    /// All literal tokens of the grammar.
    pub fn literals(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for r in &self.rules {
            for a in &r.alts {
                for t in &a.text {
                    if let TItem::Lit(s, _, _) = t {
                        v.push(s.clone());
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }

    pub fn rule(&self, n: &str) -> usize {
        *self
            .by_name
            .get(n)
            .unwrap_or_else(|| panic!("no rule {}", n))
    }
}

pub struct Gen<'g> {
    pub g: &'g Grammar,
    costs: Vec<Vec<u8>>,
    /// per rule and alternative: the alternative that has one more element in its list, and the place of the
    /// list's first element among the uses of rules of the alternative (none for an element without choices)
    longer: Vec<Vec<Option<(usize, Option<usize>)>>>,
}

#[derive(Default)]
struct Fresh<'v> {
    id: u32,
    int: u32,
    str: u32,
    arg: u32,
    values: Option<&'v Values<'v>>,
    uses: usize,
    /// this use of a rule, a list, has its second element so many times
    again: Option<(usize, usize)>,
    trace: Option<Vec<Use>>,
}

/// One use of a rule in a derivation: the rule and the choices made below it.
pub struct Use {
    pub rule: usize,
    pub from: usize,
    pub to: usize,
    pub parent: usize,
    /// number of tokens up to its end
    pub end: usize,
    /// the choices made in the part of a list that may come again
    pub again: Option<(usize, usize)>,
}

/// The names, numbers and strings of a derivation: what to write for the n-th, if not the usual.
pub struct Values<'v> {
    pub id: &'v dyn Fn(u32) -> Option<String>,
    pub int: &'v dyn Fn(u32) -> Option<String>,
    pub str: &'v dyn Fn(u32) -> Option<String>,
}

impl<'g> Gen<'g> {
    pub fn new(g: &'g Grammar) -> Self {
        let costs = g
            .rules
            .iter()
            .map(|r| r.alts.iter().map(|a| a.cost).collect())
            .collect();
        let shape = |t: &TItem| match t {
            TItem::Nt(n, _) => format!("<{}>", n),
            TItem::Lit(t, _, _) => t.clone(),
            TItem::Id(_) => "<id>".into(),
            TItem::Str(_) => "<str>".into(),
            t => format!("{:?}", std::mem::discriminant(t)),
        };
        let longer = g
            .rules
            .iter()
            .map(|r| {
                r.alts
                    .iter()
                    .map(|a| {
                        let short: Vec<String> = a.text.iter().map(shape).collect();
                        let ai = r.alts.iter().position(|l| {
                            let Some((part, _)) = &l.again else {
                                return false;
                            };
                            let less: Vec<String> =
                                l.text[..part.start].iter().chain(&l.text[part.end..]).map(shape).collect();
                            less == short && l.dial == a.dial && l.errlabel.is_some() == a.errlabel.is_some() && !l.quirk
                        })?;
                        let part = r.alts[ai].again.as_ref().unwrap().0.clone();
                        let nts = |t: &[TItem]| t.iter().filter(|i| matches!(i, TItem::Nt(..))).count();
                        let first = matches!(a.text[part.start - 1], TItem::Nt(..));
                        Some((ai, first.then(|| nts(&a.text[..part.start - 1]))))
                    })
                    .collect()
            })
            .collect();
        Gen { g, costs, longer }
    }

    /// The same, but the named rules have their first alternative only.
    pub fn freeze(mut self, rules: &[&str]) -> Self {
        for r in rules {
            let c = &mut self.costs[self.g.rule(r)];
            for x in c.iter_mut().filter(|x| **x > 0) {
                *x = 200;
            }
        }
        self
    }

    /// If use `k` of a rule is a list of one element: the choices that make it a list of two equal ones.
    pub fn lengthen(&self, choices: &[u16], uses: &[Use], k: usize) -> Option<Vec<u16>> {
        let u = &uses[k];
        let r = &self.g.rules[u.rule];
        let ai = if r.alts.len() == 1 {
            0
        } else {
            choices[u.from] as usize
        };
        let (to, element) = self.longer[u.rule][ai]?;
        let mut p: Vec<u16> = choices[..u.from].to_vec();
        p.push(to as u16);
        let rest = u.from + 1;
        match element {
            None => p.extend(&choices[rest..]),
            Some(j) => {
                let e = uses.iter().filter(|x| x.parent == k).nth(j)?;
                p.extend(&choices[rest..e.to]);
                p.extend(&choices[e.from..e.to]);
                p.extend(&choices[e.to..]);
            }
        }
        Some(p)
    }

    pub fn derive(&self, root: usize, ch: &mut Chooser) -> Deriv {
        self.derive_in(root, ch, &mut Fresh::default())
    }

    /// The derivation with the given choices and values.
    pub fn derive_with(&self, root: usize, choices: Vec<u16>, v: Option<&Values>) -> Deriv {
        let mut ch = Chooser::with_prefix(u32::MAX / 2, choices);
        let f = &mut Fresh {
            values: v,
            ..Default::default()
        };
        self.derive_in(root, &mut ch, f)
    }

    /// The derivation in which the list at the given use of a rule has its second element `times` times
    /// (the choices are those of the usual derivation).
    pub fn derive_list(&self, root: usize, choices: &[u16], at: usize, u: &Use, times: usize) -> Deriv {
        let (a, b) = u.again.unwrap();
        let mut p: Vec<u16> = choices[..a].to_vec();
        for _ in 0..times {
            p.extend(&choices[a..b]);
        }
        p.extend(&choices[b..]);
        let mut ch = Chooser::with_prefix(u32::MAX / 2, p);
        let f = &mut Fresh {
            again: Some((at, times)),
            ..Default::default()
        };
        self.derive_in(root, &mut ch, f)
    }

    /// The uses of rules in the derivation with the given choices, outer ones first.
    pub fn trace(&self, root: usize, choices: Vec<u16>) -> Vec<Use> {
        let mut ch = Chooser::with_prefix(u32::MAX / 2, choices);
        let mut f = Fresh {
            trace: Some(Vec::new()),
            ..Default::default()
        };
        self.derive_in(root, &mut ch, &mut f);
        f.trace.unwrap()
    }

    fn derive_in(&self, root: usize, ch: &mut Chooser, f: &mut Fresh) -> Deriv {
        let mut d = Deriv {
            dial: 7,
            plain: 7,
            ..Default::default()
        };
        let mut tree = String::with_capacity(256);
        self.expand(root, ch, &mut d, f, &mut tree, usize::MAX, 0);
        d.tree = tree;
        d
    }

    fn expand(
        &self,
        rule: usize,
        ch: &mut Chooser,
        d: &mut Deriv,
        f: &mut Fresh,
        out: &mut String,
        parent: usize,
        depth: usize,
    ) {
        assert!(
            depth < 20_000,
            "unbounded recursion in default derivation of {}",
            self.g.rules[rule].name
        );
        let me = f.uses;
        f.uses += 1;
        let times = f.again.filter(|a| a.0 == me).map_or(1, |a| a.1);
        if let Some(t) = &mut f.trace {
            t.push(Use {
                rule,
                from: ch.len(),
                to: 0,
                parent,
                end: 0,
                again: None,
            });
        }
        let r = &self.g.rules[rule];
        let ai = if r.alts.len() == 1 {
            0
        } else {
            ch.choose(&self.costs[rule])
        };
        let alt = &r.alts[ai];
        d.dial &= alt.dial;
        if alt.errlabel.is_none() {
            d.plain &= alt.dial;
        }
        d.quirk |= alt.quirk;
        let mut spans: [(usize, usize); 24] = [(usize::MAX, 0); 24];
        // spans of the labels in the repeated part of a list
        let mut more: Vec<[(usize, usize); 24]> = Vec::new();
        let mut subs: Vec<(u16, usize, String, String)> = Vec::new();
        let (part, tpart) = match &alt.again {
            Some((a, b)) => (a.clone(), b.clone()),
            None => (usize::MAX..usize::MAX, usize::MAX..usize::MAX),
        };
        let n = alt.text.len();
        let plan = (0..n.min(part.start))
            .map(|i| (i, 0))
            .chain((0..times).flat_map(|t| part.clone().take_while(|i| *i < n).map(move |i| (i, t))))
            .chain((part.end.min(n)..n).map(|i| (i, 0)));
        for (i, rep) in plan {
            let it = &alt.text[i];
            if i == part.start {
                if let Some(t) = &mut f.trace {
                    t[me].again = Some((ch.len(), 0));
                }
            }
            let s = d.toks.len();
            let l = match it {
                TItem::Lit(t, k, l) => {
                    d.toks.push(Tok {
                        text: t.clone(),
                        kind: *k,
                    });
                    *l
                }
                TItem::Nt(n, l) => {
                    let mut o = String::new();
                    self.expand(*n, ch, d, f, &mut o, me, depth + 1);
                    if let Some(l) = l {
                        subs.push((*l, rep, o, String::new()));
                    }
                    *l
                }
                TItem::Id(l) | TItem::QId(l) => {
                    f.id += 1;
                    let v = f.values.and_then(|v| (v.id)(f.id));
                    let v = v.unwrap_or_else(|| format!("i{}", f.id));
                    let q = matches!(it, TItem::QId(_));
                    d.toks.push(Tok {
                        text: if q { format!("`{}`", v) } else { v.clone() },
                        kind: Kind::Id,
                    });
                    if let Some(l) = l {
                        subs.push((
                            *l,
                            rep,
                            format!("Identifier{{value:\"{}\",span:@{}..{}}}", v, s, s + 1),
                            format!("\"{}\"", v),
                        ));
                    }
                    *l
                }
                TItem::Int(l) => {
                    f.int += 1;
                    let v = f.values.and_then(|v| (v.int)(f.int));
                    let v = v.unwrap_or_else(|| format!("{}", 10 + f.int));
                    d.toks.push(Tok {
                        text: v.clone(),
                        kind: Kind::Num,
                    });
                    if let Some(l) = l {
                        subs.push((*l, rep, format!("({},@{}..{})", v, s, s + 1), v));
                    }
                    *l
                }
                TItem::Float(l) => {
                    f.int += 1;
                    let v = format!("{}.5", 10 + f.int);
                    d.toks.push(Tok {
                        text: v.clone(),
                        kind: Kind::Num,
                    });
                    if let Some(l) = l {
                        subs.push((*l, rep, format!("({},@{}..{})", v, s, s + 1), v));
                    }
                    *l
                }
                TItem::Str(l) => {
                    f.str += 1;
                    let v = f.values.and_then(|v| (v.str)(f.str));
                    let v = v.unwrap_or_else(|| format!("s{}", f.str));
                    d.toks.push(Tok {
                        text: format!("'{}'", v),
                        kind: Kind::Str,
                    });
                    if let Some(l) = l {
                        subs.push((
                            *l,
                            rep,
                            format!("SString{{value:\"{}\",span:@{}..{}}}", v, s, s + 1),
                            format!("\"{}\"", v),
                        ));
                    }
                    *l
                }
                TItem::Arg(l) => {
                    let v = f.arg;
                    f.arg += 1;
                    d.toks.push(Tok {
                        text: "?".into(),
                        kind: Kind::Arg,
                    });
                    if let Some(l) = l {
                        subs.push((*l, rep, format!("({},@{}..{})", v, s, s + 1), v.to_string()));
                    }
                    *l
                }
            };
            if let Some(l) = l {
                let e = if part.contains(&i) && times > 1 {
                    if more.len() <= rep {
                        more.push([(usize::MAX, 0); 24]);
                    }
                    &mut more[rep][l as usize]
                } else {
                    &mut spans[l as usize]
                };
                e.0 = e.0.min(s);
                e.1 = e.1.max(d.toks.len());
            }
            if i + 1 == part.end {
                if let Some(t) = &mut f.trace {
                    t[me].again.as_mut().unwrap().1 = ch.len();
                }
            }
        }
        if alt.dial != 7 {
            if let Some(l) = alt.errlabel {
                let (a, b) = spans[l as usize];
                d.restr.push((a, b, alt.dial));
            }
        }
        if let Some(t) = &mut f.trace {
            t[me].to = ch.len();
            t[me].end = d.toks.len();
        }
        let n = alt.tree.len();
        let plan = (0..n.min(tpart.start))
            .map(|i| (i, 0))
            .chain((0..times).flat_map(|t| tpart.clone().take_while(|i| *i < n).map(move |i| (i, t))))
            .chain((tpart.end.min(n)..n).map(|i| (i, 0)));
        for (i, rep) in plan {
            let spans = if tpart.contains(&i) && times > 1 { &more[rep] } else { &spans };
            match &alt.tree[i] {
                TrItem::Raw(s) => out.push_str(s),
                TrItem::Span(l) => {
                    use std::fmt::Write;
                    let (a, b) = spans[*l as usize];
                    if a >= b {
                        out.push_str("@empty");
                    } else {
                        let _ = write!(out, "@{}..{}", a, b);
                    }
                }
                TrItem::Sub(l) | TrItem::Val(l) => {
                    let s = subs
                        .iter()
                        .find(|s| s.0 == *l && s.1 == rep)
                        .unwrap_or_else(|| panic!("no sub in {}", alt.src));
                    out.push_str(if matches!(alt.tree[i], TrItem::Sub(_)) { &s.2 } else { &s.3 });
                }
            }
        }
    }
}
