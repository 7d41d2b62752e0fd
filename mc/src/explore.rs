//! Parallel exhaustive enumeration of all derivations within a deviation budget.
use crate::core::*;
use crate::grammar::*;
use std::sync::atomic::Ordering::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn load() -> Grammar {
    Grammar::parse(&[
        include_str!("../spec/expr.spec"),
        include_str!("../spec/select.spec"),
        include_str!("../spec/dml.spec"),
        include_str!("../spec/types.spec"),
        include_str!("../spec/create.spec"),
        include_str!("../spec/alter.spec"),
        include_str!("../spec/misc.spec"),
        include_str!("../spec/body.spec"),
    ])
}

/// Text of the tokens from `from` on, separated by single blanks, and the byte range of each.
pub fn layout(toks: &[Tok]) -> (String, Vec<(usize, usize)>) {
    let mut s = String::with_capacity(toks.len() * 6);
    let mut p = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let a = s.len();
        s.push_str(&t.text);
        p.push((a, s.len()));
    }
    (s, p)
}

impl Deriv {
    pub fn has_backtick(&self) -> bool {
        self.toks.iter().any(|t| t.text.starts_with('`'))
    }
    /// The derivation describes text of this dialect (possibly text that it must reject).
    pub fn in_dialect(&self, d: u8) -> bool {
        let m = 1 << d;
        // alternatives restricted without an error label do not describe other dialects at all
        if self.plain & m == 0 {
            return false;
        }
        !(d == 1 && self.has_backtick())
    }
    /// The derivation with names replaced: the k-th identifier of the text (from 1) is called `f(k)`.
    pub fn rename(&self, f: &dyn Fn(usize) -> usize) -> Deriv {
        let mut d = self.clone();
        let num = |t: &str| t.strip_prefix('i').and_then(|n| n.parse::<usize>().ok());
        for t in d.toks.iter_mut().filter(|t| t.kind == Kind::Id) {
            let q = t.text.starts_with('`');
            if let Some(n) = num(t.text.trim_matches('`')) {
                t.text = if q {
                    format!("`i{}`", f(n))
                } else {
                    format!("i{}", f(n))
                };
            }
        }
        let mut o = String::with_capacity(d.tree.len());
        let mut it = d.tree.split('"');
        o.push_str(it.next().unwrap());
        let mut inside = true;
        for part in it {
            o.push('"');
            match num(part) {
                Some(n) if inside => o.push_str(&format!("i{}", f(n))),
                _ => o.push_str(part),
            }
            inside = !inside;
        }
        d.tree = o;
        d
    }
    /// Number of identifiers.
    pub fn names(&self) -> usize {
        self.toks.iter().filter(|t| t.kind == Kind::Id).count()
    }
    pub fn accepted_in(&self, d: u8) -> bool {
        self.restr.iter().all(|r| r.2 & (1 << d) != 0)
    }
}

/// Call `f` once for every derivation of `root` with at most `budget` deviations.
pub fn explore(
    ctx: &Ctx,
    g: &Gen,
    root: usize,
    budget: u32,
    f: impl Fn(&Worker, &Deriv) + Sync,
) -> u64 {
    explore_choices(ctx, g, root, budget, |w, d, _| f(w, d))
}

/// The same; `f` also gets the choices that lead to the derivation.
pub fn explore_choices(
    ctx: &Ctx,
    g: &Gen,
    root: usize,
    budget: u32,
    f: impl Fn(&Worker, &Deriv, Vec<u16>) + Sync,
) -> u64 {
    let queue: Mutex<Vec<(Vec<u16>, u32)>> = Mutex::new(vec![(Vec::new(), 0)]);
    let pending = AtomicUsize::new(1);
    let count = std::sync::atomic::AtomicU64::new(0);
    ctx.par(|w| {
        let mut local: Vec<(Vec<u16>, u32)> = Vec::new();
        loop {
            if w.stop() {
                return;
            }
            let item = local.pop().or_else(|| queue.lock().unwrap().pop());
            let Some((prefix, _)) = item else {
                if pending.load(SeqCst) == 0 {
                    return;
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
                continue;
            };
            let n = prefix.len();
            let mut ch = Chooser::with_prefix(budget, prefix);
            let d = g.derive(root, &mut ch);
            let before = local.len();
            ch.children(n, &mut |p| local.push((p, 0)));
            let added = local.len() - before;
            ctx.transitions
                .fetch_add((ch.len() - n) as u64 + 1, Relaxed);
            pending.fetch_add(added, Ordering::SeqCst);
            if local.len() > 16 {
                let mut q = queue.lock().unwrap();
                if q.len() < 64 {
                    let k = local.len() / 2;
                    q.extend(local.drain(..k));
                }
            }
            count.fetch_add(1, Relaxed);
            f(w, &d, ch.choices());
            pending.fetch_sub(1, Ordering::SeqCst);
        }
    });
    count.load(Relaxed)
}

/// The numbers of repetitions at which counters and tables of usual sizes end.
pub const TIMES: &[usize] = &[
    3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257,
];

/// The same for lists of one element.
const FEW: &[usize] = &[2, 3, 4, 5, 9, 17, 33];

/// Pumping: in every derivation of `root` with at most `budget` deviations, every stretch that leads from a
/// rule back to the same rule is repeated, up to `nest` times if text follows the inner use of the rule
/// (that is nesting), up to `list` times if not (a list). `f` gets the derivation and the number of repetitions.
pub fn pump(
    ctx: &Ctx,
    g: &Gen,
    root: usize,
    budget: u32,
    nest: usize,
    list: usize,
    f: impl Fn(&Worker, &Deriv, usize) + Sync,
) -> u64 {
    let all: Mutex<Vec<Vec<u16>>> = Mutex::new(Vec::new());
    explore_choices(ctx, g, root, budget, |_, _, c| all.lock().unwrap().push(c));
    let mut all = all.into_inner().unwrap();
    all.sort();
    let n = std::sync::atomic::AtomicU64::new(0);
    ctx.each(&all, |w, c| {
        let uses = g.trace(root, c.clone());
        for (k, inner) in uses.iter().enumerate() {
            // a list
            if inner.again.is_some() {
                for &times in TIMES.iter().filter(|t| **t <= list) {
                    let d = g.derive_list(root, c, k, inner, times);
                    n.fetch_add(1, Relaxed);
                    ctx.transitions.fetch_add(1, Relaxed);
                    f(w, &d, times);
                }
            }
            // a list of one element
            if let Some(c) = g.lengthen(c, &uses, k) {
                let longer = &g.trace(root, c.clone())[k];
                for &times in FEW.iter() {
                    let d = g.derive_list(root, &c, k, longer, times);
                    n.fetch_add(1, Relaxed);
                    ctx.transitions.fetch_add(1, Relaxed);
                    f(w, &d, times);
                }
            }
            // the nearest use of the same rule around it
            let mut o = inner.parent;
            while o != usize::MAX && uses[o].rule != inner.rule {
                o = if o == 0 { usize::MAX } else { uses[o].parent };
            }
            if k == 0 || o == usize::MAX || w.stop() {
                continue;
            }
            let outer = &uses[o];
            let head = &c[outer.from..inner.from];
            let tail = &c[inner.to..outer.to];
            let most = if inner.end < outer.end { nest } else { list };
            for &times in TIMES.iter().filter(|t| **t <= most) {
                let mut p: Vec<u16> = c[..outer.from].to_vec();
                for _ in 0..times {
                    p.extend(head);
                }
                p.extend(&c[inner.from..inner.to]);
                for _ in 0..times {
                    p.extend(tail);
                }
                p.extend(&c[outer.to..]);
                let d = g.derive_with(root, p, None);
                n.fetch_add(1, Relaxed);
                ctx.transitions.fetch_add(1, Relaxed);
                f(w, &d, times);
            }
        }
    });
    n.load(Relaxed)
}
