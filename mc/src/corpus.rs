//! Derivations of the reference grammar collected into a list, and text made from them.
use crate::core::*;
use crate::explore::*;
use crate::grammar::*;
use std::sync::Mutex;

/// All derivations of `root` within the budget for which `keep` holds, in a fixed order.
pub fn collect(
    ctx: &Ctx,
    gen: &Gen,
    root: &str,
    budget: u32,
    keep: impl Fn(&Deriv) -> bool + Sync,
) -> Vec<Deriv> {
    let v = Mutex::new(Vec::new());
    let n = explore(ctx, gen, gen.g.rule(root), budget, |_, d| {
        if keep(d) {
            v.lock().unwrap().push(d.clone());
        }
    });
    let mut v = v.into_inner().unwrap();
    v.sort_by(|a, b| (a.toks.len(), &a.tree).cmp(&(b.toks.len(), &b.tree)));
    v.dedup_by(|a, b| {
        a.tree == b.tree
            && a.toks
                .iter()
                .map(|t| &t.text)
                .eq(b.toks.iter().map(|t| &t.text))
    });
    ctx.note(
        &format!(
            "derivations of <{}> with at most {} deviations, used",
            root, budget
        ),
        format!("{} of {}", v.len(), n),
    );
    v
}
