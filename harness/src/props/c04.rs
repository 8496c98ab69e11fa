//! C04: quick fixes resolve the diagnostic they are attached to.
use super::{info, Info};
use crate::common::*;
use crate::rules::Viol;
use crate::util::*;

pub fn fixes(c: &mut Case, code: &str, v: Version, viols: &[Viol]) {
    c.state(&format!("{}\n{code}", vname(v)));
    if viols.is_empty() || viols.len() > 3 || !parses(code) {
        return;
    }
    let a = Analysis::new(code, v);
    c.step();
    let ds = a.diagnostics();
    if ds.iter().filter(|x| x.severity == Severity::Error).count() != viols.len() {
        // Several errors for one violated rule: follow-up errors have fixes of their own.
        return;
    }
    let mut seen: Vec<Vec<TextEdit>> = vec![];
    for d in ds.iter().filter(|d| d.severity == Severity::Error) {
        for q in d.quickfixes.iter().flatten() {
            // An edit with an empty placeholder is completed by the user.
            let open = q.edits.iter().any(|e| e.snippet.as_deref().is_some_and(|s| s.contains("\"$1\"")));
            if seen.contains(&q.edits) || open {
                continue;
            }
            seen.push(q.edits.clone());
            let Ok(t) = apply(code, &q.edits) else { continue };
            if !parses(&t) {
                continue; // C03
            }
            c.step();
            let before = ds.iter().filter(|x| x.severity == Severity::Error && x.message == d.message).count();
            let errs = errors(&t, v);
            let after = errs.iter().filter(|x| x.msg == d.message).count();
            let total = ds.iter().filter(|x| x.severity == Severity::Error).count();
            // With several violated rules on one item, an edit may resolve another one of them first.
            let progress = after < before || total > 1 && errs.len() < total;
            if !progress && super::c03::doubled_receiver(code, &q.label, &q.edits) {
                c.fail_sig("self-receiver quick fix on a message that already has a by-value or typed `self` parameter", "not resolved");
                continue;
            }
            c.check(progress, || {
                format!("quick fix {:?} does not resolve {:?} ({before} -> {after})\n--- result\n{t}\n--- errors\n{}", q.label, d.message, show(&t, &errs))
            });
        }
    }
    c.outcome(&seen.len());
}

pub fn run(ctx: &Ctx) -> Info {
    crate::rules::rule_spaces(ctx, 2);
    info("every quick fix of every program with at most 2 violated rules of the rule spaces (C06, C07, C17, C19, C20, C21)", &["a problem is identified by its message"])
}
