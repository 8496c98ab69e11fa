//! Judging diagnostics against a reference rule model.
use crate::common::*;
use crate::util::*;

/// A rule the model says is violated, and the region (by mark number) that must be blamed.
pub type Viol = (&'static str, usize);

/// What the rule spaces are explored for: 0 verdicts, 1 validity of quick fixes, 2 effect of quick fixes, 3 independence of formatting.
pub static MODE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

/// Runs the rule spaces of all rule properties in another mode.
pub fn rule_spaces(ctx: &Ctx, mode: u8) {
    use crate::props::*;
    MODE.store(mode, std::sync::atomic::Ordering::Relaxed);
    c06::run(ctx);
    c07::run(ctx);
    if mode != 3 || !ctx.quick() {
        c08::run(ctx);
    }
    c17::run(ctx);
    c19::run(ctx);
    c20::run(ctx);
    c21::run(ctx);
    c23::run(ctx);
    MODE.store(0, std::sync::atomic::Ordering::Relaxed);
}

/// Compares the analyzer's verdict with the model's on one marked program.
///
/// - no violated rule: no error diagnostic at all;
/// - otherwise: for each violated rule an error that touches its region, and no error outside all regions.
pub fn judge(c: &mut Case, src: &str, v: Version, viols: &[Viol]) {
    match MODE.load(std::sync::atomic::Ordering::Relaxed) {
        1 => return crate::props::c03::quickfixes(c, &marked(src).0, v),
        2 => return crate::props::c04::fixes(c, &marked(src).0, v, viols),
        3 => return crate::props::c22::formats(c, &marked(src).0, v),
        _ => {}
    }
    let (code, regions) = marked(src);
    c.state(&format!("{}\n{code}", vname(v)));
    if viols.is_empty() && !parses(&code) {
        panic!("harness bug: model program does not parse: {:?}\n{code}", syntax_errors(&code));
    }
    c.step();
    let errs = errors(&code, v);
    c.outcome(&errs.iter().map(|d| d.msg.as_str()).collect::<Vec<_>>());
    if viols.is_empty() {
        c.check(errs.is_empty(), || format!("valid program is reported:\n{}", show(&code, &errs)));
        return;
    }
    for (what, r) in viols {
        let (a, b) = regions[*r];
        c.check(errs.iter().any(|d| d.start <= b && d.end >= a), || {
            format!("violated rule not reported: {what} in {:?}; errors:\n{}", &code[a..b], show(&code, &errs))
        });
    }
    if viols.len() > 1 {
        // Distinct violated rules of one item are reported separately.
        let mut per: std::collections::BTreeMap<usize, usize> = Default::default();
        for (_, r) in viols {
            *per.entry(*r).or_default() += 1;
        }
        for (r, n) in per {
            let (a, b) = regions[r];
            let found = errs.iter().filter(|d| d.start <= b && d.end >= a).count();
            c.check(found >= n, || format!("only {found} of {n} violated rules reported for {:?}: {viols:?}; errors:\n{}", &code[a..b], show(&code, &errs)));
        }
    }
    let stray: Vec<Diag> = errs.iter().filter(|d| !viols.iter().any(|(_, r)| d.start <= regions[*r].1 && d.end >= regions[*r].0)).cloned().collect();
    c.check(stray.is_empty(), || format!("errors outside the violating items:\n{}", show(&code, &stray)));
}
