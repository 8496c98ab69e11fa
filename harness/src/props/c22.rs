//! C22: formatting, comments and unrelated code never change the analysis.
use super::{info, Info};
use crate::common::*;
use crate::corpus::*;
use crate::util::*;
use ink_analyzer_ir::syntax::SyntaxKind;
use std::sync::atomic::{AtomicBool, Ordering};

type Toks = Vec<(SyntaxKind, usize, usize)>;

fn solid(k: SyntaxKind) -> bool {
    !matches!(k, SyntaxKind::WHITESPACE | SyntaxKind::COMMENT)
}

/// Whether trivia may follow the token: not inside multi-character punctuation, and not in a line comment.
fn open_gap(code: &str, t: &Toks, i: usize) -> bool {
    let a = &code[t[i].1..t[i].2];
    if t[i].0 == SyntaxKind::COMMENT && a.starts_with("//") {
        return false;
    }
    let Some(n) = t.get(i + 1) else { return true };
    let b = &code[n.1..n.2];
    let punct = |s: &str| s.len() == 1 && s.chars().all(|c| c.is_ascii_punctuation() && c != '_');
    let delim = |s: &str| matches!(s, "(" | ")" | "[" | "]" | "{" | "}" | "," | ";" | "\"");
    !(punct(a) && punct(b)) || delim(a) || delim(b)
}

/// A problem, by the non-trivia tokens it covers.
type Problem = (usize, usize, bool, String);

/// Messages quote source text, so they are compared without white space and comments.
fn squeeze(s: &str) -> String {
    let mut s = s.to_owned();
    for t in TRIVIA {
        s = s.replace(t.trim(), "");
    }
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn problems(code: &str, toks: &Toks, v: Version) -> Vec<Problem> {
    let solid: Vec<_> = toks.iter().filter(|t| solid(t.0)).collect();
    let mut out: Vec<Problem> = diags(code, v)
        .into_iter()
        .map(|d| {
            let first = solid.iter().position(|t| t.1 >= d.start).unwrap_or(solid.len());
            let last = solid.iter().rposition(|t| t.2 <= d.end).map_or(0, |k| k + 1);
            // Whether a delimiting comma is included depends on the text around it.
            let comma = |k: usize| solid.get(k).is_some_and(|t| &code[t.1..t.2] == ",");
            let first = if comma(first) { first + 1 } else { first };
            let last = if last > 0 && comma(last - 1) { last - 1 } else { last };
            (first, last, d.error, squeeze(&d.msg))
        })
        // Reported twice, merged when the quick fixes coincide.
        .filter(|p: &Problem| p.3 != "Anink!chainextensionmusthaveaink!extensionargument.")
        .collect();
    out.sort();
    out
}

fn diff(a: &[Problem], b: &[Problem]) -> String {
    let only = |x: &[Problem], y: &[Problem]| x.iter().filter(|p| !y.contains(p)).take(3).map(|p| format!("{p:?}")).collect::<Vec<_>>().join("; ");
    format!("only before: [{}], only after: [{}]", only(a, b), only(b, a))
}

const TRIVIA: [&str; 7] = [" ", "\n\n", "\t", "/* c */", " // c\n", "/* é 🦀 */", "\r\n    "];
const TAILS: [&str; 8] = ["\n", "\n// the end", "\n/* the end */\n", "\nfn other() { let x = 1; }\n", "\npub struct Zz<T> { t: T }\nimpl<T> Zz<T> { pub fn a(&self) -> &T { &self.t } }\n", "\nmod zz { use super::*; #[derive(Debug)] enum Yy { A } pub trait Ww { fn m(&self); } impl Ww for Yy { fn m(&self) {} } }\n", "\nmacro_rules! zz { () => {}; }\nzz!();\nconst ZZ: u8 = 1;\n", "\n#[cfg(test)]\nmod zz_tests { #[test] fn a() {} }\n"];
static ALL: AtomicBool = AtomicBool::new(false);

/// All gaps filled at once.
fn refill(code: &str, toks: &Toks, fill: &str) -> String {
    let mut out = fill.to_owned();
    for (i, t) in toks.iter().enumerate() {
        out.push_str(&code[t.1..t.2]);
        if open_gap(code, toks, i) {
            out.push_str(fill);
        }
    }
    out
}

fn same(c: &mut Case, v: Version, before: &[Problem], text: &str, what: &str) {
    c.step();
    let toks = tokens(text);
    let after = problems(text, &toks, v);
    c.check(after == before, || format!("{what} changes the problems: {}\n--- text\n{text}", diff(before, &after)));
}

/// One program of the rule spaces in other formats (quick: one of them).
pub fn formats(c: &mut Case, code: &str, v: Version) {
    c.state(&format!("{}\n{code}", vname(v)));
    if !parses(code) {
        return;
    }
    let toks = tokens(code);
    c.step();
    let before = problems(code, &toks, v);
    c.outcome(&before.len());
    let all = ALL.load(Ordering::Relaxed);
    let fills = ["/* c */", " // c\n", "\n\n"];
    let pick = (h(code) % (fills.len() as u64 + 2)) as usize;
    for (k, f) in fills.iter().enumerate() {
        if all || k == 0 || k == pick {
            same(c, v, &before, &refill(code, &toks, f), &format!("{f:?} between all tokens"));
        }
    }
    if all || pick == fills.len() {
        let t = &TAILS[(h(&(code, 1)) % TAILS.len() as u64) as usize];
        let text = format!("{code}{t}");
        let toks = tokens(&text);
        c.step();
        let after = problems(&text, &toks, v);
        c.check(after == before, || format!("code at the end changes the problems: {}\n--- text\n{text}", diff(&before, &after)));
    }
    if all || pick == fills.len() + 1 {
        c.step();
        twice(c, code, v);
    }
}

fn twice(c: &mut Case, code: &str, v: Version) {
    let a = Analysis::new(code, v);
    let x = format!("{:?}", a.diagnostics());
    let y = format!("{:?}", Analysis::new(code, v).diagnostics());
    c.steps(2);
    c.check(x == y, || format!("the same text is analysed differently:\n{x}\n{y}"));
}

/// Every result of the analyzer, in a canonical form.
fn everything(code: &str, v: Version, p: usize) -> String {
    let a = Analysis::new(code, v);
    let mut out = format!("{:?}\n", a.diagnostics());
    let r = tr(p, p);
    out.push_str(&format!("{:?}\n{:?}\n{:?}\n{:?}\n{:?}\n", a.completions(ts(p)), a.actions(r), a.hover(r), a.signature_help(ts(p)), a.inlay_hints(None)));
    out.push_str(&format!("{:?}\n{:?}\n", a.migrate(), a.extract(r)));
    out
}

pub fn run(ctx: &Ctx) -> Info {
    ALL.store(!ctx.quick(), Ordering::Relaxed);
    // Seeds, and every seed with one ink! attribute or keyword removed (so that there are problems to report).
    let mut progs: Vec<String> = SEEDS.iter().map(|s| s.1.to_owned()).filter(|s| parses(s)).collect();
    for k in 0..progs.len() {
        let code = progs[k].clone();
        for pat in ["#[ink(storage)]", "#[ink(constructor", "#[ink(message", "pub fn", "&self", "#[ink::contract", "-> Self", "pub struct", "pub trait", "#[ink(topic)]", "#[ink::test]", "extension = 1", "message", "type ErrorCode"] {
            if let Some(p) = code.find(pat) {
                for rep in &["", "#[ink(bogus)]", "message, message, selector = 1", "self", "pub(crate) unsafe fn", "#[ink(storage)] #[ink(event)]", "-> u8", "extension = 2"][..ctx.pick(3, 8)] {
                    let end = if pat.starts_with("#[") { code[p..].find(']').map_or(p + pat.len(), |q| p + q + 1) } else { p + pat.len() };
                    let t = format!("{}{rep}{}", &code[..p], &code[end..]);
                    if parses(&t) && !t.contains("(,") && !progs.contains(&t) {
                        progs.push(t);
                    }
                }
            }
        }
    }
    let progs: Vec<(String, Toks)> = progs.into_iter().map(|p| { let t = tokens(&p); (p, t) }).collect();
    let nseeds = SEEDS.len();
    let base: Vec<[Vec<Problem>; 2]> = progs.iter().map(|(p, t)| [problems(p, t, Version::V4), problems(p, t, Version::V5)]).collect();
    let trivia = if ctx.quick() { vec![3usize, 4] } else { (0..TRIVIA.len()).collect() };
    // Quick: the unmodified seeds with all trivia, the others with comments.
    let maxg = progs.iter().map(|p| p.1.len()).max().unwrap();
    let cases: Vec<(usize, usize)> = (0..progs.len()).flat_map(|k| if k < nseeds { (0..TRIVIA.len()).map(|t| (k, t)).collect::<Vec<_>>() } else { trivia.iter().map(|t| (k, *t)).collect() }).collect();
    ctx.explore("insertions", product(&[2, cases.len(), maxg]), |i, c| {
        let mut d = Digits(i);
        let vi = d.take(2);
        let v = VERSIONS[vi];
        let (k, t) = cases[d.take(cases.len())];
        let g = d.0 as usize;
        let (code, toks) = &progs[k];
        if g >= toks.len() || !open_gap(code, toks, g) || ctx.quick() && k >= nseeds && (g + t) % 2 == 1 {
            return;
        }
        let p = toks[g].2;
        let text = format!("{}{}{}", &code[..p], TRIVIA[t], &code[p..]);
        c.state(&format!("{} {p} {:?}\n{text}", vname(v), TRIVIA[t]));
        c.outcome(&base[k][vi]);
        same(c, v, &base[k][vi], &text, &format!("{:?} at {p}", TRIVIA[t]));
    });
    ctx.explore("tails", product(&[2, progs.len(), TAILS.len()]), |i, c| {
        let mut d = Digits(i);
        let vi = d.take(2);
        let v = VERSIONS[vi];
        let k = d.take(progs.len());
        let text = format!("{}{}", progs[k].0, TAILS[d.0 as usize]);
        c.state(&format!("{}\n{text}", vname(v)));
        let toks = tokens(&text);
        c.step();
        let after = problems(&text, &toks, v);
        c.check(after == base[k][vi], || format!("code at the end changes the problems: {}", diff(&base[k][vi], &after)));
    });
    // Determinism of every analysis.
    ctx.explore("repetition", product(&[2, nseeds, ctx.pick(40, 400)]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let k = d.take(nseeds.min(progs.len()));
        let (code, toks) = &progs[k];
        let n = ctx.pick(40, 400);
        let j = d.0 as usize;
        for (x, t) in toks.iter().enumerate() {
            if x % n == j {
                c.state(&format!("{} {}\n{code}", vname(v), t.1));
                c.steps(2);
                let (a, b) = (everything(code, v, t.1), everything(code, v, t.1));
                c.check(a == b, || format!("results differ at {}:\n{a}\n{b}", t.1));
            }
        }
    });
    crate::rules::rule_spaces(ctx, 3);
    info(
        format!("every gap between tokens of {} programs x {} kinds of trivia; unrelated code at the end of each; every program of the rule spaces (C06, C07, C17, C19, C20, C21) with all gaps filled, with code at the end, and analysed twice ({}); all analyses repeated at every token of the seeds", progs.len(), TRIVIA.len(), ctx.pick("one of these per program", "all")),
        &["trivia is inserted between any two tokens except inside multi-character punctuation", "programs with syntax errors are not covered"],
    )
}
