//! C03: applying any suggested edit to valid source code gives valid source code.
use super::{info, Info};
use crate::common::*;
use crate::corpus::*;
use crate::util::*;

fn try_edits(c: &mut Case, code: &str, what: &str, label: &str, es: &[TextEdit]) {
    match apply(code, es) {
        Err(m) => c.fail(format!("{what} {label:?}: {m}: {}", show_edits(es))),
        Ok(t) => {
            c.step();
            let errs = syntax_errors(&t);
            if !errs.is_empty() && doubled_receiver(code, label, es) {
                c.fail_sig("self-receiver quick fix on a message that already has a by-value or typed `self` parameter", format!("{what} {label:?}: {}", errs[0]));
                return;
            }
            c.check(errs.is_empty(), || format!("{what} {label:?} breaks the syntax: {}\n--- edits\n{}\n--- result\n{t}", errs[0], show_edits(es)));
        }
    }
}

/// The known finding: the receiver fix inserts `&self` in front of an existing `self` parameter.
pub fn doubled_receiver(code: &str, label: &str, es: &[TextEdit]) -> bool {
    let [e] = es else { return false };
    let (a, b) = rng(e.range);
    let rest: String = code[b..].chars().filter(|c| !c.is_whitespace()).collect();
    let rest = rest.strip_prefix("mut").unwrap_or(&rest);
    label.ends_with("self reference receiver")
        && a == b
        && ["&self", "&mut self"].contains(&e.text.trim_end_matches(", "))
        && code[..a].ends_with('(')
        && rest.strip_prefix("self").is_some_and(|r| r.starts_with([',', ')', ':']))
}

/// All quick fixes of a program from the rule spaces.
pub fn quickfixes(c: &mut Case, code: &str, v: Version) {
    c.state(&format!("{}\n{code}", vname(v)));
    if !parses(code) {
        return;
    }
    let a = Analysis::new(code, v);
    c.step();
    let ds = a.diagnostics();
    let mut seen: Vec<Vec<TextEdit>> = vec![];
    for d in &ds {
        for q in d.quickfixes.iter().flatten() {
            if !seen.contains(&q.edits) {
                try_edits(c, code, "quick fix", &q.label, &q.edits);
                seen.push(q.edits.clone());
            }
        }
    }
    c.outcome(&seen.len());
}

/// Completions are in scope where they replace blank text or one word, and the cursor is not inside a path.
fn in_scope(code: &str, e: &TextEdit) -> bool {
    let (a, b) = rng(e.range);
    let old = &code[a..b];
    let blank = old.trim().is_empty();
    (blank || old.chars().all(|c| c.is_alphanumeric() || c == '_')) && !code[b..].trim_start().starts_with("::") && !code[..a].trim_end().ends_with("::")
}

/// Every edit offered at one position.
fn at(c: &mut Case, code: &str, v: Version, p: usize, sels: &[(usize, usize)], whole: bool) {
    let a = Analysis::new(code, v);
    let mut sets: Vec<(String, String, Vec<TextEdit>)> = vec![];
    let mut f = |o: Obs| {
        if let Obs::Edits(w, l, es) = o {
            if !es.is_empty() && !sets.iter().any(|s| s.2 == es) {
                sets.push((w.to_owned(), l.to_owned(), es.to_vec()));
            }
        }
    };
    let mut n = 0;
    if whole {
        n += sweep_file(&a, &mut f);
    }
    for (x, y) in sels {
        n += sweep_sel(&a, tr(*x, *y), true, &mut f);
    }
    n += sweep_pos(&a, p, &mut f);
    c.steps(n);
    c.outcome(&sets.len());
    for (w, l, es) in &sets {
        if w == "completion" && !in_scope(code, &es[0]) {
            continue;
        }
        try_edits(c, code, w, l, es);
    }
}

/// Re-lays out a program: all whitespace tokens replaced.
pub fn layout(code: &str, k: usize) -> String {
    use ink_analyzer_ir::syntax::SyntaxKind;
    tokens(code)
        .into_iter()
        .map(|(kind, a, b)| {
            let t = &code[a..b];
            match (k, kind) {
                (0, _) => t.to_owned(),
                (1, SyntaxKind::WHITESPACE) => " ".to_owned(),
                (2, SyntaxKind::WHITESPACE) => "\n\n\n".to_owned(),
                (3, SyntaxKind::WHITESPACE) => format!("{t}/* x */{t}"),
                (4, SyntaxKind::WHITESPACE) => t.replace("    ", "\t").replace('\n', "\r\n"),
                (1, SyntaxKind::COMMENT) => format!("{t}\n"),
                _ => t.to_owned(),
            }
        })
        .collect()
}

/// Adds inner attributes and inner doc comments to every module, impl block and trait.
pub fn inner_attrs(code: &str, k: usize) -> String {
    use ink_analyzer_ir::syntax::{SourceFile, SyntaxKind};
    // Of the file, too.
    let mut out = ["", "\n//! Docs.\n\n#![allow(unused)]\n\n#![cfg(all())]\n", " #![a]\n"][k].to_owned();
    let mut pos = 0;
    for tok in SourceFile::parse(code).syntax_node().descendants_with_tokens().filter_map(|e| e.into_token()) {
        let r = tok.text_range();
        out.push_str(tok.text());
        pos += tok.text().len();
        debug_assert_eq!(pos, us(r.end()));
        if tok.kind() == SyntaxKind::L_CURLY && tok.parent().is_some_and(|p| matches!(p.kind(), SyntaxKind::ITEM_LIST | SyntaxKind::ASSOC_ITEM_LIST)) {
            out.push_str(["#![allow(unused)]", "\n    //! Docs.\n    #![cfg(all())]\n", " #![a]/*! Docs. */"][k]);
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> Info {
    let seeds: Vec<(String, Vec<usize>, Vec<(ink_analyzer_ir::syntax::SyntaxKind, usize, usize)>)> = SEEDS
        .iter()
        .flat_map(|(_, s)| (0..ctx.pick(2, 5)).map(|k| (layout(s, k), false)).chain((0..ctx.pick(2, 3)).map(|k| (inner_attrs(s, k), true))))
        .filter(|(s, _)| parses(s))
        .map(|(s, inner)| {
            let toks = tokens(&s);
            // Quick: token boundaries and the first characters of whitespace.
            let bs = if inner && ctx.quick() { toks.iter().flat_map(|t| [t.1, t.1 + 1]).filter(|p| s.is_char_boundary(*p)).collect() } else { boundaries(&s) };
            (s, bs, toks)
        })
        .collect();
    let maxb = seeds.iter().map(|s| s.1.len()).max().unwrap();
    ctx.explore("seed-positions", product(&[2, seeds.len(), maxb]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (code, bs, toks) = &seeds[d.take(seeds.len())];
        let Some(&p) = bs.get(d.0 as usize) else { return };
        let tok = toks.iter().map(|t| t.2).find(|e| *e > p).unwrap_or(code.len());
        c.state(&format!("{}@{p}\n{code}", vname(v)));
        at(c, code, v, p, &[(p, p), (p, tok)], p == 0);
    });
    crate::rules::rule_spaces(ctx, 1);
    info(
        format!("every position of the seed programs in {} layouts, with and without inner attributes and docs; every quick fix of every program of the rule spaces (C06, C07, C17, C19, C20, C21)", ctx.pick(2, 5)),
        &["validity as judged by the parser the project uses"],
    )
}
