//! C02: every range and edit of every result is well-formed for the analysed text.
use super::{info, Info};
use crate::common::*;
use crate::corpus::*;
use crate::util::*;

/// Expands an LSP snippet to its default text.
pub fn expand(s: &str) -> Result<String, String> {
    fn go(cs: &[char], i: &mut usize, nested: bool, out: &mut String) -> Result<(), String> {
        while *i < cs.len() {
            match cs[*i] {
                '\\' if *i + 1 < cs.len() && matches!(cs[*i + 1], '$' | '}' | '\\') => {
                    out.push(cs[*i + 1]);
                    *i += 2;
                }
                '}' if nested => return Ok(()),
                '$' if *i + 1 < cs.len() && cs[*i + 1].is_ascii_digit() => {
                    *i += 1;
                    while *i < cs.len() && cs[*i].is_ascii_digit() {
                        *i += 1;
                    }
                }
                '$' if *i + 1 < cs.len() && cs[*i + 1] == '{' => {
                    *i += 2;
                    let d = *i;
                    while *i < cs.len() && cs[*i].is_ascii_digit() {
                        *i += 1;
                    }
                    if *i == d {
                        return Err("placeholder without a number".into());
                    }
                    match cs.get(*i) {
                        Some(':') => {
                            *i += 1;
                            go(cs, i, true, out)?;
                        }
                        Some('|') => {
                            *i += 1;
                            let mut first = true;
                            while *i < cs.len() && cs[*i] != '|' {
                                if cs[*i] == ',' {
                                    first = false;
                                } else if first {
                                    out.push(cs[*i]);
                                }
                                *i += 1;
                            }
                            *i += 1;
                        }
                        _ => {}
                    }
                    if cs.get(*i) != Some(&'}') {
                        return Err("unterminated placeholder".into());
                    }
                    *i += 1;
                }
                c => {
                    out.push(c);
                    *i += 1;
                }
            }
        }
        if nested { Err("unterminated placeholder".into()) } else { Ok(()) }
    }
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    go(&cs, &mut i, false, &mut out)?;
    Ok(out)
}

/// Without whitespace (snippets may leave room for the cursor).
fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn check_range(code: &str, r: TextRange) -> Option<String> {
    let (a, b) = rng(r);
    (a > b || b > code.len() || !code.is_char_boundary(a) || !code.is_char_boundary(b)).then(|| format!("{a}..{b} of {} bytes", code.len()))
}

pub fn run(ctx: &Ctx) -> Info {
    texts(ctx, |c, code, v, focus| {
        let mut bad: Vec<String> = vec![];
        let valid = parses(code);
        let mut n = 0u64;
        let k = sweep(code, v, focus, &mut |o| match o {
            Obs::Range(what, r) => {
                n += 1;
                if let Some(m) = check_range(code, r) {
                    bad.push(format!("{what} range {m}"));
                }
            }
            Obs::Edits(what, label, es) => {
                for e in es {
                    n += 1;
                    if let Some(m) = check_range(code, e.range) {
                        bad.push(format!("{what} {label:?} edit range {m}"));
                    }
                    if let Some(s) = &e.snippet {
                        match expand(s) {
                            Ok(t) if squash(&t) == squash(&e.text) => {}
                            Ok(t) => bad.push(format!("{what} {label:?}: snippet expands to {t:?}, plain text is {:?}", e.text)),
                            Err(m) => bad.push(format!("{what} {label:?}: {m} in snippet {s:?}")),
                        }
                    }
                }
                let mut rs: Vec<(usize, usize)> = es.iter().map(|e| rng(e.range)).collect();
                rs.sort();
                for w in rs.windows(2) {
                    if valid && w[1].0 < w[0].1 {
                        bad.push(format!("{what} {label:?}: overlapping edits {:?} and {:?}: {}", w[0], w[1], show_edits(es)));
                    }
                }
            }
        });
        c.steps(k);
        c.compared += n;
        c.outcome(&n);
        bad.dedup();
        for b in bad.into_iter().take(3) {
            c.fail(b);
        }
    });
    info(
        format!("the text spaces of C01: every position of 15 seed programs, every prefix and suffix, single-token mutations ({}), all sequences of up to {} fragments, import graphs, nesting ladders", ctx.pick("an eighth of them", "all"), ctx.pick(3, 4)),
        &["snippet grammar as in the LSP specification"],
    )
}
