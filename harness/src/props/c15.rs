//! C15: generated projects are valid and free of diagnostics.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use ink_analyzer_ir::syntax::{SourceFile, SyntaxKind};
use serde_json::json;

/// Name fragments: letters of several classes, digits, separators, invalid characters, template names and keywords.
const ALPHA: [&str; 14] = ["a", "Z", "_", "-", "7", "é", "ß", "中", " ", "!", "my_contract", "MyContract", "self", "²"];
const CORE: [&str; 6] = ["a", "B", "_", "-", "1", "."];
/// Strict and reserved keywords of the 2021 edition.
const KEYWORDS: [&str; 51] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static",
    "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual",
    "yield", "try",
];
const NEAR: [&str; 14] = ["fn_", "fn-", "a-fn", "Fn", "FN", "union", "auto", "default", "raw", "hello", "hello_world", "hello-world", "dyn1", "self-"];

/// `None`: whether the name is accepted is left open.
fn accepted(name: &str) -> Option<bool> {
    let chars_ok = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-' || (c.is_alphabetic() && !c.is_ascii());
    if name.is_empty() || !name.chars().all(|c| chars_ok(c) || c == '²') || !name.starts_with(char::is_alphabetic) {
        return Some(false);
    }
    let module = name.replace('-', "_");
    // Only names that give identifiers can give valid sources.
    if name.contains('²') || KEYWORDS.contains(&module.as_str()) || pascal(&module) == "Self" {
        return Some(false);
    }
    Some(true)
}

fn pascal(m: &str) -> String {
    m.split('_').map(|p| p.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>()).collect()
}

/// A snippet with its placeholders expanded to their defaults.
fn expand(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let (mut out, mut i, mut depth) = (String::new(), 0, 0);
    while i < cs.len() {
        match cs[i] {
            '\\' if i + 1 < cs.len() && "$}\\".contains(cs[i + 1]) => {
                out.push(cs[i + 1]);
                i += 2;
            }
            '$' if i + 1 < cs.len() && cs[i + 1].is_ascii_digit() => {
                i += 1;
                while i < cs.len() && cs[i].is_ascii_digit() {
                    i += 1;
                }
            }
            '$' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                i += 2;
                while i < cs.len() && cs[i].is_ascii_digit() {
                    i += 1;
                }
                if cs.get(i) == Some(&':') {
                    i += 1;
                }
                depth += 1;
            }
            '}' if depth > 0 => {
                depth -= 1;
                i += 1;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    out
}

fn judge(c: &mut Case, name: &str, v: Version, lib: &str, cargo: &str) {
    // Source.
    c.check(parses(lib), || format!("lib.rs has syntax errors: {:?}\n{lib}", syntax_errors(lib)));
    c.step();
    let ds = diags(lib, v);
    c.check(ds.is_empty(), || format!("lib.rs has diagnostics: {}\n{lib}", show(lib, &ds)));
    let root = SourceFile::parse(lib).syntax_node();
    let id = |n: &ink_analyzer_ir::syntax::SyntaxNode| n.children().find(|c| c.kind() == SyntaxKind::NAME).map(|n| n.to_string()).unwrap_or_default();
    let has = |n: &ink_analyzer_ir::syntax::SyntaxNode, a: &str| n.children().any(|c| c.kind() == SyntaxKind::ATTR && c.to_string() == a);
    let modules: Vec<String> = root.descendants().filter(|n| n.kind() == SyntaxKind::MODULE && has(n, "#[ink::contract]")).map(|n| id(&n)).collect();
    c.check(modules == [name.replace('-', "_")], || format!("contract modules {modules:?}"));
    let storage: Vec<String> = root.descendants().filter(|n| n.kind() == SyntaxKind::STRUCT && has(n, "#[ink(storage)]")).map(|n| id(&n)).collect();
    c.check(storage.len() == 1, || format!("storage {storage:?}"));
    if let [s] = &storage[..] {
        // The storage type is named after the contract: its letters and digits, and it is what the impl blocks are for.
        let plain = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
        c.check(plain(s) == plain(name), || format!("storage {s:?} isn't named after the contract"));
        let impls: Vec<String> = root
            .descendants()
            .filter(|n| n.kind() == SyntaxKind::IMPL && n.descendants().any(|f| f.kind() == SyntaxKind::FN && (has(&f, "#[ink(message)]") || has(&f, "#[ink(constructor)]"))))
            .map(|n| n.children().find(|c| c.kind() == SyntaxKind::PATH_TYPE).map(|t| t.to_string()).unwrap_or_default())
            .collect();
        c.check(!impls.is_empty() && impls.iter().all(|i| i == s), || format!("impl blocks for {impls:?}, storage {s:?}"));
        let words: Vec<String> = lib.split(|c: char| !c.is_alphanumeric() && c != '_').map(str::to_owned).collect();
        for w in &words {
            // No leftovers of the template's own name.
            let left = (w.contains("MyContract") && !s.contains("MyContract") && !name.contains("MyContract")) || (w.contains("my_contract") && !name.replace('-', "_").contains("my_contract"));
            c.check(!left, || format!("template name left in {w:?}"));
        }
    }
    // Manifest.
    match cargo.parse::<toml::Table>() {
        Err(e) => c.fail(format!("invalid manifest: {e}\n{cargo}")),
        Ok(t) => {
            let pkg = t.get("package").and_then(|p| p.get("name")).and_then(|n| n.as_str()).unwrap_or_default();
            c.check(pkg == name, || format!("package is named {pkg:?}"));
            let dep = |k: &str| t.get("dependencies").and_then(|d| d.get(k)).and_then(|d| d.get("version").or(Some(d))).and_then(|v| v.as_str()).unwrap_or_default().to_owned();
            let major = if v == Version::V4 { "4" } else { "5" };
            c.check(dep("ink").trim_start_matches(['=', '^', '~', ' ']).split('.').next() == Some(major), || format!("ink! dependency {:?}", dep("ink")));
            let lp = t.get("lib").and_then(|l| l.get("path")).and_then(|p| p.as_str()).unwrap_or("src/lib.rs");
            c.check(lp == "lib.rs", || format!("library path {lp:?}"));
            // Every feature refers to an existing dependency or feature.
            let empty = toml::Table::new();
            let feats = t.get("features").and_then(|f| f.as_table()).unwrap_or(&empty);
            let deps = t.get("dependencies").and_then(|f| f.as_table()).unwrap_or(&empty);
            for f in feats.values().flat_map(|f| f.as_array().cloned().unwrap_or_default()) {
                let f = f.as_str().unwrap_or_default().to_owned();
                let ok = match f.split_once('/') {
                    Some((d, _)) => deps.contains_key(d),
                    None => feats.contains_key(&f),
                };
                c.check(ok, || format!("feature {f:?} refers to nothing:\n{cargo}"));
            }
        }
    }
}

fn check(c: &mut Case, name: &str, v: Version) {
    c.state(&format!("{} {name:?}", vname(v)));
    c.step();
    let r = ink_analyzer::new_project(name.to_owned(), v);
    match (accepted(name), r) {
        (Some(true), Err(e)) => c.fail(format!("valid name is rejected: {e:?}")),
        (Some(false), Ok(p)) => c.fail(format!("invalid name is accepted:\n{}", p.lib.plain)),
        (_, Ok(p)) => {
            judge(c, name, v, &p.lib.plain, &p.cargo.plain);
            // The snippets are the same files.
            let ws = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            if let Some(s) = &p.cargo.snippet {
                c.check(ws(&expand(s)) == ws(&p.cargo.plain), || format!("manifest snippet differs:\n{s}"));
            }
            if let Some(s) = &p.lib.snippet {
                let t = expand(s);
                c.check(parses(&t), || format!("lib.rs snippet has syntax errors: {:?}\n{t}", syntax_errors(&t)));
                let id = |t: &str| t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty() && *w != "todo").map(str::to_owned).collect::<Vec<_>>();
                let has = id(&t);
                c.check(has.contains(&name.replace('-', "_")), || format!("lib.rs snippet doesn't name the contract:\n{t}"));
                let ds = errors(&t, v);
                c.check(ds.is_empty(), || format!("lib.rs snippet has errors: {}\n{t}", show(&t, &ds)));
            }
            c.outcome("accepted");
        }
        (_, Err(e)) => c.outcome(&format!("{e:?}")),
    }
}

fn lsp(c: &mut Case, l: &mut Lsp, name: &str) {
    c.state(&format!("createProject {name:?}"));
    c.step();
    let root = "file:///tmp/verif/some%20dir/";
    let (r, _) = l.request("workspace/executeCommand", json!({"command": "createProject", "arguments": [{"name": name, "root": root}]}));
    match (accepted(name), r) {
        (Some(ok), Reply::Error(_)) => c.check(!ok, || "valid name is rejected".into()),
        (ok, Reply::Result(v)) => {
            c.check(ok != Some(false), || "invalid name is accepted".into());
            c.check(v["name"] == name && v["uri"] == root, || format!("{v}"));
            let files = v["files"].as_object().cloned().unwrap_or_default();
            let (lib, cargo) = (files.get(&format!("{root}lib.rs")), files.get(&format!("{root}Cargo.toml")));
            c.check(files.len() == 2 && lib.is_some() && cargo.is_some(), || format!("files {:?}", files.keys().collect::<Vec<_>>()));
            if let (Some(l), Some(m)) = (lib, cargo) {
                judge(c, name, Version::V5, l.as_str().unwrap_or_default(), m.as_str().unwrap_or_default());
            }
        }
        (_, r) => c.fail(format!("no answer: {r:?}")),
    }
}

pub fn run(ctx: &Ctx) -> Info {
    let fixed: Vec<&str> = KEYWORDS.iter().chain(&NEAR).copied().collect();
    let k = ALPHA.len() as u64;
    let n = seq_count(k, ctx.pick(3, 4));
    ctx.explore("names", n, |i, c| {
        let name: String = seq_decode(i, k).into_iter().map(|x| ALPHA[x]).collect();
        for v in VERSIONS {
            check(c, &name, v);
        }
    });
    let k2 = CORE.len() as u64;
    let n2 = seq_count(k2, ctx.pick(5, 6));
    ctx.explore("short-names", n2, |i, c| {
        let name: String = seq_decode(i, k2).into_iter().map(|x| CORE[x]).collect();
        for v in VERSIONS {
            check(c, &name, v);
        }
    });
    ctx.explore("keywords", product(&[2, 3, fixed.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let case = d.take(3);
        let w = d.pick(&fixed);
        let name = match case {
            0 => w.to_string(),
            1 => format!("{w}2"),
            _ => w.to_uppercase(),
        };
        check(c, &name, v);
    });
    // Over the protocol.
    let m = seq_count(k, 2) + fixed.len() as u64;
    ctx.explore("commands", m.div_ceil(16), |i, c| {
        let mut l = Lsp::start(json!({}));
        for j in i * 16..((i + 1) * 16).min(m) {
            let name = if j < fixed.len() as u64 { fixed[j as usize].to_owned() } else { seq_decode(j - fixed.len() as u64, k).into_iter().map(|x| ALPHA[x]).collect() };
            lsp(c, &mut l, &name);
        }
    });
    info(
        format!("all names of up to {} fragments over 14 fragments and up to {} over 6, all keywords in 3 variants, both versions; the command for names of up to 2 fragments", ctx.pick(3, 4), ctx.pick(5, 6)),
        &["a name is a contract name if it also gives identifiers for the module and the storage type"],
    )
}
