//! C13: migration to ink! 5 rewrites exactly the deprecated constructs.
//!
//! Programs are templates in which `‹old¦new›` marks what a migration must rewrite (`‹¦new›`: insert, `‹old¦›`:
//! remove). The reference result is the template's new reading. Texts are compared token by token, comments included
//! (whitespace and trailing commas aside), the result must parse, have no ink! 5 errors, and be a fixed point.
use super::{info, Info};
use crate::common::*;
use super::c14::apply_lsp;
use crate::util::*;
use ink_analyzer::Analysis;
use ink_analyzer_ir::syntax::{AstNode, SourceFile, SyntaxKind};

/// Known findings in the migration of e2e tests.
const TWICE: &str = "e2e test migrated twice";
const IMPORTED: &str = "e2e backend trait already imported";
const OTHER: &str = "method of another receiver in an e2e test";
const NESTED: &str = "deprecated call in the arguments of a deprecated call";

/// The old (`new == false`) or new reading of a template.
fn reading(t: &str, new: bool) -> String {
    let mut out = String::new();
    // 0: outside, 1: old, 2: new
    let mut st = 0;
    for c in t.chars() {
        match c {
            '‹' => st = 1,
            '¦' => st = 2,
            '›' => st = 0,
            c => {
                if st == 0 || (st == 2) == new {
                    out.push(c)
                }
            }
        }
    }
    out
}

fn tokens(code: &str) -> Vec<String> {
    let mut out: Vec<String> = SourceFile::parse(code)
        .tree()
        .syntax()
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| t.kind() != SyntaxKind::WHITESPACE)
        .map(|t| t.text().to_string())
        .collect();
    // Empty arguments of a test attribute.
    let mut i = 0;
    while i + 5 <= out.len() {
        if out[i..i + 5] == ["ink_e2e", "::", "test", "(", ")"] {
            out.drain(i + 3..i + 5);
        }
        i += 1;
    }
    // Trailing commas.
    let mut i = 0;
    while i + 1 < out.len() {
        if out[i] == "," && matches!(out[i + 1].as_str(), ")" | "}" | "]" | ">") {
            out.remove(i);
        } else {
            i += 1;
        }
    }
    // Neighbouring imports may be in any order.
    let mut i = 0;
    while i < out.len() {
        let mut runs: Vec<Vec<String>> = vec![];
        let mut j = i;
        while out.get(j).is_some_and(|t| t == "use") {
            let Some(n) = out[j..].iter().position(|t| t == ";") else { break };
            runs.push(out[j..=j + n].to_vec());
            j += n + 1;
        }
        runs.sort();
        out.splice(i..j, runs.concat());
        i = j.max(i + 1);
    }
    out
}

/// Without what a repeated migration of an e2e test is known to add: imports of the backend traits.
fn lenient(tokens: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < tokens.len() {
        let t = &tokens[i..];
        if t.len() > 4 && t[..3] == ["use", "ink_e2e", "::"] && t[3].ends_with("Backend") && t[4] == ";" {
            i += 5;
        } else {
            out.push(t[0].clone());
            i += 1;
        }
    }
    out
}

fn case(c: &mut Case, template: &str) {
    case_known(c, template, None)
}

/// `known`: the signature of the finding that explains a failure with this template (see `known_findings.jsonl`).
fn case_known(c: &mut Case, template: &str, known: Option<&str>) {
    let n = c.fails.len();
    judge(c, template);
    if let Some(k) = known {
        for f in &mut c.fails[n..] {
            f.sig = k.into();
        }
    }
}

fn judge(c: &mut Case, template: &str) {
    let src = reading(template, false);
    let want = reading(template, true);
    c.state(&src);
    if !parses(&src) || !parses(&want) {
        panic!("harness bug: template does not parse: {:?} {:?}\n{src}\n---\n{want}", syntax_errors(&src), syntax_errors(&want));
    }
    c.step();
    let edits = Analysis::new(&src, Version::V4).migrate();
    let got = match apply(&src, &edits) {
        Ok(t) => t,
        Err(e) => return c.fail(format!("{e}: {}\n{src}", show_edits(&edits))),
    };
    c.outcome(&tokens(&got));
    let (g, w) = (tokens(&got), tokens(&want));
    if g != w {
        let k = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
        let ctx = |x: &[String]| x[k.saturating_sub(4).min(x.len())..(k + 8).min(x.len())].join(" ");
        if ["Backend;", "Backend}", "ink_e2e::*"].iter().any(|t| src.contains(t)) && lenient(&g) == lenient(&w) && g.len() > w.len() {
            return c.fail_sig(IMPORTED, "imported twice");
        }
        return c.fail(format!("migration gives `{}` instead of `{}`\n--- source\n{src}\n--- result\n{got}\n--- expected\n{want}", ctx(&g), ctx(&w)));
    }
    c.check(parses(&got), || format!("the result does not parse: {:?}\n{got}", syntax_errors(&got)));
    // Old errors of the source aside, the result is a valid ink! 5 program.
    if errors(&src, Version::V4).is_empty() {
        let errs = errors(&got, Version::V5);
        c.check(errs.is_empty(), || format!("the result has ink! 5 errors:\n{}\n{got}", show(&got, &errs)));
    }
    c.step();
    let again = Analysis::new(&got, Version::V4).migrate();
    if let Ok(twice) = apply(&got, &again) {
        // The text of a function with two lists of type parameters isn't split into tokens as usual.
        let p = "<Client: E2EBackend>";
        let twice = twice.replace(&format!("{p}{p}"), p);
        if !again.is_empty() && got.contains("ink_e2e::test") && lenient(&tokens(&twice)) == lenient(&g) {
            return c.fail_sig(TWICE, "migrated twice");
        }
    }
    c.check(apply(&got, &again).as_deref() == Ok(got.as_str()), || format!("migrating again changes {}\n{got}", show_edits(&again)));
}

fn contract(inner: &str, body: &str) -> String {
    format!("#[ink::contract]\nmod c {{{inner}\n    #[ink(storage)]\n    pub struct S {{ v: u8 }}\n\n    {body}\n\n    impl S {{\n        #[ink(constructor)]\n        pub fn new() -> Self {{ S {{ v: 0 }} }}\n\n        #[ink(message)]\n        pub fn get(&self) -> u8 {{ self.v }}\n    }}\n}}\n")
}

// ---------------------------------------------------------------------------------------------
// Events

/// Attribute lists of an event: (legacy, standalone).
const EVENT_ATTRS: [(&str, &str); 8] = [
    ("#[ink(event)]", "#[ink::event]"),
    ("#[ink(event, anonymous)]", "#[ink::event(anonymous)]"),
    ("#[ink(anonymous, event)]", "#[ink::event(anonymous)]"),
    ("#[ink(event)]\n    #[ink(anonymous)]", "#[ink::event(anonymous)]"),
    ("#[ink(anonymous)]\n    #[ink(event)]", "#[ink::event(anonymous)]"),
    ("#[derive(Debug)]\n    #[ink(event)]\n    #[cfg(feature = \"x\")]", "#[derive(Debug)] #[ink::event] #[cfg(feature = \"x\")]"),
    ("#[ink(event)] #[cfg(feature = \"x\")] #[ink(anonymous)]", "#[ink::event(anonymous)] #[cfg(feature = \"x\")]"),
    ("#[ink( event )]", "#[ink::event]"),
];
const EVENT_DOCS: [&str; 4] = ["", "/// Docs.\n    ", "/// Like `#[ink(event)]` or `#[ink(anonymous)]`.\n    ", "#[doc = \"#[ink(event)]\"] "];
const EVENT_FIELDS: [&str; 5] = [
    "{}",
    "{ #[ink(topic)] a: u8, b: u8 }",
    "{\n        // The `#[ink(event)]` field.\n        #[ink(topic)]\n        a: [u8; 4],\n        /// Another.\n        b: Vec<(u8, bool)>,\n    }",
    "{\n        /// \"#[ink(anonymous)]\"\n        b: u8,\n    }",
    ";",
];

fn events(ctx: &Ctx) {
    let inner = ["", "\n    use ink::prelude::vec::Vec;", "\n    #![allow(unused)]\n", "\n    //! Docs.\n"];
    let dims = [inner.len(), EVENT_ATTRS.len(), EVENT_DOCS.len(), EVENT_FIELDS.len(), 2, 3];
    ctx.explore("events", product(&dims), |i, c| {
        let mut d = Digits(i);
        let inn = d.pick(&inner);
        let (old, new) = d.pick(&EVENT_ATTRS);
        let (docs, fields) = (d.pick(&EVENT_DOCS), d.pick(&EVENT_FIELDS));
        let vis = d.pick(&["pub ", "pub(crate) "]);
        let before = d.pick(&["", "/// Contract docs.\n", "pub struct Z;\n\n"]);
        let (attrs, rest) = if inn.contains("#!") || inn.contains("//!") { (*inn, "") } else { ("", *inn) };
        let ev = format!("{docs}{old}\n    {vis}struct E1 {fields}");
        let new = format!("{docs}{new} {vis}struct E1 {fields}\n");
        let body = contract("", &format!("‹{ev}¦›"));
        let (z, cdocs) = if before.starts_with("pub") { (*before, "") } else { ("", *before) };
        let body = body.replacen("mod c {", &format!("mod c {{{attrs}\n‹¦use super::E1;›{rest}"), 1);
        case(c, &format!("{z}‹¦{new}›{cdocs}{body}"));
    });
    let dims = [EVENT_ATTRS.len(), EVENT_ATTRS.len(), EVENT_FIELDS.len(), 3];
    ctx.explore("event-pairs", product(&dims), |i, c| {
        let mut d = Digits(i);
        let ((o1, n1), (o2, n2)) = (d.pick(&EVENT_ATTRS), d.pick(&EVENT_ATTRS));
        let fields = d.pick(&EVENT_FIELDS);
        let sep = d.pick(&["", "fn between() {}\n    ", "#[ink::event] pub struct Std { a: u8 }\n    "]);
        let body = contract("", &format!("‹{o1}\n    pub struct E1 {fields}\n¦›    {sep}‹{o2}\n    pub struct E2 {{ x: u8 }}¦›"));
        let body = body.replacen("mod c {", "mod c {\n‹¦use super::E1; use super::E2;›", 1);
        case(c, &format!("‹¦{n1} pub struct E1 {fields} {n2} pub struct E2 {{ x: u8 }}›{body}"));
    });
}

// ---------------------------------------------------------------------------------------------
// Chain extensions

const ER: &str = "#[ink::scale_derive(Encode, Decode, TypeInfo)]\npub enum Er { A }\nimpl ink::env::chain_extension::FromStatusCode for Er { fn from_status_code(_: u32) -> Result<(), Self> { Ok(()) } }\n";
const EXT_FNS: [&str; 8] = [
    "",
    "#[ink(‹extension¦function› = 1)] fn a();",
    "#[ink(‹extension¦function› = 0x2, handle_status = false)] fn b(x: u8) -> u8;",
    "#[ink(handle_status = true, ‹extension¦function› = 3)] fn d();",
    "#[ink(‹extension¦function› = 4)]\n    #[ink(handle_status = false)]\n    fn e(extension: u8);",
    "#[ink(handle_status = false)] #[ink(‹extension¦function› = 5)] fn f();",
    "/// #[ink(extension = 6)]\n    #[ink( ‹extension¦function›=6 )] fn g();",
    "#[cfg(feature = \"extension\")] #[ink(‹extension¦function› = 7)] fn h();",
];
fn chain_extensions(ctx: &Ctx) {
    let heads = ["#[ink::chain_extension‹¦(extension = N)›]", "#[ink::chain_extension(‹¦extension = N›)]", "#[ink::chain_extension(extension = 1)]", "#[ink::chain_extension(extension = 2)]"];
    let dims = [heads.len(), heads.len() + 1, EXT_FNS.len(), EXT_FNS.len(), 3];
    ctx.explore("chain-extensions", product(&dims), |i, c| {
        let mut d = Digits(i);
        let h1 = d.take(heads.len());
        let h2 = d.take(heads.len() + 1);
        let (a, b) = (d.pick(&EXT_FNS), d.pick(&EXT_FNS));
        let place = d.take(3);
        // Fresh ids are the smallest free ones.
        let mut used: Vec<u32> = [h1, h2].iter().filter_map(|h| match h { 2 => Some(1), 3 => Some(2), _ => None }).collect();
        let mut fresh = || {
            let n = (1..).find(|n| !used.contains(n)).unwrap();
            used.push(n);
            n.to_string()
        };
        let mut s = format!("{}\npub trait A {{ type ErrorCode = crate::Er; {a} {} }}\n", heads[h1].replace('N', &if h1 < 2 { fresh() } else { String::new() }), if a == b { "" } else { b });
        if h2 < heads.len() {
            s.push_str(&format!("{}\npub trait B {{ type ErrorCode = crate::Er; {b} }}\n", heads[h2].replace('N', &if h2 < 2 { fresh() } else { String::new() })));
        }
        let s = match place {
            0 => s,
            1 => format!("pub mod m {{ {s} }}\n"),
            _ => contract("", &s),
        };
        case(c, &format!("{s}{ER}trait T {{ fn extension(); }}\n"));
    });
}

// ---------------------------------------------------------------------------------------------
// SCALE derives

/// (attribute before, attribute after, SCALE traits). `E`/`D`/`T` stand for the trait paths.
const DERIVES: [(&str, &str, &str); 14] = [
    ("#[derive(%E, %D)]", "", "Encode, Decode"),
    ("#[derive(%E)]", "", "Encode"),
    ("#[derive(Debug, %D, Clone)]", "#[derive(Debug, Clone)]", "Decode"),
    ("#[derive(%E, %D, %T)]", "", "Encode, Decode, TypeInfo"),
    ("#[cfg_attr(feature = \"std\", derive(%T))]", "", "TypeInfo"),
    ("#[cfg_attr(feature = \"std\", derive(Debug, %T))]", "#[cfg_attr(feature = \"std\", derive(Debug))]", "TypeInfo"),
    ("#[cfg_attr(feature = \"std\", derive(%T), allow(unused))]", "#[cfg_attr(feature = \"std\", allow(unused))]", "TypeInfo"),
    ("#[cfg_attr(feature = \"std\", allow(unused), derive(%T))]", "#[cfg_attr(feature = \"std\", allow(unused))]", "TypeInfo"),
    ("#[cfg_attr(feature = \"std\", derive(%T,))]", "", "TypeInfo"),
    ("#[derive(Debug)]", "#[derive(Debug)]", ""),
    ("#[derive(my::Encode)]", "#[derive(my::Encode)]", ""),
    ("#[cfg_attr(feature = \"derive\", allow(unused))]", "#[cfg_attr(feature = \"derive\", allow(unused))]", ""),
    ("#[cfg_attr(all(feature = \"std\", not(test)), derive(%T))]", "", "TypeInfo"),
    ("/// #[derive(scale::Encode)]\n", "/// #[derive(scale::Encode)]\n", ""),
];
fn scale(ctx: &Ctx) {
    let items = ["pub struct Q { a: u8 }", "pub enum Q { A(u8), B }", "pub struct Q(pub u8);"];
    let n = DERIVES.len() as u64;
    let max = ctx.pick(2, 3);
    let seqs = seq_count(n, max);
    ctx.explore("scale-derives", seqs * product(&[items.len(), 3, 2]), |i, c| {
        let mut d = Digits(i);
        let seq = seq_decode(d.take(seqs as usize) as u64, n);
        let item = d.pick(&items);
        let style = d.take(3);
        let in_contract = d.take(2) == 1;
        let paths = match style {
            0 => ("scale::Encode", "scale::Decode", "scale_info::TypeInfo"),
            1 => ("Encode", "Decode", "TypeInfo"),
            _ => ("ink::scale::Encode", "ink::scale::Decode", "ink::scale_info::TypeInfo"),
        };
        // A trait is derived once.
        let mut seen: Vec<&str> = vec![];
        for k in &seq {
            for t in DERIVES[*k].2.split(", ").filter(|t| !t.is_empty()) {
                if seen.contains(&t) {
                    return;
                }
                seen.push(t);
            }
        }
        let mut s = String::new();
        let mut done = false;
        for k in &seq {
            let (old, new, tr) = DERIVES[*k];
            let sub = |x: &str| x.replace("%E", paths.0).replace("%D", paths.1).replace("%T", paths.2);
            if tr.is_empty() {
                s.push_str(&sub(old));
            } else {
                if !done {
                    s.push_str(&format!("‹¦#[ink::scale_derive({})]›", seen.join(", ")));
                    done = true;
                }
                s.push_str(&format!("‹{}¦{}›", sub(old), sub(new)));
            }
            s.push_str("\n    ");
        }
        s.push_str(item);
        let imports = if style == 1 { "use scale::{Decode, Encode};\nuse scale_info::TypeInfo;\n" } else { "" };
        let inner = if style == 1 { "\n    use scale::{Decode, Encode};\n    use scale_info::TypeInfo;" } else { "" };
        case(c, &if in_contract { contract(inner, &s) } else { format!("{imports}{s}\n") });
    });
}

// ---------------------------------------------------------------------------------------------
// Expressions

/// Expression contexts: `%` is the place of an expression; the flag tells whether the place takes a method receiver.
const PLACES: [&str; 47] = [
    "%;",
    "let x = %;",
    "let x: u8 = 1 + %;",
    "if %.is_ok() { a(); }",
    "if a { b(); } else if %.is_ok() { b(); } else { d(); }",
    "if a { %; } else { b(); }",
    "if a { b(); } else { %; }",
    "while %.is_ok() { b(); }",
    "while let Some(x) = %.next() { b(); }",
    "for x in %.iter() { b(); }",
    "for x in y { %; }",
    "loop { %; break; }",
    "match % { _ => {} }",
    "match a { _ => %, }",
    "match a { x if %.is_ok() => {} _ => {} }",
    "return %;",
    "let f = || %;",
    "let f = move |x: u8| { %; };",
    "let z = [%, b];",
    "let z = [%; 4];",
    "let z = (a, %);",
    "let z = P { a: 1, b: % };",
    "let z = P { a: 1, ..% };",
    "let z = a[%];",
    "let z = a(b, %);",
    "let z = a.b(%).d();",
    "let z = &%;",
    "let z = % as u8;",
    "let Some(z) = % else { return; };",
    "{ { %; } }",
    "unsafe { %; }",
    "for x in 0..% { b(); }",
    "let z = %..;",
    "let z = !%;",
    "let z = -%;",
    "let z = *%;",
    "let z = (%);",
    "let z = %?;",
    "let z = loop { break %; };",
    "let z = 'a: { break 'a %; };",
    "let z = %.await;",
    "let z = %.field.x;",
    "z = %;",
    "z[0] += %;",
    "if let Some(x) = % { b(); } else { d(); }",
    "let z = match a { Some(x) => { % } None => b, };",
    "let z = if a && % { b } else { d };",
];

const HOST: [(&str, &str); 18] = [
    ("", "ink::env::call::build_call::<E>().‹call¦call_v1›(a).gas_limit(5).invoke()"),
    ("use ink::env::call::build_call;", "build_call::<E>().‹call¦call_v1›(a).invoke()"),
    ("use ink::env::call;", "call::build_call().call_flags(f).‹call¦call_v1›(a).returns::<()>().invoke()"),
    ("", "build_call::<E>().call(a).invoke()"),
    ("use ink::env::call::build_call;", "build_call::<E>().delegate(h).returns::<()>().invoke()"),
    ("", "ink::env::call::build_create::<R>()‹¦.instantiate_v1()›.code_hash(h).instantiate()"),
    ("use ink_env::call::build_create;", "build_create::<R>()‹¦.instantiate_v1()›.salt_bytes(&[1]).instantiate()"),
    ("", "ink::env::‹instantiate_contract¦instantiate_contract_v1›::<E, R, A, B, D>(p)"),
    ("use ink::env::invoke_contract;", "‹invoke_contract¦invoke_contract_v1›(p)"),
    ("", "self.env().‹instantiate_contract¦instantiate_contract_v1›(&p)"),
    ("", "self.env().‹invoke_contract¦invoke_contract_v1›(&p)"),
    ("", "Self::env().‹invoke_contract¦invoke_contract_v1›(&p)"),
    ("use ink::env::call::Call;", "‹Call¦ink::env::call::CallV1›::new(a).gas_limit(5)"),
    ("", "other.invoke_contract(&p)"),
    ("", "other.env().invoke_contract(&p)"),
    ("", "self.other().instantiate_contract(&p)"),
    ("", "Call::new(a)"),
    ("", "invoke_contract(p).call(a)"),
];
fn hosts(ctx: &Ctx) {
    let wraps = ["fn f() { % }", "pub mod m { use super::*; impl X { pub fn f(&self) { % } } }", "fn f() { fn g() { % } }", "impl X { fn f(&self) { let f = || { % }; } }"];
    ctx.explore("host-calls", product(&[HOST.len(), PLACES.len(), wraps.len()]), |i, c| {
        let mut d = Digits(i);
        let (import, expr) = d.pick(&HOST);
        let place = d.pick(&PLACES);
        let wrap = d.take(wraps.len());
        let stmts = place.replace('%', expr);
        // Names are imported in the module that uses them.
        let t = if wrap == 1 { wraps[wrap].replace("use super::*;", &format!("use super::*; {import}")) } else { format!("{import}{}", wraps[wrap]) };
        case(c, &format!("{}\n", t.replace('%', &stmts)));
    });
    ctx.explore("host-call-nesting", product(&[HOST.len(), HOST.len(), 3]), |i, c| {
        let mut d = Digits(i);
        let ((i1, e1), (i2, e2)) = (d.pick(&HOST), d.pick(&HOST));
        // The second call is an argument of the first, of a chained call, or a sibling.
        let e = match d.take(3) {
            0 => {
                let k = e1.find("(a)").or(e1.find("(p)")).or(e1.find("(h)")).or(e1.find("(&p)"));
                let Some(k) = k else { return };
                let end = k + e1[k..].find(')').unwrap();
                format!("{}({e2}{}", &e1[..k], &e1[end..])
            }
            1 => format!("{e1}.with({e2})"),
            _ => format!("z({e1}, {e2})"),
        };
        // An import makes the unimported variants of the same call deprecated too.
        for (i, e) in [(i1, e2), (i2, e1)] {
            let name = i.trim_end_matches(';').rsplit("::").next().unwrap_or("");
            if !name.is_empty() && e.starts_with(name) {
                return;
            }
        }
        let imports = if i1 == i2 { i1.to_string() } else { format!("{i1}\n{i2}") };
        case(c, &format!("{imports}\nfn f(&self) {{ let x = {e}; }}\n"));
    });
}

// ---------------------------------------------------------------------------------------------
// e2e tests

const SIG: &str = "‹(mut client: ink_e2e::Client<C, E>)¦<Client: E2EBackend>(mut client: Client)› -> E2EResult<()>";
fn e2e(attr: &str, imports: &str, body: &str) -> String {
    format!("#[cfg(all(test, feature = \"e2e-tests\"))]\nmod e2e_tests {{\n    {imports}\n    use super::*;\n\n    type E2EResult<T> = std::result::Result<T, Box<dyn std::error::Error>>;\n\n    #[ink_e2e::test{attr}]\n    async fn t{SIG} {{\n        {body}\n        Ok(())\n    }}\n}}\n")
}
fn attributes(ctx: &Ctx) {
    let args = ["additional_contracts = \"a/Cargo.toml b/Cargo.toml\"", "keep_attr = \"foo, bar\"", "environment = crate::Env"];
    // All ordered selections of the arguments.
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..3 {
        orders.push(vec![a]);
        for b in (0..3).filter(|b| *b != a) {
            orders.push(vec![a, b]);
            orders.push(vec![a, b, 3 - a - b]);
        }
    }
    let env = "pub struct Env; impl ink::env::Environment for Env {}\n";
    ctx.explore("e2e-attributes", product(&[orders.len(), 2, 3, 3]), |i, c| {
        let mut d = Digits(i);
        let o = d.pick(&orders);
        let trailing = d.take(2) == 1 && !o.is_empty();
        let sep = d.pick(&[", ", ",\n        ", " , /* x, y */ "]);
        let body = d.pick(&["", "let x = 1;", "// `additional_contracts`\n"]);
        if sep.contains("/*") && o.iter().any(|k| *k != 2) {
            // Comments between removed arguments may go with them.
            return;
        }
        let old = if o.is_empty() { String::new() } else { format!("({}{})", o.iter().map(|k| args[*k]).collect::<Vec<_>>().join(sep), if trailing { "," } else { "" }) };
        let new = if o.contains(&2) { format!("({})", args[2]) } else { String::new() };
        let attr = if o.iter().all(|k| *k == 2) { old } else { format!("‹{old}¦{new}›") };
        case(c, &format!("{}{env}", e2e(&attr, "", body)));
    });
}

const CONTRACTS: &str = "‹¦use ink_e2e::ContractsBackend;›";
const CHAIN: &str = "‹¦use ink_e2e::ChainBackend;›";
/// (needed trait: 0 none, 1 contracts, 2 chain; imports; expression)
const E2E: [(u8, &str, &str); 25] = [
    (1, "", "client.instantiate(\"c\", &ink_e2e::alice(), ctor‹, 0, None¦›)‹¦.submit()›.await"),
    (1, "", "client.instantiate(\"c\", &alice(), ctor‹, 1_000, Some(v.x())¦›)‹¦.value(1_000).storage_deposit_limit(v.x()).submit()›.await"),
    (1, "", "client.instantiate(\"c\", &alice(), ctor‹, value, limit¦›)‹¦.value(value).storage_deposit_limit(limit).submit()›.await"),
    (1, "", "client.instantiate_dry_run(\"c\", &alice(), ctor‹, 0x0, Option::None¦›)‹¦.dry_run()›.await‹¦?›"),
    (1, "", "client.call(&alice(), get‹, 0, None¦›)‹¦.submit()›.await.expect(\"x\")"),
    (1, "", "client.call(&alice(), get.clone()‹, 5, Some(7)¦›)‹¦.value(5).storage_deposit_limit(7).submit()›.await"),
    (1, "", "client.call_dry_run(&alice(), &get‹, 0, None¦›)‹¦.dry_run()›.await‹¦?›.return_value()"),
    (1, "", "client.call_dry_run(&alice(), get‹, v, Some(1)¦›)‹¦.value(v).storage_deposit_limit(1).dry_run()›.await‹¦?›"),
    (1, "", "client.upload(\"c\", &alice()‹, None¦›)‹¦.submit()›.await"),
    (1, "", "client.upload(\"c\", &alice()‹, Some(2)¦›)‹¦.storage_deposit_limit(2).submit()›.await"),
    (2, "", "client.create_and_fund_account(&alice(), 10).await"),
    (2, "", "client.‹balance¦free_balance›(acc).await.expect(\"x\")"),
    (2, "", "client.runtime_call(&alice(), \"p\", \"c\", vec).await"),
    (0, "‹use ink_e2e::build_message;¦›", "‹build_message¦ink_e2e::create_call_builder›::<R>(acc.clone()).‹call(|r| r.get())¦get()›"),
    (0, "", "‹ink_e2e::build_message¦ink_e2e::create_call_builder›::<R>(acc).‹call(|r| { r.set(a, b(1)) })¦set(a, b(1))›"),
    (0, "", "‹ink_e2e::build_message¦ink_e2e::create_call_builder›::<R>(acc).‹call(|r| { return r.set(a); })¦set(a)›"),
    (0, "‹use ink_e2e::MessageBuilder;¦›", "‹MessageBuilder::<Env, R>::from_account_id¦ink_e2e::create_call_builder::<R>›(acc).‹call(|r| r.get())¦get()›"),
    (0, "", "‹ink_e2e::MessageBuilder::<crate::Env, m::R>::from_account_id¦ink_e2e::create_call_builder::<m::R>›(acc).‹call(|r| r.get())¦get()›"),
    (0, "", "‹ink_e2e::build_message¦ink_e2e::create_call_builder›::<R>(acc)"),
    // Same names, other things.
    (0, "", "other.balance(acc)"),
    (0, "", "self.ledger.balance(acc).total()"),
    (0, "", "other.call(a, b, 0, None)"),
    (0, "", "other.upload(a, b, None).x()"),
    (0, "", "my::build_message::<R>(acc).call(|r| r.get())"),
    (0, "", "client.other(a, b, 0, None)"),
];
/// Methods that only share their name with the client's.
fn other(e: &str) -> bool {
    ["other.", "self.ledger."].iter().any(|p| e.starts_with(p))
}
fn needs(t: u8) -> &'static str {
    match t {
        1 => CONTRACTS,
        2 => CHAIN,
        _ => "",
    }
}
fn bodies(ctx: &Ctx) {
    ctx.explore("e2e-calls", product(&[E2E.len(), PLACES.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let (t, imports, e) = d.pick(&E2E);
        let stmt = d.pick(&PLACES).replace('%', e);
        let body = match d.take(2) {
            0 => stmt,
            _ => format!("let w = async {{ {stmt} }};"),
        };
        case_known(c, &e2e("", &format!("{}{imports}", needs(*t)), &body), other(e).then_some(OTHER));
    });
    ctx.explore("e2e-call-pairs", product(&[E2E.len(), E2E.len(), 4]), |i, c| {
        let mut d = Digits(i);
        let ((t1, i1, e1), (t2, i2, e2)) = (d.pick(&E2E), d.pick(&E2E));
        let mut need = String::new();
        for t in 1..=2 {
            if *t1 == t || *t2 == t {
                need.push_str(needs(t));
            }
        }
        let imports = if i1 == i2 { i1.to_string() } else { format!("{i1}\n    {i2}") };
        let form = d.take(4);
        let t = match form {
            0 => e2e("", &format!("{need}{imports}"), &format!("let a = {e1};\n        let b = {e2};")),
            1 => e2e("", &format!("{need}{imports}"), &format!("let a = {e1}.z({e2});")),
            2 => {
                // The second call is an argument of the first.
                let Some(k) = ["(acc.clone())", "(acc)", ", ctor", ", get", "&alice()"].iter().find_map(|x| e1.find(x).map(|k| (k, x.len()))) else { return };
                let open = if e1[k.0..].starts_with('(') { "(" } else if e1[k.0..].starts_with(',') { ", " } else { "" };
                let close = if open == "(" { ")" } else { "" };
                if e1[..k.0].contains('‹') && e1[..k.0].rfind('‹') > e1[..k.0].rfind('›') {
                    return;
                }
                let (p, q) = (&e1[..k.0], &e1[k.0 + k.1..]);
                e2e("", &format!("{need}{imports}"), &format!("let a = {p}{open}{e2}{close}{q};"))
            }
            _ => {
                // Two tests in one module.
                let a = e2e("", &format!("{need}{imports}"), &format!("let a = {e1};"));
                let second = format!("    #[ink_e2e::test]\n    async fn u{SIG} {{\n        let b = {e2};\n        Ok(())\n    }}\n}}\n");
                format!("{}{second}", a.strip_suffix("}\n").unwrap())
            }
        };
        let known = if other(e1) || other(e2) { Some(OTHER) } else { (form == 2).then_some(NESTED) };
        case_known(c, &t, known);
    });
    // Where the backend imports go, and whether they are there already.
    let outer = ["mod e2e {{ {I} {T} }}", "{I} {T}", "#[ink::contract] mod c { #[ink(storage)] pub struct S {} impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn m(&self) {} } #[cfg(test)] mod e2e { {I} {T} } }"];
    let have = ["", "use ink_e2e::ContractsBackend;", "use ink_e2e::ChainBackend;", "use ink_e2e::*;", "use ink_e2e::{ChainBackend, ContractsBackend};"];
    ctx.explore("e2e-backends", product(&[E2E.len(), E2E.len(), outer.len(), have.len()]), |i, c| {
        let mut d = Digits(i);
        let ((t1, i1, e1), (t2, i2, e2)) = (d.pick(&E2E), d.pick(&E2E));
        if !i1.is_empty() || !i2.is_empty() {
            return;
        }
        let o = d.pick(&outer);
        let h = d.pick(&have);
        let mut need = String::new();
        for t in 1..=2 {
            let name = ["", "ContractsBackend", "ChainBackend"][t as usize];
            if (*t1 == t || *t2 == t) && !h.contains(name) && !h.contains('*') {
                need.push_str(needs(t));
            }
        }
        let test = format!("#[ink_e2e::test] async fn t{SIG} {{ let a = {e1}; let b = {e2}; Ok(()) }}");
        case_known(c, &o.replace("{{", "{").replace("}}", "}").replace("{I}", &format!("{need} {h}")).replace("{T}", &test), (other(e1) || other(e2)).then_some(OTHER));
    });
}

/// Deprecated imports: use trees up to three leaves.
fn imports(ctx: &Ctx) {
    let leaves = [("build_message", true), ("MessageBuilder", true), ("Client", false), ("subxt::tx", false)];
    let n = leaves.len() as u64;
    let seqs = seq_count(n, 3);
    ctx.explore("e2e-imports", seqs * 4 * 2, |i, c| {
        let mut d = Digits(i);
        let seq = seq_decode(d.take(seqs as usize) as u64, n);
        let style = d.take(4);
        let trailing = d.take(2) == 1;
        if seq.is_empty() {
            return;
        }
        let dep: Vec<bool> = seq.iter().map(|k| leaves[*k].1).collect();
        let name = |k: &usize| leaves[*k].0;
        let all = dep.iter().all(|x| *x);
        let tail = if trailing { "," } else { "" };
        let list = |prefix: &str| {
            let old = seq.iter().map(|k| format!("{prefix}{}", name(k))).collect::<Vec<_>>().join(", ");
            let new = seq.iter().zip(&dep).filter(|(_, d)| !**d).map(|(k, _)| format!("{prefix}{}", name(k))).collect::<Vec<_>>().join(", ");
            (format!("{old}{tail}"), new)
        };
        let t = match style {
            0 => seq.iter().map(|k| if leaves[*k].1 { format!("‹use ink_e2e::{};¦›\n    ", name(k)) } else { format!("use ink_e2e::{};\n    ", name(k)) }).collect::<String>(),
            1 => {
                let (o, n) = list("");
                if all { format!("‹use ink_e2e::{{{o}}};¦›") } else { format!("‹use ink_e2e::{{{o}}};¦use ink_e2e::{{{n}}};›") }
            }
            2 => {
                let (o, n) = list("ink_e2e::");
                if all { format!("‹use {{{o}}};¦›") } else { format!("‹use {{{o}}};¦use {{{n}}};›") }
            }
            _ => {
                let (o, n) = list("");
                if all { format!("‹use {{ink_e2e::{{{o}}}, a::b}};¦use {{a::b}};›") } else { format!("‹use {{ink_e2e::{{{o}}}, a::b}};¦use {{ink_e2e::{{{n}}}, a::b}};›") }
            }
        };
        case(c, &e2e("", &t, ""));
    });
    let neutral = ["use ink_e2e::*;", "use my::build_message;", "use my::ink_e2e::build_message;", "use build_message;", "use ink_e2e::build_message::x;", "use ink_e2e as e;", "use ink_e2e::{self};"];
    ctx.explore("e2e-other-imports", neutral.len() as u64, |i, c| case(c, &e2e("", neutral[i as usize], "")));
}

/// Programs without deprecated constructs, and files that mix constructs of all kinds.
fn mixed(ctx: &Ctx) {
    let parts: [&str; 10] = [
        "‹#[ink(event)]\n    pub struct E1 { #[ink(topic)] a: u8 }¦›",
        "‹#[ink(event, anonymous)]\n    pub struct E2 { a: u8 }¦›",
        "‹#[derive(scale::Encode, scale::Decode)]¦#[ink::scale_derive(Encode, Decode, TypeInfo)]›\n    ‹#[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))]¦›\n    pub struct Q { a: u8 }",
        "#[ink::chain_extension‹¦(extension = 1)›]\n    pub trait A { type ErrorCode = crate::Er; #[ink(‹extension¦function› = 1)] fn a(); }",
        "fn host(p: u8) { ink::env::‹invoke_contract¦invoke_contract_v1›(p); }",
        "#[cfg(test)]\n    mod tests { #[ink::test] fn x() { let a = ink::env::call::build_create::<R>()‹¦.instantiate_v1()›.instantiate(); } }",
        "#[cfg(test)]\n    mod e2e_tests { ‹¦use ink_e2e::ContractsBackend;› ‹use ink_e2e::build_message;¦› type E2EResult<T> = T; #[ink_e2e::test‹(keep_attr = \"a\")¦›] async fn t‹(mut client: ink_e2e::Client<C, E>)¦<Client: E2EBackend>(mut client: Client)› -> E2EResult<()> { let m = ‹build_message¦ink_e2e::create_call_builder›::<R>(a).‹call(|r| r.get())¦get()›; client.call(&x, m‹, 0, None¦›)‹¦.submit()›.await } }",
        "#[ink::trait_definition] pub trait T { #[ink(message)] fn tm(&self); }",
        "/* #[ink(event)] struct E; */ const X: &str = \"#[ink(extension = 1)] client.balance(x)\";",
        "#[ink::storage_item] pub struct Si { a: u8 }",
    ];
    let n = parts.len() as u64;
    let max = ctx.pick(3, 4);
    let seqs = seq_count(n, max);
    ctx.explore("mixed", seqs, |i, c| {
        let seq = seq_decode(i, n);
        for (k, x) in seq.iter().enumerate() {
            if seq[..k].contains(x) {
                return;
            }
        }
        let mut before = String::new();
        let mut uses = String::new();
        for k in &seq {
            match k {
                0 => {
                    before.push_str("#[ink::event] pub struct E1 { #[ink(topic)] a: u8 }");
                    uses.push_str("use super::E1;");
                }
                1 => {
                    before.push_str("#[ink::event(anonymous)] pub struct E2 { a: u8 }");
                    uses.push_str("use super::E2;");
                }
                _ => {}
            }
        }
        let body = seq.iter().map(|k| parts[*k]).collect::<Vec<_>>().join("\n    ");
        let t = contract("", &body).replacen("mod c {", &format!("mod c {{‹¦{uses}›"), 1);
        case(c, &format!("‹¦{before}›{t}{ER}"));
    });
}

// ---------------------------------------------------------------------------------------------
// Manifests

/// The manifest that a migration must lead to.
fn migrated_manifest(mut m: toml::Table) -> toml::Table {
    let deps = m["dependencies"].as_table_mut().unwrap();
    let ink = deps.get_mut("ink").unwrap();
    let inherited = ink.as_table().is_some_and(|t| t.contains_key("workspace"));
    if !inherited {
        let mut t = ink.as_table().cloned().unwrap_or_default();
        t.insert("version".into(), "5.0.0".into());
        t.entry("default-features").or_insert(false.into());
        *ink = t.into();
    }
    deps.remove("scale");
    deps.remove("scale-info");
    if let Some(d) = m.get_mut("dev-dependencies").and_then(|d| d.as_table_mut()) {
        if let Some(e) = d.get_mut("ink_e2e") {
            *e = "5.0.0".into();
        }
    }
    if let Some(f) = m.get_mut("features").and_then(|f| f.as_table_mut()) {
        let names: Vec<String> = f.keys().cloned().collect();
        for (_, v) in f.iter_mut() {
            v.as_array_mut().unwrap().retain(|x| {
                let x = x.as_str().unwrap();
                let gone = |d: &str| x == d || x == format!("dep:{d}") || x.starts_with(&format!("{d}/")) || x.starts_with(&format!("{d}?/"));
                names.iter().any(|n| n == x) || !(gone("scale") || gone("scale-info"))
            });
        }
    }
    m
}

fn manifests(ctx: &Ctx) {
    let ink = [
        "[dependencies]\nink = \"4.3\" # the language\n",
        "[dependencies]\nink = { version = \"4\", default-features = false }\n",
        "[dependencies]\nink = { version = \"4\", default-features = true, features = [\"ink-debug\"] }\n",
        "[dependencies]\nother = \"1\" # scale\nink = { path = \"../ink\", package = \"ink\" }\n",
        "[dependencies]\nink = { workspace = true, default-features = false }\n",
        "[dependencies]\nink.workspace = true\n",
        "[dependencies]\nink.version = \"4\"\n",
    ];
    let scale = [
        "",
        "scale = { package = \"parity-scale-codec\", version = \"3\", default-features = false, features = [\"derive\"] }\nscale-info = { version = \"2.5\", default-features = false, features = [\"derive\"], optional = true }\n",
        "scale-info = \"2\"\nscale-value = \"1\"\n",
        "# codec\nscale = \"3\"\nzzz = { version = \"1\", optional = true }\n",
        "\n[dependencies.scale]\npackage = \"parity-scale-codec\"\nversion = \"3\"\n",
        "\n[dependencies.scale-info]\nversion = \"2\"\noptional = true\n",
    ];
    let dev = ["", "\n[dev-dependencies]\nink_e2e = \"4\"\nhex = \"0.4\"\n", "\n[dev-dependencies]\nink_e2e = { version = \"4\" }\n", "\n[dev-dependencies.ink_e2e]\nversion = \"4\"\n", "\n[dev-dependencies]\nscale = \"3\"\n"];
    let features = [
        "",
        "\n[features]\ndefault = [\"std\"]\nstd = [\n    \"ink/std\",\n    \"scale/std\",\n    \"scale-info/std\",\n]\nink-as-dependency = []\n",
        "\n[features]\nstd = [\"scale/std\", \"ink/std\", \"scale-info?/std\", \"zzz/scale\"]\nx = [\"scale-info\", \"std\", \"dep:scale-info\"]\n",
        "\n[features]\nstd = [\"scale\", \"scale-value/std\"]\nscale = [\"scale/derive\"]\n",
    ];
    let rest = ["", "\n[lib]\npath = \"lib.rs\"\n\n[workspace]\n", "\n# End: scale é 💝\n[package.metadata.x]\nink = \"4\"\nscale = \"3\"\n"];
    ctx.explore("manifests", product(&[ink.len(), scale.len(), dev.len(), features.len(), rest.len(), 3]), |i, c| {
        let mut d = Digits(i);
        let m = format!("# M\n[package]\nname = \"a\"\nversion = \"4.3.0\"\nedition = \"2021\"\n\n{}{}{}{}{}", d.pick(&ink), d.pick(&scale), d.pick(&dev), d.pick(&features), d.pick(&rest));
        let enc = Enc::ALL[d.take(3)];
        let Ok(old) = m.parse::<toml::Table>() else { panic!("harness bug: manifest\n{m}") };
        c.state(&m);
        let sc = Scratch::new("mig");
        let code = "#[ink::contract]\nmod c {}\n";
        sc.write("Cargo.toml", &m);
        sc.write("lib.rs", code);
        let mut l = Lsp::start(serde_json::json!({"general": {"positionEncodings": [enc.name()]}}));
        let uri = sc.uri("lib.rs");
        l.notify("textDocument/didOpen", did_open(&uri, 0, code));
        c.step();
        let Reply::Result(r) = l.request("workspace/executeCommand", serde_json::json!({"command": "migrateProject", "arguments": [{"uri": uri}]})).0 else { return c.fail("no reply") };
        let e = &r["edits"][sc.uri("Cargo.toml")];
        let t = match apply_lsp(enc, &m, e) {
            Ok(t) => t,
            Err(x) => return c.fail(format!("{x}: {r}")),
        };
        let got: toml::Table = match t.parse() {
            Ok(x) => x,
            Err(e) => return c.fail(format!("invalid manifest: {e}\n{t}")),
        };
        let want = migrated_manifest(old);
        c.outcome(&want.to_string());
        c.check(got == want, || format!("the manifest becomes\n{t}\ninstead of\n{want}"));
        let after = std::fs::read_to_string(sc.0.join("Cargo.toml")).unwrap_or_default();
        c.check(after == m, || "the command changed the file itself".into());
    });
}

pub fn run(ctx: &Ctx) -> Info {
    events(ctx);
    chain_extensions(ctx);
    scale(ctx);
    hosts(ctx);
    attributes(ctx);
    bodies(ctx);
    imports(ctx);
    mixed(ctx);
    manifests(ctx);
    info(
        format!("all listed construct variants x places; all sequences of at most {} SCALE derive attributes; use trees of at most 3 leaves; all orders of at most {} different constructs in one contract; all listed combinations of manifest sections", ctx.pick(2, 3), ctx.pick(3, 4)),
        &["templates state the old and the new reading of each construct; whitespace and trailing commas are not compared", "uses of removed imports outside e2e tests are not considered"],
    )
}
