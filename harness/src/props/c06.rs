//! C06: contract modules and their storage are accepted iff structurally valid.
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

/// What one root item of a contract contributes.
struct Root {
    /// `%` is replaced with a unique number.
    src: &'static str,
    storages: usize,
    ctors: usize,
    msgs: usize,
    /// Violated by the item itself, whatever surrounds it.
    own: Option<&'static str>,
    /// Only valid in version 5.
    v5: bool,
}

const fn r(src: &'static str, storages: usize, ctors: usize, msgs: usize, own: Option<&'static str>) -> Root {
    Root { src, storages, ctors, msgs, own, v5: false }
}

const ROOTS: [Root; 24] = [
    r("#[ink(storage)]\n    pub struct S% {}", 1, 0, 0, None),
    r("impl S { #[ink(constructor)] pub fn n%() -> Self { todo!() } }", 0, 1, 0, None),
    r("impl S { #[ink(message)] pub fn m%(&self) {} }", 0, 0, 1, None),
    r("impl S { #[ink(constructor, payable)] pub fn n%() -> Self { todo!() } fn h%() {} #[ink(message)] pub fn m%(&mut self) {} #[ink(message)] pub fn o%(&self) {} }", 0, 1, 2, None),
    r("#[ink(event)] pub struct E% { #[ink(topic)] a: u8, b: u8 }", 0, 0, 0, None),
    r("#[derive(Debug)] pub struct P%;", 0, 0, 0, None),
    r("#[ink(storage)] struct S% { a: u8 }", 1, 0, 0, Some("storage must be public")),
    r("#[ink(storage)] pub enum S% { A }", 1, 0, 0, Some("storage must be a struct")),
    r("mod inner% { #[ink(storage)] pub struct S% {} }", 1, 0, 0, Some("storage outside the contract root")),
    r("mod inner% { impl S { #[ink(message)] pub fn m%(&self) {} } }", 0, 0, 1, Some("impl outside the contract root")),
    r("#[ink(message)] pub fn m%(&self) {}", 0, 0, 1, Some("message outside an impl")),
    r("#[ink::trait_definition] pub trait T% { #[ink(message)] fn tm%(&self); }", 0, 0, 0, None),
    r("#[ink::test] fn t%() {}", 0, 0, 0, None),
    r("impl Unknown for S { #[ink(message)] fn m%(&self) {} }", 0, 0, 1, None),
    r("#[ink::storage_item] struct I% { a: u8 }", 0, 0, 0, None),
    Root { src: "#[ink::event] pub struct E% { #[ink(topic)] a: u8 }", storages: 0, ctors: 0, msgs: 0, own: None, v5: true },
    r("#[cfg(test)] mod tests% { use super::*; #[ink::test] fn t() { let _ = 1; } }", 0, 0, 0, None),
    r("#[ink(storage)] #[derive(Default)] pub struct S%(u8, #[allow(dead_code)] u8);", 1, 0, 0, None),
    r("#[ink(impl)] impl S { fn helper%() {} }", 0, 0, 0, None),
    r("mod inner% { #[ink(event)] pub struct E% { a: u8 } }", 0, 0, 0, Some("event outside the contract root")),
    r("use a%::b; const K%: u8 = 1; type A% = u8; fn free%() {} macro_rules! mac% { () => {} } trait Pt% { fn f(); } pub enum En% { A }", 0, 0, 0, None),
    r("impl S { #[ink(constructor)] pub fn n%() -> Self { todo!() } #[ink(event)] pub struct E% { a: u8 } }", 0, 1, 0, Some("event in an impl")),
    r("mod inner% { #[ink::chain_extension] pub trait Ce% {} }", 0, 0, 0, Some("empty chain extension")),
    r("#[ink::contract] mod nested% { #[ink(storage)] pub struct S {} impl S { #[ink(constructor)] pub fn n() -> Self { todo!() } #[ink(message)] pub fn m(&self) {} } }", 0, 0, 0, Some("contract in a contract")),
];

fn roots(ctx: &Ctx) {
    let k = ROOTS.len() as u64;
    let depth = ctx.pick(3, 4);
    let n = seq_count(k, depth);
    ctx.explore("root-item-sequences", n * 2, |i, c| {
        let v = VERSIONS[(i % 2) as usize];
        let seq = seq_decode(i / 2, k);
        // The module may start with items that give it what it needs, so that each rule is reached on its own.
        for base in 0..2u8 {
            if base == 1 && seq.len() == depth as usize {
                continue;
            }
            let (mut st, mut ct, mut ms) = (0, 0, 0);
            let mut viols: Vec<Viol> = vec![];
            let mut body = String::new();
            if base == 1 {
                body.push_str("    #[ink(storage)] pub struct S { v: bool }\n    impl S { #[ink(constructor)] pub fn base() -> Self { todo!() } #[ink(message)] pub fn get(&self) -> bool { self.v } }\n");
                (st, ct, ms) = (1, 1, 1);
            }
            for (j, &it) in seq.iter().enumerate() {
                let it = &ROOTS[it];
                body.push_str(&format!("    «{}»\n", it.src.replace('%', &j.to_string())));
                if st + it.storages > 1 && it.storages > 0 {
                    viols.push(("more than one storage", j + 1));
                }
                st += it.storages;
                ct += it.ctors;
                ms += it.msgs;
                if let Some(own) = it.own {
                    viols.push((own, j + 1));
                }
                if it.v5 && v == Version::V4 {
                    viols.push(("not available in version 4", j + 1));
                }
            }
            if st == 0 {
                viols.push(("missing storage", 0));
            }
            if ct == 0 {
                viols.push(("missing constructor", 0));
            }
            if ms == 0 {
                viols.push(("missing message", 0));
            }
            let src = format!("#![cfg_attr(not(feature = \"std\"), no_std)]\n\n«#[ink::contract]\npub mod c» {{\n{body}}}\n");
            judge(c, &src, v, &viols);
        }
    });
}

const VALID: &str = "#[ink(storage)] pub struct S { v: bool } impl S { #[ink(constructor)] pub fn base() -> Self { todo!() } #[ink(message)] pub fn get(&self) -> bool { self.v } }";

/// What the contract attribute may annotate, and how many contracts a file may have.
fn targets(ctx: &Ctx) {
    let heads = ["", "pub ", "pub(crate) "];
    let attrs = ["#[ink::contract]", "#[ink::contract(env = crate::E)]", "/// Doc.\n#[cfg(feature = \"x\")]\n#[ink::contract(keep_attr = \"a,b\")]\n#[allow(unused)]"];
    let bad = ["mod c;", "struct X { a: u8 }", "fn x() {}", "trait X {}", "enum X { A }", "impl X {}", "const X: u8 = 1;", "static X: u8 = 1;", "type X = u8;", "use a::b;", "union X { a: u8 }", "extern crate a;", "macro_rules! m { () => {} }"];
    ctx.explore("contract-targets", product(&[2, heads.len(), attrs.len(), bad.len() + 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let head = *d.pick(&heads);
        let attr = *d.pick(&attrs);
        let k = d.take(bad.len() + 2);
        // The environment in `env = E` exists.
        let env = if attr.contains("env") { "#[derive(Clone)] pub enum E {} impl ink::env::Environment for E { const MAX_EVENT_TOPICS: usize = 3; }\n" } else { "" };
        if k < 2 {
            let inner = if k == 1 { "#![allow(unused)] //! x\n" } else { "" };
            judge(c, &format!("{env}«{attr}\n{head}mod c {{ {inner}{VALID} }}»"), v, &[]);
        } else {
            let it = bad[k - 2];
            if !head.is_empty() && (it.starts_with("impl") || it.starts_with("macro")) {
                return;
            }
            judge(c, &format!("{env}«{attr}\n{head}{it}»\nstruct After;\n"), v, &[("contract must be an inline module", 0)]);
        }
    });
    let between = ["", "struct Z { a: u8 }\n", "#[ink::trait_definition] pub trait T { #[ink(message)] fn tm(&self); }\n", "mod plain {}\n", "#[ink::storage_item] struct Q { a: u8 }\n"];
    let wrap = ["%", "mod outer { % }", "mod a { mod b { % } }", "#[cfg(test)] mod t { use super::*; % }"];
    ctx.explore("contracts-per-file", product(&[2, 4, between.len(), wrap.len(), wrap.len(), wrap.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let n = d.take(4);
        let b = d.pick(&between);
        let ws = [d.take(wrap.len()), d.take(wrap.len()), d.take(wrap.len())];
        if ws[n.min(3)..].iter().any(|w| *w != 0) {
            return;
        }
        let mut src = b.to_string();
        let mut viols: Vec<Viol> = vec![];
        for (j, w) in ws.iter().enumerate().take(n) {
            let one = format!("«#[ink::contract]\nmod c{j} {{ {VALID} }}»");
            src.push_str(&wrap[*w].replace('%', &one));
            src.push('\n');
            src.push_str(&b.replace(" Z ", &format!(" Z{j} ")).replace(" T ", &format!(" T{j} ")).replace(" Q ", &format!(" Q{j} ")));
            if j > 0 {
                viols.push(("more than one contract", j));
            }
        }
        judge(c, &src, v, &viols);
    });
}

/// Storage shapes.
fn storage(ctx: &Ctx) {
    let vis = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate::a) "];
    let kind = ["struct X { a: u8 }", "struct X {}", "struct X;", "struct X(u8);", "enum X { A }", "union X { a: u8 }", "fn x() {}", "trait X {}", "mod x {}", "const X: u8 = 1;", "type X = u8;", "use a::X;"];
    let attrs = ["#[ink(storage)]", "#[derive(Default)]\n    #[ink(storage)]", "#[ink(storage)]\n    #[derive(Default)]", "/// Doc\n    #[ink( storage )]", "#[ink::storage_item]\n    #[ink(storage)]"];
    ctx.explore("storage-shapes", product(&[2, vis.len(), kind.len(), attrs.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (vi, k, a) = (d.take(vis.len()), d.take(kind.len()), d.take(attrs.len()));
        let mut viols: Vec<Viol> = vec![];
        if vi != 0 && k < 4 {
            viols.push(("storage must be public", 0));
        }
        if k >= 4 {
            viols.push(("storage must be a struct", 0));
        }
        if a == 4 {
            viols.push(("storage conflicts with storage_item", 0));
        }
        judge(c, &format!("#[ink::contract]\nmod c {{\n    «{}\n    {}{}»\n    impl X {{ #[ink(constructor)] pub fn base() -> Self {{ todo!() }} #[ink(message)] pub fn get(&self) {{}} }}\n}}", attrs[a], vis[vi], kind[k]), v, &viols);
    });
    let fields = ["a: u8", "#[ink(topic)] a: u8", "#[cfg(feature = \"x\")] a: u8", "#[ink(storage)] a: u8", "a: [u8; { #[ink(event)] pub struct E { x: u8 } 1 }]", "a: [u8; { struct E { x: u8 } 1 }]", "#[ink(message)] a: u8", "#[ink::test] a: u8", "a: Map<u8, u8>, pub b: S"];
    let bad = [false, true, false, true, true, false, true, true, false];
    ctx.explore("storage-fields", product(&[2, fields.len(), fields.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, b) = (d.take(fields.len()), d.take(fields.len()));
        let mut viols: Vec<Viol> = vec![];
        if bad[a] {
            viols.push(("ink! item in storage", 0));
        }
        if bad[b] {
            viols.push(("ink! item in storage", 1));
        }
        judge(c, &format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct X {{ «{}», «{}» }}\n    impl X {{ #[ink(constructor)] pub fn base() -> Self {{ todo!() }} #[ink(message)] pub fn get(&self) {{}} }}\n}}", fields[a], fields[b].replace("a:", "z:")), v, &viols);
    });
}

/// ink! items outside of any contract, and reserved identifiers.
fn outside(ctx: &Ctx) {
    let items: [(&str, bool); 13] = [
        ("#[ink(storage)] pub struct X {}", false),
        ("#[ink(event)] pub struct X { a: u8 }", false),
        ("impl X { #[ink(message)] pub fn m(&self) {} }", false),
        ("impl X { #[ink(constructor)] pub fn m() -> Self { todo!() } }", false),
        ("#[ink(impl)] impl X {}", false),
        ("#[ink(message)] pub fn m(&self) {}", false),
        ("struct X { #[ink(topic)] a: u8 }", false),
        ("trait X { #[ink(extension = 1)] fn m(); }", false),
        ("#[ink::trait_definition] pub trait T { #[ink(message)] fn tm(&self); }", true),
        ("#[ink::storage_item] struct I { a: u8 }", true),
        ("#[ink::test] fn t() {}", true),
        ("#[ink_e2e::test] async fn t() {}", true),
        ("pub struct X; impl X { pub fn f() {} } trait Tr { fn m(&self); }", true),
    ];
    let wrap = ["%", "mod outer { % }", "mod a { mod b { % } }", "fn f() { % }", "const X: () = { % };", "impl Q { fn g() { % } }"];
    ctx.explore("outside-contracts", product(&[2, items.len(), wrap.len(), 3]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (it, ok) = d.pick(&items);
        let w = d.pick(&wrap);
        let one = w.replace('%', &format!("«{it}»"));
        let con = format!("#[ink::contract]\nmod c {{ {VALID} }}");
        let src = match d.take(3) {
            0 => one,
            1 => format!("{one}\n{con}\n"),
            _ => format!("{con}\n{one}\n"),
        };
        judge(c, &src, v, if *ok { &[] } else { &[("ink! item outside a contract", 0)] });
    });
    let names = ["__ink_x", "__ink_", "x__ink_", "_ink_x", "__inkx", "__INK_x"];
    let places = ["fn «%»() {}", "struct «%»;", "fn f(«%»: u8) {}", "fn f() { let «%» = 1; }", "impl S { #[ink(message)] pub fn «%»(&self) {} }", "mod «%» {}", "use a::«%»;", "#[ink::test] fn «%»() {}", "enum E { «%» }", "const «%»: u8 = 1;"];
    ctx.explore("reserved-identifiers", product(&[2, names.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let n = d.take(names.len());
        let p = d.pick(&places);
        judge(c, &format!("#[ink::contract]\nmod c {{ {VALID}\n    {} }}", p.replace('%', names[n])), v, if n < 2 { &[("reserved identifier", 0)] } else { &[] });
    });
}

pub fn run(ctx: &Ctx) -> Info {
    roots(ctx);
    targets(ctx);
    storage(ctx);
    outside(ctx);
    info(
        format!("all sequences of up to {} root items over {} item kinds (with and without a complete base contract), all attribute targets, up to 3 contracts per file in 4 placements, all storage shapes listed, 13 item kinds outside contracts in 6 placements", ctx.pick(3, 4), ROOTS.len()),
        &["the rule model is written from the ink! 4/5 language rules"],
    )
}
