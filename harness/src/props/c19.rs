//! C19: trait definitions and their implementations are accepted iff they match.
use super::c07::contract;
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

const VIS: [&str; 5] = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate::a) "];
const MODS: [&str; 4] = ["", "unsafe ", "auto ", "unsafe auto "];
const GEN: [&str; 5] = ["", "<T>", "<'a>", "<const N: usize>", "<T: Copy, U>"];
const SUP: [&str; 5] = ["", ": Sized", ": A + B", ": 'static", ": ::ink::x::Y<u8>"];

fn headers(ctx: &Ctx) {
    let attrs = ["#[ink::trait_definition]", "#[ink::trait_definition()]", "#[ink::trait_definition(namespace = \"n\")]", "#[ink::trait_definition(keep_attr = \"a\", namespace = \"n\")]"];
    let bodies = ["#[ink(message)] fn m(&self);", "", "#[ink(message)] fn m(&self); #[ink(message)] fn n(&mut self, a: u8) -> u8;"];
    let places = ["%", "mod deep { pub mod er { % } }", "struct Before; % struct After;"];
    ctx.explore("trait-headers", product(&[2, VIS.len(), MODS.len(), GEN.len(), SUP.len(), attrs.len(), bodies.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (vi, m, g, s, a, b, p) = (d.take(VIS.len()), d.take(MODS.len()), d.take(GEN.len()), d.take(SUP.len()), d.take(attrs.len()), d.take(bodies.len()), d.take(places.len()));
        if ctx.quick() && (vi != 0) as u8 + (m != 0) as u8 + (g != 0) as u8 + (s != 0) as u8 + (a != 0) as u8 + (b != 0) as u8 + (p != 0) as u8 > 4 {
            return;
        }
        let mut viols: Vec<Viol> = vec![];
        for (bad, what) in [(vi != 0, "trait visibility"), (m & 1 != 0, "unsafe trait"), (m & 2 != 0, "auto trait"), (g != 0, "generic trait"), (s != 0, "supertraits"), (b == 1, "no messages")] {
            if bad {
                viols.push((what, 0));
            }
        }
        let src = places[p].replace('%', &format!("«{}\n{}{}trait T{}{} {{ {} }}»", attrs[a], VIS[vi], MODS[m], GEN[g], SUP[s], bodies[b]));
        judge(c, &src, v, &viols);
    });
    // The macro on items that are not traits.
    let items = ["pub struct X { a: u8 }", "pub fn x() {}", "pub mod x {}", "pub enum X { A }", "impl X {}", "pub type X = u8;", "pub const X: u8 = 1;", "pub union X { a: u8 }", "use a::b;", "pub static X: u8 = 1;"];
    ctx.explore("trait-definition-items", product(&[2, items.len(), attrs.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let it = *d.pick(&items);
        let a = *d.pick(&attrs);
        judge(c, &format!("«{a}\n{it}»"), v, &[("trait definition on a non-trait", 0)]);
    });
}

/// Trait items; `None` = legal, and whether it is a message. `@` is replaced by a position-specific name.
const ITEMS: [(&str, Option<&str>, bool); 32] = [
    ("#[ink(message)] fn @(&self);", None, true),
    ("#[ink(message)] fn @(&mut self, a: u8) -> u8;", None, true),
    ("#[ink(message, payable)] fn @(&mut self);", None, true),
    ("#[ink(message, selector = 0x0A@)] fn @(&self);", None, true),
    ("#[ink(message)] #[ink(payable)] #[doc = \"x\"] fn @(&self, a: &str, b: [u8; 4]);", None, true),
    ("#[ink(message, default)] fn @(&self) -> Result<u8, ()>;", None, true),
    ("#[ink(message, selector = _)] fn @(&self);", Some("wildcard selector"), true),
    ("#[ink(message)] #[ink(selector = _)] fn @(&self);", Some("wildcard selector"), true),
    ("fn @(&self);", Some("method without message attribute"), false),
    ("#[ink(constructor)] fn @() -> Self;", Some("constructor in a trait definition"), false),
    ("#[ink(message)] fn @(&self) {}", Some("default implementation"), true),
    ("#[ink(message)] fn @(&self) -> u8 { 1 }", Some("default implementation"), true),
    ("#[ink(message)] fn @();", Some("no receiver"), true),
    ("#[ink(message)] fn @(self);", Some("receiver by value"), true),
    ("#[ink(message)] fn @(mut self);", Some("receiver by value"), true),
    ("#[ink(message)] fn @(self: Self);", Some("receiver by value"), true),
    ("#[ink(message)] fn @(a: u8);", Some("no receiver"), true),
    ("#[ink(message)] fn @(&self) -> Self;", Some("returns Self"), true),
    ("#[ink(message)] fn @<T>(&self, a: T);", Some("generic"), true),
    ("#[ink(message)] fn @<'a>(&'a self);", Some("generic"), true),
    ("#[ink(message)] const fn @(&self);", Some("const"), true),
    ("#[ink(message)] async fn @(&self);", Some("async"), true),
    ("#[ink(message)] unsafe fn @(&self);", Some("unsafe"), true),
    ("#[ink(message)] extern \"C\" fn @(&self);", Some("abi"), true),
    ("#[ink(message)] fn @(&self, ...);", Some("variadic"), true),
    ("const @: u8;", Some("const item"), false),
    ("const @: u8 = 1;", Some("const item"), false),
    ("type @;", Some("type item"), false),
    ("type @: Copy;", Some("type item"), false),
    ("mac!();", Some("macro call"), false),
    ("#[ink(storage)] fn @(&self);", Some("other ink! attribute"), false),
    ("#[ink(event)] fn @(&self);", Some("other ink! attribute"), false),
];

fn items(ctx: &Ctx) {
    let k = ITEMS.len() as u64;
    ctx.explore("trait-items", 2 * seq_count(k, ctx.pick(2, 3)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let seq = seq_decode(d.0, k);
        let mut body = String::new();
        let mut viols: Vec<Viol> = vec![];
        let mut any = false;
        for (n, s) in seq.iter().enumerate() {
            let (t, bad, msg) = ITEMS[*s];
            body.push_str(&format!("\n    «{}»", t.replace("0A@", &format!("0A{n}")).replace('@', &format!("f{n}"))));
            if let Some(w) = bad {
                viols.push((w, n + 1));
            }
            any |= msg;
        }
        if !any {
            viols.push(("no messages", 0));
        }
        // What is blamed for a missing message is the trait's head.
        judge(c, &format!("«#[ink::trait_definition]\npub trait T» {{{body}\n}}"), v, &viols);
    });
    // ink! items nested in a trait definition.
    let inner = ["#[ink(event)] pub struct E { a: u8 }", "#[ink(storage)] pub struct E { a: u8 }", "#[ink::event] pub struct E { a: u8 }", "#[ink::storage_item] struct E { a: u8 }", "#[ink::test] fn t() {}", "#[ink::contract] mod z {}", "#[ink::chain_extension] trait Z {}", "#[ink::trait_definition] trait Z {}"];
    ctx.explore("trait-descendants", product(&[2, inner.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let it = *d.pick(&inner);
        let src = if d.take(2) == 0 {
            format!("#[ink::trait_definition]\npub trait T {{ #[ink(message)] fn m(&self); «fn g(&self) {{ {it} }}» }}")
        } else {
            format!("#[ink::trait_definition]\npub trait T {{ «#[ink(message)] fn m(&self) {{ {it} }}» }}")
        };
        judge(c, &src, v, &[("nested ink! item", 0)]);
    });
}

/// How the trait is named from the impl block, given the trait sits in `mod t` (nested) or at the root.
pub const STYLES: [(&str, &str, &str); 14] = [
    // (trait placement with %, extra items in the contract, path)
    ("%", "", "super::T"),
    ("%", "", "crate::T"),
    ("%", "use super::T;", "T"),
    ("%", "use super::*;", "T"),
    ("%", "use crate::T as U;", "U"),
    ("%", "use crate::{self, T};", "T"),
    ("mod t { % }", "", "super::t::T"),
    ("mod t { % }", "", "crate::t::T"),
    ("mod t { % }", "use crate::t;", "t::T"),
    ("mod t { % }", "use super::t::{T as V};", "V"),
    ("mod t { % }", "use crate::t::*;", "T"),
    ("mod t { pub mod u { % } pub use u::T as W; }", "use super::t::W;", "W"),
    ("mod t { pub mod u { % } }", "use crate::t as z;", "z::u::T"),
    ("mod t { % } pub use t::T;", "", "super::T"),
];

#[derive(Clone, Copy)]
struct Sig {
    args: &'static [&'static str],
    params: &'static str,
    ret: &'static str,
}

/// Normalised argument set.
fn norm(args: &[&'static str]) -> Vec<&'static str> {
    let mut v: Vec<&str> = args.iter().flat_map(|a| a.split("; ")).flat_map(|a| a.split(", ")).collect();
    v.sort_unstable();
    v
}

fn text(args: &[&str]) -> String {
    args.iter().map(|a| format!("#[ink({a})] ")).collect()
}

fn impls(ctx: &Ctx) {
    // Every (declaration, implementation) pair of one message.
    const DARGS: [&[&str]; 8] = [&["message"], &["message, payable"], &["message, selector = 1"], &["message, payable, selector = 0x0B"], &["message, default"], &["message", "payable"], &["message, selector = 2"], &["message, payable, default, selector = 1"]];
    const IARGS: [&[&str]; 16] = [&["message"], &["message, payable"], &["message, selector = 1"], &["message, payable, selector = 0x0B"], &["message, default"], &["message", "payable"], &["message, selector = 2"], &["message, payable, default, selector = 1"], &["message, selector = 1, payable"], &["message", "selector = 1"], &["message", "payable", "selector = 0x0B"], &["message, selector = 0x0C"], &["message, selector = 1, default, payable"], &["message", "default"], &["message, selector = _"], &["message, payable, selector = _"]];
    const PARAMS: [&str; 7] = ["&self", "&mut self", "&self, a: u8", "&self, a: u16", "&mut self, a: u8", "&self, a: u8, b: u8", "&self, a: &[u8]"];
    const RETS: [&str; 4] = ["", "-> u8", "-> u16", "-> Result<u8, ()>"];
    let params = if ctx.quick() { &PARAMS[..5] } else { &PARAMS[..] };
    let rets = if ctx.quick() { &RETS[..3] } else { &RETS[..] };
    ctx.explore("message-pairs", product(&[2, DARGS.len(), IARGS.len(), params.len(), params.len(), rets.len(), rets.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (da, ia, dp, ip, dr, ir) = (d.take(DARGS.len()), d.take(IARGS.len()), d.take(params.len()), d.take(params.len()), d.take(rets.len()), d.take(rets.len()));
        if ctx.quick() && (norm(DARGS[da]) != norm(IARGS[ia])) as u8 + (dp != ip) as u8 + (dr != ir) as u8 > 1 {
            return;
        }
        if ia >= 14 && v == Version::V5 {
            // A wildcard selector needs a complement in version 5 (see C08).
            return;
        }
        let decl = Sig { args: DARGS[da], params: params[dp], ret: rets[dr] };
        let imp = Sig { args: IARGS[ia], params: params[ip], ret: rets[ir] };
        let mut viols: Vec<Viol> = vec![];
        if norm(decl.args) != norm(imp.args) {
            viols.push(("ink! arguments differ from the declaration", 0));
        }
        if dp != ip {
            viols.push(("parameters differ from the declaration", 0));
        }
        if dr != ir {
            viols.push(("return type differs from the declaration", 0));
        }
        let src = format!(
            "#[ink::trait_definition]\npub trait T {{ {}fn m({}) {}; }}\n{}",
            text(decl.args), decl.params, decl.ret,
            contract(&format!("impl super::T for S {{ «{}fn m({}) {} {{ todo!() }}» }}", text(imp.args), imp.params, imp.ret))
        );
        judge(c, &src, v, &viols);
    });
    // Layout of a signature doesn't matter; everything else does.
    const SIGS: [(&str, &str); 12] = [
        ("(&self, a: u8, b: Vec<u8>) -> Result<u8, ()>", "a"),
        ("( & self,a:u8,b:Vec<u8> )->Result<u8,()>", "a"),
        ("(\n        &self,\n        a: u8,\n        b: Vec<u8>\n    )\n        -> Result<u8, ()>", "a"),
        ("(&self, /* first */ a: u8, b: Vec< u8 >) -> /* x */ Result<u8, ( )>", "a"),
        ("(&self, a: u8, // first\n b: Vec<u8>) -> Result<\n u8,\n ()\n>", "a"),
        ("(&self, a: u8, b: Vec<u16>) -> Result<u8, ()>", "b"),
        ("(&self, a: u8, b: Vec< u16 >) -> Result<u8, ()>", "b"),
        ("(&self, a: u8, b: Vec<u8>) -> Result<u8, u8>", "c"),
        ("(&self, a: u8, b: Vec<u8>) -> Result< u8, /* y */ u8 >", "c"),
        ("(&self, a: u8) -> Result<u8, ()>", "d"),
        ("(&mut self, a: u8, b: Vec<u8>) -> Result<u8, ()>", "e"),
        ("(& mut self, a: u8, b: Vec<u8>)-> Result<u8, ()>", "e"),
    ];
    ctx.explore("signature-layouts", product(&[2, SIGS.len(), SIGS.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let ((ds, dk), (is, ik)) = (*d.pick(&SIGS), *d.pick(&SIGS));
        let src = format!("#[ink::trait_definition]\npub trait T {{ #[ink(message)] fn m{ds}; }}\n{}", contract(&format!("impl super::T for S {{ «#[ink(message)] fn m{is} {{ todo!() }}» }}")));
        judge(c, &src, v, if dk == ik { &[] } else { &[("signature differs from the declaration", 0)] });
    });
    // Item lists of the impl block, against every subset of declared messages.
    const DECL: [&str; 3] = ["#[ink(message)] fn m0(&self);", "#[ink(message, payable)] fn m1(&mut self, a: u8) -> u8;", "#[ink(message, selector = 5)] fn m2(&self);"];
    const IMPL: [&str; 9] = ["#[ink(message)] fn m0(&self) {}", "#[ink(message, payable)] fn m1(&mut self, a: u8) -> u8 { a }", "#[ink(message, selector = 5)] fn m2(&self) {}", "#[ink(message)] fn x(&self) {}", "fn plain(&self) {}", "const K: u8 = 1;", "type Y = u8;", "mac!();", "#[ink(constructor)] fn k() -> Self { S { v: 1 } }"];
    let k = IMPL.len() as u64;
    ctx.explore("impl-items", 2 * 7 * 2 * seq_count(k, ctx.pick(3, 4)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let decl = d.take(7) + 1;
        let attr = ["", "#[ink(impl)] "][d.take(2)];
        let seq = seq_decode(d.0, k);
        if (0..seq.len()).any(|a| seq[..a].contains(&seq[a])) {
            return;
        }
        let ink = !attr.is_empty() || seq.iter().any(|s| matches!(s, 0..=3 | 8));
        if !ink {
            // An impl block without any ink! attribute is not an ink! impl block.
            return;
        }
        let mut viols: Vec<Viol> = vec![];
        let mut body = String::new();
        for (n, s) in seq.iter().enumerate() {
            body.push_str(&format!("\n        «{}»", IMPL[*s]));
            if *s > 2 || decl >> s & 1 == 0 {
                viols.push(("item that the trait definition does not declare", n + 1));
            }
        }
        if (0..3).any(|m| decl >> m & 1 == 1 && !seq.contains(&m)) {
            viols.push(("missing message", 0));
        }
        let ds: Vec<&str> = (0..3).filter(|m| decl >> m & 1 == 1).map(|m| DECL[m]).collect();
        let src = format!("#[ink::trait_definition]\npub trait T {{ {} }}\n{}", ds.join(" "), contract(&format!("«{attr}impl super::T for S» {{{body}\n    }}")));
        judge(c, &src, v, &viols);
    });
    // Ways of naming the trait.
    let decls = ["#[ink::trait_definition] pub trait T { #[ink(message)] fn m(&self); }", "#[ink::trait_definition(namespace = \"n\")] pub trait T { #[ink(message)] fn m(&self, a: u8); #[ink(message)] fn n(&self); }", "pub trait T { fn m(&self); fn n(&self); }"];
    let imps = ["#[ink(message)] fn m(&self) {}", "#[ink(message)] fn m(&self, a: u8) {} #[ink(message)] fn n(&self) {}", "#[ink(message)] fn m(&self) -> u8 { 1 } #[ink(message)] fn n(&self) {}"];
    ctx.explore("trait-references", product(&[2, STYLES.len(), decls.len(), imps.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (pl, extra, path) = *d.pick(&STYLES);
        let (dk, ik) = (d.take(decls.len()), d.take(imps.len()));
        let src = format!("{}\n{}", pl.replace('%', decls[dk]), contract(&format!("{extra}\n«impl {path} for S {{ {} }}»", imps[ik])));
        // A trait that is not an ink! trait definition imposes nothing.
        let ok = dk == 2 || dk == ik;
        judge(c, &src, v, if ok { &[] } else { &[("impl does not match the trait definition", 0)] });
    });
}

pub fn run(ctx: &Ctx) -> Info {
    headers(ctx);
    items(ctx);
    impls(ctx);
    info(
        format!("product of trait header parts ({}); every sequence of up to {} of {} trait items; every (declaration, implementation) pair of one message ({}); every impl item list up to {} items against every set of declared messages; {} ways of naming the trait", ctx.pick("at most 4 deviations", "full"), ctx.pick(2, 3), ITEMS.len(), ctx.pick("at most one difference", "all"), ctx.pick(3, 4), STYLES.len()),
        &["selectors that differ only in notation and parameters that differ only in name are not compared", "the rule model is written from the ink! 4/5 language rules"],
    )
}
