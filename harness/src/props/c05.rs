//! C05: attribute completions and actions offer exactly what is legal in context.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Mod,
    Trait,
    Struct,
    Enum,
    Union,
    Fn,
    Impl,
    TraitImpl,
    Field,
    Other,
}
use Kind::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scope {
    Root,
    Contract,
    InkImpl,
    TraitDef,
    ChainExt,
    Event,
    /// An ink! item that allows no ink! attribute argument inside.
    Leaf,
    /// Like `Leaf`, inside a function body or signature.
    LeafFn,
}

pub struct Cx {
    pub name: &'static str,
    pub src: &'static str,
    pub scope: Scope,
    /// 0 no test scope, 1 `cfg(test)`, 2 `cfg(all(test, feature = "e2e-tests"))`.
    pub cfg: u8,
    pub items: &'static [(Kind, &'static str)],
    /// Versions in which the context is well-formed.
    pub v: &'static [Version],
    /// Messages that implement a trait definition take their arguments from it.
    pub inherits: bool,
}

const V45: &[Version] = &[Version::V4, Version::V5];
const V5: &[Version] = &[Version::V5];
const MODULE_ITEMS: &[(Kind, &str)] = &[
    (Mod, "mod xx {}"),
    (Mod, "pub mod xx { use super::*; }"),
    (Trait, "pub trait xx {}"),
    (Struct, "pub struct xx { a: u8 }"),
    (Struct, "struct xx;"),
    (Struct, "pub(crate) struct xx;"),
    (Enum, "pub enum xx { A }"),
    (Union, "pub union xx { a: u8 }"),
    (Impl, "impl xx {}"),
    (TraitImpl, "impl Other for xx {}"),
    (Other, "const xx: u8 = 1;"),
    (Other, "static xx: u8 = 1;"),
    (Other, "type xx = u8;"),
    (Other, "use a::xx;"),
];
const BODY_ITEMS: &[(Kind, &str)] = &[(Struct, "struct xx { a: u8 }"), (Enum, "enum xx { A }"), (Fn, "fn xx() {}"), (Other, "const xx: u8 = 1;")];
const CONTRACT: &str = "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S { v: u8 }\n    impl S { #[ink(constructor)] pub fn base() -> Self { S { v: 0 } } #[ink(message)] pub fn m0(&self) {} }\n    HERE\n}\n";
pub const CXS: &[Cx] = &[
    Cx { name: "root", src: "HERE\n", scope: Scope::Root, cfg: 0, items: MODULE_ITEMS, v: V45, inherits: false },
    Cx { name: "root fn", src: "HERE\n", scope: Scope::Root, cfg: 0, items: &[(Fn, "fn xx() {}")], v: V45, inherits: false },
    Cx { name: "root module", src: "mod outer {\n    HERE\n}\n", scope: Scope::Root, cfg: 0, items: MODULE_ITEMS, v: V45, inherits: false },
    Cx { name: "contract", src: "HERE", scope: Scope::Contract, cfg: 0, items: MODULE_ITEMS, v: V45, inherits: false },
    Cx { name: "impl", src: "impl S {\n        HERE\n    }", scope: Scope::Contract, cfg: 0, items: &[(Fn, "pub fn xx(&self) {}"), (Fn, "pub fn xx() -> Self { todo!() }"), (Other, "const xx: u8 = 1;"), (Other, "type xx = u8;")], v: V45, inherits: false },
    Cx { name: "ink impl", src: "#[ink(impl)]\n    impl S {\n        HERE\n    }", scope: Scope::InkImpl, cfg: 0, items: &[(Fn, "pub fn xx(&self) {}"), (Fn, "fn xx() {}")], v: V45, inherits: false },
    Cx { name: "ink impl with namespace", src: "#[ink(impl, namespace = \"n\")]\n    impl S {\n        HERE\n    }", scope: Scope::InkImpl, cfg: 0, items: &[(Fn, "pub fn xx(&self) {}")], v: V45, inherits: false },
    Cx { name: "trait definition impl", src: "impl Td for S {\n        HERE\n    }", scope: Scope::Contract, cfg: 0, items: &[(Fn, "fn xx(&self) {}")], v: V45, inherits: true },
    Cx { name: "trait definition", src: "#[ink::trait_definition]\npub trait T {\n    HERE\n}\n", scope: Scope::TraitDef, cfg: 0, items: &[(Fn, "fn xx(&self);")], v: V45, inherits: false },
    Cx { name: "trait definition in contract", src: "#[ink::trait_definition(namespace = \"n\")]\n    pub trait T {\n        HERE\n    }", scope: Scope::TraitDef, cfg: 0, items: &[(Fn, "fn xx(&mut self, a: u8) -> u8;")], v: V45, inherits: false },
    Cx { name: "chain extension", src: "#[ink::chain_extension(extension = 7)]\npub trait T {\n    type ErrorCode = ();\n    HERE\n}\n", scope: Scope::ChainExt, cfg: 0, items: &[(Fn, "fn xx();")], v: V45, inherits: false },
    Cx { name: "event", src: "#[ink(event)]\n    pub struct Ev {\n        z: u8,\n        HERE\n    }", scope: Scope::Event, cfg: 0, items: &[(Field, "xx: u8,"), (Field, "pub xx: Vec<u8>,")], v: V45, inherits: false },
    Cx { name: "anonymous event", src: "#[ink(event)]\n    #[ink(anonymous)]\n    pub struct Ev {\n        HERE\n    }", scope: Scope::Event, cfg: 0, items: &[(Field, "xx: u8,")], v: V45, inherits: false },
    Cx { name: "event 2.0", src: "#[ink::event]\npub struct Ev {\n    HERE\n}\n", scope: Scope::Event, cfg: 0, items: &[(Field, "xx: u8,"), (Field, "pub xx: u8")], v: V5, inherits: false },
    Cx { name: "storage", src: "#[ink(storage)]\n    pub struct St {\n        HERE\n    }", scope: Scope::Leaf, cfg: 0, items: &[(Field, "xx: u8,")], v: V45, inherits: false },
    Cx { name: "storage item", src: "#[ink::storage_item]\npub struct Si {\n    HERE\n}\n", scope: Scope::Leaf, cfg: 0, items: &[(Field, "xx: u8,")], v: V45, inherits: false },
    Cx { name: "contract struct", src: "pub struct Plain {\n        HERE\n    }", scope: Scope::Contract, cfg: 0, items: &[(Field, "xx: u8,")], v: V45, inherits: false },
    Cx { name: "message body", src: "impl S {\n        #[ink(message)]\n        pub fn m(&self) {\n            HERE\n        }\n    }", scope: Scope::LeafFn, cfg: 0, items: BODY_ITEMS, v: V45, inherits: false },
    Cx { name: "constructor body", src: "impl S {\n        #[ink(constructor)]\n        pub fn n() -> Self {\n            HERE\n        }\n    }", scope: Scope::LeafFn, cfg: 0, items: BODY_ITEMS, v: V45, inherits: false },
    Cx { name: "tests", src: "#[cfg(test)]\n    mod tests {\n        HERE\n    }", scope: Scope::Contract, cfg: 1, items: &[(Fn, "fn xx() {}")], v: V45, inherits: false },
    Cx { name: "e2e tests", src: "#[cfg(all(test, feature = \"e2e-tests\"))]\n    mod tests {\n        HERE\n    }", scope: Scope::Contract, cfg: 2, items: &[(Fn, "async fn xx() {}")], v: V45, inherits: false },
    Cx { name: "root tests", src: "#[cfg(test)]\nmod tests {\n    HERE\n}\n", scope: Scope::Root, cfg: 1, items: &[(Fn, "fn xx() {}")], v: V45, inherits: false },
    Cx { name: "root e2e tests", src: "#[cfg(all(test, feature = \"e2e-tests\"))]\nmod tests {\n    HERE\n}\n", scope: Scope::Root, cfg: 2, items: &[(Fn, "fn xx() {}")], v: V45, inherits: false },
    Cx { name: "test body", src: "#[cfg(test)]\nmod tests {\n    #[ink::test]\n    fn t() {\n        HERE\n    }\n}\n", scope: Scope::LeafFn, cfg: 1, items: BODY_ITEMS, v: V45, inherits: false },
];

impl Cx {
    pub fn program(&self, item: &str) -> String {
        let wrapped = self.name != "root" && !self.name.starts_with("root ") && !matches!(self.name, "trait definition" | "chain extension" | "event 2.0" | "storage item" | "test body");
        let body = self.src.replace("HERE", item);
        if wrapped {
            format!("#[ink::trait_definition] pub trait Td {{ #[ink(message)] fn td(&self); }}\n{}", CONTRACT.replace("HERE", &body))
        } else {
            body
        }
    }
}

/// Macros that an item of a kind can carry.
pub fn macros_of(k: Kind, v: Version) -> &'static [&'static str] {
    match (k, v) {
        (Mod, _) => &["contract"],
        (Trait, _) => &["chain_extension", "trait_definition"],
        (Struct, Version::V5) => &["event", "scale_derive", "storage_item"],
        (Enum | Union, Version::V5) => &["scale_derive", "storage_item"],
        (Struct | Enum | Union, _) => &["storage_item"],
        (Fn, _) => &["test", "e2e test"],
        _ => &[],
    }
}

pub fn macro_in_scope(m: &str, s: Scope, v: Version) -> bool {
    let v5 = v == Version::V5;
    match s {
        Scope::Root => true,
        Scope::Contract => m != "contract" && (v5 || !["event", "scale_derive"].contains(&m)),
        Scope::InkImpl | Scope::TraitDef | Scope::ChainExt | Scope::LeafFn => v5 && m == "scale_derive",
        Scope::Event | Scope::Leaf => false,
    }
}

/// Arguments of `#[ink(..)]` attributes that an item of a kind can carry.
pub fn args_of(k: Kind, v: Version) -> &'static [&'static str] {
    match (k, v) {
        (Struct, Version::V5) => &["anonymous", "event", "signature_topic", "storage"],
        (Struct, _) => &["anonymous", "event", "storage"],
        (Field, _) => &["topic"],
        (Fn, Version::V5) => &["constructor", "default", "function", "handle_status", "message", "payable", "selector"],
        (Fn, _) => &["constructor", "default", "extension", "handle_status", "message", "payable", "selector"],
        (Impl, _) => &["impl", "namespace"],
        (TraitImpl, _) => &["impl"],
        _ => &[],
    }
}

pub fn arg_in_scope(a: &str, s: Scope, v: Version) -> bool {
    let v5 = v == Version::V5;
    let callable = ["constructor", "default", "message", "payable", "selector"].contains(&a);
    match s {
        Scope::Root => true,
        Scope::Contract => callable || ["anonymous", "event", "impl", "namespace", "storage"].contains(&a) || v5 && a == "signature_topic",
        Scope::InkImpl => callable,
        Scope::TraitDef => callable && a != "constructor",
        Scope::ChainExt => a == "handle_status" || a == if v5 { "function" } else { "extension" },
        Scope::Event => a == "topic",
        Scope::Leaf | Scope::LeafFn => false,
    }
}

/// Arguments that may accompany a defining macro.
pub fn macro_args(m: &str, v: Version) -> &'static [&'static str] {
    match (m, v) {
        ("contract", _) => &["env", "keep_attr"],
        ("chain_extension", Version::V5) => &["extension"],
        ("event", Version::V5) => &["anonymous", "signature_topic"],
        ("storage_item", _) => &["derive"],
        ("trait_definition", _) => &["keep_attr", "namespace"],
        ("e2e test", Version::V5) => &["backend", "environment"],
        ("e2e test", _) => &["additional_contracts", "environment", "keep_attr"],
        ("scale_derive", Version::V5) => &["Encode", "Decode", "TypeInfo"],
        _ => &[],
    }
}

/// Groups of arguments that can be combined: the defining ones exclude each other.
pub fn groups(v: Version) -> Vec<(&'static [&'static str], &'static [&'static str])> {
    let v5 = v == Version::V5;
    vec![
        (&["constructor", "message"], &["default", "payable", "selector"]),
        (&["event"], if v5 { &["anonymous", "signature_topic"] } else { &["anonymous"] }),
        (&["storage"], &[]),
        (&["topic"], &[]),
        (&["impl"], &["namespace"]),
        (if v5 { &["function"] } else { &["extension"] }, &["handle_status"]),
    ]
}

pub fn text(a: &str) -> String {
    match a {
        "selector" => "selector = 77".into(),
        "extension" | "function" => format!("{a} = 3"),
        "handle_status" | "derive" => format!("{a} = true"),
        "namespace" => "namespace = \"n\"".into(),
        "signature_topic" => format!("signature_topic = \"{}\"", "1".repeat(64)),
        "keep_attr" | "additional_contracts" => format!("{a} = \"x\""),
        "env" | "environment" => format!("{a} = ink::env::DefaultEnvironment"),
        "backend" => "backend(node)".into(),
        _ => a.into(),
    }
}

pub fn macro_path(m: &str) -> String {
    match m {
        "e2e test" => "ink_e2e::test".into(),
        m => format!("ink::{m}"),
    }
}

/// What the item already carries.
#[derive(Clone, Debug)]
pub enum Have {
    Nothing,
    Macro(&'static str, Vec<&'static str>),
    Args(Vec<&'static str>),
}

pub fn subsets(xs: &[&'static str]) -> Vec<Vec<&'static str>> {
    (0..1usize << xs.len()).map(|m| xs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect()).collect()
}

pub fn haves(k: Kind, s: Scope, inherits: bool, v: Version) -> Vec<Have> {
    if inherits {
        return vec![Have::Args(vec!["message"])];
    }
    let mut out = vec![Have::Nothing];
    for m in macros_of(k, v).iter().filter(|m| macro_in_scope(m, s, v)) {
        for args in subsets(macro_args(m, v)) {
            if !(args.contains(&"anonymous") && args.contains(&"signature_topic")) {
                out.push(Have::Macro(m, args));
            }
        }
    }
    if s == Scope::Root {
        return out;
    }
    let ok = |a: &&'static str| args_of(k, v).contains(a) && arg_in_scope(a, s, v);
    for (mains, extras) in groups(v) {
        let extras: Vec<&str> = extras.iter().copied().filter(|a| ok(a)).collect();
        for sub in subsets(&extras) {
            if sub.contains(&"anonymous") && sub.contains(&"signature_topic") {
                continue;
            }
            for m in mains.iter().filter(|a| ok(a)) {
                let mut a = vec![*m];
                a.extend(&sub);
                out.push(Have::Args(a));
            }
            if !sub.is_empty() {
                out.push(Have::Args(sub));
            }
        }
    }
    out
}

pub fn permutations(xs: &[String]) -> Vec<Vec<String>> {
    if xs.len() < 2 {
        return vec![xs.to_vec()];
    }
    let mut out = vec![];
    for i in 0..xs.len() {
        let mut rest = xs.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

/// The ways to write the existing attributes (in any order of arguments).
pub fn layouts(h: &Have, quick: bool) -> Vec<Vec<String>> {
    match h {
        Have::Nothing => vec![vec![]],
        Have::Macro(m, args) if args.is_empty() => vec![vec![format!("#[{}]", macro_path(m))], vec![format!("#[{}()]", macro_path(m))]],
        Have::Macro(m, args) => permutations(&args.iter().map(|a| text(a)).collect::<Vec<_>>()).into_iter().map(|p| vec![format!("#[{}({})]", macro_path(m), p.join(", "))]).collect(),
        Have::Args(args) => {
            let mut out = vec![];
            for p in permutations(&args.iter().map(|a| text(a)).collect::<Vec<_>>()) {
                out.push(vec![format!("#[ink({})]", p.join(", "))]);
                if p.len() > 1 {
                    out.push(p.iter().map(|a| format!("#[ink({a})]")).collect());
                }
                if p.len() > 2 {
                    out.push(vec![format!("#[ink({})]", p[0]), format!("#[ink({})]", p[1..].join(", "))]);
                }
                if quick && out.len() > 6 {
                    break;
                }
            }
            out
        }
    }
}

pub type Set = BTreeSet<String>;

/// The arguments that may still be added.
pub fn legal_args(k: Kind, s: Scope, have: &Have, v: Version) -> Set {
    let clash = |have: &[&str], a: &str| have.contains(&a) || v == Version::V5 && (a == "anonymous" && have.contains(&"signature_topic") || a == "signature_topic" && have.contains(&"anonymous"));
    match have {
        Have::Nothing => args_of(k, v).iter().filter(|a| arg_in_scope(a, s, v)).map(|a| a.to_string()).collect(),
        Have::Macro(m, args) => macro_args(m, v).iter().filter(|a| !clash(args, a)).map(|a| a.to_string()).collect(),
        Have::Args(args) => {
            let (mains, extras) = groups(v).into_iter().find(|(m, e)| args.iter().any(|a| m.contains(a) || e.contains(a))).unwrap();
            let defined = args.iter().any(|a| mains.contains(a));
            let mut out: Set = extras.iter().filter(|a| !clash(args, a)).map(|a| a.to_string()).collect();
            if !defined {
                out.extend(mains.iter().map(|m| m.to_string()));
                // Before the item is defined as an event, only the defining argument is offered.
                if mains.contains(&"event") {
                    out.retain(|a| a == "event");
                }
            }
            out.retain(|a| args_of(k, v).contains(&a.as_str()) && arg_in_scope(a, s, v));
            out
        }
    }
}

pub fn legal_macros(k: Kind, s: Scope, have: &Have, v: Version) -> Set {
    match have {
        Have::Nothing => macros_of(k, v).iter().filter(|m| macro_in_scope(m, s, v)).map(|m| m.to_string()).collect(),
        _ => Set::new(),
    }
}

/// Attribute offers among actions: (macros, arguments, arguments added by an error's quick fix).
fn action_offers(a: &Analysis, p: usize) -> (Set, Set, Set) {
    let (mut ms, mut xs, mut qs) = (Set::new(), Set::new(), Set::new());
    for x in a.actions(tr(p, p)) {
        let l = x.label.strip_prefix("Add ink! ").unwrap_or("");
        if let Some(m) = l.strip_suffix(" attribute macro.") {
            ms.insert(m.to_owned());
        } else if let Some(m) = l.strip_suffix(" attribute argument.") {
            xs.insert(m.to_owned());
        } else if x.label.starts_with("Add ") && x.kind == ActionKind::QuickFix && x.edits.len() == 1 {
            // An error's quick fix may add the same argument, and the action is then not repeated.
            let t = x.edits[0].text.trim_start_matches("#[ink(").trim_start_matches(|c: char| !c.is_alphabetic());
            let name: String = t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !name.is_empty() {
                qs.insert(name);
            }
        }
    }
    (ms, xs, qs)
}

fn completion_offers(a: &Analysis, p: usize) -> (Set, Set) {
    let (mut ms, mut xs) = (Set::new(), Set::new());
    for x in a.completions(ts(p)) {
        let d = x.detail.unwrap_or_default();
        if let Some(m) = d.strip_prefix("ink! ").and_then(|d| d.strip_suffix(" attribute macro.")) {
            ms.insert(m.to_owned());
        } else if let Some(m) = d.strip_prefix("ink! ").and_then(|d| d.strip_suffix(" attribute argument.")) {
            xs.insert(m.to_owned());
        }
    }
    (ms, xs)
}

pub struct Inst {
    pub cx: usize,
    pub item: usize,
    pub v: Version,
    pub have: Have,
    pub attrs: Vec<String>,
}

pub fn instances(quick: bool) -> Vec<Inst> {
    let mut out = vec![];
    for (ci, cx) in CXS.iter().enumerate() {
        for (ii, (k, _)) in cx.items.iter().enumerate() {
            for v in cx.v {
                for have in haves(*k, cx.scope, cx.inherits, *v) {
                    for attrs in layouts(&have, quick) {
                        out.push(Inst { cx: ci, item: ii, v: *v, have: have.clone(), attrs });
                    }
                }
            }
        }
    }
    out
}

const NOISE: [(&str, &str); 4] = [("", ""), ("/// Docs.\n", ""), ("#[allow(dead_code)] ", ""), ("", "\n#[cfg_attr(feature = \"std\", derive(Debug))]\n")];

fn actions(ctx: &Ctx) {
    let all = instances(ctx.quick());
    ctx.explore("actions", product(&[NOISE.len(), all.len()]), |i, c| {
        let mut d = Digits(i);
        let (pre, post) = NOISE[d.take(NOISE.len())];
        let Inst { cx, item, v, have, attrs } = &all[d.0 as usize];
        let cx = &CXS[*cx];
        let (k, it) = cx.items[*item];
        let code = cx.program(&format!("{pre}{}{post}{it}", attrs.concat()));
        c.state(&format!("{} {}\n{code}", vname(*v), cx.name));
        let a = Analysis::new(&code, *v);
        // Focus on the item.
        let p = code.find("xx").unwrap();
        let (ms, xs, qs) = action_offers(&a, p);
        c.step();
        c.outcome(&(&ms, &xs));
        let mut want_m = legal_macros(k, cx.scope, have, *v);
        if cx.cfg < 1 {
            want_m.remove("test");
        }
        if cx.cfg < 2 {
            want_m.remove("e2e test");
        }
        let want_x = if cx.inherits { Set::new() } else { legal_args(k, cx.scope, have, *v) };
        c.check(ms == want_m, || format!("item actions offer macros {ms:?}, legal are {want_m:?}"));
        c.check(xs.is_subset(&want_x) && want_x.iter().all(|x| xs.contains(x) || qs.contains(x)), || format!("item actions offer arguments {xs:?}, legal are {want_x:?}"));
        // Focus on each of the item's ink! attributes.
        for at in attrs {
            let p = code.rfind(at.as_str()).unwrap() + 3;
            let (ms, xs, qs) = action_offers(&a, p);
            c.step();
            c.check(ms.is_empty(), || format!("actions on {at} offer macros {ms:?}"));
            c.check(xs.is_subset(&want_x) && want_x.iter().all(|x| xs.contains(x) || qs.contains(x)), || format!("actions on {at} offer arguments {xs:?}, legal are {want_x:?}"));
        }
    });
}

/// Positions where an attribute is being written: (text, cursor in it, 1 macro names / 2 macro names of the ink crate / 3 arguments).
fn completions(ctx: &Ctx) {
    let all: Vec<Inst> = instances(ctx.quick()).into_iter().filter(|i| !CXS[i.cx].inherits).collect();
    const FRESH: [(&str, usize, u8); 6] = [("#[]", 2, 1), ("#[ink::]", 7, 2), ("#[ink()]", 6, 3), ("#[ink( )]", 6, 3), ("#[ink_e2e::]", 11, 4), ("#[ink(,)]", 7, 3)];
    ctx.explore("new-attribute", product(&[NOISE.len(), FRESH.len(), 2, all.len()]), |i, c| {
        let mut d = Digits(i);
        let (pre, post) = NOISE[d.take(NOISE.len())];
        let (fresh, off, what) = FRESH[d.take(FRESH.len())];
        let first = d.take(2) == 0;
        let Inst { cx, item, v, have, attrs } = &all[d.0 as usize];
        let cx = &CXS[*cx];
        let (k, it) = cx.items[*item];
        if attrs.is_empty() && !first {
            return;
        }
        // To the parser, the brackets of an incomplete path aren't closed: the item is uncertain.
        if [2, 4].contains(&what) && [Other, Field].contains(&k) {
            return;
        }
        let at = if first { format!("«»{fresh} {}", attrs.concat()) } else { format!("{} «»{fresh}", attrs.concat()) };
        let (code, marks) = marked(&cx.program(&format!("{pre}{at}{post} {it}")));
        let p = marks[0].0 + off;
        c.state(&format!("{} {} @{p}\n{code}", vname(*v), cx.name));
        let a = Analysis::new(&code, *v);
        let (ms, xs) = completion_offers(&a, p);
        c.step();
        c.outcome(&(&ms, &xs));
        let lm = legal_macros(k, cx.scope, have, *v);
        let want_m: Set = match what {
            1 => lm,
            2 => lm.into_iter().filter(|m| m != "e2e test").collect(),
            4 => lm.into_iter().filter(|m| m == "e2e test").collect(),
            _ => Set::new(),
        };
        c.check(ms == want_m, || format!("completions offer macros {ms:?}, legal are {want_m:?}"));
        // The arguments of a macro are written in its own attribute.
        let want_x = if what == 3 && !matches!(have, Have::Macro(..)) { legal_args(k, cx.scope, have, *v) } else { Set::new() };
        c.check(xs == want_x, || format!("completions offer arguments {xs:?}, legal are {want_x:?}"));
    });
    // Another argument in an existing attribute: after the last one, or before the first one.
    ctx.explore("existing-attribute", product(&[2, all.len()]), |i, c| {
        let mut d = Digits(i);
        let form = d.take(2);
        let Inst { cx, item, v, have, attrs } = &all[d.0 as usize];
        let cx = &CXS[*cx];
        let (k, it) = cx.items[*item];
        for n in 0..attrs.len() {
            let mut at = attrs.clone();
            let s = &attrs[n];
            if let Some(body) = s.strip_suffix("()]") {
                at[n] = format!("{body}(«»)]");
            } else if let Some(body) = s.strip_suffix(")]") {
                at[n] = format!("{body},{}«»)]", [" ", ""][form]);
            } else {
                continue;
            }
            let (code, marks) = marked(&cx.program(&format!("{} {it}", at.concat())));
            let p = marks[0].0;
            c.state(&format!("{} {} @{p}\n{code}", vname(*v), cx.name));
            let a = Analysis::new(&code, *v);
            let (ms, xs) = completion_offers(&a, p);
            c.step();
            c.check(ms.is_empty(), || format!("completions offer macros {ms:?}"));
            let want_x = legal_args(k, cx.scope, have, *v);
            c.check(xs == want_x, || format!("completions offer arguments {xs:?}, legal are {want_x:?}"));
        }
    });
    // A partially written argument or macro narrows the offers to the matching ones.
    let names: Vec<&str> = ["constructor", "default", "message", "payable", "selector", "event", "anonymous", "signature_topic", "storage", "impl", "namespace", "topic", "extension", "function", "handle_status", "contract", "trait_definition", "chain_extension", "storage_item", "scale_derive", "test", "zz"].to_vec();
    let fresh: Vec<&Inst> = all.iter().filter(|i| matches!(i.have, Have::Nothing)).collect();
    ctx.explore("prefixes", product(&[2, names.len(), 4, fresh.len()]), |i, c| {
        let mut d = Digits(i);
        let mac = d.take(2) == 1;
        let name = names[d.take(names.len())];
        let len = d.take(4) + 1;
        let Inst { cx, item, v, have, .. } = fresh[d.0 as usize];
        let cx = &CXS[*cx];
        let (k, it) = cx.items[*item];
        let pre = &name[..len.min(name.len())];
        // A complete name is not a prefix any more.
        if args_of(Fn, *v).contains(&pre) || ["event", "impl", "test"].contains(&pre) {
            return;
        }
        let at = if mac { format!("#[ink::{pre}«»]") } else { format!("#[ink({pre}«»)]") };
        let (code, marks) = marked(&cx.program(&format!("{at} {it}")));
        let p = marks[0].0;
        c.state(&format!("{} {} @{p}\n{code}", vname(*v), cx.name));
        let (ms, xs) = completion_offers(&Analysis::new(&code, *v), p);
        c.step();
        let want_m: Set = if mac { legal_macros(k, cx.scope, have, *v).into_iter().filter(|m| m.starts_with(pre) && m != "e2e test").collect() } else { Set::new() };
        let want_x: Set = if mac { Set::new() } else { legal_args(k, cx.scope, have, *v).into_iter().filter(|m| m.starts_with(pre)).collect() };
        c.check(ms == want_m, || format!("completions offer macros {ms:?}, legal are {want_m:?}"));
        c.check(xs == want_x, || format!("completions offer arguments {xs:?}, legal are {want_x:?}"));
    });
}

/// Items that carry several macros: none of them is offered again.
fn combined(ctx: &Ctx) {
    const M: [&str; 3] = ["event", "scale_derive(Encode, Decode)", "storage_item"];
    ctx.explore("combined-macros", product(&[3, 3, 3, 3, 3]), |i, c| {
        let mut d = Digits(i);
        let (x, y, item, fresh, place) = (d.take(3), d.take(3), d.take(3), d.take(3), d.take(3));
        if x == y || item > 0 && (x == 0 || y == 0) {
            return;
        }
        let it = ["pub struct xx { a: u8 }", "pub enum xx { A }", "pub union xx { a: u8 }"][item];
        let f = [("#[]", 2), ("#[ink::]", 7), ("", 0)][fresh];
        let mut at = vec![format!("#[ink::{}]", M[x]), format!("#[ink::{}]", M[y])];
        at.insert(place, format!("«»{}", f.0));
        let (code, marks) = marked(&format!("{} {it}\n", at.join(" ")));
        c.state(&code);
        c.step();
        let a = Analysis::new(&code, Version::V5);
        let (ms, _) = if fresh < 2 { completion_offers(&a, marks[0].0 + f.1) } else { (action_offers(&a, code.find("xx").unwrap()).0, Set::new()) };
        c.outcome(&ms);
        for k in [x, y] {
            let n = M[k].split('(').next().unwrap();
            c.check(!ms.contains(n), || format!("a macro that the item carries is offered again: {ms:?}\n{code}"));
        }
    });
}

pub fn run(ctx: &Ctx) -> Info {
    actions(ctx);
    combined(ctx);
    completions(ctx);
    info(
        format!("{} enclosing scopes x all item kinds x all legal (and not yet defining) sets of existing arguments in all orders and splits x both versions; cursors on the item, on each attribute, in a new attribute and in each existing one; all prefixes up to 4 characters", CXS.len()),
        &["the legality tables are written from the ink! rules, independently of the implementation's tables"],
    )
}
