//! C23: references to types and traits resolve as Rust name resolution would.
use super::{info, Info};
use crate::common::*;
use crate::util::*;

/// The modules: the root, `a`, `a::b`, `d` (re-exports), `c` and `a::c` (contracts), `z` (decoys).
#[derive(Default, Clone)]
struct Mods {
    root: String,
    a: String,
    b: String,
    d: String,
    c: String,
    ac: String,
    z: String,
}

impl Mods {
    fn at(&mut self, m: &str) -> &mut String {
        match m {
            "" => &mut self.root,
            "a" => &mut self.a,
            "a::b" => &mut self.b,
            "d" => &mut self.d,
            "c" => &mut self.c,
            "a::c" => &mut self.ac,
            "z" => &mut self.z,
            _ => unreachable!(),
        }
    }
    fn add(&mut self, m: &str, item: &str) {
        let s = self.at(m);
        s.push_str(item);
        s.push('\n');
    }
}

/// Where a reference is resolved.
#[derive(Clone, Copy, PartialEq)]
enum Site {
    /// `env` of a contract in module `.0`.
    Contract(&'static str),
    /// `environment` of an e2e test in module `.0`.
    E2e(&'static str),
    /// `ErrorCode` of a chain extension in module `.0`.
    ErrorCode(&'static str),
    /// Parameter type of an extension function in module `.0`.
    Param(&'static str),
}

const SITES: [Site; 10] = [
    Site::Contract("c"),
    Site::Contract("a::c"),
    Site::E2e(""),
    Site::E2e("a"),
    Site::E2e("a::b"),
    Site::ErrorCode(""),
    Site::ErrorCode("a"),
    Site::ErrorCode("a::b"),
    Site::Param(""),
    Site::Param("a"),
];

impl Site {
    fn module(self) -> &'static str {
        match self {
            Site::Contract(m) | Site::E2e(m) | Site::ErrorCode(m) | Site::Param(m) => m,
        }
    }
    /// The trait (path) that is required of the type.
    fn required(self) -> (&'static str, &'static str) {
        match self {
            Site::Contract(_) | Site::E2e(_) => ("ink::env", "Environment"),
            Site::ErrorCode(_) => ("ink::env::chain_extension", "FromStatusCode"),
            Site::Param(_) => ("scale", "Encode"),
        }
    }
    /// What else the type needs.
    fn derives(self) -> &'static str {
        match self {
            Site::ErrorCode(_) => "#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] ",
            Site::Param(_) => "#[derive(scale::Decode, scale_info::TypeInfo)] ",
            _ => "",
        }
    }
    fn text(self, mut m: Mods, path: &str) -> String {
        let ce = |ec: &str, param: &str| {
            let arg = ["#[ink::chain_extension(extension = 1)]", "function"];
            format!("{} pub trait Ext {{ type ErrorCode = {ec}; #[ink({} = 1)] fn f(x: {param}) -> u8; }}", arg[0], arg[1])
        };
        const EC: &str = "#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub enum Ec { A } impl ink::env::chain_extension::FromStatusCode for Ec { fn from_status_code(_: u32) -> Result<(), Self> { Ok(()) } }";
        let body = "#[ink(storage)] pub struct S {} impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn get(&self) {} }";
        let mut contract = |m: &mut Mods, k: &str| {
            let inner = std::mem::take(m.at(k));
            let t = format!("#[ink::contract(env = {path})]\npub mod c {{\n{inner}{body}\n}}");
            if k == "c" {
                m.add("", &t)
            } else {
                m.add("a", &t)
            }
        };
        match self {
            Site::Contract(k) => contract(&mut m, k),
            Site::E2e(k) => m.add(k, &format!("#[ink_e2e::test(environment = {path})] async fn t() {{}}")),
            Site::ErrorCode(k) => m.add(k, &ce(path, "u8")),
            Site::Param(k) => {
                m.add(k, EC);
                m.add(k, &ce("Ec", path));
            }
        }
        let Mods { root, a, b, d, z, .. } = m;
        format!("{root}pub mod a {{\n{a}pub mod b {{\n{b}}}\n}}\npub mod d {{\n{d}}}\npub mod z {{\n{z}}}\n")
    }
}

fn join(m: &str, n: &str) -> String {
    if m.is_empty() {
        n.to_owned()
    } else if n.is_empty() {
        m.to_owned()
    } else {
        format!("{m}::{n}")
    }
}

/// `super::` path from module `from` to the root.
fn up(from: &str) -> String {
    if from.is_empty() {
        "self::".into()
    } else {
        "super::".repeat(from.split("::").count())
    }
}

/// Ways to refer, from module `from`, to item `n` of module `l`.
const STYLES: [&str; 27] = [
    "absolute", "super", "relative", "self", "use", "use as", "glob", "module alias", "nested use", "use self", "re-export", "renamed re-export", "glob re-export", "glob of glob", "alias",
    "alias elsewhere", "imported alias", "glob of parent", "re-exported module", "alias chain", "nested self as", "use super", "root alias", "deep re-export", "braces", "super alias", "grouped glob",
];

/// Adds the items the style needs and returns the path, or `None` if the style does not apply.
fn refer(m: &mut Mods, style: usize, from: &str, l: &str, n: &str) -> Option<String> {
    let abs = join(&join("crate", l), n);
    let parent = join("crate", l);
    // From a descendant-or-self module.
    let below = if from == l {
        Some(n.to_owned())
    } else if from.is_empty() {
        Some(join(l, n))
    } else {
        l.strip_prefix(&format!("{from}::")).map(|r| join(r, n))
    };
    let own = from == l;
    let path: String = match STYLES[style] {
        "absolute" => abs,
        "super" => format!("{}{}", up(from), join(l, n)),
        "relative" => below?,
        "self" => format!("self::{}", below?),
        "use" if !own => {
            m.add(from, &format!("use {abs};"));
            n.into()
        }
        "use as" => {
            m.add(from, &format!("use {abs} as Qq;"));
            "Qq".into()
        }
        "glob" if !own => {
            m.add(from, &format!("use {parent}::*;"));
            n.into()
        }
        "module alias" => {
            m.add(from, &format!("use {parent} as qq;"));
            format!("qq::{n}")
        }
        "nested use" => {
            m.add(from, &format!("use crate::{{{} as Qq, z::Other}};", join(l, n)));
            m.add("z", "pub struct Other;");
            "Qq".into()
        }
        "use self" if !l.is_empty() && !from.ends_with(l) && l != "a::b" && !(l == "a" && from.is_empty()) => {
            m.add(from, &format!("use {parent}::{{self, {n} as Rr}};"));
            format!("{l}::{n}")
        }
        "re-export" => {
            m.add("d", &format!("pub use {abs};"));
            format!("crate::d::{n}")
        }
        "renamed re-export" => {
            m.add("d", &format!("pub use {abs} as Zz;"));
            "crate::d::Zz".into()
        }
        "glob re-export" => {
            m.add("d", &format!("pub use {parent}::*;"));
            format!("crate::d::{n}")
        }
        "glob of glob" if !own => {
            m.add("d", &format!("pub use {parent}::*;"));
            m.add(from, "use crate::d::*;");
            n.into()
        }
        "alias" => {
            m.add(from, &format!("type Qq = {abs};"));
            "Qq".into()
        }
        "alias elsewhere" => {
            m.add("d", &format!("pub type Qq = super::{};", join(l, n)));
            "crate::d::Qq".into()
        }
        "imported alias" => {
            m.add("d", &format!("pub type Qq = {abs};"));
            m.add(from, "use crate::d::Qq as Ww;");
            "Ww".into()
        }
        "glob of parent" if !from.is_empty() && l == from.rsplit_once("::").map_or("", |x| x.0) => {
            m.add(from, "use super::*;");
            n.into()
        }
        "re-exported module" => {
            m.add("d", &format!("pub use {parent} as qq;"));
            format!("crate::d::qq::{n}")
        }
        "alias chain" => {
            m.add(from, &format!("type Qq = Ww;\ntype Ww = {abs};"));
            "Qq".into()
        }
        "nested self as" if !l.is_empty() => {
            m.add(from, &format!("use {parent}::{{self as qq}};"));
            format!("qq::{n}")
        }
        "use super" if !own => {
            m.add(from, &format!("use {}{};", up(from), join(l, n)));
            n.into()
        }
        "root alias" => {
            m.add(from, "use crate as qq;");
            format!("qq::{}", join(l, n))
        }
        "deep re-export" => {
            m.add("z", &format!("pub use {abs} as Yy;"));
            m.add("d", "pub use super::z::Yy as Xx;");
            m.add(from, "use crate::d::Xx;");
            "Xx".into()
        }
        "braces" if !own => {
            m.add(from, &format!("use {{{abs}}};"));
            n.into()
        }
        "super alias" => {
            m.add(from, &format!("type Qq = {}{};", up(from), join(l, n)));
            "self::Qq".into()
        }
        "grouped glob" if !own => {
            m.add(from, &format!("use crate::{{z::Other, {}*}};", if l.is_empty() { String::new() } else { format!("{l}::") }));
            m.add("z", "pub struct Other;");
            n.into()
        }
        _ => return None,
    };
    Some(path)
}

/// Ways to refer, from module `from`, to the external trait: (is it the right one, path).
const EXTERN: [&str; 20] = [
    "path", "rooted path", "use", "use as", "glob", "use module", "module as", "nested as", "re-export", "glob re-export", "crate as", "re-exported module", "renamed re-export", "wrong crate", "local trait", "wrong module", "wrong import", "wrong rename", "re-export of other", "self in braces",
];

fn external(m: &mut Mods, style: usize, from: &str, q: &str, n: &str) -> (bool, String) {
    let (head, last) = q.rsplit_once("::").unwrap_or(("", q));
    let (krate, rest) = q.split_once("::").unwrap_or((q, ""));
    let tail = |s: &str| join(s, n);
    match EXTERN[style] {
        "path" => (true, format!("{q}::{n}")),
        "rooted path" => (true, format!("::{q}::{n}")),
        "use" => {
            m.add(from, &format!("use {q}::{n};"));
            (true, n.into())
        }
        "use as" => {
            m.add(from, &format!("use {q}::{n} as Tt;"));
            (true, "Tt".into())
        }
        "glob" => {
            m.add(from, &format!("use {q}::*;"));
            (true, n.into())
        }
        "use module" => {
            m.add(from, &format!("use {q};"));
            (true, format!("{last}::{n}"))
        }
        "module as" => {
            m.add(from, &format!("use {q} as tt;"));
            (true, format!("tt::{n}"))
        }
        "nested as" => {
            if head.is_empty() {
                m.add(from, &format!("use {q}::{{{n} as Tt, Input}};"));
            } else {
                m.add(from, &format!("use {head}::{{{last}::{{{n} as Tt, Unused}}, other}};"));
            }
            (true, "Tt".into())
        }
        "re-export" => {
            m.add("d", &format!("pub use {q}::{n};"));
            (true, format!("crate::d::{n}"))
        }
        "glob re-export" => {
            m.add("d", &format!("pub use {q}::*;"));
            m.add(from, "use crate::d::*;");
            (true, n.into())
        }
        "crate as" => {
            m.add(from, &format!("use {krate} as kk;"));
            (true, tail(&join("kk", rest)))
        }
        "re-exported module" => {
            m.add("d", &format!("pub use {q} as tt;"));
            (true, format!("crate::d::tt::{n}"))
        }
        "renamed re-export" => {
            m.add("d", &format!("pub use {q}::{n} as Tt;"));
            m.add(from, "use crate::d::Tt as Uu;");
            (true, "Uu".into())
        }
        "wrong crate" => (false, format!("other::{n}")),
        "local trait" => {
            m.add(from, &format!("pub trait {n} {{}}"));
            (false, n.into())
        }
        "wrong module" => (false, format!("{krate}::other::{n}")),
        "wrong import" => {
            m.add(from, &format!("use other::{n};"));
            (false, n.into())
        }
        "wrong rename" => {
            m.add(from, &format!("use {q}::Unused as {n};"));
            (false, n.into())
        }
        "re-export of other" => {
            m.add("d", &format!("pub use other::{n};"));
            (false, format!("crate::d::{n}"))
        }
        _ => {
            m.add(from, &format!("use {q}::{{self}};"));
            (true, format!("{last}::{n}"))
        }
    }
}

/// Traits have no type aliases.
fn trait_style(s: &str) -> bool {
    !s.contains("alias") || matches!(s, "module alias" | "root alias")
}

fn judge(c: &mut Case, text: &str, v: Version, ok: bool, what: &str) {
    let text = if v == Version::V4 { text.replace("(extension = 1)]", "]").replace("#[ink(function = 1)]", "#[ink(extension = 1)]") } else { text.to_owned() };
    match crate::rules::MODE.load(std::sync::atomic::Ordering::Relaxed) {
        1 => return super::c03::quickfixes(c, &text, v),
        2 => return super::c04::fixes(c, &text, v, if ok { &[] } else { &[("reference", 0)] }),
        3 => return super::c22::formats(c, &text, v),
        _ => {}
    }
    c.state(&format!("{} {what}\n{text}", vname(v)));
    assert!(parses(&text), "harness bug: {text}");
    c.step();
    let errs = errors(&text, v);
    c.outcome(&errs.iter().map(|d| d.msg.as_str()).collect::<Vec<_>>());
    if ok {
        c.check(errs.is_empty(), || format!("a suitable type is reported ({what}):\n{}", show(&text, &errs)));
    } else {
        c.check(!errs.is_empty(), || format!("an unsuitable type is not reported ({what})"));
    }
}

fn imp(t: &str, s: &str) -> String {
    format!("impl {t} for {s} {{}}")
}

const LOCS: [&str; 3] = ["", "a", "a::b"];

pub fn run(ctx: &Ctx) -> Info {
    // The type: location x reference style x impl or not x same-named type elsewhere (none, without impl, with impl, in a child module).
    ctx.explore("type-references", product(&[2, SITES.len(), 4, STYLES.len(), 2, 4]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let site = SITES[d.take(SITES.len())];
        let li = d.take(4);
        let l = if li == 3 { site.module() } else { LOCS[li] };
        if li == 3 && !matches!(site, Site::Contract(_)) {
            return;
        }
        let style = d.take(STYLES.len());
        let has = d.take(2) == 1;
        let decoy = d.take(4);
        let mut m = Mods::default();
        let (q, n) = site.required();
        // Inside the contract, the type is only reachable by private paths.
        if li == 3 && !matches!(STYLES[style], "absolute" | "relative" | "self" | "alias" | "use as" | "super" | "alias chain" | "super alias") {
            return;
        }
        m.add(l, &format!("{}pub struct E;", site.derives()));
        let Some(path) = refer(&mut m, style, site.module(), l, "E") else { return };
        if has {
            m.add(l, &imp(&format!("{q}::{n}"), "E"));
        }
        match decoy {
            1 => m.add("z", "pub struct E;"),
            2 => m.add("z", &format!("{}pub struct E; {}", site.derives(), imp(&format!("{q}::{n}"), "E"))),
            3 => {
                let t = format!("pub mod y {{ {}pub struct E; {} }}", site.derives(), imp(&format!("{q}::{n}"), "E"));
                m.add(site.module(), &t)
            }
            _ => {}
        }
        let text = site.text(m, &path);
        judge(c, &text, v, has, &format!("{} from {:?} to {l:?}, same name elsewhere: {decoy}", STYLES[style], site.module()));
    });
    // The impl: its module x how it refers to the type x how it refers to the trait.
    let ilocs = ["", "a", "a::b", "d"];
    ctx.explore("impl-references", product(&[2, SITES.len(), 2, ilocs.len(), STYLES.len(), EXTERN.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let site = SITES[d.take(SITES.len())];
        let l = ["a", ""][d.take(2)];
        let from = ilocs[d.take(ilocs.len())];
        let style = d.take(STYLES.len());
        let ext = d.take(EXTERN.len());
        let mut m = Mods::default();
        let (q, n) = site.required();
        m.add(l, &format!("{}pub struct E;", site.derives()));
        let Some(self_path) = refer(&mut m, style, from, l, "E") else { return };
        let (ok, trait_path) = external(&mut m, ext, from, q, n);
        m.add(from, &imp(&trait_path, &self_path));
        let text = site.text(m, &join(&join("crate", l), "E"));
        judge(c, &text, v, ok, &format!("impl in {from:?}, type {}, trait {}", STYLES[style], EXTERN[ext]));
    });
    // Derives: the traits under all import styles (parameter types).
    let ls = ["", "a", "a::b"];
    ctx.explore("derives", product(&[2, 2, ls.len(), EXTERN.len(), EXTERN.len(), 3]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let site = [Site::Param(""), Site::ErrorCode("a")][d.take(2)];
        let l = ls[d.take(ls.len())];
        let e1 = d.take(EXTERN.len());
        let e2 = d.take(EXTERN.len());
        let form = d.take(3);
        let mut m = Mods::default();
        if EXTERN[e1] == "local trait" || EXTERN[e2] == "local trait" {
            return;
        }
        // Two independent crates; a re-export of the same name or prefix would clash.
        let (ok1, p1) = external(&mut m, e1, l, "scale", "Encode");
        let mut m2 = Mods::default();
        let (ok2, p2) = external(&mut m2, e2, l, "ink::scale_info", "TypeInfo");
        let fix = |s: &str| s.replace("Tt", "Xt").replace("tt", "xt").replace("Uu", "Xu").replace("kk", "xk");
        for k in ["", "a", "a::b", "d"] {
            let t = fix(m2.at(k));
            if k != "d" || !t.is_empty() {
                m.at(k).push_str(&t);
            }
        }
        let p2 = fix(&p2);
        let list = format!("{p1}, scale::Decode, {p2}");
        let attr = match form {
            0 => format!("#[derive({list})]"),
            1 => format!("#[derive(Debug, {p1})] #[derive({p2}, scale::Decode,)]"),
            _ => format!("#[derive({p1}, scale::Decode)] #[cfg_attr(feature = \"std\", derive({p2}))]"),
        };
        m.add(l, &format!("{attr} pub struct E;"));
        if let Site::ErrorCode(_) = site {
            m.add(l, "impl ink::env::chain_extension::FromStatusCode for E {}");
        }
        let text = site.text(m, &join(&join("crate", l), "E"));
        judge(c, &text, v, ok1 && ok2, &format!("derive {} and {}", EXTERN[e1], EXTERN[e2]));
    });
    // The default environment, under all import styles, directly or through type aliases.
    ctx.explore("default-environment", product(&[2, 5, EXTERN.len(), 5]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let site = SITES[d.take(5)];
        let (ext, alias) = (d.take(EXTERN.len()), d.take(5));
        let from = site.module();
        let home = if alias == 4 { "z" } else { from };
        let mut m = Mods::default();
        let (ok, p) = external(&mut m, ext, home, "ink::env", "DefaultEnvironment");
        let path = match alias {
            0 => p,
            1 => {
                m.add(home, &format!("pub type Q1 = {p};"));
                "Q1".into()
            }
            2 => {
                m.add(home, &format!("pub type Q1 = Q2; pub type Q2 = {p};"));
                "Q1".into()
            }
            3 => {
                m.add(home, &format!("pub type Q1 = self::Q2; pub type Q3 = {p}; pub type Q2 = self::Q3;"));
                "self::Q1".into()
            }
            _ => {
                m.add(home, &format!("pub type Q1 = Q2; pub type Q2 = {p};"));
                m.add("d", "pub type Q3 = crate::z::Q1;");
                "crate::d::Q3".into()
            }
        };
        let text = site.text(m, &path);
        judge(c, &text, v, ok, &format!("default environment, {}, {alias} aliases", EXTERN[ext]));
    });
    // Names that do not resolve to a suitable item.
    let bad = ["Nope", "crate::Nope", "self::Nope", "super::E", "crate::a::Nope", "crate::nope::E", "a::b::c::E", "d::E", "crate::d::E", "crate::z::F", "u8::E", "crate::a::f", "crate::a::Tr", "Self::E", "crate::E::E", "crate::a::M"];
    ctx.explore("unresolved", product(&[2, SITES.len(), bad.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let site = SITES[d.take(SITES.len())];
        let path = bad[d.0 as usize];
        // Unknown parameter types may come from elsewhere.
        if matches!(site, Site::Param(_)) {
            return;
        }
        let (q, n) = site.required();
        let mut m = Mods::default();
        m.add("a::b", &format!("{}pub struct E; {}", site.derives(), imp(&format!("{q}::{n}"), "E")));
        m.add("a", "pub fn f() {} pub trait Tr {} pub const M: u8 = 1;");
        let text = site.text(m, path);
        judge(c, &text, v, false, &format!("{path} from {:?}", site.module()));
    });
    // Trait definitions: location x reference style x complete or not x same-named trait elsewhere.
    let traits = STYLES.iter().filter(|s| trait_style(s)).count();
    let sites = ["c", "a::c"];
    ctx.explore("trait-definition-references", product(&[2, 2, LOCS.len() + 1, STYLES.len(), 4, 3]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let from = sites[d.take(2)];
        let li = d.take(4);
        let l = if li == 3 { from } else { LOCS[li] };
        let style = d.take(STYLES.len());
        let variant = d.take(4);
        let decoy = d.take(3);
        if !trait_style(STYLES[style]) || li == 3 && !matches!(STYLES[style], "absolute" | "relative" | "self" | "use as" | "super") {
            return;
        }
        let mut m = Mods::default();
        m.add(l, "#[ink::trait_definition] pub trait E { #[ink(message)] fn m(&self); #[ink(message, selector = 9)] fn n(&self, a: u8) -> u8; }");
        let Some(path) = refer(&mut m, style, from, l, "E") else { return };
        match decoy {
            1 => m.add("z", "pub trait E { fn o(&self); }"),
            2 => m.add("z", "#[ink::trait_definition] pub trait E { #[ink(message)] fn o(&mut self); }"),
            _ => {}
        }
        // Complete, a message missing, wrong argument, wrong signature.
        let body = [
            "#[ink(message)] fn m(&self) {} #[ink(message, selector = 9)] fn n(&self, a: u8) -> u8 { a }",
            "#[ink(message)] fn m(&self) {}",
            "#[ink(message)] fn m(&self) {} #[ink(message, selector = 8)] fn n(&self, a: u8) -> u8 { a }",
            "#[ink(message)] fn m(&self) {} #[ink(message, selector = 9)] fn n(&self, a: u16) -> u8 { 0 }",
        ][variant];
        m.add(from, &format!("impl {path} for S {{ {body} }}"));
        m.add("a::b", "pub struct En; impl ink::env::Environment for En {}");
        let text = Site::Contract(from).text(m, "crate::a::b::En");
        judge(c, &text, v, variant == 0, &format!("impl {} from {from:?} to {l:?}", STYLES[style]));
    });
    info(
        format!("type references: {} sites x 4 locations x {} reference styles x with/without the impl x 4 same-named types elsewhere; impl references: {} locations x {} self-type styles x {} trait-reference styles; derives: {}^2 import styles x 3 forms; {} unresolvable paths; trait definitions implemented via {} reference styles", SITES.len(), STYLES.len(), ilocs.len(), STYLES.len(), EXTERN.len(), EXTERN.len(), bad.len(), traits),
        &["the whole program is one file (other files are out of the analyzer's view)", "all items are public; macros and generic types are not covered"],
    )
}
