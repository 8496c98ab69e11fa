//! C20: chain extensions are accepted iff they obey the version's rules.
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

const OK_ADT: &str = "#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]\npub enum Er { A }\nimpl ink::env::chain_extension::FromStatusCode for Er { fn from_status_code(_: u32) -> Result<(), Self> { Ok(()) } }\n";

fn attr(v: Version) -> &'static str {
    if v == Version::V4 { "#[ink::chain_extension]" } else { "#[ink::chain_extension(extension = 12)]" }
}
fn id(v: Version) -> &'static str {
    if v == Version::V4 { "extension" } else { "function" }
}

fn headers(ctx: &Ctx) {
    const VIS: [&str; 4] = ["pub ", "", "pub(crate) ", "pub(super) "];
    const MODS: [&str; 4] = ["", "unsafe ", "auto ", "unsafe auto "];
    const GEN: [&str; 4] = ["", "<T>", "<'a>", "<const N: usize>"];
    const SUP: [&str; 4] = ["", ": Sized", ": A + B", ": 'static"];
    // The macro arguments: version 5 requires the extension id, version 4 has none.
    const ARGS: [&str; 9] = ["", "()", "(extension = 12)", "(extension = 0)", "(extension = 65535)", "(extension = 65536)", "(extension = 0xFFFF)", "(extension = \"1\")", "(extension)"];
    let bodies = ["", "#[ink(FN = 1)] fn f(a: u8) -> u8;", "#[ink(FN = 1)] fn f(); #[ink(FN = 2, handle_status = false)] fn g(a: &[u8]) -> Result<u8, Er>;"];
    ctx.explore("chain-extension-headers", product(&[2, VIS.len(), MODS.len(), GEN.len(), SUP.len(), ARGS.len(), bodies.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (vi, m, g, s, a, b) = (d.take(VIS.len()), d.take(MODS.len()), d.take(GEN.len()), d.take(SUP.len()), d.take(ARGS.len()), d.take(bodies.len()));
        if ctx.quick() && (vi != 0) as u8 + (m != 0) as u8 + (g != 0) as u8 + (s != 0) as u8 + (a > 2) as u8 + (b != 0) as u8 > 4 {
            return;
        }
        let args_ok = match v {
            Version::V4 => a <= 1,
            Version::V5 => matches!(a, 2 | 3 | 4 | 6),
        };
        let mut viols: Vec<Viol> = vec![];
        for (bad, what) in [(vi != 0, "visibility"), (m & 1 != 0, "unsafe"), (m & 2 != 0, "auto"), (g != 0, "generics"), (s != 0, "supertraits"), (!args_ok, "macro arguments")] {
            if bad {
                viols.push((what, 0));
            }
        }
        let src = format!("{OK_ADT}«#[ink::chain_extension{}]\n{}{}trait Ce{}{} {{ type ErrorCode = Er; {} }}»", ARGS[a], VIS[vi], MODS[m], GEN[g], SUP[s], bodies[b].replace("FN", id(v)));
        judge(c, &src, v, &viols);
    });
    let items = ["pub struct X { a: u8 }", "pub fn x() {}", "pub mod x {}", "pub enum X { A }", "impl X {}", "pub type X = u8;", "pub const X: u8 = 1;", "pub union X { a: u8 }", "use a::b;"];
    ctx.explore("chain-extension-items", product(&[2, items.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        judge(c, &format!("«{}\n{}»", attr(v), d.pick(&items)), v, &[("chain extension on a non-trait", 0)]);
    });
}

fn error_codes(ctx: &Ctx) {
    // (associated items, is the error code fine, must the head be blamed too)
    let types: [(&str, bool, bool); 17] = [
        ("type ErrorCode = Er;", true, false),
        ("type ErrorCode = crate::Er;", true, false),
        ("type ErrorCode = self::Er;", true, false),
        ("type ErrorCode = ::Nope;", false, false),
        ("", false, true),
        ("type ErrorCode;", false, false),
        ("type ErrorCode = ();", false, false),
        ("type ErrorCode = u8;", false, false),
        ("type ErrorCode = Nope;", false, false),
        ("type ErrorCode = [Er; 2];", false, false),
        ("type ErrorCode: Copy = Er;", false, false),
        ("type ErrorCode<T> = Er;", false, false),
        ("type Error = Er;", false, true),
        ("type errorcode = Er;", false, true),
        ("type ErrorCode = Er; type ErrorCode = Er;", false, false),
        ("type ErrorCode = Er; type Other = u8;", false, false),
        ("type ErrorCode = Er; const X: u8 = 1;", false, false),
    ];
    ctx.explore("error-code-types", product(&[2, types.len(), 3, 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (t, ok, head) = types[d.take(types.len())];
        let fns = ["", "#[ink(FN = 1)] fn f();", "#[ink(FN = 1)] fn f() -> Result<u8, «Self::ErrorCode»>;"];
        let k = d.take(fns.len());
        let first = d.take(2) == 1;
        let f = fns[k].replace("FN", id(v));
        let mut viols: Vec<Viol> = vec![];
        let body = if first { format!("«{t}» {f}") } else { format!("{f} «{t}»") };
        let (rt, rs) = if first || k != 2 { (1, 2) } else { (2, 1) };
        if !ok {
            viols.push(("error code type", if head { 0 } else { rt }));
        }
        if head && !t.is_empty() {
            viols.push(("misnamed associated type", rt));
        }
        if k == 2 {
            viols.push(("use of Self::ErrorCode", rs));
        }
        judge(c, &format!("{OK_ADT}«{}\npub trait Ce» {{ {body} }}", attr(v)), v, &viols);
    });
    // The traits that the error code type must implement, each in every way of implementing it.
    let ways = |t: &str| -> Vec<(String, String, String)> {
        // (attribute before, attribute after, separate item)
        let (p, bare) = if t == "TypeInfo" { ("scale_info", "ink::scale_info") } else { ("scale", "ink::scale") };
        vec![
            (String::new(), String::new(), String::new()),
            (format!("#[derive({p}::{t})] "), String::new(), String::new()),
            (format!("#[derive({bare}::{t})] "), String::new(), String::new()),
            (format!("#[derive(::{p}::{t})] "), String::new(), String::new()),
            (format!("#[derive(Debug, {p}::{t}, Clone)] "), String::new(), String::new()),
            (format!("#[cfg_attr(feature = \"std\", derive({p}::{t}))] "), String::new(), String::new()),
            (String::new(), String::new(), format!("impl {p}::{t} for Er {{}} ")),
            (String::new(), String::new(), format!("mod i{t} {{ impl {bare}::{t} for super::Er {{}} }} ")),
            // Not implementations.
            (format!("#[derive(other::{t})] "), String::new(), String::new()),
            (String::new(), String::new(), format!("impl {p}::{t} for Other {{}} ")),
            (String::new(), String::new(), format!("impl other::{t} for Er {{}} ")),
        ]
    };
    let (we, wd, wt) = (ways("Encode"), ways("Decode"), ways("TypeInfo"));
    let yes = |k: usize| (1..=7).contains(&k);
    // The conversion from status codes.
    let fsc = [
        ("impl ink::env::chain_extension::FromStatusCode for Er {}", true),
        ("impl ink_env::chain_extension::FromStatusCode for Er {}", true),
        ("impl ::ink::env::chain_extension::FromStatusCode for crate::Er {}", true),
        ("use ink::env::chain_extension::FromStatusCode; impl FromStatusCode for Er {}", true),
        ("use ink::env::chain_extension as ce; impl ce::FromStatusCode for Er {}", true),
        ("", false),
        ("impl ink::env::chain_extension::FromStatusCode for Other {}", false),
        ("impl my::FromStatusCode for Er {}", false),
        ("impl FromStatusCode for Er {}", false),
    ];
    let adts = ["pub struct Er;", "pub enum Er { A }", "pub union Er { a: u8 }", "pub struct Er { a: u8 }"];
    ctx.explore("error-code-traits", product(&[2, we.len(), wd.len(), wt.len(), fsc.len(), adts.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (e, k, t, f, a) = (d.take(we.len()), d.take(wd.len()), d.take(wt.len()), d.take(fsc.len()), d.take(adts.len()));
        if ctx.quick() && ((f != 0) as u8 + (a != 0) as u8 > 1 || (e != t && k != t && e != k && f != 0) || a != 0 && e != k) {
            return;
        }
        let mut viols: Vec<Viol> = vec![];
        if !(yes(e) && yes(k) && yes(t)) {
            viols.push(("SCALE traits", 0));
        }
        if !fsc[f].1 {
            viols.push(("FromStatusCode", 0));
        }
        let src = format!("«{}{}{}{}» {}{}{}{}\n{}\npub trait Ce {{ type ErrorCode = Er; }}", we[e].0, wd[k].0, wt[t].0, adts[a], we[e].2, wd[k].2, wt[t].2, fsc[f].0, attr(v));
        judge(c, &src, v, &viols);
    });
    // The version 5 derive macro.
    let lists = ["Encode, Decode, TypeInfo", "Encode, Decode", "Encode", "TypeInfo", "TypeInfo, Decode, Encode", "Decode, TypeInfo"];
    let extra = ["", "#[derive(scale::Encode)] ", "#[derive(scale::Decode)] ", "#[derive(scale_info::TypeInfo)] ", "#[derive(scale::Encode, scale::Decode)] "];
    ctx.explore("scale-derive", product(&[lists.len(), extra.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let (l, x) = (lists[d.take(lists.len())], extra[d.take(extra.len())]);
        let before = d.take(2) == 1;
        let ok = ["Encode", "Decode", "TypeInfo"].iter().all(|t| l.contains(t) || x.contains(t));
        let der = format!("#[ink::scale_derive({l})] ");
        let attrs = if before { format!("{der}{x}") } else { format!("{x}{der}") };
        let src = format!("«{attrs}pub enum Er {{ A }}» impl ink::env::chain_extension::FromStatusCode for Er {{}}\n{}\npub trait Ce {{ type ErrorCode = Er; }}", attr(Version::V5));
        judge(c, &src, Version::V5, if ok { &[] } else { &[("SCALE traits", 0)] });
    });
}

/// (function with id placeholder `§`, violation, the id counts)
const FNS: [(&str, Option<&str>, bool); 22] = [
    ("#[ink(FN = §)] fn @(a: u8) -> u8;", None, true),
    ("#[ink(FN = §, handle_status = true)] fn @();", None, true),
    ("#[ink(FN = §)] #[ink(handle_status = false)] fn @(a: &[u8], b: Vec<u8>) -> Result<u8, Er>;", None, true),
    ("fn @();", Some("no id"), false),
    ("#[ink(handle_status = true)] fn @();", Some("no id"), false),
    ("#[ink(FN = §)] fn @() {}", Some("default implementation"), true),
    ("#[ink(FN = §)] fn @(&self);", Some("receiver"), true),
    ("#[ink(FN = §)] fn @(self);", Some("receiver"), true),
    ("#[ink(FN = §)] fn @(&mut self, a: u8);", Some("receiver"), true),
    ("#[ink(FN = §)] fn @<T>(a: T);", Some("generics"), true),
    ("#[ink(FN = §)] fn @<'a>(a: &'a u8);", Some("generics"), true),
    ("#[ink(FN = §)] const fn @();", Some("const"), true),
    ("#[ink(FN = §)] async fn @();", Some("async"), true),
    ("#[ink(FN = §)] unsafe fn @();", Some("unsafe"), true),
    ("#[ink(FN = §)] extern \"C\" fn @();", Some("abi"), true),
    ("#[ink(FN = §)] fn @(a: u8, ...);", Some("variadic"), true),
    ("#[ink(OTHER = §)] fn @();", Some("id of the other version"), false),
    ("#[ink(message)] fn @(&self);", Some("other ink! attribute"), false),
    ("#[ink(FN = §, payable)] fn @();", Some("conflicting argument"), true),
    ("const X@: u8 = 1;", Some("const item"), false),
    ("mac!();", Some("macro call"), false),
    ("#[ink(FN = §)] #[ink(FN = 77)] fn @();", Some("repeated id"), false),
];

fn functions(ctx: &Ctx) {
    let k = FNS.len() as u64;
    let fill = |v: Version, t: &str, n: usize| {
        let (f, o) = if v == Version::V4 { ("extension", "function") } else { ("function", "extension") };
        t.replace("FN", f).replace("OTHER", o).replace('§', &format!("{}", n + 1)).replace('@', &format!("f{n}"))
    };
    ctx.explore("extension-functions", 2 * seq_count(k, ctx.pick(3, 4)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let seq = seq_decode(d.0, k);
        let mut body = String::new();
        let mut viols: Vec<Viol> = vec![];
        for (n, s) in seq.iter().enumerate() {
            let (t, bad, _) = FNS[*s];
            body.push_str(&format!("\n    «{}»", fill(v, t, n)));
            if let Some(w) = bad {
                viols.push((w, n));
            }
        }
        judge(c, &format!("{OK_ADT}{}\npub trait Ce {{ type ErrorCode = Er;{body}\n}}", attr(v)), v, &viols);
    });
    // Ids: unique by value, in range.
    let ids = ["1", "2", "0", "0x1", "0x02", "1_0", "10", "0xA", "65535", "65536", "0xFFFF", "0x1_0000", "4294967295", "4294967296", "-1", "1.0", "\"1\"", "_", "0xZ"];
    let val = |s: &str| -> Option<u64> {
        let s = s.replace('_', "");
        match s.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => s.parse().ok(),
        }
    };
    let n = ids.len() as u64;
    ctx.explore("function-ids", 2 * seq_count(n, ctx.pick(3, 4)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let seq = seq_decode(d.0, n);
        if ctx.quick() && seq.len() == 3 && seq.iter().any(|s| *s > 10) {
            return;
        }
        let max = if v == Version::V4 { u32::MAX as u64 } else { u16::MAX as u64 };
        let mut viols: Vec<Viol> = vec![];
        let mut body = String::new();
        let mut seen: Vec<u64> = vec![];
        for (k, s) in seq.iter().enumerate() {
            body.push_str(&format!("«#[ink({} = {})] fn f{k}();» ", id(v), ids[*s]));
            match val(ids[*s]).filter(|x| *x <= max) {
                None => viols.push(("id value", k)),
                Some(x) if seen.contains(&x) => viols.push(("duplicate id", k)),
                Some(x) => seen.push(x),
            }
        }
        judge(c, &format!("{OK_ADT}{}\npub trait Ce {{ type ErrorCode = Er; {body} }}", attr(v)), v, &viols);
    });
}

/// Custom parameter and return types must implement the encoding traits.
fn custom_types(ctx: &Ctx) {
    let shapes = ["X", "crate::X", "self::X", "&X", "&mut X", "[X; 2]", "&[X]", "(u8, X)", "(X,)", "(X)", "*const X", "Vec<X>", "Option<Vec<X>>", "Result<X, u8>", "Result<u8, X>", "Box<(u8, [X; 3])>", "a::b::Wrapper<X>", "Vec<(Option<&X>, u8)>", "u8", "Ext", "Vec<Ext>", "()"];
    let decls: [(&str, bool); 8] = [
        ("#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct X { a: u8 }", true),
        ("pub struct X { a: u8 }", false),
        ("#[derive(scale::Encode, scale::Decode)] pub enum X { A }", false),
        ("#[derive(scale::Encode, scale_info::TypeInfo)] pub enum X { A }", false),
        ("#[derive(scale::Decode, scale_info::TypeInfo)] pub struct X;", false),
        ("#[derive(Debug)] pub union X { a: u8 }", false),
        ("#[derive(Debug)] #[derive(scale::Encode)] #[derive(scale::Decode, scale_info::TypeInfo)] pub struct X { a: u8 }", true),
        ("#[cfg_attr(x, allow(y))] #[derive(scale::Encode, scale::Decode)] #[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))] pub struct X { a: u8 }", true),
    ];
    let places = ["fn f(a: %);", "fn f(z: u8, a: %) -> u8;", "fn f() -> %;", "fn f(a: u8) -> Result<%, Er>;", "fn f(a: %) -> %;", "fn f(a: u8); #[ink(FN = 2)] fn g(a: %);"];
    ctx.explore("custom-types", product(&[2, shapes.len(), decls.len(), places.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let sh = *d.pick(&shapes);
        let (decl, ok) = *d.pick(&decls);
        let pl = d.pick(&places).replace("FN", id(v)).replace('%', sh);
        let uses = sh.contains('X');
        let src = format!("{OK_ADT}«{decl}»\n{}\npub trait Ce {{ type ErrorCode = Er; #[ink({} = 1)] {pl} }}", attr(v), id(v));
        judge(c, &src, v, if uses && !ok { &[("SCALE traits of a custom type", 0)] } else { &[] });
    });
}

pub fn run(ctx: &Ctx) -> Info {
    headers(ctx);
    error_codes(ctx);
    functions(ctx);
    custom_types(ctx);
    info(
        format!("product of trait header parts and macro arguments; all error-code type forms; every way of implementing each required trait{}; every sequence of up to {} of {} associated items; every list of up to {} ids over 19 id notations; 22 type shapes x 8 declarations x 6 positions", ctx.pick(" (bounded cross product)", " (full cross product)"), ctx.pick(3, 4), FNS.len(), ctx.pick(3, 4)),
        &["the rule model is written from the ink! 4/5 language rules"],
    )
}
