//! C17: attribute arguments are accepted iff well-formed, compatible and unique.
use super::c07::contract;
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

const HEX32: &str = "0x1111111111111111111111111111111111111111111111111111111111111111";
const ENV: &str = "pub struct E; impl ink::env::Environment for E {}\n";

/// Every argument name with a well-formed value.
pub const ARGS: [(&str, &str); 28] = [
    ("additional_contracts", "additional_contracts = \"a.toml b.toml\""),
    ("anonymous", "anonymous"),
    ("backend", "backend(node)"),
    ("constructor", "constructor"),
    ("Decode", "Decode"),
    ("default", "default"),
    ("derive", "derive = true"),
    ("Encode", "Encode"),
    ("env", "env = crate::E"),
    ("environment", "environment = crate::E"),
    ("event", "event"),
    ("extension", "extension = 1"),
    ("function", "function = 1"),
    ("handle_status", "handle_status = true"),
    ("impl", "impl"),
    ("keep_attr", "keep_attr = \"a,b\""),
    ("message", "message"),
    ("namespace", "namespace = \"n\""),
    ("node", "node"),
    ("payable", "payable"),
    ("runtime_only", "runtime_only"),
    ("sandbox", "sandbox = crate::E"),
    ("selector", "selector = 7"),
    ("signature_topic", "signature_topic = \"0x1111111111111111111111111111111111111111111111111111111111111111\""),
    ("storage", "storage"),
    ("topic", "topic"),
    ("TypeInfo", "TypeInfo"),
    ("url", "url = \"ws://x\""),
];

fn arg(name: &str) -> &'static str {
    ARGS.iter().find(|a| a.0 == name).unwrap_or_else(|| panic!("harness bug: arg {name}")).1
}

/// An item whose ink! attributes are varied (`%`), and what its attributes may be.
pub struct Target {
    pub name: &'static str,
    /// Marked template; the region is the item.
    pub src: fn(&str) -> String,
    /// `Some(path)`: the item is annotated with this macro; `None`: with `#[ink(..)]` attributes.
    pub mac: Option<&'static str>,
    /// The defining argument; `None` with a macro.
    pub primary: fn(Version) -> Option<&'static str>,
    /// Arguments that may accompany it.
    pub siblings: fn(Version) -> &'static [&'static str],
    /// Whether the item may be without any ink! attribute.
    pub bare: bool,
    /// Exists in version 4.
    pub v4: bool,
}

pub const TARGETS: [Target; 17] = [
    Target { name: "message", src: |a| contract(&format!("impl S {{ «{a} pub fn f(&self) {{}}» }}")), mac: None, primary: |_| Some("message"), siblings: |_| &["default", "payable", "selector"], bare: true, v4: true },
    Target { name: "constructor", src: |a| contract(&format!("impl S {{ «{a} pub fn f() -> Self {{ todo!() }}» }}")), mac: None, primary: |_| Some("constructor"), siblings: |_| &["default", "payable", "selector"], bare: true, v4: true },
    Target { name: "trait message", src: |a| format!("#[ink::trait_definition] pub trait T {{ #[ink(message)] fn base(&self); «{a} fn f(&self);» }}"), mac: None, primary: |_| Some("message"), siblings: |_| &["default", "payable", "selector"], bare: false, v4: true },
    Target { name: "event", src: |a| contract(&format!("«{a} pub struct Ev {{ a: u8 }}»")), mac: None, primary: |_| Some("event"), siblings: |v| if v == Version::V4 { &["anonymous"] } else { &["anonymous", "signature_topic"] }, bare: true, v4: true },
    Target { name: "storage", src: |a| format!("«#[ink::contract]\nmod c {{ {a} pub struct S {{}}» impl S {{ #[ink(constructor)] pub fn n() -> Self {{ todo!() }} #[ink(message)] pub fn m(&self) {{}} }} }}"), mac: None, primary: |_| Some("storage"), siblings: |_| &[], bare: false, v4: true },
    Target { name: "topic", src: |a| contract(&format!("#[ink(event)] pub struct Ev {{ «{a} a: u8», b: u8 }}")), mac: None, primary: |_| Some("topic"), siblings: |_| &[], bare: true, v4: true },
    Target { name: "impl", src: |a| contract(&format!("«{a} impl S {{ #[ink(message)] pub fn f(&self) {{}} }}»")), mac: None, primary: |_| Some("impl"), siblings: |_| &["namespace"], bare: true, v4: true },
    Target { name: "extension fn", src: |a| format!("#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct Er; impl ink::env::chain_extension::FromStatusCode for Er {{ fn from_status_code(_: u32) -> Result<(), Self> {{ Ok(()) }} }}\n#[ink::chain_extensionEXT] pub trait Ce {{ type ErrorCode = Er; «{a} fn f(a: u8) -> u8;» }}"), mac: None, primary: |v| Some(if v == Version::V4 { "extension" } else { "function" }), siblings: |_| &["handle_status"], bare: false, v4: true },
    Target { name: "contract", src: |a| format!("«{a} mod c {{ #[ink(storage)] pub struct S {{}} impl S {{ #[ink(constructor)] pub fn n() -> Self {{ todo!() }} #[ink(message)] pub fn m(&self) {{}} }} }}»"), mac: Some("ink::contract"), primary: |_| None, siblings: |_| &["env", "keep_attr"], bare: false, v4: true },
    Target { name: "trait definition", src: |a| format!("«{a} pub trait T {{ #[ink(message)] fn base(&self); }}»"), mac: Some("ink::trait_definition"), primary: |_| None, siblings: |_| &["keep_attr", "namespace"], bare: false, v4: true },
    Target { name: "storage item", src: |a| format!("«{a} struct I {{ a: u8 }}»"), mac: Some("ink::storage_item"), primary: |_| None, siblings: |_| &["derive"], bare: true, v4: true },
    Target { name: "test", src: |a| format!("«{a} fn t() {{}}»"), mac: Some("ink::test"), primary: |_| None, siblings: |_| &[], bare: true, v4: true },
    Target { name: "e2e test", src: |a| format!("«{a} async fn t() {{}}»"), mac: Some("ink_e2e::test"), primary: |_| None, siblings: |v| if v == Version::V4 { &["additional_contracts", "environment", "keep_attr"] } else { &["backend", "environment"] }, bare: true, v4: true },
    Target { name: "event 2.0", src: |a| format!("«{a} pub struct Ev {{ a: u8 }}»"), mac: Some("ink::event"), primary: |_| None, siblings: |_| &["anonymous", "signature_topic"], bare: true, v4: false },
    Target { name: "scale derive", src: |a| format!("«{a} struct I {{ a: u8 }}»"), mac: Some("ink::scale_derive"), primary: |_| None, siblings: |_| &["Encode", "Decode", "TypeInfo"], bare: true, v4: false },
    Target { name: "chain extension", src: |a| format!("#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct Er; impl ink::env::chain_extension::FromStatusCode for Er {{ fn from_status_code(_: u32) -> Result<(), Self> {{ Ok(()) }} }}\n«{a} pub trait Ce {{ type ErrorCode = Er; #[ink(FN = 1)] fn f(a: u8) -> u8; }}»"), mac: Some("ink::chain_extension"), primary: |_| None, siblings: |v| if v == Version::V4 { &[] } else { &["extension"] }, bare: false, v4: true },
    Target { name: "plain fn", src: |a| format!("«{a} fn plain() {{}}»"), mac: None, primary: |_| None, siblings: |_| &[], bare: true, v4: true },
];

fn fill(t: &Target, attrs: &str, v: Version) -> String {
    let (ext, f) = if v == Version::V4 { ("", "extension") } else { ("(extension = 1)", "function") };
    format!("{ENV}{}", (t.src)(attrs).replace("EXT]", &format!("{ext}]")).replace("FN =", &format!("{f} =")))
}

/// Whether a list of `#[ink(..)]` attributes (each a list of argument names) is legal.
fn legal(t: &Target, v: Version, attrs: &[Vec<&str>], mac_args: Option<&[&str]>) -> bool {
    let sib = (t.siblings)(v);
    let flat: Vec<&str> = attrs.iter().flatten().copied().collect();
    let unique = |xs: &[&str]| (0..xs.len()).all(|i| !xs[..i].contains(&xs[i]));
    let exclusive = |xs: &[&str]| !(xs.contains(&"anonymous") && xs.contains(&"signature_topic"));
    match t.mac {
        Some(_) => {
            // A macro is never mixed with `#[ink(..)]` attributes.
            let Some(args) = mac_args else { return attrs.is_empty() && t.bare };
            attrs.is_empty()
                && (v == Version::V5 || t.v4)
                && unique(args)
                && exclusive(args)
                && args.iter().all(|a| sib.contains(a))
                && (t.name != "chain extension" || v == Version::V4 || args.contains(&"extension"))
        }
        None => {
            if attrs.is_empty() {
                return t.bare;
            }
            if attrs.iter().any(|a| a.is_empty()) {
                return false;
            }
            let Some(p) = (t.primary)(v) else { return false };
            // A namespace on its own also makes an inherent impl block an ink! impl block.
            let lead = flat[0] == p || (t.name == "impl" && flat[0] == "namespace" && flat.len() == 1);
            lead && unique(&flat) && exclusive(&flat) && flat[1..].iter().all(|a| sib.contains(a))
        }
    }
}

fn text(args: &[&str]) -> String {
    args.iter().map(|a| arg(a)).collect::<Vec<_>>().join(", ")
}

fn combos(ctx: &Ctx) {
    let k = ARGS.len() as u64;
    let n = seq_count(k, 2);
    // All sequences of up to two arguments, in one attribute or one each, on every target.
    ctx.explore("argument-pairs", n * 2 * TARGETS.len() as u64 * 2, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let split = d.take(2) == 1;
        let t = &TARGETS[d.take(TARGETS.len())];
        let seq: Vec<&str> = seq_decode(d.0, k).into_iter().map(|j| ARGS[j].0).collect();
        if split && seq.len() < 2 {
            return;
        }
        one(c, t, v, &seq, if split { 1 } else { seq.len() });
    });
    // Longer sequences over the arguments that matter for the target.
    let depth = ctx.pick(3, 4);
    for t in &TARGETS {
        let mut rel: Vec<&str> = vec![];
        for v in VERSIONS {
            rel.extend((t.primary)(v));
            rel.extend((t.siblings)(v));
        }
        rel.extend(["payable", "topic", "keep_attr"]);
        rel.sort_unstable();
        rel.dedup();
        let k = rel.len() as u64;
        ctx.explore(&format!("argument-sequences {}", t.name), seq_count(k, depth) * 2 * depth as u64, |i, c| {
            let mut d = Digits(i);
            let v = VERSIONS[d.take(2)];
            let at = d.take(depth as usize) + 1;
            let seq: Vec<&str> = seq_decode(d.0, k).into_iter().map(|j| rel[j]).collect();
            if at > seq.len() || seq.len() < 3 {
                return;
            }
            one(c, t, v, &seq, at);
        });
    }
}

/// Combinations without a defining argument whose meaning is left open: a lone namespace makes an impl block
/// an ink! impl block, and says nothing about other items.
fn open(t: &Target, seq: &[&str]) -> bool {
    t.mac.is_none() && (t.name != "impl" || seq.len() > 1) && seq.contains(&"namespace") && seq.iter().all(|a| matches!(*a, "namespace" | "keep_attr"))
}

/// Judges an argument sequence whose first `at` arguments are in the first attribute, the rest in a second one.
fn one(c: &mut Case, t: &Target, v: Version, seq: &[&str], at: usize) {
    if open(t, seq) {
        return;
    }
    let (a, b) = seq.split_at(at);
    let (attrs, ok) = match t.mac {
        Some(m) => {
            let first = if a.is_empty() { format!("#[{m}]") } else { format!("#[{m}({})]", text(a)) };
            if b.is_empty() {
                (first, legal(t, v, &[], Some(a)))
            } else {
                (format!("{first} #[ink({})]", text(b)), legal(t, v, &[b.to_vec()], Some(a)))
            }
        }
        None => {
            let mut lists = vec![];
            let mut s = String::new();
            for part in [a, b] {
                if !part.is_empty() {
                    s.push_str(&format!("#[ink({})] ", text(part)));
                    lists.push(part.to_vec());
                }
            }
            (s, legal(t, v, &lists, None))
        }
    };
    judge(c, &fill(t, &attrs, v), v, if ok { &[] } else { &[("attribute arguments", 0)] });
}

/// Combinations of two attributes of which at least one is a macro.
fn macros(ctx: &Ctx) {
    let macs = ["ink::contract", "ink::trait_definition", "ink::storage_item", "ink::test", "ink_e2e::test", "ink::event", "ink::scale_derive", "ink::chain_extension"];
    let other: Vec<String> = macs.iter().map(|m| format!("#[{m}]")).chain(ARGS.iter().map(|a| format!("#[ink({})]", a.1))).collect();
    ctx.explore("attribute-pairs", product(&[2, 2, TARGETS.len(), other.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let first = d.take(2) == 1;
        let t = &TARGETS[d.take(TARGETS.len())];
        let o = d.take(other.len());
        let Some(m) = t.mac else { return };
        // The annotated macro in its minimal legal form.
        let own = if t.name == "chain extension" && v == Version::V5 {
            "#[ink::chain_extension(extension = 1)]".to_string()
        } else if t.name == "scale derive" {
            "#[ink::scale_derive(Encode)]".to_string()
        } else {
            format!("#[{m}]")
        };
        let o = if o < macs.len() && macs[o] == "ink::scale_derive" { "#[ink::scale_derive(Encode)]".to_string() } else { other[o].clone() };
        let ok = v == Version::V5 && matches!((t.name, o.as_str()), ("storage item", "#[ink::scale_derive(Encode)]") | ("scale derive", "#[ink::storage_item]"));
        let attrs = if first { format!("{o} {own}") } else { format!("{own} {o}") };
        judge(c, &fill(t, &attrs, v), v, if ok { &[] } else { &[("conflicting attributes", 0)] });
    });
}

/// Argument values.
fn values(ctx: &Ctx) {
    let vals: Vec<String> = [
        "", " =", " = 0", " = 1", " = 0xA", " = 0x1_0", " = 65_535", " = 65535", " = 0xffff", " = 65536", " = 0x10000", " = 4294967295", " = 4294967296", " = 0xFFFFFFFF", " = 0x100000000", " = -1", " = 1.5", " = \"abc\"", " = \"a_b1\"", " = \"a b\"", " = \"\"", " = \"a,b\"", " = \"fn\"", " = \"1a\"",
        " = r\"abc\"", " = \"ws://x:1\"", " = \"1\"", " = true", " = false", " = True", " = \"true\"", " = _", " = @", " = crate::E", " = crate :: E", " = self::Nope", " = 'c'", " = fn", "(x)", "()", " = 1 + 1", " = (1)", "(node)", "(runtime_only)", "(node(url = \"ws://x\"))", "(node(url = \"x\"))", "(node(url = \"127.0.0.1:9944\"))", "(node(url = \"//x\"))", "(node(url = \"ws:/x\"))", "(node(url = \"http://127.0.0.1:9944/x\"))", "(node(url))", "(node(sandbox = crate::E))",
        "(runtime_only(sandbox = crate::E))", "(runtime_only(sandbox = \"x\"))", "(runtime_only(sandbox))", "(node, runtime_only)", "(url = \"ws://x\")", "(node = \"ws://x\")", " = node", "(node())", " = 0x", " = 10 10", " = \"a\" \"b\"",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([format!(" = \"{HEX32}\""), format!(" = \"{}\"", &HEX32[2..]), format!(" = \"{}\"", HEX32.replace('1', "aF").get(..66).unwrap()), format!(" = \"{}\"", &HEX32[..64]), format!(" = \"{HEX32}11\""), format!(" = \"{}\"", HEX32.replacen('1', "g", 1)), format!(" = {HEX32}")])
    .collect();
    // (target, argument, acceptable in version 4, acceptable in version 5); None = not in that version.
    type Ok = fn(&str) -> bool;
    fn none(v: &str) -> bool {
        // Flags take neither `=` nor a value. What a nested list on a flag means is not specified.
        v.is_empty()
    }
    fn int(v: &str) -> Option<u64> {
        let t = v.strip_prefix(" = ")?;
        let t = t.replace('_', "");
        match t.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None if t.chars().all(|c| c.is_ascii_digit()) => t.parse().ok(),
            None => None,
        }
    }
    fn u16_(v: &str) -> bool {
        int(v).is_some_and(|n| n <= 0xFFFF)
    }
    fn u32_(v: &str) -> bool {
        int(v).is_some_and(|n| n <= 0xFFFF_FFFF)
    }
    fn sel(v: &str) -> bool {
        u32_(v) || v == " = _"
    }
    fn string(v: &str) -> Option<&str> {
        let t = v.strip_prefix(" = ")?;
        let t = t.strip_prefix('r').unwrap_or(t);
        let t = t.strip_prefix('"')?.strip_suffix('"')?;
        (!t.contains('"')).then_some(t)
    }
    fn strv(v: &str) -> bool {
        string(v).is_some()
    }
    fn ident(v: &str) -> bool {
        string(v).is_some_and(|s| s != "fn" && s != "true" && !s.is_empty() && !s.starts_with(|c: char| c.is_ascii_digit()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
    }
    fn boolean(v: &str) -> bool {
        v == " = true" || v == " = false"
    }
    fn env(v: &str) -> bool {
        v == " = crate::E" || v == " = crate :: E"
    }
    fn hex(v: &str) -> bool {
        string(v).is_some_and(|s| {
            let s = s.strip_prefix("0x").unwrap_or(s);
            s.len() == 64 && s.chars().all(|c| c.is_ascii_hexdigit())
        })
    }
    fn backend(v: &str) -> bool {
        matches!(v, "(node)" | "(runtime_only)" | "(node(url = \"ws://x\"))" | "(node(url = \"http://127.0.0.1:9944/x\"))" | "(runtime_only(sandbox = crate::E))")
    }
    let table: Vec<(&str, &str, Option<Ok>, Option<Ok>)> = vec![
        ("message", "message", Some(none), Some(none)),
        ("message", "payable", Some(none), Some(none)),
        ("message", "default", Some(none), Some(none)),
        ("message", "selector", Some(sel), Some(u32_)),
        ("constructor", "constructor", Some(none), Some(none)),
        ("constructor", "payable", Some(none), Some(none)),
        ("constructor", "selector", Some(sel), Some(sel)),
        ("trait message", "selector", Some(u32_), Some(u32_)),
        ("event", "event", Some(none), Some(none)),
        ("event", "anonymous", Some(none), Some(none)),
        ("event", "signature_topic", None, Some(hex)),
        ("event 2.0", "anonymous", None, Some(none)),
        ("event 2.0", "signature_topic", None, Some(hex)),
        ("storage", "storage", Some(none), Some(none)),
        ("topic", "topic", Some(none), Some(none)),
        ("impl", "impl", Some(none), Some(none)),
        ("impl", "namespace", Some(ident), Some(ident)),
        ("extension fn", "extension", Some(u32_), None),
        ("extension fn", "function", None, Some(u16_)),
        ("extension fn", "handle_status", Some(boolean), Some(boolean)),
        ("contract", "env", Some(env), Some(env)),
        ("contract", "keep_attr", Some(strv), Some(strv)),
        ("trait definition", "keep_attr", Some(strv), Some(strv)),
        ("trait definition", "namespace", Some(ident), Some(ident)),
        ("storage item", "derive", Some(boolean), Some(boolean)),
        ("e2e test", "additional_contracts", Some(strv), None),
        ("e2e test", "environment", Some(env), Some(env)),
        ("e2e test", "keep_attr", Some(strv), None),
        ("e2e test", "backend", None, Some(backend)),
        ("scale derive", "Encode", None, Some(none)),
        ("scale derive", "TypeInfo", None, Some(none)),
        ("chain extension", "extension", None, Some(u16_)),
    ];
    ctx.explore("argument-values", product(&[2, table.len(), vals.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let row = &table[d.take(table.len())];
        let val = vals[d.take(vals.len())].as_str();
        let t = TARGETS.iter().find(|t| t.name == row.0).unwrap();
        let rule = if v == Version::V4 { row.2 } else { row.3 };
        // What a nested list after an argument that takes a plain value or none means is not specified;
        // wildcards on version 5 messages depend on the other messages (C08).
        let nested_flag = val.starts_with('(') && row.1 != "backend" && rule.is_some_and(|r| r("") || r(" = true") || r(" = \"abc\"") || r(" = 1") || r(" = crate::E"));
        if nested_flag && rule.is_some_and(|r| r("")) || (row.0 == "message" && row.1 == "selector" && v == Version::V5 && matches!(val, " = _" | " = @"))
            || (row.1 == "namespace" && val == "(node, runtime_only)")
            || (row.0 == "trait message" && v == Version::V5 && val == " = @")
        {
            return;
        }
        let ok = rule.is_some_and(|r| r(val));
        let attrs = match t.mac {
            Some(m) => format!("#[{m}({}{val})]", row.1),
            None => match (t.primary)(v) {
                Some(p) if p != row.1 && row.1 != "namespace" => format!("#[ink({}, {}{val})]", arg(p), row.1),
                _ => format!("#[ink({}{val})]", row.1),
            },
        };
        judge(c, &fill(t, &attrs, v), v, if ok { &[] } else { &[("argument value", 0)] });
    });
}

/// Punctuation, unknown names and attributes that are not ink! attributes.
fn shapes(ctx: &Ctx) {
    // Lists with empty slots: only a trailing comma is allowed.
    let lists: [(&str, bool); 10] = [("A", true), ("A,", true), ("A, B", true), ("A, B,", true), (",A", false), ("A,,B", false), (",", false), ("A, ,", false), ("A = , B", false), ("A =", false)];
    ctx.explore("argument-lists", product(&[2, lists.len(), TARGETS.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (l, ok) = lists[d.take(lists.len())];
        let t = &TARGETS[d.take(TARGETS.len())];
        let (p, sib) = ((t.primary)(v), (t.siblings)(v));
        let (a, b) = match t.mac {
            None => (p, sib.first()),
            Some(_) => (sib.first().copied(), sib.get(1)),
        };
        if !t.v4 && v == Version::V4 || a.is_none() || (b.is_none() && l.contains('B')) || (t.name.starts_with("event") && t.mac.is_some() && l.contains('B')) {
            return;
        }
        if l == "A,," || l == ",A" || l == "A,,B" || l == "," || l == "A, ," {
            // How doubled commas are reported is not specified.
            return;
        }
        if l.starts_with("A =") && arg(a.unwrap()).contains(['=', '(']) {
            return;
        }
        let l = l.replace('A', "\u{1}").replace('B', "\u{2}").replace('\u{1}', arg(a.unwrap())).replace('\u{2}', b.map(|b| arg(b)).unwrap_or(""));
        let attr = match t.mac {
            Some(m) => format!("#[{m}({l})]"),
            None => format!("#[ink({l})]"),
        };
        judge(c, &fill(t, &attr, v), v, if ok { &[] } else { &[("malformed argument list", 0)] });
    });
    // Unknown ink! attributes are reported, as warnings.
    let unknown = ["#[ink::xyz]", "#[ink::xyz(a = 1)]", "#[ink::contract::x]", "#[ink_e2e::xyz]", "#[ink]", "#[ink::Contract]", "#[ink(xyz)]", "#[ink(Message)]", "#[ink(xyz = 1)]"];
    let items = ["fn f() {}", "struct X { a: u8 }", "mod m {}", "trait Q {}", "enum X { A }", "impl X {}"];
    ctx.explore("unknown-attributes", product(&[2, unknown.len(), items.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let u = d.pick(&unknown);
        let it = d.pick(&items);
        let inside = d.take(2) == 1;
        let src = if inside { contract(&format!("«{u} {it}»")) } else { format!("«{u} {it}»\nstruct Z;\n") };
        let (code, regions) = marked(&src);
        c.state(&format!("{}\n{code}", vname(v)));
        c.step();
        let ds = diags(&code, v);
        c.outcome(&ds.iter().map(|d| d.msg.clone()).collect::<Vec<_>>());
        let (a, b) = regions[0];
        c.check(ds.iter().any(|d| !d.error && d.start <= b && d.end >= a), || format!("unknown ink! attribute is not warned about:\n{}", show(&code, &ds)));
        c.check(ds.iter().all(|d| !d.error), || format!("unknown ink! attribute is an error:\n{}", show(&code, &ds)));
    });
    // Unknown arguments next to known ones are reported.
    ctx.explore("unknown-arguments", product(&[2, TARGETS.len(), 4]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let t = &TARGETS[d.take(TARGETS.len())];
        let u = *d.pick(&["xyz", "xyz = 1", "Payable", "messages"]);
        let attr = match (t.mac, (t.primary)(v)) {
            (Some(m), _) => format!("#[{m}({u})]"),
            (None, Some(p)) => format!("#[ink({}, {u})]", arg(p)),
            _ => return,
        };
        let (code, regions) = marked(&fill(t, &attr, v));
        c.state(&format!("{}\n{code}", vname(v)));
        c.step();
        let ds = diags(&code, v);
        let (a, b) = regions[0];
        c.check(ds.iter().any(|d| d.start <= b && d.end >= a && d.start < d.end && code[d.start..d.end].contains(u)), || format!("unknown argument is not reported:\n{}", show(&code, &ds)));
    });
    // Attributes of other tools.
    let foreign = ["#[inkk::contract]", "#[my::ink]", "#[my::ink(storage)]", "#[ink_env::test]", "#[link(name = \"ink\")]", "#[derive(ink)]", "#[doc = \"#[ink::contract]\"]", "#[cfg_attr(x, ink::contract)]", "#[cfg(ink)]", "#[allow(ink::all)]", "#[openbrush::contract]", "/// #[ink(storage)]", "#[Ink::contract]", "#[ink_storage(x)]", "#[tool(ink(message))]", "// #[ink::contract]\n"];
    ctx.explore("foreign-attributes", product(&[2, foreign.len(), items.len() + TARGETS.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let f = foreign[d.take(foreign.len())];
        let k = d.take(items.len() + TARGETS.len());
        let before = d.take(2) == 1;
        let src = if k < items.len() {
            if before { contract(&format!("{f}\n {}", items[k])) } else { format!("{f}\n{}", items[k]) }
        } else {
            // Next to legal ink! attributes.
            let t = &TARGETS[k - items.len()];
            // Topics can't be conditionally compiled (C21).
            if t.name == "topic" && f == "#[cfg(ink)]" {
                return;
            }
            if !t.v4 && v == Version::V4 {
                return;
            }
            let own = match (t.mac, (t.primary)(v)) {
                (Some(m), _) if t.name == "chain extension" && v == Version::V5 => format!("#[{m}(extension = 1)]"),
                (Some(m), _) => format!("#[{m}]"),
                (None, Some(p)) => format!("#[ink({})]", arg(p)),
                _ => String::new(),
            };
            let attrs = if before { format!("{f}\n{own}") } else { format!("{own}\n{f}\n") };
            fill(t, &attrs, v).replace(['«', '»'], "")
        };
        c.state(&format!("{}\n{src}", vname(v)));
        c.step();
        let ds = diags(&src, v);
        c.check(ds.is_empty(), || format!("foreign attribute changes the diagnostics:\n{}", show(&src, &ds)));
    });
}

pub fn run(ctx: &Ctx) -> Info {
    combos(ctx);
    macros(ctx);
    values(ctx);
    shapes(ctx);
    info(
        format!("every sequence of up to 2 of {} arguments (in one or two attributes) and up to {} relevant arguments on {} targets; every pair of attributes with a macro; {} argument values; lists, unknown and foreign attributes; both versions", ARGS.len(), ctx.pick(3, 4), TARGETS.len(), 65),
        &["the legality tables are written from the ink! 4/5 attribute rules"],
    )
}
