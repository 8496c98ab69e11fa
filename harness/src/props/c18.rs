//! C18: hover, inlay hints and signature help describe the ink! item they point at.
use super::c05::{arg_in_scope, args_of, groups, instances, legal_args, macro_args, Have, Inst, Kind, Scope, CXS};
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use std::collections::BTreeSet;

/// Type of an argument's value as shown to users.
fn value_type(a: &str, constructor: bool, v: Version) -> &'static str {
    let v5 = v == Version::V5;
    match a {
        "selector" if v5 && !constructor => "u32 | _ | @",
        "selector" => "u32 | _",
        "extension" if !v5 => "u32",
        "extension" | "function" => "u16",
        "handle_status" | "derive" => "bool",
        "namespace" | "keep_attr" | "additional_contracts" | "signature_topic" | "url" => "&str",
        "env" | "environment" => "impl Environment",
        "sandbox" => "impl drink::Sandbox",
        "backend" => "node | runtime_only",
        _ => "",
    }
}

/// What the heading of an argument's documentation shows.
fn arg_doc(a: &str, head: &str, v: Version) -> (&'static str, bool) {
    let v5 = v == Version::V5;
    // (text, it is the heading)
    match a {
        "additional_contracts" if v5 => ("`additional_contracts` is deprecated", false),
        "keep_attr" if v5 && head == "ink_e2e::test" => ("`keep_attr` for `ink_e2e::test` attribute macro is deprecated", false),
        "additional_contracts" => ("#[ink_e2e::test(additional_contracts = S: string)]", true),
        "anonymous" => ("#[ink(anonymous)]", true),
        "backend" => ("#[ink_e2e::test(backend(node|runtime_only))]", true),
        "constructor" => ("#[ink(constructor)]", true),
        "Decode" => ("#[ink::scale_derive(Decode)]", true),
        "Encode" => ("#[ink::scale_derive(Encode)]", true),
        "TypeInfo" => ("#[ink::scale_derive(TypeInfo)]", true),
        "default" => ("#[ink(default)]", true),
        "derive" => ("#[ink::storage_item(derive = flag: bool)]", true),
        "env" | "environment" => ("#[ink::contract(env = E: impl Environment)]", true),
        "event" => ("#[ink(event)]", true),
        "extension" if v5 => ("#[ink::chain_extension(extension = N: u16)]", true),
        "extension" => ("#[ink(extension = N: u32)]", true),
        "function" => ("#[ink(function = N: u16)]", true),
        "handle_status" => ("#[ink(handle_status = flag: bool)]", true),
        "impl" => ("#[ink(impl)]", true),
        "keep_attr" => ("#[ink::contract(keep_attr = N: string)]", true),
        "message" => ("#[ink(message)]", true),
        "namespace" => ("#[ink(namespace = N: string)]", true),
        "payable" => ("#[ink(payable)]", true),
        "selector" if v5 => ("#[ink(selector = S: u32 | _ | @)]", true),
        "selector" => ("#[ink(selector = S: u32 | _)]", true),
        "signature_topic" => ("#[ink::event(signature_topic = S: string)]", true),
        "storage" => ("#[ink(storage)]", true),
        "topic" => ("#[ink(topic)]", true),
        a => panic!("harness bug: no doc for {a}"),
    }
}

fn matches_doc(content: &str, (text, heading): (&str, bool)) -> bool {
    if heading {
        content.trim_start().strip_prefix("# Attribute").is_some_and(|r| r.trim_start().lines().next().is_some_and(|l| l.contains(text)))
    } else {
        content.contains(text)
    }
}

/// An attribute as written: path, arguments (name, text).
#[derive(Clone, Debug)]
struct Attr {
    head: String,
    parens: bool,
    args: Vec<(String, String)>,
}

fn name_of(a: &str) -> String {
    a.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn parse(s: &str) -> Attr {
    let s = &s[2..s.len() - 1];
    match s.split_once('(') {
        None => Attr { head: s.into(), parens: false, args: vec![] },
        Some((h, r)) => {
            let r = &r[..r.len() - 1];
            let args = if r.is_empty() { vec![] } else { r.split(", ").map(|a| (name_of(a), a.to_owned())).collect() };
            Attr { head: h.into(), parens: true, args }
        }
    }
}

/// Spacing styles: (before `(`, around arguments, around `=`, separator).
const STYLES: [(&str, &str, &str, &str); 4] = [("", "", " = ", ", "), ("", "", "=", ","), (" ", " ", " = ", " , "), ("", "\n    ", " =\n", ",\n    ")];

/// Offsets of the parts of one attribute in a document.
#[derive(Clone, Debug)]
struct Span {
    at: (usize, usize),
    /// Last segment of the path.
    seg: (usize, usize),
    parens: Option<(usize, usize)>,
    /// (argument, its name)
    args: Vec<((usize, usize), (usize, usize))>,
}

/// Renders the attribute with marks: whole, last segment, inside of the parentheses, each argument.
fn render(a: &Attr, style: usize) -> String {
    let (bp, pad, eq, sep) = STYLES[style];
    let (pre, seg) = match a.head.rsplit_once("::") {
        Some((p, s)) => (format!("{p}::"), s.to_owned()),
        None => (String::new(), a.head.clone()),
    };
    let mut out = format!("«#[{pre}«{seg}»");
    if a.parens {
        let args: Vec<String> = a.args.iter().map(|(_, t)| format!("«{}»", t.replace(" = ", eq))).collect();
        if args.is_empty() {
            out.push_str(&format!("{bp}(«{}»)", pad));
        } else {
            out.push_str(&format!("{bp}(«{pad}{}{pad}»)", args.join(sep)));
        }
    }
    out.push_str("]»");
    out
}

fn spans(attrs: &[Attr], marks: &[(usize, usize)]) -> Vec<Span> {
    let mut it = marks.iter().copied();
    attrs
        .iter()
        .map(|a| {
            let at = it.next().unwrap();
            let seg = it.next().unwrap();
            let parens = a.parens.then(|| it.next().unwrap());
            let args = a.args.iter().map(|(n, _)| {
                let r = it.next().unwrap();
                (r, (r.0, r.0 + n.len()))
            });
            let args = args.collect();
            Span { at, seg, parens, args }
        })
        .collect()
}

fn inside(r: (usize, usize), s: (usize, usize)) -> bool {
    s.0 <= r.0 && r.1 <= s.1
}

struct Doc {
    code: String,
    spans: Vec<Span>,
}

fn doc(i: &Inst, attrs: &[Attr], style: usize) -> Doc {
    let cx = &CXS[i.cx];
    let (_, it) = cx.items[i.item];
    let body: Vec<String> = attrs.iter().map(|a| render(a, style)).collect();
    let (code, marks) = marked(&cx.program(&format!("#[doc = \"d\"]\n{}\n{it}", body.join("\n"))));
    Doc { code, spans: spans(attrs, &marks) }
}

/// The argument that defines what the attribute means (if it has one).
fn main_of(a: &Attr, v: Version) -> Option<String> {
    let mains: Vec<&str> = groups(v).iter().flat_map(|(m, _)| m.iter().copied()).collect();
    a.args.iter().map(|(n, _)| n.clone()).find(|n| mains.contains(&n.as_str()))
}

fn hover(ctx: &Ctx, all: &[Inst]) {
    ctx.explore("hover", product(&[STYLES.len(), all.len()]), |i, c| {
        let mut d = Digits(i);
        let style = d.take(STYLES.len());
        let inst = &all[d.0 as usize];
        let v = inst.v;
        let attrs: Vec<Attr> = inst.attrs.iter().map(|a| parse(a)).collect();
        if attrs.is_empty() || style > 0 && ctx.quick() && inst.item > 1 {
            return;
        }
        let dc = doc(inst, &attrs, style);
        let a = Analysis::new(&dc.code, v);
        c.state(&format!("{} {}\n{}", vname(v), CXS[inst.cx].name, dc.code));
        for (at, sp) in attrs.iter().zip(&dc.spans) {
            let lo = sp.at.0 - 2;
            let hi = (sp.at.1 + 2).min(dc.code.len());
            for s in lo..=hi {
                for e in s..=hi {
                    if !dc.code.is_char_boundary(s) || !dc.code.is_char_boundary(e) || dc.spans.iter().any(|o| o.at != sp.at && s <= o.at.1 && e >= o.at.0) {
                        continue;
                    }
                    let got = a.hover(tr(s, e));
                    c.step();
                    let arg = (0..at.args.len()).find(|k| inside((s, e), sp.args[*k].0));
                    let show = |c: &str| c.trim().lines().take(3).collect::<Vec<_>>().join(" ");
                    // In an empty argument list there is nothing to describe.
                    if at.args.is_empty() && sp.parens.is_some_and(|r| r.0 < r.1 && inside((s, e), r)) {
                        continue;
                    }
                    if !inside((s, e), sp.at) {
                        c.check(got.is_none(), || format!("hover at {s}..{e} (outside the attribute) shows {:?}", got.as_ref().map(|h| show(&h.content))));
                        continue;
                    }
                    let want: Vec<((&str, bool), (usize, usize))> = match (arg, main_of(at, v)) {
                        (Some(k), _) => vec![(arg_doc(&at.args[k].0, &at.head, v), sp.args[k].1)],
                        (None, _) if at.head != "ink" => vec![(("", true), sp.seg)],
                        (None, Some(m)) => {
                            let k = at.args.iter().position(|(n, _)| *n == m).unwrap();
                            vec![(arg_doc(&m, &at.head, v), sp.args[k].1)]
                        }
                        // Without a defining argument the attribute is described by one of its arguments.
                        (None, None) => (0..at.args.len()).map(|k| (arg_doc(&at.args[k].0, &at.head, v), sp.args[k].1)).collect(),
                    };
                    c.cmp();
                    let head = format!("`#[{}]`", at.head);
                    let ok = |h: &ink_analyzer::Hover| want.iter().any(|((t, hd), r)| rng(h.range) == *r && if t.is_empty() { matches_doc(&h.content, (&head, true)) } else { matches_doc(&h.content, (t, *hd)) });
                    match &got {
                        Some(h) if ok(h) => c.outcome(&h.content.len()),
                        Some(h) => c.fail(format!("hover at {s}..{e} shows {:?} for {:?}, expected one of {want:?}", show(&h.content), rng(h.range))),
                        None => c.fail(format!("hover at {s}..{e} shows nothing, expected one of {want:?}")),
                    }
                }
            }
        }
        // Nothing but ink! attributes has help.
        for p in boundaries(&dc.code) {
            let line = dc.code[..p].rfind('\n').map_or(0, |k| k + 1);
            let end = dc.code[p..].find('\n').map_or(dc.code.len(), |k| p + k);
            if dc.code[line..end].contains("ink") || dc.spans.iter().any(|o| inside((p, p), o.at)) {
                continue;
            }
            c.step();
            c.check(a.hover(tr(p, p)).is_none(), || format!("hover at {p} shows help outside of any ink! attribute"));
        }
    });
}

fn hints_in(a: &Analysis, r: Option<(usize, usize)>, within: (usize, usize)) -> Vec<(String, usize, (usize, usize))> {
    let mut v: Vec<_> = a.inlay_hints(r.map(|(s, e)| tr(s, e))).into_iter().map(|h| (h.label, us(h.position), rng(h.range))).filter(|h| inside(h.2, within)).collect();
    v.sort();
    v
}

fn is_constructor(attrs: &[Attr]) -> bool {
    attrs.iter().any(|a| a.args.iter().any(|(n, _)| n == "constructor"))
}

fn is_callable(attrs: &[Attr]) -> bool {
    is_constructor(attrs) || attrs.iter().any(|a| a.args.iter().any(|(n, _)| n == "message"))
}

fn inlay(ctx: &Ctx, all: &[Inst]) {
    ctx.explore("inlay-hints", product(&[STYLES.len(), all.len()]), |i, c| {
        let mut d = Digits(i);
        let style = d.take(STYLES.len());
        let inst = &all[d.0 as usize];
        let v = inst.v;
        let attrs: Vec<Attr> = inst.attrs.iter().map(|a| parse(a)).collect();
        if attrs.is_empty() || style > 0 && ctx.quick() && inst.item > 1 {
            return;
        }
        let dc = doc(inst, &attrs, style);
        let a = Analysis::new(&dc.code, v);
        c.state(&format!("{} {}\n{}", vname(v), CXS[inst.cx].name, dc.code));
        let k = is_constructor(&attrs);
        let mut want = vec![];
        for (at, sp) in attrs.iter().zip(&dc.spans) {
            for ((n, _), (r, nr)) in at.args.iter().zip(&sp.args) {
                // A selector of a function that is neither message nor constructor is open.
                if n == "selector" && !is_callable(&attrs) {
                    return;
                }
                let t = value_type(n, k, v);
                if !t.is_empty() {
                    want.push((t.to_owned(), nr.1, *nr, *r));
                }
            }
        }
        let all = (dc.spans[0].at.0 - 1, dc.spans.last().unwrap().at.1 + 1);
        let strip = |w: Vec<&(String, usize, (usize, usize), (usize, usize))>| {
            let mut v: Vec<_> = w.into_iter().map(|w| (w.0.clone(), w.1, w.2)).collect();
            v.sort();
            v
        };
        let got = hints_in(&a, None, all);
        c.step();
        c.outcome(&got.len());
        let w = strip(want.iter().collect());
        c.check(got == w, || format!("hints for the file: {got:?}, expected {w:?}"));
        // Quick: selections that begin and end around the ends of arguments.
        let near = |p: usize| !ctx.quick() || dc.spans.iter().flat_map(|s| &s.args).any(|(r, n)| [r.0, r.1, n.1].iter().any(|q| p.abs_diff(*q) < 2)) || p == all.0 || p == all.1;
        for s in (all.0..=all.1).filter(|p| near(*p)) {
            for e in (s..=all.1).filter(|p| near(*p)) {
                if !dc.code.is_char_boundary(s) || !dc.code.is_char_boundary(e) {
                    continue;
                }
                let got = hints_in(&a, Some((s, e)), (0, dc.code.len()));
                c.step();
                let w = strip(want.iter().filter(|w| inside(w.3, (s, e))).collect());
                c.check(got == w, || format!("hints for {s}..{e}: {got:?}, expected {w:?}"));
            }
        }
    });
    // Nested arguments and several attributed items in one file.
    let backends: [(&str, &[(&str, &str)]); 8] = [
        ("backend(node)", &[("backend", "node | runtime_only")]),
        ("backend(runtime_only)", &[("backend", "node | runtime_only")]),
        ("backend(node(url = \"ws://u\"))", &[("backend", "node | runtime_only"), ("url", "&str")]),
        ("backend(runtime_only(sandbox = s::X))", &[("backend", "node | runtime_only"), ("sandbox", "impl drink::Sandbox")]),
        ("backend(node(url = \"ws://u\")), environment = E", &[("backend", "node | runtime_only"), ("url", "&str"), ("environment", "impl Environment")]),
        ("environment = E, backend(runtime_only(sandbox = s::X))", &[("backend", "node | runtime_only"), ("sandbox", "impl drink::Sandbox"), ("environment", "impl Environment")]),
        ("environment = E", &[("environment", "impl Environment")]),
        ("", &[]),
    ];
    let others: [(&str, &[(&str, &str)]); 6] = [
        ("", &[]),
        ("#[ink::contract(env = crate::E, keep_attr = \"k\")] mod c {}\n", &[("env", "impl Environment"), ("keep_attr", "&str")]),
        ("#[ink::contract] mod c { impl S { #[ink(message, selector = 9)] pub fn m(&self) {} #[ink(selector = 8, constructor)] pub fn n() {} } }\n", &[("selector", "u32 | _ | @"), ("selector", "u32 | _")]),
        ("mod a { mod b { #[ink::storage_item(derive = true)] struct X; } }\n", &[("derive", "bool")]),
        ("#[ink::chain_extension(extension = 4)] trait T { #[ink(function = 1, handle_status = true)] fn f(); }\n", &[("extension", "u16"), ("function", "u16"), ("handle_status", "bool")]),
        ("fn f() { #[ink::event(signature_topic = \"00\")] struct E; }\n", &[("signature_topic", "&str")]),
    ];
    ctx.explore("inlay-hints-files", product(&[backends.len(), others.len(), others.len()]), |i, c| {
        let mut d = Digits(i);
        let (b, wb) = backends[d.take(backends.len())];
        let (o, wo) = others[d.take(others.len())];
        let (q, wq) = others[d.take(others.len())];
        let code = format!("{o}#[cfg(test)] mod tests {{ #[ink_e2e::test({b})] async fn t() {{}} }}\n{q}");
        c.state(&code);
        let a = Analysis::new(&code, Version::V5);
        c.step();
        let mut got: Vec<(String, String)> = a.inlay_hints(None).into_iter().map(|h| (code[us(h.range.start())..us(h.range.end())].to_owned(), h.label)).collect();
        let mut want: Vec<(String, String)> = wb.iter().chain(wo).chain(wq).map(|(x, y)| (x.to_string(), y.to_string())).collect();
        got.sort();
        want.sort();
        c.check(got == want, || format!("hints {got:?}, expected {want:?}"));
        for h in a.inlay_hints(None) {
            let r = rng(h.range);
            c.check(us(h.position) == r.1, || format!("hint {:?} is not placed after its argument's name", h.label));
        }
    });
}

type Sig = BTreeSet<String>;

fn sig(args: &[&str], v: Version) -> Sig {
    let k = args.contains(&"constructor");
    args.iter()
        .map(|a| match value_type(a, k, v) {
            "" => a.to_string(),
            t => format!("{a}: {t}"),
        })
        .collect()
}

/// The signatures of attributes that an item may still get: one per defining argument.
fn open_sigs(k: Kind, s: Scope, v: Version, filter: impl Fn(&str) -> bool) -> BTreeSet<Sig> {
    let ok = |a: &&str| args_of(k, v).contains(a) && arg_in_scope(a, s, v);
    let mut out = BTreeSet::new();
    for (mains, extras) in groups(v) {
        for m in mains.iter().filter(|m| ok(m)) {
            let all: Vec<&str> = std::iter::once(*m).chain(extras.iter().copied().filter(|e| ok(e))).collect();
            if all.iter().any(|a| filter(a)) {
                out.insert(sig(&all, v));
            }
        }
    }
    if ok(&"namespace") && filter("namespace") {
        out.insert(sig(&["namespace"], v));
    }
    out
}

struct Help {
    params: Vec<String>,
    active: Option<usize>,
    range: (usize, usize),
    problem: Option<String>,
}

fn help(a: &Analysis, p: usize) -> Vec<Help> {
    a.signature_help(ts(p))
        .into_iter()
        .map(|h| {
            let mut problem = None;
            let mut params = vec![];
            for q in &h.parameters {
                match h.label.get(us(q.range.start())..us(q.range.end())) {
                    Some(t) => params.push(t.to_owned()),
                    None => problem = Some(format!("parameter range {:?} is outside of the label {:?}", q.range, h.label)),
                }
            }
            if params.join(", ") != h.label {
                problem = Some(format!("parameters {params:?} do not make up the label {:?}", h.label));
            }
            if h.active_parameter.is_some_and(|k| k >= params.len()) {
                problem = Some(format!("active parameter {:?} of {params:?}", h.active_parameter));
            }
            Help { params, active: h.active_parameter, range: rng(h.range), problem }
        })
        .collect()
}

fn judge_help(c: &mut Case, code: &str, p: usize, hs: &[Help], want: &BTreeSet<Sig>, range: (usize, usize), active: Option<&dyn Fn(&str) -> bool>) {
    for h in hs {
        if let Some(e) = &h.problem {
            c.fail(format!("signature help at {p}: {e}"));
        }
        c.check(h.range == range, || format!("signature help at {p} applies to {:?} {:?}, expected {range:?}", h.range, code.get(h.range.0..h.range.1)));
    }
    let got: BTreeSet<Sig> = hs.iter().map(|h| h.params.iter().cloned().collect()).collect();
    c.check(got == *want && hs.len() == want.len(), || format!("signatures at {p}: {got:?} ({}), expected {want:?}", hs.len()));
    if let Some(f) = active {
        for h in hs.iter().filter(|h| h.params.iter().any(|q| f(&name_of(q)))) {
            let name = h.active.and_then(|k| h.params.get(k)).map(|q| name_of(q));
            c.check(name.as_deref().is_some_and(f), || format!("active parameter at {p} is {name:?} of {:?}", h.params));
        }
    }
}

fn signatures(ctx: &Ctx, all: &[Inst]) {
    ctx.explore("signature-help", product(&[STYLES.len(), all.len()]), |i, c| {
        let mut d = Digits(i);
        let style = d.take(STYLES.len());
        let inst = &all[d.0 as usize];
        let v = inst.v;
        let attrs: Vec<Attr> = inst.attrs.iter().map(|a| parse(a)).collect();
        if attrs.is_empty() {
            return;
        }
        let cx = &CXS[inst.cx];
        let (k, _) = cx.items[inst.item];
        let dc = doc(inst, &attrs, style);
        let a = Analysis::new(&dc.code, v);
        c.state(&format!("{} {}\n{}", vname(v), cx.name, dc.code));
        let want: BTreeSet<Sig> = match &inst.have {
            Have::Nothing => return,
            Have::Macro(m, _) => [macro_args(m, v)].iter().filter(|a| !a.is_empty()).map(|a| sig(a, v)).collect(),
            Have::Args(args) => {
                let (mains, extras) = groups(v).into_iter().find(|(m, e)| args.iter().any(|a| m.contains(a) || e.contains(a))).unwrap();
                match args.iter().find(|a| mains.contains(a)) {
                    Some(m) => {
                        let all: Vec<&str> = std::iter::once(*m).chain(extras.iter().copied()).collect();
                        BTreeSet::from([sig(&all, v)])
                    }
                    // Not defined yet: every item that takes one of the arguments.
                    None => open_sigs(k, cx.scope, v, |x| args.contains(&x)),
                }
            }
        };
        let split = attrs.len() > 1 && attrs.iter().all(|a| main_of(a, v).is_none());
        for (at, sp) in attrs.iter().zip(&dc.spans) {
            for p in sp.at.0..=sp.at.1 {
                if !dc.code.is_char_boundary(p) {
                    continue;
                }
                let hs = help(&a, p);
                c.step();
                match sp.parens {
                    Some(r) if inside((p, p), r) => {
                        let arg = (0..at.args.len()).find(|k| inside((p, p), sp.args[*k].0)).map(|k| at.args[k].0.clone());
                        let f = |n: &str| arg.as_deref() == Some(n);
                        // Several attributes without a defining argument are judged one by one.
                        let w = if split { open_sigs(k, cx.scope, v, |x| at.args.iter().any(|(n, _)| n == x)) } else { want.clone() };
                        c.outcome(&w);
                        judge_help(c, &dc.code, p, &hs, &w, r, arg.is_some().then_some(&f as &dyn Fn(&str) -> bool));
                    }
                    _ => c.check(hs.is_empty(), || format!("signature help at {p}, outside of an argument list: {:?}", hs[0].params)),
                }
            }
        }
    });
    // Attributes that are being written: nothing yet, a prefix alone, or a prefix after other arguments.
    let fresh: Vec<&Inst> = all.iter().filter(|i| matches!(i.have, Have::Nothing) && !CXS[i.cx].inherits && CXS[i.cx].scope != Scope::Root && CXS[i.cx].items[i.item].0 != Kind::TraitImpl).collect();
    let names = ["", "constructor", "default", "message", "payable", "selector", "event", "anonymous", "signature_topic", "storage", "impl", "namespace", "topic", "extension", "function", "handle_status", "zz"];
    ctx.explore("signature-help-typing", product(&[names.len(), 4, fresh.len()]), |i, c| {
        let mut d = Digits(i);
        let name = names[d.take(names.len())];
        let len = d.take(4) + 1;
        let inst = fresh[d.0 as usize];
        let cx = &CXS[inst.cx];
        let (k, it) = cx.items[inst.item];
        let v = inst.v;
        let pre = &name[..len.min(name.len())];
        if names[1..].contains(&pre) || name.is_empty() && len > 1 {
            return;
        }
        let (code, marks) = marked(&cx.program(&format!("#[ink(«{pre}»)] {it}")));
        c.state(&format!("{} {}\n{code}", vname(v), cx.name));
        let a = Analysis::new(&code, v);
        let (s, e) = marks[0];
        for p in s..=e {
            let hs = help(&a, p);
            c.step();
            let f = |n: &str| n.starts_with(pre);
            let want = open_sigs(k, cx.scope, v, f);
            judge_help(c, &code, p, &hs, &want, (s, e), (!pre.is_empty()).then_some(&f as &dyn Fn(&str) -> bool));
        }
    });
    let some: Vec<&Inst> = all.iter().filter(|i| matches!(&i.have, Have::Args(a) if groups(i.v).iter().any(|(m, _)| a.iter().any(|x| m.contains(x)))) && i.attrs.len() == 1 && !CXS[i.cx].inherits).collect();
    ctx.explore("signature-help-more", product(&[names.len(), 3, some.len()]), |i, c| {
        let mut d = Digits(i);
        let name = names[d.take(names.len())];
        let len = d.take(3) + 1;
        let inst = some[d.0 as usize];
        let cx = &CXS[inst.cx];
        let (k, it) = cx.items[inst.item];
        let v = inst.v;
        let pre = &name[..len.min(name.len())];
        if name.is_empty() && len > 1 || !name.is_empty() && !legal_args(k, cx.scope, &inst.have, v).contains(name) {
            return;
        }
        let body = inst.attrs[0].strip_suffix(")]").unwrap();
        let head = "#[ink(".len();
        let (code, marks) = marked(&cx.program(&format!("«{body}, «{pre}»»)] {it}")));
        c.state(&format!("{} {}\n{code}", vname(v), cx.name));
        let a = Analysis::new(&code, v);
        let Have::Args(args) = &inst.have else { return };
        let (mains, extras) = groups(v).into_iter().find(|(m, _)| args.iter().any(|a| m.contains(a))).unwrap();
        let m = args.iter().find(|a| mains.contains(a)).unwrap();
        let all: Vec<&str> = std::iter::once(*m).chain(extras.iter().copied()).collect();
        let want = BTreeSet::from([sig(&all, v)]);
        for p in marks[1].0..=marks[1].1 {
            let hs = help(&a, p);
            c.step();
            let f = |n: &str| n.starts_with(pre);
            judge_help(c, &code, p, &hs, &want, (marks[0].0 + head, marks[0].1), (!pre.is_empty()).then_some(&f as &dyn Fn(&str) -> bool));
        }
    });
}

pub fn run(ctx: &Ctx) -> Info {
    let all = instances(ctx.quick());
    hover(ctx, &all);
    inlay(ctx, &all);
    signatures(ctx, &all);
    info(
        format!("{} attributed items ({} enclosing scopes x item kinds x legal argument sets x orders and splits x versions) x {} spacing styles; every selection (hover, inlay hints) and every cursor (signature help) in and around each attribute; attributes being typed: all prefixes up to 4 characters", all.len(), CXS.len(), STYLES.len()),
        &["documentation is compared by its heading", "which parameter is active where the cursor is on no argument is unspecified", "attributes with unknown or conflicting arguments are not covered", "how an attribute without a defining argument is described is unspecified beyond being one of its arguments"],
    )
}
