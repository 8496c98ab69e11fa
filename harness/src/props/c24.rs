//! C24: every ink! item is recognised exactly once, in its proper scope.
//!
//! Explores all ordered forests of up to N item nodes over an alphabet of plain containers and ink! items. The
//! reference walks the generated tree (never the text) and predicts, per item, its closest ink! ancestor, the accessor
//! that must list it, and whether the scope is legal.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use ink_analyzer_ir::syntax::SyntaxNode;
use ink_analyzer_ir::{
    ink_attrs, ink_attrs_closest_ancestors, ink_attrs_closest_descendants, ink_attrs_descendants, InkAttribute, InkEntity, InkFile,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    // Plain containers.
    Mod,
    Func,
    Const,
    Impl,
    // Plain leaf.
    Struct,
    // ink! containers (children live in the module or in a function body).
    Contract,
    Test,
    E2e,
    ImplMsg,
    ImplCtor,
    FreeMsg,
    // ink! leaves.
    TraitDef,
    ChainExt,
    StorageItem,
    Event2,
    Event,
    Storage,
    Scale,
}
use K::*;
const ALL: [K; 18] = [
    Mod, Func, Const, Impl, Struct, Contract, Test, E2e, ImplMsg, ImplCtor, FreeMsg, TraitDef, ChainExt, StorageItem, Event2, Event, Storage, Scale,
];
const SMALL: [K; 9] = [Mod, Func, Contract, Test, ImplMsg, TraitDef, StorageItem, Event, Storage];
fn container(k: K) -> bool {
    matches!(k, Mod | Func | Const | Impl | Contract | Test | E2e | ImplMsg | ImplCtor | FreeMsg)
}

const CLOSE: u8 = 255;
/// All forests with exactly `n` nodes, as preorder sequences of kinds and closes.
fn forests(alphabet: &[K], n: usize) -> Vec<Vec<u8>> {
    fn go(alphabet: &[K], left: usize, open: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        if open > 0 {
            cur.push(CLOSE);
            go(alphabet, left, open - 1, cur, out);
            cur.pop();
        }
        for k in alphabet {
            cur.push(*k as u8);
            go(alphabet, left - 1, open + container(*k) as usize, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(alphabet, n, 0, &mut vec![], &mut out);
    out
}

/// An ink! item of the reference tree. `kind` is the item's own kind; callables are items of their own.
struct Item {
    kind: K,
    /// Callable inside an impl group.
    callable: bool,
    start: usize,
    hdr_end: usize,
    parent: Option<usize>,
    /// Directly inside the parent's own item list (contract root, or the root of an impl block).
    direct: bool,
    /// The impl block (start offset) of a callable.
    ok: bool,
    skip: bool,
}
/// An impl block that holds callables.
struct ImplBlock {
    start: usize,
    ink_attr: Option<usize>,
    callables: Vec<usize>,
    parent: Option<usize>,
}

struct Gen {
    s: String,
    v: Version,
    deco: usize,
    n: usize,
    items: Vec<Item>,
    impls: Vec<ImplBlock>,
}
#[derive(Clone, Copy)]
struct Scope {
    parent: Option<usize>,
    direct: bool,
}

impl Gen {
    fn deco(&self, attr: &str) -> String {
        match self.deco {
            0 => attr.to_string(),
            1 => format!("#[cfg(feature = \"x\")]\n{attr}"),
            2 => format!("/// Docs.\n{attr}\n#[allow(unused)]"),
            _ => format!("// note\n{attr} /* {{ */ #[cfg(not(test))] #[doc = \"}}\"]"),
        }
    }
    /// Adds an ink! item whose header is `attr` (decorated) + `head`; returns its index.
    fn item(&mut self, kind: K, callable: bool, attr: &str, head: &str, scope: Scope) -> usize {
        let start = self.s.len();
        let d = self.deco(attr);
        self.s.push_str(&d);
        self.s.push(' ');
        self.s.push_str(head);
        self.items.push(Item { kind, callable, start, hdr_end: self.s.len(), parent: scope.parent, direct: scope.direct, ok: true, skip: false });
        self.items.len() - 1
    }
    fn open(&mut self, k: K, scope: Scope) -> (Scope, &'static str) {
        self.n += 1;
        let n = self.n;
        let inner = |p| Scope { parent: p, direct: false };
        match k {
            Mod => self.s.push_str(&format!("pub mod m{n} {{ ")),
            Func => self.s.push_str(&format!("fn f{n}() {{ ")),
            Const => self.s.push_str(&format!("const K{n}: () = {{ ")),
            Impl => {
                self.s.push_str(&format!("impl S {{ fn p{n}() {{ "));
                return (inner(scope.parent), "} }\n");
            }
            Struct => {
                self.s.push_str(&format!("pub struct P{n} {{ a: u8 }}\n"));
                return (scope, "");
            }
            Contract => {
                let i = self.item(k, false, "#[ink::contract]", &format!("mod c{n} {{ "), scope);
                let root = Scope { parent: Some(i), direct: true };
                self.item(Storage, false, "#[ink(storage)]", "pub struct S { v: u8 }", root);
                self.s.push('\n');
                let at = self.s.len();
                self.s.push_str("impl S { ");
                let a = self.item(ImplCtor, true, "#[ink(constructor)]", "pub fn base_new() -> Self { todo!() }", root);
                let b = self.item(ImplMsg, true, "#[ink(message)]", "pub fn base_msg(&self) {}", root);
                self.s.push_str(" }\n");
                self.impls.push(ImplBlock { start: at, ink_attr: None, callables: vec![a, b], parent: Some(i) });
                return (root, "}\n");
            }
            Test => {
                let i = self.item(k, false, "#[ink::test]", &format!("fn t{n}() {{ "), scope);
                return (inner(Some(i)), "}\n");
            }
            E2e => {
                let i = self.item(k, false, "#[ink_e2e::test]", &format!("async fn t{n}() {{ "), scope);
                return (inner(Some(i)), "}\n");
            }
            ImplMsg => {
                let at = self.s.len();
                self.s.push_str("impl S { ");
                let i = self.item(k, true, "#[ink(message)]", &format!("pub fn g{n}(&self) {{ "), scope);
                self.items[i].start = at;
                self.impls.push(ImplBlock { start: at, ink_attr: None, callables: vec![i], parent: scope.parent });
                return (inner(Some(i)), "} }\n");
            }
            ImplCtor => {
                let j = self.item(k, false, "#[ink(impl)]", "impl S { ", scope);
                let at = self.items[j].start;
                let i = self.item(k, true, "#[ink(constructor)]", &format!("pub fn g{n}() -> Self {{ "), Scope { parent: Some(j), direct: true });
                self.impls.push(ImplBlock { start: at, ink_attr: Some(j), callables: vec![i], parent: scope.parent });
                return (inner(Some(i)), "todo!() } }\n");
            }
            FreeMsg => {
                let i = self.item(k, true, "#[ink(message)]", &format!("pub fn g{n}(&self) {{ "), scope);
                return (inner(Some(i)), "}\n");
            }
            TraitDef => {
                self.item(k, false, "#[ink::trait_definition]", &format!("pub trait Td{n} {{ #[ink(message)] fn tm(&self); #[ink(message, selector = 7)] fn tn(&mut self); }}\n"), scope);
                return (scope, "");
            }
            ChainExt => {
                let (a, f) = if self.v == Version::V4 { ("#[ink::chain_extension]", "extension") } else { ("#[ink::chain_extension(extension = 1)]", "function") };
                self.item(k, false, a, &format!("pub trait Ce{n} {{ type ErrorCode = crate::Er; #[ink({f} = 1)] fn a(); #[ink({f} = 2)] fn b(); }}\n"), scope);
                return (scope, "");
            }
            StorageItem => {
                self.item(k, false, "#[ink::storage_item]", &format!("pub struct Si{n} {{ a: u8 }}\n"), scope);
                return (scope, "");
            }
            Event2 => {
                self.item(k, false, "#[ink::event]", &format!("pub struct Ew{n} {{ #[ink(topic)] a: u8, b: u8 }}\n"), scope);
                return (scope, "");
            }
            Event => {
                self.item(k, false, "#[ink(event)]", &format!("pub struct Ev{n} {{ a: u8, #[ink(topic)] b: u8 }}\n"), scope);
                return (scope, "");
            }
            Storage => {
                self.item(k, false, "#[ink(storage)]", &format!("pub struct St{n} {{ a: u8 }}\n"), scope);
                return (scope, "");
            }
            Scale => {
                self.item(k, false, "#[ink::scale_derive(Encode)]", &format!("pub struct Sc{n} {{ a: u8 }}\n"), scope);
                return (scope, "");
            }
        }
        (inner(scope.parent), if k == Const { "};\n" } else { "}\n" })
    }
    fn build(forest: &[u8], v: Version, deco: usize) -> Gen {
        let mut g = Gen { s: String::new(), v, deco, n: 0, items: vec![], impls: vec![] };
        let mut stack = vec![];
        let mut scope = Scope { parent: None, direct: true };
        for b in forest {
            if *b == CLOSE {
                let (s, close): (Scope, &str) = stack.pop().unwrap();
                g.s.push_str(close);
                scope = s;
            } else {
                let k = ALL[*b as usize];
                let (inner, close) = g.open(k, scope);
                if container(k) {
                    stack.push((scope, close));
                    scope = inner;
                }
            }
        }
        while let Some((_, close)) = stack.pop() {
            g.s.push_str(close);
        }
        g.s.push_str("#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub struct Er; impl ink::env::chain_extension::FromStatusCode for Er {}\n");
        g.judge();
        g
    }
    /// The scope rules.
    fn judge(&mut self) {
        let v5 = self.v == Version::V5;
        let mut contracts = 0;
        let mut storages = vec![0usize; self.items.len()];
        for i in 0..self.items.len() {
            let it = &self.items[i];
            let (kind, direct, parent, callable) = (it.kind, it.direct, it.parent, it.callable);
            let skip = parent.is_some_and(|p| self.items[p].skip || !self.items[p].ok);
            let in_impl = matches!(kind, ImplMsg | ImplCtor);
            let any = match kind {
                TraitDef | ChainExt | StorageItem | Test | E2e => true,
                Event2 | Scale => v5,
                _ => false,
            };
            let ok = match parent.map(|p| (p, &self.items[p])) {
                None => {
                    if kind == Contract {
                        contracts += 1;
                    }
                    any || kind == Contract && contracts == 1
                }
                Some((p, q)) if q.kind == Contract => {
                    if kind == Storage {
                        storages[p] += 1;
                    }
                    any || match kind {
                        Storage => direct && storages[p] == 1,
                        Event => direct,
                        _ => in_impl && direct,
                    }
                }
                // The callable of an annotated impl block.
                Some((_, q)) if q.kind == ImplCtor && !q.callable => callable && direct,
                // Functions: only SCALE derives.
                Some(_) => v5 && kind == Scale,
            };
            self.items[i].ok = ok;
            self.items[i].skip = skip;
        }
    }
}

fn start_of(n: &SyntaxNode) -> usize {
    us(n.text_range().start())
}
fn owner(a: &InkAttribute) -> usize {
    a.syntax().parent().map(|p| start_of(&p)).unwrap_or(usize::MAX)
}

fn case(c: &mut Case, forest: &[u8], v: Version, deco: usize) {
    let g = Gen::build(forest, v, deco);
    let code = &g.s;
    c.state(&format!("{}\n{code}", vname(v)));
    if !parses(code) {
        panic!("harness bug: model program does not parse: {:?}\n{code}", syntax_errors(code));
    }
    c.step();
    // Acceptance.
    let errs = errors(code, v);
    c.outcome(&errs.iter().map(|d| d.msg.as_str()).collect::<Vec<_>>());
    let mut bad = vec![false; g.items.len()];
    for d in &errs {
        // The item with the last header at or before the error.
        let hit = g.items.iter().enumerate().filter(|(_, it)| it.start <= d.start && d.start <= it.hdr_end).map(|(i, _)| i).next_back();
        // An impl block of unannotated callables is reported at the block.
        let hit = hit.or_else(|| g.impls.iter().find(|b| b.start == d.start).map(|b| b.callables[0]));
        match hit {
            Some(i) => bad[i] = true,
            None => {
                c.fail(format!("error outside all ink! items: {}\n{}", d.msg, show(code, &errs)));
                return;
            }
        }
    }
    for (i, it) in g.items.iter().enumerate() {
        if it.skip {
            continue;
        }
        let what = &code[it.start..it.hdr_end];
        if it.ok && bad[i] {
            c.fail(format!("item in a legal scope is reported: {what:?}\n{}", show(code, &errs)));
        } else if !it.ok && !bad[i] {
            c.fail(format!("item in an illegal scope is not reported: {what:?}\n{}", show(code, &errs)));
        } else {
            c.cmp();
        }
    }
    // Attribution.
    let file = InkFile::parse(code);
    let root = file.syntax().clone();
    // Callables of an unannotated impl block start after the block.
    let real: Vec<usize> = g
        .items
        .iter()
        .map(|it| if it.callable && it.kind == ImplMsg && code[it.start..].starts_with("impl") { it.start + "impl S { ".len() } else { it.start })
        .collect();
    let find = |at: usize| root.descendants().find(|n| start_of(n) == at && ink_attrs(n).next().is_some());
    let leaf = |k: K| matches!(k, TraitDef | ChainExt | Event2 | Event);
    let mut expect_file: Vec<usize> = vec![];
    for (i, it) in g.items.iter().enumerate() {
        let Some(node) = find(real[i]) else {
            c.fail(format!("item not found: {:?}\n{code}", &code[it.start..it.hdr_end]));
            return;
        };
        if it.parent.is_none() {
            expect_file.push(real[i]);
        }
        let mut up: Vec<usize> = ink_attrs_closest_ancestors(&node).map(|a| owner(&a)).collect();
        up.dedup();
        let want: Vec<usize> = it.parent.iter().map(|p| real[*p]).collect();
        c.check(up == want, || format!("closest ink! ancestors of {:?}: {up:?} instead of {want:?}\n{code}", &code[it.start..it.hdr_end]));
        if !leaf(it.kind) {
            let down: Vec<usize> = ink_attrs_closest_descendants(&node).map(|a| owner(&a)).collect();
            // The item's own attributes are not its descendants.
            let want: Vec<usize> = g.items.iter().enumerate().filter(|(_, j)| j.parent == Some(i)).map(|(j, _)| real[j]).collect();
            c.check(down == want, || format!("closest ink! descendants of {:?}: {down:?} instead of {want:?}\n{code}", &code[it.start..it.hdr_end]));
        }
    }
    let down: Vec<usize> = ink_attrs_closest_descendants(&root).map(|a| owner(&a)).collect();
    c.check(down == expect_file, || format!("closest ink! descendants of the file: {down:?} instead of {expect_file:?}\n{code}"));
    let all = ink_attrs_descendants(&root).count();
    let want = g.items.len() + g.items.iter().map(|i| match i.kind { TraitDef | ChainExt => 2, Event | Event2 => 1, _ => 0 }).sum::<usize>();
    c.check(all == want, || format!("{all} ink! attributes instead of {want}\n{code}"));

    // Accessors.
    fn starts<T: InkEntity>(xs: &[T]) -> Vec<usize> {
        xs.iter().map(|x| start_of(x.syntax())).collect()
    }
    let of = |p: &dyn std::ops::Fn(&Item) -> bool| -> Vec<usize> { g.items.iter().enumerate().filter(|(_, it)| p(it)).map(|(i, _)| real[i]).collect() };
    let mut eq = |what: &str, got: Vec<usize>, mut want: Vec<usize>| {
        let mut got = got;
        got.sort_unstable();
        want.sort_unstable();
        c.check(got == want, || format!("{what}: items at {got:?} instead of {want:?}\n{code}"));
    };
    // Items that may live in the file or in one of its contracts.
    let shared = |k: K| of(&|it: &Item| it.kind == k && it.parent.map_or(true, |p| g.items[p].kind == Contract && g.items[p].parent.is_none()));
    let own = |k: K, p: Option<usize>| of(&|it: &Item| it.kind == k && it.parent == p);
    eq("file contracts", starts(file.contracts()), own(Contract, None));
    eq("file trait definitions", starts(file.trait_definitions()), shared(TraitDef));
    eq("file chain extensions", starts(file.chain_extensions()), shared(ChainExt));
    eq("file storage items", starts(file.storage_items()), shared(StorageItem));
    eq("file events", starts(file.events_v2()), shared(Event2));
    eq("file tests", starts(file.tests()), own(Test, None));
    eq("file e2e tests", starts(file.e2e_tests()), own(E2e, None));
    for t in file.trait_definitions() {
        eq("trait definition messages", vec![t.messages().len()], vec![2]);
    }
    for t in file.chain_extensions() {
        eq("chain extension functions", vec![t.extensions().len() + t.functions().len()], vec![2]);
    }
    for t in file.events_v2() {
        eq("event topics", vec![t.topics().len()], vec![1]);
    }
    for ct in file.contracts() {
        let i = real.iter().position(|r| *r == start_of(ct.syntax()));
        let Some(i) = i.filter(|i| g.items[*i].kind == Contract) else { continue };
        let callables = |ctor: bool| {
            of(&|it: &Item| {
                it.callable
                    && (it.kind == ImplCtor) == ctor
                    && (it.parent == Some(i) || it.parent.is_some_and(|p| g.items[p].kind == ImplCtor && !g.items[p].callable && g.items[p].parent == Some(i)))
            })
        };
        eq("contract storage", ct.storage().iter().map(|s| start_of(s.syntax())).collect(), own(Storage, Some(i)).into_iter().take(1).collect());
        eq("contract events", starts(ct.events()), own(Event, Some(i)));
        eq("contract tests", starts(ct.tests()), own(Test, Some(i)));
        eq("contract e2e tests", starts(ct.e2e_tests()), own(E2e, Some(i)));
        eq("contract constructors", starts(ct.constructors()), callables(true));
        eq("contract messages", starts(ct.messages()), callables(false));
        eq("contract impls", starts(ct.impls()), g.impls.iter().filter(|b| b.parent == Some(i)).map(|b| b.start).collect());
        for im in ct.impls() {
            if let Some(b) = g.impls.iter().find(|b| b.start == start_of(im.syntax())) {
                let got: Vec<usize> = starts(im.constructors()).into_iter().chain(starts(im.messages())).collect();
                eq("impl callables", got, b.callables.iter().map(|j| real[*j]).collect());
                eq("impl attribute", vec![im.impl_attr().is_some() as usize], vec![b.ink_attr.is_some() as usize]);
            }
        }
        for e in ct.events() {
            eq("event topics", vec![e.topics().len()], vec![1]);
        }
    }
}

/// Annotated impl blocks, also with attributes that are still being written.
const IMPL_ATTRS: [&str; 10] = ["", "#[ink(impl)] ", "#[ink(namespace = \"n\")] ", "#[ink(impl, namespace = \"n\")] ", "#[ink(impl)] #[ink(namespace = \"n\")] ", "#[ink(xyz)] ", "#[ink()] ", "#[ink] ", "#[ink::xyz] ", "#[ink(xyz = 1)] #[allow(unused)] "];
const CALLABLES: [&[bool]; 6] = [&[], &[true], &[false], &[true, false], &[false, true], &[false, false]];

fn impl_annotations(ctx: &Ctx) {
    ctx.explore("impl-annotations", product(&[IMPL_ATTRS.len(), CALLABLES.len(), IMPL_ATTRS.len(), CALLABLES.len(), 2]), |i, c| {
        let mut d = Digits(i);
        let blocks: Vec<(&str, &[bool])> = (0..2).map(|_| (*d.pick(&IMPL_ATTRS), *d.pick(&CALLABLES))).collect();
        let tr = d.take(2) == 1;
        let mut s = String::from("#[ink::contract] mod c { #[ink(storage)] pub struct S { v: u8 }\n");
        let (mut ctors, mut msgs, mut impls) = (vec![], vec![], vec![]);
        for (b, (attr, cs)) in blocks.iter().enumerate() {
            if !cs.is_empty() || attr.contains("impl") {
                impls.push(s.len());
            }
            s += &format!("{attr}impl {}S {{ ", if tr && b == 1 { "Tr for " } else { "" });
            for (k, ctor) in cs.iter().enumerate() {
                if *ctor { &mut ctors } else { &mut msgs }.push(s.len());
                s += &if *ctor { format!("#[ink(constructor)] pub fn c{b}{k}() -> Self {{ todo!() }} ") } else { format!("#[ink(message)] pub fn m{b}{k}(&self) {{}} ") };
            }
            s += "}\n";
        }
        s += "}\n";
        c.state(&s);
        c.step();
        let file = InkFile::parse(&s);
        let Some(ct) = file.contracts().first() else {
            c.fail(format!("no contract\n{s}"));
            return;
        };
        fn at<T: InkEntity>(xs: &[T]) -> Vec<usize> {
            let mut v: Vec<usize> = xs.iter().map(|x| start_of(x.syntax())).collect();
            v.sort_unstable();
            v
        }
        for (what, got, want) in [("constructors", at(ct.constructors()), ctors), ("messages", at(ct.messages()), msgs), ("impls", at(ct.impls()), impls)] {
            c.outcome(&got);
            c.check(got == want, || format!("contract {what}: {got:?} instead of {want:?}\n{s}"));
        }
    });
}

pub fn run(ctx: &Ctx) -> Info {
    impl_annotations(ctx);
    for n in 1..=3usize {
        let fs = forests(&ALL, n);
        let decos = if n < 3 || !ctx.quick() { 4 } else { 2 };
        ctx.explore(&format!("forests-{n}"), fs.len() as u64 * 2 * decos, |i, c| {
            let mut d = Digits(i);
            let v = VERSIONS[d.take(2)];
            // In the largest quick space: plain, and with all decorations at once.
            let deco = if decos == 2 { d.take(2) * 3 } else { d.take(4) };
            case(c, &fs[d.take(fs.len())], v, deco);
        });
    }
    let deep: &[(usize, bool)] = if ctx.quick() { &[(4, false)] } else { &[(4, true), (5, false)] };
    for (n, full) in deep {
        let fs = forests(if *full { &ALL } else { &SMALL }, *n);
        ctx.explore(&format!("forests-{n}-{}", if *full { "all" } else { "core" }), fs.len() as u64 * 2, |i, c| {
            let mut d = Digits(i);
            let v = VERSIONS[d.take(2)];
            case(c, &fs[d.take(fs.len())], v, 0);
        });
    }
    info(
        format!("all ordered forests of at most 3 items over 18 kinds of items ({} decorations), {}", ctx.pick("2-4", "4"), ctx.pick("of 4 items over 9 kinds", "of 4 items over 18 kinds and of 5 items over 9 kinds")),
        &["items below an item that is itself in an illegal scope are not judged", "a contract nested in a function body counts as a contract of the file"],
    )
}
