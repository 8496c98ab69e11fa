//! C07: constructors, messages and impl blocks are accepted iff they obey the ink! rules.
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;

/// A contract around `body` that is valid by itself.
pub fn contract(body: &str) -> String {
    format!(
        "#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct S {{ v: u8 }}\n\n    impl S {{\n        #[ink(constructor)]\n        pub fn base_new() -> Self {{ S {{ v: 0 }} }}\n\n        #[ink(message)]\n        pub fn base_msg(&self) {{}}\n    }}\n\n    {body}\n}}\n"
    )
}

const VIS: [&str; 5] = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(self) "];
const GEN: [&str; 4] = ["", "<T>", "<'a>", "<const N: usize>"];
const RECV: [&str; 8] = ["&self", "", "&mut self", "self", "mut self", "self: Self", "self: &Self", "&'static self"];
const PARAMS: [&str; 4] = ["", "a: u8", "a: u8, b: &str", "a: u8, ..."];
const RET: [&str; 7] = ["", "-> Self", "-> u8", "-> Result<Self, ()>", "-> Option<Self>", "-> (u8, S)", "-> Result<u8, ()>"];
const IMPLS: [&str; 4] = ["impl S", "#[ink(impl)] impl S", "impl Unknown for S", "#[ink(impl)] impl Unknown for S"];

fn mods(m: usize) -> String {
    let mut s = String::new();
    for (k, w) in ["const ", "async ", "unsafe ", "extern \"C\" "].iter().enumerate() {
        if m >> k & 1 == 1 {
            s.push_str(w);
        }
    }
    s
}

#[allow(clippy::too_many_arguments)]
fn fn_case(c: &mut Case, v: Version, ctor: bool, imp: usize, vis: usize, m: usize, gen: usize, recv: usize, par: usize, ret: usize) {
    let mut ps: Vec<&str> = vec![];
    if !RECV[recv].is_empty() {
        ps.push(RECV[recv]);
    }
    if !PARAMS[par].is_empty() {
        ps.push(PARAMS[par]);
    }
    let mut viols: Vec<Viol> = vec![];
    let is_trait = imp >= 2;
    if is_trait && vis != 0 && vis != 1 || !is_trait && vis != 0 {
        viols.push(("visibility", 0));
    }
    if is_trait && vis == 0 {
        viols.push(("inherited visibility in trait impl", 0));
    }
    if m & 1 != 0 {
        viols.push(("const", 0));
    }
    if m & 2 != 0 {
        viols.push(("async", 0));
    }
    if m & 4 != 0 {
        viols.push(("unsafe", 0));
    }
    if m & 8 != 0 {
        viols.push(("abi", 0));
    }
    if gen != 0 {
        viols.push(("generics", 0));
    }
    if par == 3 {
        viols.push(("variadic", 0));
    }
    if ctor {
        if recv != 1 {
            viols.push(("constructor with receiver", 0));
        }
        if ret == 0 {
            viols.push(("constructor without return type", 0));
        }
    } else {
        if !matches!(recv, 0 | 2 | 7) {
            viols.push(("message without self reference", 0));
        }
        if ret == 1 {
            viols.push(("message returning Self", 0));
        }
    }
    // `self: &Self` is a self reference by type; the analyzer only accepts the `&self` shorthand, as ink! does.
    let attr = if ctor { "constructor" } else { "message" };
    let src = contract(&format!(
        "{} {{\n        «#[ink({attr})]\n        {}{}fn f{}({}) {} {{ unimplemented!() }}»\n    }}",
        IMPLS[imp], VIS[vis], mods(m), GEN[gen], ps.join(", "), RET[ret]
    ));
    judge(c, &src, v, &viols);
}

fn fns(ctx: &Ctx) {
    let masks: Vec<usize> = if ctx.quick() { vec![0, 1, 2, 4, 8, 15] } else { (0..16).collect() };
    let dims = [2, 2, IMPLS.len(), VIS.len(), masks.len(), GEN.len(), RECV.len(), PARAMS.len(), RET.len()];
    let total = product(&dims);
    ctx.explore("callable-signatures", total, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let ctor = d.take(2) == 1;
        let imp = d.take(IMPLS.len());
        let vis = d.take(VIS.len());
        let m = masks[d.take(masks.len())];
        let (gen, recv, par, ret) = (d.take(GEN.len()), d.take(RECV.len()), d.take(PARAMS.len()), d.take(RET.len()));
        if ctx.quick() {
            // Quick tier: at most three deviations from the simplest signature.
            let base_recv = if ctor { 1 } else { 0 };
            let dev = (imp != 0) as u8 + (vis != 0) as u8 + (m != 0) as u8 + (gen != 0) as u8 + (recv != base_recv) as u8 + (par != 0) as u8 + (ret != ctor as usize) as u8;
            if dev > 3 {
                return;
            }
        }
        fn_case(c, v, ctor, imp, vis, m, gen, recv, par, ret);
    });
}

/// Items that are not functions carrying a callable attribute.
fn non_fns(ctx: &Ctx) {
    let items = ["pub struct X { a: u8 }", "pub enum X { A }", "const X: u8 = 1;", "type X = u8;", "use a::b;", "pub trait X { fn f(&self); }", "mod x {}", "static X: u8 = 1;", "macro_rules! x { () => {} }", "union X { a: u8 }"];
    let assoc = ["const X: u8 = 1;", "type X = u8;", "m!();"];
    let n = (items.len() + assoc.len()) as u64;
    ctx.explore("non-functions", n * 4, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let attr = *d.pick(&["constructor", "message"]);
        let k = d.take(n as usize);
        let src = if k < items.len() {
            contract(&format!("«#[ink({attr})]\n    {}»", items[k]))
        } else {
            contract(&format!("impl S {{\n        «#[ink({attr})]\n        {}»\n    }}", assoc[k - items.len()]))
        };
        judge(c, &src, v, &[("callable attribute on a non-function", 0)]);
    });
}

/// Impl headers.
fn impls(ctx: &Ctx) {
    let attr = ["", "#[ink(impl)]", "#[ink(namespace = \"ns\")]", "#[ink(impl, namespace = \"ns\")]", "#[ink(impl)] #[ink(namespace = \"ns\")]"];
    let pre = ["", "default ", "unsafe ", "default unsafe "];
    let gen = ["", "<T>", "<'a>"];
    let tr_ = ["", "T1 for ", "a::T1 for ", "T1<u8> for "];
    let ty = ["S", "S<u8>", "self::S", "super::c::S<T>"];
    let body = ["#[ink(message)] VIS fn f(&self) {}", "#[ink(constructor)] VIS fn f() -> Self { S { v: 1 } }", "fn plain(&self) {}", "", "#[ink(constructor)] VIS fn f() -> Self { S { v: 1 } } fn plain() {} #[ink(message)] VIS fn g(&mut self, a: u8) -> u8 { a }"];
    let dims = [2, attr.len(), pre.len(), gen.len(), tr_.len(), ty.len(), body.len()];
    ctx.explore("impl-headers", product(&dims), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, p, g, t, y, b) = (d.take(attr.len()), d.take(pre.len()), d.take(gen.len()), d.take(tr_.len()), d.take(ty.len()), d.take(body.len()));
        if a == 2 && matches!(b, 2 | 3) {
            // A namespace alone does not make an impl block an ink! impl block; nothing is specified.
            return;
        }
        let is_ink = a != 0 || !matches!(b, 2 | 3);
        let mut viols: Vec<Viol> = vec![];
        if is_ink {
            if p & 1 != 0 {
                viols.push(("default impl", 0));
            }
            if p & 2 != 0 {
                viols.push(("unsafe impl", 0));
            }
            if g != 0 {
                viols.push(("generic impl", 0));
            }
            if matches!(y, 1 | 3) {
                viols.push(("generic self type", 0));
            }
            if t != 0 && a >= 2 {
                viols.push(("namespace on trait impl", 0));
            }
        }
        let body = body[b].replace("VIS ", if t == 0 { "pub " } else { "" });
        let src = contract(&format!("«{}\n    {}impl{} {}{} {{ {} }}»", attr[a], pre[p], gen[g], tr_[t], ty[y], body));
        judge(c, &src, v, &viols);
    });
    // `#[ink(impl)]` on something that is not an impl block.
    let items = ["pub struct X { a: u8 }", "fn x() {}", "pub trait X {}", "mod x {}", "enum X { A }"];
    let attrs = ["#[ink(impl)]", "#[ink(impl, namespace = \"n\")]"];
    ctx.explore("non-impls", (items.len() * attrs.len() * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let src = contract(&format!("«{}\n    {}»", d.pick(&attrs), d.pick(&items)));
        judge(c, &src, v, &[("impl attribute on a non-impl", 0)]);
    });
}

/// Where callables may live, and what may live in them.
fn placement(ctx: &Ctx) {
    let callables = ["#[ink(message)] pub fn f(&self) {}", "#[ink(constructor)] pub fn f() -> Self { S { v: 1 } }"];
    // %: the callable; the flag tells whether the place is legal.
    let places: [(&str, bool); 8] = [
        ("impl S { % }", true),
        ("impl S { fn other(&self) {} % }", true),
        ("%", false),
        ("mod inner { impl S { % } }", false),
        ("impl S { pub fn outer(&self) { % } }", false),
        ("fn outer() { impl S { % } }", false),
        ("pub struct Q; impl S { % } impl Q { fn q() {} }", true),
        ("const X: () = { impl S { % } };", false),
    ];
    ctx.explore("callable-placement", (callables.len() * places.len() * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let call = d.pick(&callables);
        let (place, ok) = d.pick(&places);
        let src = contract(&format!("«{}»", place.replace('%', call)));
        judge(c, &src, v, if *ok { &[] } else { &[("callable outside an impl block at the contract root", 0)] });
    });
    // ink! items inside callables.
    let inner = ["#[ink(message)] fn g(&self) {}", "#[ink(event)] pub struct E { a: u8 }", "#[ink(storage)] pub struct Q {}", "#[ink::event] pub struct E { a: u8 }", "#[ink::storage_item] pub struct E { a: u8 }", "#[ink::test] fn t() {}", "let x = 1;", "fn g() {}", "#[derive(Debug)] struct Z;"];
    ctx.explore("callable-descendants", (inner.len() * 2 * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let head = *d.pick(&["#[ink(message)] pub fn f(&self)", "#[ink(constructor)] pub fn f() -> Self"]);
        let k = d.take(inner.len());
        let src = contract(&format!("impl S {{ «{head} {{ {} unimplemented!() }}» }}", inner[k]));
        judge(c, &src, v, if k < 6 { &[("ink! item inside a callable", 0)] } else { &[] });
    });
}

pub fn run(ctx: &Ctx) -> Info {
    fns(ctx);
    non_fns(ctx);
    impls(ctx);
    placement(ctx);
    info(
        format!("product of visibility x modifiers x generics x receiver x params x return type x impl kind x version ({}); product of impl header parts; all placements/descendants listed", ctx.pick("at most 3 deviations", "full product")),
        &["the rule model is written from the ink! 4/5 language rules"],
    )
}
