//! C08: selector clashes are reported exactly when two selectors are equal.
use super::{info, Info};
use crate::common::*;
use crate::rules::*;
use crate::util::*;
use blake2::digest::{consts::U32, Digest};
use ink_analyzer_ir::{InkFile, IsInkCallable};

const COMPLEMENT: u32 = 0x9BAE_9D5E;

/// Impl block kinds: (attributes and header, prefix of the derived selector's preimage, is a trait impl).
const CTX: [(&str, &str, bool); 14] = [
    ("impl S", "", false),
    ("#[ink(namespace = \"n\")] impl S", "n::", false),
    ("#[ink(impl, namespace = \"n\")] impl S", "n::", false),
    ("#[ink(impl)] #[ink(namespace = r\"n\")] impl S", "n::", false),
    ("#[ink(impl)] impl S", "", false),
    ("#[ink(namespace = \"T\")] impl S", "T::", false),
    ("impl T for S", "T::", true),
    ("#[ink(impl)] impl x::T for S", "T::", true),
    ("impl x::y::T for S", "T::", true),
    ("impl ::T for S", "::T::", true),
    ("impl ::x::T for S", "::x::T::", true),
    ("impl :: x :: y :: T for S", "::x::y::T::", true),
    ("impl n for S", "n::", true),
    ("impl self::T for S", "T::", true),
];

#[derive(Clone, Copy, PartialEq)]
enum Sel {
    Derived,
    Int(&'static str, u32),
    Wild,
    At,
}

fn hash(s: &str) -> u32 {
    let mut d = blake2::Blake2b::<U32>::new();
    d.update(s.as_bytes());
    let o = d.finalize();
    u32::from_be_bytes([o[0], o[1], o[2], o[3]])
}

#[derive(Clone)]
struct Callable {
    ctx: usize,
    name: &'static str,
    sel: Sel,
}

impl Callable {
    fn value(&self) -> u32 {
        match self.sel {
            Sel::Int(_, v) => v,
            Sel::At => COMPLEMENT,
            _ => hash(&format!("{}{}", CTX[self.ctx].1, self.name)),
        }
    }
    fn complement(&self) -> bool {
        self.sel == Sel::At || matches!(self.sel, Sel::Int(_, COMPLEMENT))
    }
    fn function(&self, ctor: bool) -> String {
        let sel = match self.sel {
            Sel::Derived => String::new(),
            Sel::Int(t, _) => format!(", selector = {t}"),
            Sel::Wild => ", selector = _".into(),
            Sel::At => ", selector = @".into(),
        };
        let vis = if CTX[self.ctx].2 { "" } else { "pub " };
        if ctor {
            format!("#[ink(constructor{sel})] {vis}fn {}() -> Self {{ todo!() }}", self.name)
        } else {
            format!("#[ink(message{sel})] {vis}fn {}(&self) {{}}", self.name)
        }
    }
    fn item(&self, ctor: bool) -> String {
        format!("{} {{ «{}» }}", CTX[self.ctx].0, self.function(ctor))
    }
}

fn program(cs: &[Callable], ctor: bool, one_impl: bool) -> String {
    let other = if ctor { "#[ink(message)] pub fn f(&self) {}" } else { "#[ink(constructor)] pub fn f() -> Self { todo!() }" };
    let items = if one_impl {
        format!("{} {{ {} }}", CTX[cs[0].ctx].0, cs.iter().map(|c| format!("«{}»", c.function(ctor))).collect::<Vec<_>>().join("\n        "))
    } else {
        cs.iter().map(|c| c.item(ctor)).collect::<Vec<_>>().join("\n    ")
    };
    format!("«#[ink::contract]\nmod c» {{\n    #[ink(storage)] pub struct S {{}}\n    impl S {{ {other} }}\n    {items}\n}}\n")
}

/// The reference rules.
fn model(cs: &[Callable], ctor: bool, v: Version) -> Vec<Viol> {
    let mut viols: Vec<Viol> = vec![];
    for (j, c) in cs.iter().enumerate() {
        if c.sel == Sel::At && (ctor || v == Version::V4) {
            viols.push(("`@` is not a selector here", j + 1));
        }
        if cs[..j].iter().any(|o| o.value() == c.value()) {
            viols.push(("selector clash", j + 1));
        }
        if c.sel == Sel::Wild && cs[..j].iter().any(|o| o.sel == Sel::Wild) {
            viols.push(("more than one wildcard", j + 1));
        }
    }
    if v == Version::V5 && !ctor {
        let wild = cs.iter().any(|c| c.sel == Sel::Wild);
        if wild {
            if cs.iter().all(|c| c.sel == Sel::Wild) {
                viols.push(("wildcard without complement", 0));
            }
            let mut seen = false;
            for (j, c) in cs.iter().enumerate().filter(|(_, c)| c.sel != Sel::Wild) {
                if !c.complement() {
                    viols.push(("message without complement selector next to a wildcard", j + 1));
                } else if seen {
                    viols.push(("second complement", j + 1));
                }
                seen |= c.complement();
            }
        } else {
            for (j, c) in cs.iter().enumerate() {
                if c.complement() {
                    viols.push(("complement without wildcard", j + 1));
                }
            }
        }
    }
    viols
}

fn alphabet() -> Vec<Callable> {
    let mut a = vec![];
    for ctx in 0..CTX.len() {
        for name in ["f", "g"] {
            a.push(Callable { ctx, name, sel: Sel::Derived });
        }
    }
    // Values equal to derived selectors, written differently.
    let f = hash("f");
    let tf = hash("T::f");
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let ints: Vec<(&'static str, u32)> = vec![
        ("1", 1),
        ("0x1", 1),
        ("0x0000_0001", 1),
        ("10", 10),
        ("0xA", 10),
        ("0", 0),
        ("4294967295", u32::MAX),
        ("0xffff_FFFF", u32::MAX),
        (leak(format!("{f}")), f),
        (leak(format!("0x{f:08x}")), f),
        (leak(format!("0x{tf:X}")), tf),
        ("0x9BAE9D5E", COMPLEMENT),
        ("2611912030", COMPLEMENT),
    ];
    for (ctx, name) in [(0, "p"), (6, "q")] {
        for (t, v) in &ints {
            a.push(Callable { ctx, name, sel: Sel::Int(t, *v) });
        }
        a.push(Callable { ctx, name, sel: Sel::Wild });
        a.push(Callable { ctx, name, sel: Sel::At });
    }
    a.push(Callable { ctx: 0, name: "f", sel: Sel::Wild });
    a
}

fn clashes(ctx: &Ctx) {
    let al = alphabet();
    let k = al.len();
    ctx.explore("callable-pairs", product(&[2, 2, 2, k, k]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let ctor = d.take(2) == 1;
        let one = d.take(2) == 1;
        let cs = [al[d.take(k)].clone(), al[d.take(k)].clone()];
        if one && cs[0].ctx != cs[1].ctx {
            return;
        }
        judge(c, &program(&cs, ctor, one), v, &model(&cs, ctor, v));
    });
    // Triples over a reduced alphabet: one representative per selector class.
    let keep: Vec<usize> = if ctx.quick() {
        (0..k).filter(|j| matches!((al[*j].ctx, al[*j].name, al[*j].sel), (0 | 6, "f", Sel::Derived) | (1, "f", Sel::Derived) | (0 | 6, _, Sel::Wild) | (0, _, Sel::At) | (0, _, Sel::Int("1" | "0x1" | "0x9BAE9D5E", _)))).collect()
    } else {
        (0..k).collect()
    };
    let n = keep.len();
    ctx.explore("callable-triples", product(&[2, 2, n, n, n]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let ctor = d.take(2) == 1;
        let cs: Vec<Callable> = (0..3).map(|_| al[keep[d.take(n)]].clone()).collect();
        judge(c, &program(&cs, ctor, false), v, &model(&cs, ctor, v));
    });
    // Longer lists over one representative per selector class.
    let reps = [
        Callable { ctx: 0, name: "f", sel: Sel::Derived },
        Callable { ctx: 0, name: "g", sel: Sel::Derived },
        Callable { ctx: 0, name: "h", sel: Sel::Int("1", 1) },
        Callable { ctx: 0, name: "i", sel: Sel::Wild },
        Callable { ctx: 0, name: "j", sel: Sel::At },
        Callable { ctx: 6, name: "k", sel: Sel::Int("0x9BAE9D5E", COMPLEMENT) },
    ];
    let len = ctx.pick(4, 6);
    ctx.explore("callable-lists", 4 * seq_count(reps.len() as u64, len), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let ctor = d.take(2) == 1;
        let cs: Vec<Callable> = seq_decode(d.0, reps.len() as u64).into_iter().map(|x| reps[x].clone()).collect();
        if cs.len() < 4 {
            return;
        }
        judge(c, &program(&cs, ctor, false), v, &model(&cs, ctor, v));
    });
    // Constructors and messages never clash with each other.
    ctx.explore("cross-kind", product(&[2, k, k]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, b) = (al[d.take(k)].clone(), al[d.take(k)].clone());
        let mut viols = model(std::slice::from_ref(&a), true, v);
        viols.extend(model(std::slice::from_ref(&b), false, v).into_iter().map(|(w, r)| (w, if r == 0 { 0 } else { 2 })));
        let src = format!("«#[ink::contract]\nmod c» {{\n    #[ink(storage)] pub struct S {{}}\n    {}\n    {}\n}}\n", a.item(true), b.item(false));
        judge(c, &src, v, &viols);
    });
}

/// The composed selector value itself.
fn values(ctx: &Ctx) {
    let names = ["f", "my_message", "get_v2", "r#type", "_x", "é"];
    let al = alphabet();
    let n = CTX.len() * names.len() + al.len();
    ctx.explore("selector-values", product(&[2, n]), |i, c| {
        let mut d = Digits(i);
        let ctor = d.take(2) == 1;
        let j = d.take(n);
        let call = if j < al.len() { al[j].clone() } else { Callable { ctx: (j - al.len()) / names.len(), name: names[(j - al.len()) % names.len()], sel: Sel::Derived } };
        let (code, _) = marked(&program(std::slice::from_ref(&call), ctor, false));
        c.state(&code);
        c.step();
        let file = InkFile::parse(&code);
        let con = &file.contracts()[0];
        let got = if ctor { con.constructors().last().and_then(|m| m.composed_selector()) } else { con.messages().last().and_then(|m| m.composed_selector()) };
        let want = call.value();
        c.outcome(&want);
        c.check(got.map(|s| s.into_be_u32()) == Some(want), || format!("selector is {got:?}, expected {want:#x}"));
        c.check(got.map(|s| s.to_bytes()) == Some(want.to_be_bytes()), || format!("selector bytes are {got:?}, expected {want:#x}"));
    });
}

pub fn run(ctx: &Ctx) -> Info {
    clashes(ctx);
    values(ctx);
    info(
        format!("all ordered pairs of {} callables (14 impl kinds, explicit values in several spellings, wildcard, complement), {} triples, constructors against messages; all versions", alphabet().len(), ctx.pick("class representatives as", "all")),
        &["derived selectors are the first four bytes of BLAKE2b-256, as ink! defines"],
    )
}
