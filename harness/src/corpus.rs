//! Seed programs, token-level mutations and the sweep over every public analysis.
use crate::util::*;
use ink_analyzer_ir::syntax::{AstNode, SyntaxKind};

/// (name, syntactically valid text). Together they contain every ink! construct of both versions.
pub const SEEDS: [(&str, &str); 15] = [
    ("flipper", r#"#![cfg_attr(not(feature = "std"), no_std, no_main)]

#[ink::contract]
mod flipper {
    use ink::storage::Mapping;

    /// Storage.
    #[ink(storage)]
    #[derive(Default)]
    pub struct Flipper {
        value: bool,
    }

    #[ink(event)]
    pub struct Flipped {
        #[ink(topic)]
        from: AccountId,
        value: bool,
    }

    impl Flipper {
        #[ink(constructor, payable)]
        pub fn new(init: bool) -> Self {
            Self { value: init }
        }

        #[ink(message, selector = 0xCAFEBABE)]
        pub fn flip(&mut self) {
            self.value = !self.value;
        }

        #[ink(message)]
        #[ink(default)]
        pub fn get(&self) -> bool {
            self.value
        }
    }

    #[cfg(test)]
    mod tests {
        use super::*;

        #[ink::test]
        fn works() {
            assert!(true);
        }
    }
}
"#),
    ("v5", r#"#[ink::event(signature_topic = "1111111111111111111111111111111111111111111111111111111111111111")]
pub struct Ev {
    #[ink(topic)]
    pub a: u8,
}

#[ink::event]
#[ink(anonymous)]
pub struct An(u8);

#[derive(Clone)]
pub struct Env;

impl ink::env::Environment for Env {
    const MAX_EVENT_TOPICS: usize = 3;
}

#[ink::contract(env = crate::Env, keep_attr = "foo, bar")]
mod c {
    #[ink(storage)]
    pub struct S {}

    #[ink(impl, namespace = "ns")]
    impl S {
        #[ink(constructor, selector = @)]
        pub fn new() -> Result<Self, ()> { Ok(Self {}) }
        #[ink(message, selector = _)]
        pub fn any(&self) {}
        #[ink(message, selector = 0x9BAE9D5E)]
        pub fn other(&self) {}
    }
}
"#),
    ("trait", r#"#[ink::trait_definition(namespace = "base", keep_attr = "x")]
pub trait Base {
    #[ink(message)]
    fn get(&self) -> u8;
    #[ink(message, payable, selector = 1)]
    fn set(&mut self, a: u8, b: [u8; 32]);
}

#[ink::contract]
mod c {
    use super::Base;
    #[ink(storage)]
    pub struct S(u8);
    impl S {
        #[ink(constructor)]
        pub fn new() -> Self { S(0) }
    }
    impl Base for S {
        #[ink(message)]
        fn get(&self) -> u8 { self.0 }
        #[ink(message, payable, selector = 1)]
        fn set(&mut self, a: u8, b: [u8; 32]) { self.0 = a; }
    }
}
"#),
    ("ext4", r#"use ink::env::chain_extension::FromStatusCode;

#[ink::chain_extension]
pub trait Ext {
    type ErrorCode = Code;

    #[ink(extension = 1, handle_status = false)]
    fn one(a: [u8; 32], b: Arg) -> Result<(), Code>;
    #[ink(extension = 0x2)]
    fn two() -> u8;
}

#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]
pub enum Code { A, B }

#[derive(scale::Encode)]
pub struct Arg;

impl FromStatusCode for Code {
    fn from_status_code(c: u32) -> Result<(), Self> { Ok(()) }
}

pub enum Env {}
impl ink::env::Environment for Env {
    type ChainExtension = Ext;
}
"#),
    ("ext5", r#"#[ink::chain_extension(extension = 12)]
pub trait Ext {
    type ErrorCode = super_mod::Code;
    #[ink(function = 1)]
    fn one(a: u8) -> u8;
    #[ink(function = 2, handle_status = true)]
    fn two();
}

pub mod super_mod {
    #[ink::scale_derive(Encode, Decode, TypeInfo)]
    pub enum Code { A }
    impl ink::env::chain_extension::FromStatusCode for Code {}
}
"#),
    ("storage-item", r#"#[ink::storage_item(derive = false)]
#[derive(Debug)]
pub enum Item<T> {
    A(T),
    B { x: u8, y: ink::prelude::vec::Vec<u8> },
}

#[ink::storage_item]
struct Packed {
    map: ink::storage::Mapping<AccountId, Balance>,
}

#[ink::scale_derive(Encode)]
struct Enc(u8);
"#),
    ("e2e", r#"#[cfg(all(test, feature = "e2e-tests"))]
mod e2e_tests {
    use super::*;
    use ink_e2e::build_message;
    type E2EResult<T> = Result<T, Box<dyn std::error::Error>>;

    #[ink_e2e::test(additional_contracts = "a/Cargo.toml", environment = crate::Env)]
    async fn it_works(mut client: ink_e2e::Client<C, E>) -> E2EResult<()> {
        let constructor = ContractRef::new(false);
        let id = client
            .instantiate("contract", &ink_e2e::alice(), constructor, 0, None)
            .await
            .expect("instantiate failed")
            .account_id;
        let get = build_message::<ContractRef>(id.clone()).call(|c| c.get());
        let res = client.call_dry_run(&ink_e2e::bob(), &get, 0, None).await;
        assert!(matches!(res.return_value(), false));
        Ok(())
    }
}
"#),
    ("bad", r#"#[ink::contract(unknown)]
struct NotMod;

#[ink::contract]
mod c {
    #[ink(storage)]
    struct S;
    #[ink(storage)]
    pub struct S2;
    #[ink(event, anonymous, event)]
    enum E { A }
    #[ink(message)]
    fn outside() {}
    impl S {
        #[ink(constructor)]
        async fn new(&self) {}
        #[ink(message, selector = "1", payable, payable)]
        pub(crate) unsafe fn m<T>(self, a: T) -> Self {}
        #[ink(selector = 1)]
        pub fn n(&self) {}
    }
    #[ink::test]
    struct T;
}

#[ink::trait_definition]
unsafe trait Tr<T>: Sized { fn x(); const C: u8; #[ink(message)] fn y(&self) {} }

#[ink::chain_extension]
trait Ce { type ErrorCode; type ErrorCode = (); #[ink(extension = 1)] fn f(&self) {} #[ink(extension = 1)] fn g(a: X); }
struct X;
"#),
    ("unicode", "//! ünï\n/* 🦀 */ #[ink::contract] // é\nmod ｃ {\n    /// 日本 docs\n    #[ink(storage)] pub struct Ж { ß: &'static str, }\n    #[ink(event)] #[doc = \"🦀\"] pub struct Эв { #[ink(topic)] ключ: u8 }\n    impl Ж {\n        #[ink(constructor)] pub fn новый() -> Self { Ж { ß: \"é\" } }\n        #[ink(message, selector = 0x1)] pub fn μ(&self, ñ: u8) /* ü */ -> char { '🦀' }\n    }\n}\n"),
    ("aliases", r#"extern crate ink as i;
use i::env as e;
use e::{chain_extension::FromStatusCode as Fsc, Environment as _};
pub mod a { pub mod b { #[derive(Debug)] pub enum Code { A } impl super::super::Fsc for Code {} pub type Al = Code; } pub use self::b::Code as Re; }
use a::*;
pub use crate::a::b::Al;
#[ink::chain_extension]
pub trait Ext { type ErrorCode = Al; #[ink(extension = 3)] fn f(x: crate::a::Re, y: self::a::b::Code); }
"#),
    ("plain", "mod a {}\nstruct S { x: u8 }\nenum E { A }\nimpl S { fn f(&self) {} }\ntrait T { fn g(&self); }\nimpl T for S { fn g(&self) {} }\nfn h() {}\n"),
    ("crlf", "#[ink::contract]\r\nmod c {\r\n\t#[ink(storage)]\r\n\tpub struct S {}\r\n\r\n\timpl S {\r\n\t\t#[ink(constructor)]\r\n\t\tpub fn new() -> Self { S {} }\r\n\t\t#[ink(message)]\r\n\t\tpub fn get(&self) {}\r\n\t}\r\n}\r\n"),
    ("oneline", "#[ink::contract]mod c{#[ink(storage)]pub struct S{}#[ink(event)]pub struct E{#[ink(topic)]a:u8}impl S{#[ink(constructor)]pub fn new()->Self{S{}}#[ink(message)]pub fn get(&self){}}}"),
    ("nearly", "#[ink::contract]\npub mod c {\n    #[ink(storage)]\n    pub struct S {}\n}\n\n#[ink::trait_definition]\npub trait T {}\n\n#[ink::chain_extension]\npub trait C {}\n\n#[ink(impl)]\nimpl X {}\n\n#[ink_e2e::test]\nfn t() {}\n"),
    ("hosts", r#"#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct S { other: OtherRef }
    impl S {
        #[ink(constructor)]
        pub fn new(h: Hash) -> Self {
            let other = OtherRef::new(true).code_hash(h).endowment(0).salt_bytes([0u8; 4]).instantiate();
            Self { other }
        }
        #[ink(message)]
        pub fn get(&self) -> bool {
            let r = ink::env::call::build_call::<ink::env::DefaultEnvironment>()
                .call(self.env().caller())
                .gas_limit(5000)
                .exec_input(ExecutionInput::new(Selector::new([0, 1, 2, 3])).push_arg(1u8))
                .returns::<bool>()
                .invoke();
            let p = ink::env::call::build_create::<OtherRef>().code_hash(Hash::from([1; 32])).gas_limit(0).instantiate();
            r
        }
    }
}
"#),
];

/// Text fragments of all tokens (trivia included) of a text.
pub fn tokens(code: &str) -> Vec<(SyntaxKind, usize, usize)> {
    let f = ink_analyzer_ir::syntax::SourceFile::parse(code).tree();
    f.syntax()
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .map(|t| {
            let (a, b) = rng(t.text_range());
            (t.kind(), a, b)
        })
        .collect()
}

/// What the sweep observed.
pub enum Obs<'a> {
    /// A range of a result.
    Range(&'a str, TextRange),
    /// A set of edits that are applied together.
    Edits(&'a str, &'a str, &'a [TextEdit]),
}

/// Runs every analysis that has no position.
pub fn sweep_file(a: &Analysis, f: &mut dyn FnMut(Obs)) -> u64 {
    let ds = a.diagnostics();
    for d in &ds {
        f(Obs::Range("diagnostic", d.range));
        for q in d.quickfixes.iter().flatten() {
            f(Obs::Range("quickfix", q.range));
            f(Obs::Edits("quickfix", &q.label, &q.edits));
        }
    }
    for h in a.inlay_hints(None) {
        f(Obs::Range("inlay hint", h.range));
        f(Obs::Range("inlay hint position", TextRange::empty(h.position)));
    }
    let m = a.migrate();
    f(Obs::Edits("migration", "", &m));
    3
}

/// Runs every analysis at a cursor position.
pub fn sweep_pos(a: &Analysis, p: usize, f: &mut dyn FnMut(Obs)) -> u64 {
    let p = ts(p);
    for c in a.completions(p) {
        f(Obs::Range("completion", c.range));
        f(Obs::Edits("completion", &c.label, std::slice::from_ref(&c.edit)));
    }
    for s in a.signature_help(p) {
        f(Obs::Range("signature help", s.range));
    }
    2
}

/// Runs every analysis for a selection.
pub fn sweep_sel(a: &Analysis, r: TextRange, actions: bool, f: &mut dyn FnMut(Obs)) -> u64 {
    if actions {
        for x in a.actions(r) {
            f(Obs::Range("action", x.range));
            f(Obs::Edits("action", &x.label, &x.edits));
        }
    }
    if let Some(h) = a.hover(r) {
        f(Obs::Range("hover", h.range));
    }
    for h in a.inlay_hints(Some(r)) {
        f(Obs::Range("inlay hint", h.range));
    }
    if let Some(e) = a.extract(r) {
        f(Obs::Range("extraction import", TextRange::empty(e.import_offset)));
        f(Obs::Edits("extraction", &e.name, &e.edits));
    }
    3 + actions as u64
}

/// Replacement/insertion tokens for mutations.
pub const MUT: [&str; 30] = [
    "", "#", "[", "]", "(", ")", "{", "}", "::", ",", "=", ";", "!", "<", ">", "&", "@", "_", "\"", "'", "ink", "self", "fn", "mod", "#[ink(message)]", "#[", "#[ink(", "0x", "/*", "é🦀",
];

/// All single-token mutations of a text: each token replaced by each of [`MUT`], duplicated, or swapped with the next.
pub fn mutation_count(code: &str) -> u64 {
    tokens(code).len() as u64 * (MUT.len() as u64 + 2)
}

/// Returns the mutated text and the offset of the mutation.
pub fn mutate(code: &str, toks: &[(SyntaxKind, usize, usize)], i: u64) -> (String, usize, usize) {
    let (t, k) = ((i / (MUT.len() as u64 + 2)) as usize, (i % (MUT.len() as u64 + 2)) as usize);
    let (_, a, b) = toks[t];
    let new = if k < MUT.len() {
        MUT[k].to_owned()
    } else if k == MUT.len() {
        format!("{0}{0}", &code[a..b])
    } else if let Some((_, a2, b2)) = toks.get(t + 1) {
        return (format!("{}{}{}{}", &code[..a], &code[*a2..*b2], &code[a..b], &code[*b2..]), a, *b2);
    } else {
        String::new()
    };
    (format!("{}{new}{}", &code[..a], &code[b..]), a, a + new.len())
}

/// Where to run the positional analyses.
pub struct Focus {
    pub pos: Vec<usize>,
    pub sels: Vec<(usize, usize)>,
}

fn floor(code: &str, mut p: usize) -> usize {
    p = p.min(code.len());
    while !code.is_char_boundary(p) {
        p -= 1;
    }
    p
}

/// Positions around some offsets, and selections between them.
pub fn around(code: &str, offs: &[usize]) -> Focus {
    let mut pos: Vec<usize> = offs.iter().flat_map(|o| [floor(code, *o), floor(code, o.saturating_sub(1)), floor(code, o + 1)]).collect();
    pos.sort();
    pos.dedup();
    let mut sels: Vec<(usize, usize)> = vec![];
    if let (Some(a), Some(b)) = (pos.first(), pos.last()) {
        sels = vec![(*a, *b), (pos[pos.len() / 2], pos[pos.len() / 2])];
    }
    Focus { pos, sels }
}

/// Runs everything on one text and returns the number of analyses run.
pub fn sweep(code: &str, v: Version, focus: &Focus, f: &mut dyn FnMut(Obs)) -> u64 {
    let a = Analysis::new(code, v);
    let mut n = sweep_file(&a, f);
    for p in &focus.pos {
        n += sweep_pos(&a, *p, f);
    }
    for (x, y) in &focus.sels {
        n += sweep_sel(&a, tr(*x, *y), true, f);
    }
    n
}

/// Fragments for item-level sequences.
pub const ITEM_TOKENS: [&str; 26] = [
    "#[ink::contract]", "#[ink(storage)]", "#[ink(message)]", "#[ink(event)]", "#[ink::test]", "#[ink::trait_definition]", "#[ink::chain_extension]", "#[ink::event]", "#[ink(extension = 1)]", "#[ink_e2e::test]", "#[ink::storage_item]", "mod c", "impl S", "struct S", "trait T", "fn f", "type ErrorCode = S", "pub", "{", "}", "(", ")", ";", "&self", "use S", "->",
];
/// Fragments for attribute-level sequences.
pub const ATTR_TOKENS: [&str; 22] = [
    "ink", "::", "(", ")", ",", "=", "message", "selector", "contract", "env", "1", "0xZ", "\"s\"", "_", "@", "crate", "]", "#[", "true", "/*c*/", "é", "event",
];
const ATTR_CTX: [&str; 4] = ["#[%] pub struct S;", "#[ink::contract] mod c { impl S { #[ink(constructor, %)] pub fn f(&self) {} } }", "#[ink::%", "#[ink::chain_extension(%)] trait T { #[ink(%)] fn f(); }"];

const NAMES: [&str; 3] = ["A", "B", "C"];
/// Ways to introduce a name (`%`) in terms of others.
const DECLS: [&str; 14] = [
    "", "pub struct %;", "pub use self::A as %;", "pub use self::B as %;", "pub use crate::C as %;", "pub type % = self::A;", "pub type % = B;", "pub use super::%;", "pub use m::%;", "pub use self::m::A as %;", "pub type % = super::C;", "pub use self::*;", "pub use m::*;", "pub use super::*;",
];
const REFS: [&str; 3] = [
    "#[ink::contract(env = crate::A)]\nmod c {}",
    "#[ink::chain_extension]\npub trait Ce { type ErrorCode = A; #[ink(extension = 1)] fn f(a: B) -> crate::m::C; }",
    "#[ink::contract]\nmod c { use super::A; #[ink(storage)] pub struct S; impl A for S { #[ink(message)] fn f(&self) {} } #[ink(impl)] impl super::m::A for S {} #[ink_e2e::test(environment = super::A)] fn t() {} }",
];

/// Enumerates the text spaces shared by the totality and well-formedness properties.
pub fn texts(ctx: &crate::common::Ctx, f: impl Fn(&mut crate::common::Case, &str, Version, &Focus) + Sync) {
    use crate::common::*;
    let seeds: Vec<(&str, Vec<usize>, Vec<(SyntaxKind, usize, usize)>)> = SEEDS.iter().map(|(_, s)| (*s, boundaries(s), tokens(s))).collect();
    // Every position of every seed.
    let maxb = seeds.iter().map(|s| s.1.len()).max().unwrap();
    ctx.explore("seed-positions", product(&[2, seeds.len(), maxb]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (code, bs, toks) = &seeds[d.take(seeds.len())];
        let Some(&p) = bs.get(d.0 as usize) else { return };
        let line = code[p..].find('\n').map(|k| p + k).unwrap_or(code.len());
        let tok = toks.iter().map(|t| t.2).find(|e| *e > p).unwrap_or(code.len());
        let next = bs.get(d.0 as usize + 1).copied().unwrap_or(p);
        let mut sels = vec![(p, p), (p, next), (p, tok), (p, line), (p, code.len()), (0, p)];
        if ctx.quick() {
            sels = vec![(p, p), (p, tok)];
        }
        sels.dedup();
        c.state(&format!("{}@{p}\n{code}", vname(v)));
        f(c, code, v, &Focus { pos: vec![p], sels });
    });
    // Every prefix and every suffix of every seed.
    ctx.explore("truncations", product(&[2, 2, seeds.len(), maxb]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let head = d.take(2) == 0;
        let (code, bs, _) = &seeds[d.take(seeds.len())];
        let Some(&p) = bs.get(d.0 as usize) else { return };
        let (t, fo) = if head { (&code[..p], around(&code[..p], &[p])) } else { (&code[p..], around(&code[p..], &[0])) };
        c.state(&format!("{}\n{t}", vname(v)));
        f(c, t, v, &fo);
    });
    // Every single-token mutation of every seed.
    let counts: Vec<u64> = seeds.iter().map(|s| mutation_count(s.0)).collect();
    ctx.explore("mutations", counts.iter().sum::<u64>() * 2, |i, c| {
        let v = VERSIONS[(i % 2) as usize];
        let mut k = i / 2;
        let mut s = 0;
        while k >= counts[s] {
            k -= counts[s];
            s += 1;
        }
        if ctx.quick() && ((i % 2 == 0) != (s % 2 == 0) || k % 4 != 1) {
            return;
        }
        let (t, a, b) = mutate(seeds[s].0, &seeds[s].2, k);
        c.state(&format!("{}\n{t}", vname(v)));
        f(c, &t, v, &around(&t, &[a, b]));
    });
    // Sequences of item-level fragments.
    let k = ITEM_TOKENS.len() as u64;
    ctx.explore("item-sequences", 2 * seq_count(k, ctx.pick(3, 4)), |i, c| {
        let v = VERSIONS[(i % 2) as usize];
        let t = seq_decode(i / 2, k).iter().map(|x| ITEM_TOKENS[*x]).collect::<Vec<_>>().join(" ");
        c.state(&format!("{}\n{t}", vname(v)));
        let n = t.len();
        f(c, &t, v, &Focus { pos: vec![n, floor(&t, n / 2)], sels: vec![(0, n), (n, n)] });
    });
    // Sequences of attribute-level fragments in different contexts.
    let k = ATTR_TOKENS.len() as u64;
    ctx.explore("attribute-sequences", 8 * seq_count(k, ctx.pick(3, 4)), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let cx = *d.pick(&ATTR_CTX);
        let seq = seq_decode(d.0, k).iter().map(|x| ATTR_TOKENS[*x]).collect::<Vec<_>>().join(" ");
        let at = cx.find('%').unwrap();
        let t = cx.replace('%', &seq);
        c.state(&format!("{}\n{t}", vname(v)));
        f(c, &t, v, &Focus { pos: vec![at, at + seq.len()], sels: vec![(at, at + seq.len())] });
    });
    // Import and alias graphs: three names in the root, three in a module.
    let n = DECLS.len();
    let full = product(&[n, n, n, n, n, n]);
    let quick_dims = [6usize, 14, 6, 14, 2, 7];
    ctx.explore("import-graphs", if ctx.quick() { product(&quick_dims) } else { full }, |i, c| {
        let mut d = Digits(i);
        let ks: Vec<usize> = (0..6).map(|j| d.take(if ctx.quick() { quick_dims[j] } else { n })).collect();
        if !ctx.quick() && ks[2] > 7 && ks[5] > 7 {
            return;
        }
        let decl = |j: usize| DECLS[ks[j]].replace('%', NAMES[j % 3]);
        let r = REFS[(ks.iter().sum::<usize>()) % 3];
        let v = VERSIONS[(i % 2) as usize];
        let t = format!("{}\n{}\n{}\npub mod m {{ {} {} {} }}\n{r}\n", decl(0), decl(1), decl(2), decl(3), decl(4), decl(5));
        c.state(&format!("{}\n{t}", vname(v)));
        f(c, &t, v, &Focus { pos: vec![], sels: vec![] });
    });
    // Nesting ladders.
    let wraps: [(&str, &str); 8] = [("mod m { ", " }"), ("fn f() { ", " }"), ("#[ink::contract] mod c { ", " }"), ("impl S { fn f() { ", " } }"), ("#[ink(", ")] struct S;"), ("type A = Vec<", ">;"), ("#[ink::event] struct E { #[ink(topic)] a: [", "] }"), ("use a::{", "};")];
    ctx.explore("nesting", product(&[2, wraps.len(), wraps.len(), 40]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (a, b, n) = (wraps[d.take(wraps.len())], wraps[d.take(wraps.len())], d.take(40));
        let inner = "#[ink(message)] fn x(&self) {}";
        let t = format!("{}{}{inner}{}{}", a.0.repeat(n), b.0.repeat(n / 2), b.1.repeat(n / 2), a.1.repeat(n));
        let at = t.find(inner).unwrap();
        c.state(&format!("{}\n{t}", vname(v)));
        f(c, &t, v, &Focus { pos: vec![at, at + 8], sels: vec![(at, at + 8)] });
    });
}
