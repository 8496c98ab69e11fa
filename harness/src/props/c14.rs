//! C14: event extraction moves the whole event and nothing else.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use ink_analyzer_ir::syntax::{ast, AstNode, SourceFile, SyntaxKind, SyntaxNode};
use serde_json::json;

/// Event attributes: (text, argument of the standalone form, legal in V4).
const FORMS: [(&str, &str, bool); 9] = [
    ("#[ink(event)]", "", true),
    ("#[ink(event, anonymous)]", "anonymous", true),
    ("#[ink(event)]\n    #[ink(anonymous)]", "anonymous", true),
    ("#[ink(event, signature_topic = \"SIG\")]", "signature_topic = \"SIG\"", false),
    ("#[ink(event)] #[ink(signature_topic = \"SIG\")]", "signature_topic = \"SIG\"", false),
    ("#[ink::event]", "", false),
    ("#[ink::event()]", "", false),
    ("#[ink::event(anonymous)]", "anonymous", false),
    ("#[ink::event(signature_topic = \"SIG\")]", "signature_topic = \"SIG\"", false),
];
const SIG: &str = "11111111111111111111111111111111111111111111111111111111111111aB";
/// What precedes and follows the event attributes.
const PRE: [&str; 7] = ["", "/// Docs é.\n    ", "#[derive(Debug, Clone)]\n    ", "/// One.\n    ///\n    /// Two.\n    #[cfg_attr(feature = \"std\", derive(X))]\n    ", "/** Block\n     * docs */ ", "#[doc = \"ink(event)\"]\n    #[allow(unused)] /* c */\n    ", "#[derive(Debug)]\n    /// After.\n    "];
const POST: [&str; 6] = ["", "#[derive(PartialEq)]\n    ", "/// Late docs.\n    ", "// Plain.\n    #[allow(dead_code)]\n    ", "#[serde(rename = \"ink\")] ", "#[inkwell] #[ink_meta::tag(event)] "];
const BODY: [&str; 8] = [
    "pub struct NAME {}",
    "pub struct NAME { #[ink(topic)] a: u8, b: Vec<(u8, bool)> }",
    "pub struct NAME {\n        /// Topic é.\n        #[ink(topic)]\n        from: Option<AccountId>,\n        // Plain.\n        #[cfg_attr(a, b)]\n        pub to: [u8; 32],\n\n        #[ink(topic)]\n        value: Balance, // Last.\n    }",
    "pub struct NAME;",
    "pub struct NAME(u8, #[doc = \"x\"] pub AccountId);",
    "struct NAME { pub(crate) a: u8 }",
    "pub(crate) struct NAME {\n        a: fn(u8) -> bool,\n        b: &'static str,\n    }",
    "pub struct NAME\n    {\n\ta: u8,\n    }",
];
/// Module surroundings: `EVENT` is the event.
const AROUND: [&str; 14] = [
    "#[ink::contract]\nmod c {\n    EVENT\n\n    REST\n}\n",
    "#[ink::contract]\nmod c {\n    use ink::storage::Mapping;\n    use super::X;\n\n    REST\n\n    EVENT\n}\n",
    "#[ink::contract] mod c { EVENT REST }",
    "#[ink::contract]\nmod c {EVENT}",
    "#[ink::contract]\npub mod c {\n    #![allow(unused)]\n    //! Docs.\n\n    // Plain comment.\n\n    EVENT\n    /// Docs of the next item.\n    REST\n}\nfn after() {}",
    "mod outer {\n    use x::Y;\n    #[ink::contract]\n    mod c {\n    EVENT\n    REST\n    }\n}\nuse z::W;\n",
    "//! Crate é docs.\n#![no_std]\n#[ink::contract]\nmod c {\n    REST\n    #[ink(event)]\n    pub struct Before { #[ink(topic)] a: u8 }\n    EVENT\n    #[ink(event)]\n    pub struct After { b: u8 }\n}\n#[ink::event]\nstruct Root {}\n",
    "#[ink::contract]\nmod c {\n    /* a */ EVENT /* b */\n    REST\n}\n",
    "#[ink::contract]\r\nmod c {\r\n    REST\r\n\r\n    EVENT\r\n\r\n    use later::Z;\r\n    fn f() {}\r\n}\r\n",
    "#[ink::contract]\nmod c {\n\tREST\n\tEVENT\n}",
    "mod events {\n    EVENT\n}\n",
    "#[ink::contract]\nmod c {\n    REST\n    mod nested {\n        use super::*;\n    EVENT\n    }\n}",
    "#[ink::contract]\nmod c {\n    use a::{b, c};\n    EVENT\n    use d;\n    REST\n}",
    "#[ink::contract]\nmod c {\n    mod other { use inner::W; }\n    EVENT\n    impl X { fn f() { use local::L; } }\n    REST\n}",
];
const REST: &str = "#[ink(storage)]\n    pub struct S { v: bool }\n    impl S {\n        #[ink(constructor)]\n        pub fn new() -> Self { Self::env().emit_event(NAME { a: 1 }); Self {} }\n        #[ink(message)]\n        pub fn get(&self) {}\n    }";
const NAMES: [&str; 3] = ["Ev", "Transferred_2", "Événement"];

#[derive(Clone)]
pub struct Prog {
    pub code: String,
    /// Region of the event item.
    pub ev: (usize, usize),
    pub name: &'static str,
    pub arg: String,
    pub v: Version,
}

fn prog(form: usize, pre: usize, post: usize, body: usize, around: usize, name: usize, v: Version) -> Prog {
    let (f, arg, _) = FORMS[form];
    let ev = format!("«{}{f}\n    {}{}»", PRE[pre], POST[post], BODY[body]);
    let src = AROUND[around].replace("REST", REST).replace("EVENT", &ev).replace("NAME", NAMES[name]).replace("SIG", SIG);
    let (code, regions) = marked(&src);
    Prog { code, ev: regions[0], name: NAMES[name], arg: arg.replace("SIG", SIG), v }
}

/// Non-whitespace tokens; comments are compared line by line, without indentation.
fn toks(n: &SyntaxNode) -> Vec<String> {
    n.descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() != SyntaxKind::WHITESPACE).map(|t| norm(t.text())).collect()
}
fn text_toks(s: &str) -> Vec<String> {
    toks(&SourceFile::parse(s).syntax_node())
}
fn norm(t: &str) -> String {
    t.lines().map(str::trim).collect::<Vec<_>>().join("\n")
}

/// The parts of a struct item: comments, attributes other than ink! ones, ink! attributes, everything else.
fn parts(n: &SyntaxNode) -> (Vec<String>, Vec<String>, Vec<String>, Vec<String>) {
    let (mut co, mut at, mut ink, mut rest) = (vec![], vec![], vec![], vec![]);
    for e in n.children_with_tokens() {
        match e.kind() {
            SyntaxKind::WHITESPACE => {}
            SyntaxKind::COMMENT => co.push(norm(&e.to_string())),
            SyntaxKind::ATTR => {
                let t = toks(e.as_node().unwrap()).concat();
                if ["#[ink(", "#[ink:", "#[ink]", "#[::ink:"].iter().any(|p| t.starts_with(p)) { ink.push(t) } else { at.push(t) }
            }
            _ => rest.extend(match e {
                ink_analyzer_ir::syntax::NodeOrToken::Node(n) => toks(&n),
                ink_analyzer_ir::syntax::NodeOrToken::Token(t) => vec![norm(t.text())],
            }),
        }
    }
    (co, at, ink, rest)
}

fn struct_at(code: &str, r: (usize, usize)) -> SyntaxNode {
    SourceFile::parse(code)
        .syntax_node()
        .descendants()
        .find(|n| n.kind() == SyntaxKind::STRUCT && us(n.text_range().end()) == r.1)
        .unwrap_or_else(|| panic!("harness bug: no struct at {r:?} in\n{code}"))
}

/// Judges a successful extraction.
fn judge(c: &mut Case, p: &Prog, name: &str, content: &str, edits: &[TextEdit], import: (usize, &str)) {
    let ev = struct_at(&p.code, p.ev);
    c.check(name == p.name, || format!("name {name:?} instead of {:?}", p.name));
    // The new item.
    let file = SourceFile::parse(content);
    c.check(file.errors().is_empty(), || format!("extracted item has syntax errors:\n{content}"));
    let items: Vec<SyntaxNode> = file.syntax_node().children().collect();
    c.check(items.len() == 1 && items[0].kind() == SyntaxKind::STRUCT, || format!("not a single struct:\n{content}"));
    if items.len() == 1 {
        let (co, at, ink, rest) = parts(&items[0]);
        let (co0, at0, _, rest0) = parts(&ev);
        let attr: String = if p.arg.is_empty() { "#[ink::event]".into() } else { format!("#[ink::event({})]", p.arg.replace(' ', "")) };
        c.check(co == co0, || format!("comments of the event changed: {co:?} instead of {co0:?}\n{content}"));
        c.check(at == at0, || format!("attributes of the event changed: {at:?} instead of {at0:?}\n{content}"));
        c.check(rest == rest0, || format!("the struct changed: {rest:?} instead of {rest0:?}\n{content}"));
        c.check(ink == [attr.clone()], || format!("ink! attributes {ink:?} instead of {attr:?}\n{content}"));
        if !content.contains("struct Ev {") || p.code.contains("pub struct") {
            let errs: Vec<Diag> = errors(content, Version::V5);
            let ok = p.code[p.ev.0..p.ev.1].contains("pub struct");
            c.check(!ok || errs.is_empty(), || format!("the extracted event is not valid: {}", show(content, &errs)));
        }
    }
    // The old file.
    let er = (us(ev.text_range().start()), us(ev.text_range().end()));
    c.check(edits.len() == 1 && edits[0].text.is_empty(), || format!("not a single removal: {}", show_edits(edits)));
    let (a, b) = rng(edits[0].range);
    let exact = a <= er.0 && er.1 <= b && p.code[a..er.0].trim().is_empty() && p.code[er.1..b].trim().is_empty();
    c.check(exact, || format!("removes {:?} instead of the event {:?}", &p.code[a..b], &p.code[er.0..er.1]));
    let mut es = edits.to_vec();
    es.push(TextEdit::insert(import.1.to_owned(), ts(import.0)));
    match apply(&p.code, &es) {
        Err(m) => c.fail(format!("{m}: {}", show_edits(&es))),
        Ok(t) => {
            let file = SourceFile::parse(&t);
            c.check(file.errors().is_empty(), || format!("syntax errors after extraction: {:?}\n{t}", file.errors()));
            // The import replaces the event: same module, nothing else changes.
            let module = |n: &SyntaxNode| n.ancestors().skip(1).find_map(ast::Module::cast).map(|m| m.to_string().len().min(0).to_string() + &path(m.syntax()));
            let uses: Vec<SyntaxNode> = file.syntax_node().descendants().filter(|n| n.kind() == SyntaxKind::USE && n.to_string().trim() == import.1.trim()).collect();
            c.check(uses.len() == 1, || format!("import not found once:\n{t}"));
            if let [u] = &uses[..] {
                c.check(module(u) == module(&ev) && u.parent().unwrap().kind() == SyntaxKind::ITEM_LIST, || format!("import is not in the event's module:\n{t}"));
                let mut left = toks(&file.syntax_node());
                let ut = toks(u);
                let at = (0..left.len()).find(|k| left[*k..].starts_with(&ut)).unwrap_or(0);
                left.drain(at..at + ut.len());
                let before = text_toks(&p.code);
                let et = toks(&ev);
                let k = SourceFile::parse(&p.code).syntax_node().descendants_with_tokens().filter_map(|e| e.into_token()).filter(|t| t.kind() != SyntaxKind::WHITESPACE && us(t.text_range().end()) <= er.0).count();
                let mut want = before.clone();
                want.drain(k..k + et.len());
                c.check(left == want, || format!("other text changed\n{t}"));
            }
        }
    }
}

/// Names of the enclosing modules.
fn path(n: &SyntaxNode) -> String {
    n.ancestors().filter_map(ast::Module::cast).map(|m| m.syntax().children().find(|c| c.kind() == SyntaxKind::NAME).map(|n| n.to_string()).unwrap_or_default()).collect::<Vec<_>>().join("<")
}

pub fn run(ctx: &Ctx) -> Info {
    shapes(ctx);
    positions(ctx);
    commands(ctx);
    names(ctx);
    info("all event attribute forms x surrounding attributes x bodies x module surroundings; all offsets and token-aligned selections; all package layouts", &["comments right before an event may move with it"])
}

fn legal(form: usize, v: Version) -> bool {
    v == Version::V5 || FORMS[form].2
}

fn shapes(ctx: &Ctx) {
    let dims = [2, FORMS.len(), PRE.len(), POST.len(), BODY.len(), AROUND.len(), NAMES.len()];
    ctx.explore("shapes", product(&dims), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let (f, a, b, s, m, n) = (d.take(FORMS.len()), d.take(PRE.len()), d.take(POST.len()), d.take(BODY.len()), d.take(AROUND.len()), d.take(NAMES.len()));
        if !legal(f, v) || ctx.quick() && (n != (f + s) % NAMES.len()) || v == Version::V4 && (a + b + s) % 2 == 1 && ctx.quick() {
            return;
        }
        let p = prog(f, a, b, s, m, n, v);
        if !parses(&p.code) {
            panic!("harness bug: {:?}\n{}", syntax_errors(&p.code), p.code);
        }
        c.state(&format!("{}\n{}", vname(v), p.code));
        let at = p.code[p.ev.0..].find("struct").unwrap() + p.ev.0 + 3;
        c.step();
        match Analysis::new(&p.code, v).extract(tr(at, at)) {
            None => c.fail("event is not extracted"),
            Some(x) => {
                c.outcome(&x.content);
                judge(c, &p, &x.name, &x.content, &x.edits, (us(x.import_offset), &format!("{}use ev::{};", x.import_indent, x.name)));
            }
        }
    });
}

fn positions(ctx: &Ctx) {
    let (fs, ss): (&[usize], &[usize]) = if ctx.quick() { (&[0, 4, 8], &[1, 2, 4]) } else { (&[0, 2, 4, 5, 8], &[1, 2, 3, 4]) };
    let pres = ctx.pick(2, PRE.len());
    let posts = ctx.pick(2, POST.len());
    ctx.explore("positions", product(&[fs.len(), pres, posts, ss.len(), AROUND.len()]), |i, c| {
        let mut d = Digits(i);
        let (f, a, b, s, m) = (*d.pick(fs), d.take(pres), d.take(posts), *d.pick(ss), d.take(AROUND.len()));
        let p = prog(f, a, b, s, m, 0, Version::V5);
        let node = struct_at(&p.code, p.ev);
        let (s0, e0) = (us(node.text_range().start()), us(node.text_range().end()));
        // Other events in the file.
        let others: Vec<(usize, usize)> = SourceFile::parse(&p.code).syntax_node().descendants().filter(|n| n.kind() == SyntaxKind::STRUCT && *n != node && parts(n).2.iter().any(|x| x.contains("event"))).map(|n| (us(n.text_range().start()), us(n.text_range().end()))).collect();
        let an = Analysis::new(&p.code, p.v);
        c.state(&p.code);
        let full = an.extract(tr(e0 - 1, e0 - 1));
        c.check(full.is_some(), || "event is not extracted at its end".into());
        let Some(full) = full else { return };
        let bs = boundaries(&p.code);
        let tb: Vec<usize> = crate::corpus::tokens(&p.code).iter().map(|t| t.1).chain([p.code.len()]).collect();
        let mut sels: Vec<(usize, usize)> = bs.iter().map(|x| (*x, *x)).collect();
        for (k, x) in tb.iter().enumerate() {
            for y in &tb[k + 1..] {
                // Selections around the borders of the event; all of them in the thorough tier.
                if !ctx.quick() || (*x <= e0 && s0 <= *y && (tb.iter().filter(|t| *x < **t && **t < *y).count() < 3 || [s0, e0].contains(x) || [s0, e0].contains(y))) {
                    sels.push((*x, *y));
                }
            }
        }
        for (x, y) in sels {
            if others.iter().any(|o| x <= o.1 && o.0 <= y) && !(s0 < x && y < e0) {
                continue;
            }
            let inside = if x == y { s0 < x && x < e0 } else { s0 <= x && y <= e0 };
            let outside = if x == y { x < s0 || e0 < x } else { x < s0 || y > e0 };
            c.step();
            let got = an.extract(tr(x, y));
            if inside {
                c.check(got.as_ref() == Some(&full), || format!("extraction at {x}..{y} ({:?}) differs from the one at the end of the event: {got:?}", &p.code[x..y]));
            } else if outside {
                c.check(got.is_none(), || format!("extraction at {x}..{y} ({:?}), outside the event: {got:?}", &p.code[x..y]));
            }
            if x == y && (!ctx.quick() || tb.contains(&x)) {
                // The action is offered only where the extraction it triggers works, and for the same event.
                for act in an.actions(tr(x, y)) {
                    if act.kind == ActionKind::Extract {
                        c.step();
                        let r = an.extract(act.range);
                        c.check(r.as_ref() == Some(&full), || format!("the extract action offered at {x} for {:?} doesn't extract the event: {r:?}", act.range));
                        c.outcome("offered");
                    }
                }
            }
        }
    });
    // Other structs and items are never extracted.
    let texts = [
        "#[ink::contract]\nmod c {\n    pub struct Ev { a: u8 }\n}",
        "#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct Ev { a: u8 }\n}",
        "#[ink::contract]\nmod c {\n    #[ink::storage_item]\n    pub struct Ev { a: u8 }\n}",
        "#[ink::contract]\nmod c {\n    #[event]\n    pub struct Ev { #[ink(topic)] a: u8 }\n}",
        "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub enum Ev { A }\n #[ink::event] fn f() {} }",
        "#[ink::contract]\nmod c {\n    /// #[ink(event)]\n    pub struct Ev { a: u8 }\n}",
        "mod c {\n    #[doc = \"#[ink(event)]\"]\n    pub struct Ev { a: u8 }\n}",
        "mod c {\n    #[ink(anonymous)]\n    pub struct Ev { a: u8 }\n}",
        "mod c {\n    #[inkx::event]\n    pub struct Ev { a: u8 }\n}",
    ];
    ctx.explore("other-items", product(&[2, texts.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let t = d.pick(&texts);
        c.state(t);
        let an = Analysis::new(t, v);
        for a in boundaries(t) {
            for b in boundaries(t) {
                if a <= b {
                    c.step();
                    c.check(an.extract(tr(a, b)).is_none(), || format!("extracted at {a}..{b}"));
                }
            }
        }
    });
    // The action for events outside any module.
    let root = ["#[ink::event]\npub struct Ev { a: u8 }\n", "#[ink(event)]\npub struct Ev {}\n", "use x;\n\n/// Docs.\n#[ink::event(anonymous)]\npub struct Ev;"];
    ctx.explore("root", product(&[2, root.len()]), |i, c| {
        let mut d = Digits(i);
        let v = VERSIONS[d.take(2)];
        let t = d.pick(&root);
        c.state(t);
        let an = Analysis::new(t, v);
        for x in boundaries(t) {
            c.step();
            if an.actions(tr(x, x)).iter().any(|a| a.kind == ActionKind::Extract && an.extract(a.range).is_none()) {
                c.fail_sig("extract action for an event outside any module", "offered, but nothing is extracted");
            }
        }
    });
}

fn position(enc: Enc, t: &str, o: usize) -> serde_json::Value {
    let (l, ch) = enc.position(t, o);
    pos(l, ch)
}

/// Applies LSP edits.
pub fn apply_lsp(enc: Enc, code: &str, edits: &serde_json::Value) -> Result<String, String> {
    let off = |p: &serde_json::Value| -> Result<usize, String> {
        let want = (p["line"].as_u64().unwrap() as u32, p["character"].as_u64().unwrap() as u32);
        boundaries(code).into_iter().find(|o| enc.position(code, *o) == want).ok_or_else(|| format!("no such position: {p}"))
    };
    let mut es = vec![];
    for e in edits.as_array().ok_or("no edits")? {
        es.push(TextEdit::replace(e["newText"].as_str().ok_or("no text")?.to_owned(), tr(off(&e["range"]["start"])?, off(&e["range"]["end"])?)));
    }
    apply(code, &es)
}

/// Manifests: (text, can be extended).
const CARGO: [(&str, bool); 8] = [
    ("[package]\nname = \"x\"\n\n[dependencies]\nink = { version = \"5\" } # keep\n\n[features]\nstd = []\n", true),
    ("[dependencies]\n", true),
    ("[package]\nname = \"é\"\n\n[dependencies.ink]\nversion = \"5.0.0\"\ndefault-features = false\n\n[lib]\npath = \"lib.rs\"\n", true),
    ("[package]\nname = \"x\"\n\n[dependencies]\nink = \"5\"\nother = { path = \"ev\" }\n\n[dev-dependencies]\nev = \"1\"\n", true),
    ("[package]\nname = \"x\"\n", false),
    ("not toml [", false),
    ("[package]\nname = \"x\"\n\n[dependencies]\nink = \"5\"\nEV = \"1\"\nevx = \"2\"\n", true),
    ("[package]\nname = \"x\"\n\n[dependencies]\nink = \"5\"\nev = \"1.0\"\n", true),
];

fn commands(ctx: &Ctx) {
    let rounds = ctx.pick(3, AROUND.len());
    // Manifest x existing directories x via (command, resolve) x encoding x surroundings.
    ctx.explore("commands", product(&[CARGO.len(), 12, 2, 3, rounds, 2]), |i, c| {
        let mut d = Digits(i);
        let (k, dirs, via, enc, m, sub) = (d.take(CARGO.len()), d.take(12), d.take(2), Enc::ALL[d.take(3)], d.take(rounds), d.take(2));
        let p = prog(5, 1, 0, 1, m, 0, Version::V5);
        let sc = Scratch::new("ev");
        let rel = ["lib.rs", "src/deep/lib.rs"][sub];
        sc.write("Cargo.toml", CARGO[k].0);
        sc.write(rel, &p.code);
        for n in 0..dirs {
            let n = if n == 0 { String::new() } else { n.to_string() };
            std::fs::create_dir_all(sc.0.join(format!("ev{n}"))).unwrap();
        }
        c.state(&format!("{}\ndirs={dirs} via={via} enc={enc:?} at {rel}\n{}", CARGO[k].0, p.code));
        let caps = json!({"general": {"positionEncodings": [enc.name()]}, "workspace": {"workspaceEdit": {"documentChanges": true, "resourceOperations": ["create"]}},
            "textDocument": {"codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["quickfix", "refactor"]}}, "dataSupport": true, "resolveSupport": {"properties": ["edit"]}}}});
        let mut l = Lsp::start(caps);
        let uri = sc.uri(rel);
        l.notify("textDocument/didOpen", did_open(&uri, 0, &p.code));
        let x = p.code[p.ev.0..].find("struct").unwrap() + p.ev.0 + 2;
        let reply = if via == 0 {
            l.request("workspace/executeCommand", json!({"command": "extractEvent", "arguments": [{"uri": uri, "range": {"start": x, "end": x}}]})).0
        } else {
            let a = l.request("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": position(enc, &p.code, x), "end": position(enc, &p.code, x)}, "context": {"diagnostics": []}})).0;
            let Reply::Result(a) = a else { return c.fail(format!("no code actions: {a:?}")) };
            let Some(a) = a.as_array().and_then(|a| a.iter().find(|a| a["kind"] == "refactor.extract")).cloned() else {
                return c.fail(format!("the extract action isn't offered: {a}"));
            };
            l.request("codeAction/resolve", a).0
        };
        c.step();
        let ok = CARGO[k].1 && dirs < 11;
        let Reply::Result(r) = reply else {
            c.check(!ok, || format!("extraction failed: {reply:?}"));
            return;
        };
        c.outcome(&ok);
        // Normalises both forms to files and edits.
        let (mut files, mut edits): (Vec<(String, String)>, Vec<(String, serde_json::Value)>) = (vec![], vec![]);
        if via == 0 {
            if r.is_null() {
                return c.check(!ok, || "extraction failed".into());
            }
            files.extend(r["files"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_owned())));
            edits.extend(r["edits"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())));
        } else {
            let Some(ops) = r["edit"]["documentChanges"].as_array() else {
                return c.check(!ok, || format!("no edit: {r}"));
            };
            let mut created = vec![];
            for op in ops {
                if op["kind"] == "create" {
                    created.push(op["uri"].as_str().unwrap().to_owned());
                } else {
                    let u = op["textDocument"]["uri"].as_str().unwrap().to_owned();
                    if created.contains(&u) {
                        files.push((u, apply_lsp(enc, "", &op["edits"]).unwrap_or_default()));
                    } else {
                        edits.push((u, op["edits"].clone()));
                    }
                }
            }
        }
        c.check(ok || CARGO[k].1, || format!("extraction succeeded: {r}"));
        // A new package directory.
        let manifest: Vec<(String, String)> = files.iter().filter(|f| f.0.ends_with("/Cargo.toml")).cloned().collect();
        let lib: Vec<(String, String)> = files.iter().filter(|f| f.0.ends_with("/src/lib.rs")).cloned().collect();
        c.check(files.len() == 2 && manifest.len() == 1 && lib.len() == 1, || format!("files: {files:?}"));
        let (Some(manifest), Some(lib)) = (manifest.first(), lib.first()) else { return };
        let dir = manifest.0.strip_suffix("/Cargo.toml").unwrap();
        let local = std::path::PathBuf::from(dir.strip_prefix("file://").unwrap());
        c.check(lib.0 == format!("{dir}/src/lib.rs"), || format!("files of different packages: {files:?}"));
        c.check(local.parent() == Some(&sc.0) && !local.exists(), || format!("not a new directory next to the manifest: {dir}"));
        let dirname = local.file_name().unwrap().to_string_lossy().into_owned();
        // The contract.
        let Some(e) = edits.iter().find(|e| e.0 == uri) else { return c.fail("no edits of the contract") };
        c.check(edits.len() == 2, || format!("edits: {edits:?}"));
        let import = e.1.as_array().and_then(|a| a.iter().find(|e| e["newText"].as_str().is_some_and(|t| t.contains("use ")))).cloned();
        let Some(import) = import else { return c.fail("no import") };
        let text = import["newText"].as_str().unwrap().to_owned();
        let krate = text.trim().strip_prefix("use ").and_then(|t| t.strip_suffix("::Ev;")).unwrap_or_default().to_owned();
        let at = boundaries(&p.code).into_iter().find(|o| position(enc, &p.code, *o) == import["range"]["start"]);
        let rest: Vec<serde_json::Value> = e.1.as_array().unwrap().iter().filter(|x| **x != import).cloned().collect();
        let off = |v: &serde_json::Value| boundaries(&p.code).into_iter().find(|o| position(enc, &p.code, *o) == *v).unwrap_or(usize::MAX);
        let rest: Vec<TextEdit> = rest.iter().map(|e| TextEdit::replace(e["newText"].as_str().unwrap().into(), tr(off(&e["range"]["start"]).min(1 << 20), off(&e["range"]["end"]).min(1 << 20)))).collect();
        judge(c, &p, p.name, &lib.1, &rest, (at.unwrap_or(0), &text));
        // The manifests agree on the package.
        let Some(e) = edits.iter().find(|e| e.0 == sc.uri("Cargo.toml")) else { return c.fail("no edits of the manifest") };
        match apply_lsp(enc, CARGO[k].0, &e.1) {
            Err(m) => c.fail(m),
            Ok(t) => {
                let (old, new): (toml::Table, toml::Table) = (CARGO[k].0.parse().unwrap(), match t.parse() {
                    Ok(t) => t,
                    Err(e) => return c.fail(format!("invalid manifest: {e}\n{t}")),
                });
                let pkg: toml::Table = match manifest.1.parse() {
                    Ok(t) => t,
                    Err(e) => return c.fail(format!("invalid manifest: {e}\n{}", manifest.1)),
                };
                let name = pkg["package"]["name"].as_str().unwrap_or_default().to_owned();
                c.check(name.replace('-', "_") == krate, || format!("the import uses {krate:?}, the package is named {name:?}"));
                c.check(pkg["dependencies"]["ink"]["version"].as_str().is_some_and(|v| v.starts_with('5')), || "the new package doesn't use ink! 5".into());
                let dep = new.get("dependencies").and_then(|d| d.get(&name));
                c.check(dep.and_then(|d| d.get("path")).and_then(|p| p.as_str()) == Some(&dirname), || format!("dependency {dep:?} isn't the new package {dirname:?}"));
                let mut back = new.clone();
                back["dependencies"].as_table_mut().unwrap().remove(&name);
                c.check(back == old, || format!("the manifest lost or changed an entry:\n{t}"));
                let comments = |s: &str| s.matches("# keep").count();
                c.check(comments(&t) == comments(CARGO[k].0), || format!("the manifest lost a comment:\n{t}"));
            }
        }
    });
}

/// Event names to package names.
fn names(ctx: &Ctx) {
    const ALPHA: [&str; 6] = ["E", "v", "_", "1", "é", "ABc"];
    const FIXED: [&str; 12] = ["Match", "Move", "Type", "r#type", "Ink", "Struct", "Self_", "Async", "Crate", "ER", "Erc20", "HTTPEvent"];
    let k = ALPHA.len() as u64;
    let n = seq_count(k, ctx.pick(4, 5));
    ctx.explore("names", n + FIXED.len() as u64, |i, c| {
        let name = if i < n { seq_decode(i, k).into_iter().map(|x| ALPHA[x]).collect::<String>() } else { FIXED[(i - n) as usize].to_owned() };
        let code = format!("#[ink::contract]\nmod c {{\n    #[ink::event]\n    pub struct {name} {{}}\n}}\n");
        if name.is_empty() || name == "_" || !parses(&code) || name.starts_with('1') {
            return;
        }
        c.state(&name);
        let sc = Scratch::new("nm");
        sc.write("Cargo.toml", "[package]\nname = \"x\"\n\n[dependencies]\nink = \"5\"\n");
        sc.write("lib.rs", &code);
        let mut l = Lsp::start(json!({}));
        let uri = sc.uri("lib.rs");
        l.notify("textDocument/didOpen", did_open(&uri, 0, &code));
        let x = code.find("struct").unwrap() + 2;
        c.step();
        let Reply::Result(r) = l.request("workspace/executeCommand", json!({"command": "extractEvent", "arguments": [{"uri": uri, "range": {"start": x, "end": x}}]})).0 else {
            // Only names that can't be package names are rejected.
            c.check(name.starts_with('_'), || "extraction failed".into());
            return;
        };
        if r.is_null() {
            c.check(name.starts_with('_'), || "extraction failed".into());
            return;
        }
        c.check(r["edits"].as_object().is_some_and(|e| e.len() == 2), || format!("{r}"));
        match apply_lsp(Enc::U16, &code, &r["edits"][&uri]) {
            Err(m) => c.fail(m),
            Ok(t) => {
                c.check(parses(&t), || format!("syntax errors after extraction:\n{t}"));
                c.check(t.contains(&format!("::{name};")), || format!("no import of {name}:\n{t}"));
            }
        }
        let manifest = r["files"].as_object().unwrap().iter().find(|f| f.0.ends_with("Cargo.toml")).map(|f| f.1.as_str().unwrap().to_owned()).unwrap_or_default();
        let pkg: toml::Table = manifest.parse().unwrap_or_default();
        let pn = pkg.get("package").and_then(|p| p["name"].as_str()).unwrap_or_default().to_owned();
        c.check(!pn.is_empty() && pn.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_') && pn.starts_with(char::is_alphabetic), || format!("package name {pn:?}"));
        match apply_lsp(Enc::U16, "[package]\nname = \"x\"\n\n[dependencies]\nink = \"5\"\n", &r["edits"][&sc.uri("Cargo.toml")]) {
            Err(m) => c.fail(m),
            Ok(t) => {
                let t2: toml::Table = t.parse().unwrap_or_default();
                c.check(t2.get("dependencies").and_then(|d| d.get("ink")).and_then(|i| i.as_str()) == Some("5"), || format!("the ink dependency is lost:\n{t}"));
                c.check(t2.get("dependencies").and_then(|d| d.get(&pn)).is_some(), || format!("no dependency {pn}:\n{t}"));
            }
        }
        c.outcome(&pn);
    });
}
