//! C12: responses respect exactly what the client said it supports.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
struct Caps {
    enc: Option<&'static [&'static str]>,
    snippet: Option<bool>,
    kinds: Option<Vec<&'static str>>,
    resolve: Option<&'static [&'static str]>,
    active: Option<bool>,
    label: Option<bool>,
    apply: Option<bool>,
    docs: Option<bool>,
    ops: Option<&'static [&'static str]>,
}

impl Caps {
    fn json(&self) -> Value {
        let mut v = json!({});
        let mut set = |path: &[&str], x: Value| {
            let mut at = &mut v;
            for p in path {
                at = at.as_object_mut().unwrap().entry(p.to_string()).or_insert(json!({}));
            }
            *at = x;
        };
        if let Some(e) = self.enc {
            set(&["general", "positionEncodings"], json!(e));
        }
        if let Some(b) = self.snippet {
            set(&["textDocument", "completion", "completionItem", "snippetSupport"], json!(b));
        }
        if let Some(k) = &self.kinds {
            set(&["textDocument", "codeAction", "codeActionLiteralSupport", "codeActionKind", "valueSet"], json!(k));
        }
        if let Some(r) = self.resolve {
            set(&["textDocument", "codeAction", "resolveSupport", "properties"], json!(r));
        }
        if let Some(b) = self.active {
            set(&["textDocument", "signatureHelp", "signatureInformation", "activeParameterSupport"], json!(b));
        }
        if let Some(b) = self.label {
            set(&["textDocument", "signatureHelp", "signatureInformation", "parameterInformation", "labelOffsetSupport"], json!(b));
        }
        if let Some(b) = self.apply {
            set(&["workspace", "applyEdit"], json!(b));
        }
        if let Some(b) = self.docs {
            set(&["workspace", "workspaceEdit", "documentChanges"], json!(b));
        }
        if let Some(o) = self.ops {
            set(&["workspace", "workspaceEdit", "resourceOperations"], json!(o));
        }
        v
    }

    fn encoding(&self) -> Enc {
        match self.enc.unwrap_or(&[]).iter().find(|e| **e == "utf-8" || **e == "utf-32") {
            Some(&"utf-8") => Enc::U8,
            Some(_) => Enc::U32,
            None => Enc::U16,
        }
    }
    fn creates(&self) -> bool {
        self.docs == Some(true) && self.ops.unwrap_or(&[]).contains(&"create")
    }
    fn resolves(&self) -> bool {
        self.resolve.unwrap_or(&[]).contains(&"edit")
    }
}

const USED_KINDS: [&str; 3] = ["quickfix", "refactor.rewrite", "refactor.extract"];

/// Runs the handshake and returns the server's capabilities.
fn handshake(caps: &Value) -> Result<Value, String> {
    let (server, client) = lsp_server::Connection::memory();
    let h = std::thread::spawn(move || guarded(move || ink_lsp_server::initialize(server).map(|_| ()).map_err(|e| e.to_string())));
    let req = lsp_server::Request { id: 1.into(), method: "initialize".into(), params: json!({"capabilities": caps, "processId": null, "rootUri": null}) };
    client.sender.send(req.into()).map_err(|e| e.to_string())?;
    let got = client.receiver.recv_timeout(RECV_TIMEOUT);
    let _ = client.sender.send(lsp_server::Notification { method: "initialized".into(), params: json!({}) }.into());
    match h.join() {
        Ok(Ok(Ok(()))) => {}
        e => return Err(format!("initialization failed: {e:?}")),
    }
    match got {
        Ok(lsp_server::Message::Response(r)) if r.id == 1.into() && r.error.is_none() => Ok(r.result.unwrap_or_default()),
        m => Err(format!("unexpected answer to initialize: {m:?}")),
    }
}

fn check_initialize(c: &mut Case, caps: &Caps) -> Option<bool> {
    let r = match handshake(&caps.json()) {
        Ok(r) => r,
        Err(e) => {
            c.fail(e);
            return None;
        }
    };
    c.step();
    let s = &r["capabilities"];
    let enc = s["positionEncoding"].as_str().unwrap_or("utf-16").to_owned();
    c.check(enc == caps.encoding().name(), || format!("position encoding {enc} for a client that offers {:?}", caps.enc));
    let provider = &s["codeActionProvider"];
    let client: Vec<&str> = caps.kinds.clone().unwrap_or_default();
    let advertised: Vec<String> = provider["codeActionKinds"].as_array().map(|a| a.iter().map(|k| k.as_str().unwrap_or("?").to_owned()).collect()).unwrap_or_default();
    c.check(provider == &json!(true) || provider.is_object(), || format!("no code actions: {provider}"));
    c.check(advertised.iter().all(|k| client.contains(&k.as_str())), || format!("code action kinds {advertised:?} for a client that knows {client:?}"));
    c.check(client.iter().all(|k| !USED_KINDS.contains(k) || advertised.iter().any(|a| a == k)), || format!("code action kinds {advertised:?} for a client that knows {client:?}"));
    for p in ["hoverProvider", "completionProvider", "signatureHelpProvider", "inlayHintProvider", "executeCommandProvider", "textDocumentSync"] {
        c.check(!s[p].is_null() && s[p] != json!(false), || format!("{p} isn't advertised"));
    }
    let cmds: Vec<&str> = s["executeCommandProvider"]["commands"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
    c.check(["createProject", "migrateProject", "extractEvent"].iter().all(|x| cmds.contains(x)), || format!("commands {cmds:?}"));
    let sync = &s["textDocumentSync"];
    c.check(sync["openClose"] == json!(true) && sync["change"] == json!(1), || format!("document sync {sync}"));
    c.outcome(&(enc, advertised));
    Some(provider["resolveProvider"] == json!(true))
}

// -------------------------------------------------------------------------------------------
// Responses

struct Doc {
    dir: &'static str,
    text: &'static str,
    v: Version,
}

const DOCS: [Doc; 2] = [
    Doc {
        dir: "v4",
        v: Version::V4,
        text: "/* é🦀 */ #[ink::contract()]\nmod c {\n    /* é🦀 */ #[ink(storage)] pub struct Ж { ключ: u8 }\n    /* 🦀 */ #[ink(event)] pub struct Ev { #[ink(topic)] a: u8 }\n    impl Ж { /* é */ #[ink(constructor, )] pub fn new() -> Self { todo!() } /* é */ #[ink(message, selector = 1)] pub fn get(self) {} }\n}\n",
    },
    Doc {
        dir: "v5",
        v: Version::V5,
        text: "mod e { /* é🦀 */ #[ink::event()] pub struct Ev { /* é🦀 */ #[ink(topic)] pub a: u8, pub b: u8 } }\n#[ink::contract]\nmod c {\n    /* é🦀 */ #[ink(storage)] pub struct Ж { ключ: u8 }\n    /* 🦀 */ #[ink(event)] pub struct Le { #[ink(topic)] a: u8 }\n    impl Ж { /* é */ #[ink(constructor, )] pub fn new() -> Self { todo!() } /* é */ #[ink(message, selector = 1)] pub fn get(self) {} }\n}\n/* é🦀 */ #[ink_e2e::test(backend(node), environment = a::B)] fn t() {}\n",
    },
];
const MANIFESTS: [&str; 2] = [
    "[package]\nname = \"a\" # é🦀\nversion = \"0.1.0\"\n[dependencies]\nink = \"4.3.0\"\n# é🦀",
    "[package]\nname = \"b\" # é🦀\nversion = \"0.1.0\"\n[dependencies]\nink = \"5.0.0\"\n# é🦀",
];

/// (line, column) in the encoding to an offset.
fn offset(text: &str, enc: Enc, p: &Value) -> Option<usize> {
    let (line, col) = (p["line"].as_u64()? as u32, p["character"].as_u64()? as u32);
    boundaries(text).into_iter().find(|o| enc.position(text, *o) == (line, col))
}
fn range(text: &str, enc: Enc, r: &Value) -> Option<(usize, usize)> {
    Some((offset(text, enc, &r["start"])?, offset(text, enc, &r["end"])?))
}
fn at(text: &str, enc: Enc, off: usize) -> Value {
    let (l, ch) = enc.position(text, off);
    pos(l, ch)
}

type Edits = Vec<((usize, usize), String)>;

fn edits(text: &str, enc: Enc, v: &Value) -> Result<Edits, String> {
    v.as_array().ok_or(format!("no edits: {v}"))?.iter().map(|e| Ok((range(text, enc, &e["range"]).ok_or(format!("bad range: {e}"))?, e["newText"].as_str().unwrap_or("?").to_owned()))).collect()
}

/// A workspace edit (or raw command result) in a form that doesn't depend on the capabilities: new files and edits by path.
type Effect = (BTreeMap<String, String>, BTreeMap<String, Edits>);

struct World {
    sc: Scratch,
}

impl World {
    fn text_of(&self, uri: &str) -> String {
        for (i, d) in DOCS.iter().enumerate() {
            if uri == self.sc.uri(&format!("{}/lib.rs", d.dir)) {
                return d.text.to_owned();
            }
            if uri == self.sc.uri(&format!("{}/Cargo.toml", d.dir)) {
                return MANIFESTS[i].to_owned();
            }
        }
        String::new()
    }

    fn raw(&self, enc: Enc, v: &Value) -> Result<Effect, String> {
        let mut out = Effect::default();
        if let Some(fs) = v["files"].as_object() {
            for (u, t) in fs {
                out.0.insert(u.clone(), t.as_str().unwrap_or("?").to_owned());
            }
        }
        if let Some(es) = v["edits"].as_object() {
            for (u, e) in es {
                out.1.insert(u.clone(), edits(&self.text_of(u), enc, e)?);
            }
        }
        Ok(out)
    }

    fn workspace_edit(&self, caps: &Caps, v: &Value) -> Result<Effect, String> {
        let enc = caps.encoding();
        let mut out = Effect::default();
        if !v["changes"].is_null() && !v["documentChanges"].is_null() {
            return Err("both changes and documentChanges".into());
        }
        if let Some(es) = v["changes"].as_object() {
            for (u, e) in es {
                out.1.insert(u.clone(), edits(&self.text_of(u), enc, e)?);
            }
        }
        if let Some(ops) = v["documentChanges"].as_array() {
            if caps.docs != Some(true) {
                return Err("documentChanges for a client without them".into());
            }
            let mut created = vec![];
            for op in ops {
                match op["kind"].as_str() {
                    Some("create") => {
                        if !caps.creates() {
                            return Err("a create operation for a client without it".into());
                        }
                        created.push(op["uri"].as_str().unwrap_or("?").to_owned());
                    }
                    Some(k) => return Err(format!("a {k} operation")),
                    None => {
                        let u = op["textDocument"]["uri"].as_str().unwrap_or("?").to_owned();
                        if op["edits"].as_array().into_iter().flatten().any(|e| !e["annotationId"].is_null()) {
                            return Err("an annotated edit".into());
                        }
                        let es = edits(&self.text_of(&u), enc, &op["edits"])?;
                        if created.contains(&u) {
                            out.0.insert(u, es.into_iter().map(|e| e.1).collect());
                        } else {
                            out.1.insert(u, es);
                        }
                    }
                }
            }
        }
        Ok(out)
    }

    /// Executes a command and returns its effect.
    fn execute(&self, c: &mut Case, s: &mut Lsp, caps: &Caps, cmd: &str, args: Value, asks: bool) -> Option<Effect> {
        let (reply, _) = s.request("workspace/executeCommand", json!({"command": cmd, "arguments": args}));
        let after = s.barrier().unwrap_or_default();
        let asked: Vec<_> = after
            .iter()
            .filter_map(|m| match m {
                lsp_server::Message::Request(r) if r.method == "workspace/applyEdit" => Some(r.params.clone()),
                _ => None,
            })
            .collect();
        let Reply::Result(r) = reply else {
            c.fail(format!("{cmd} failed: {reply:?}"));
            return None;
        };
        c.check(asked.len() == asks as usize, || format!("{cmd}: {} workspace/applyEdit requests, expected {}", asked.len(), asks as usize));
        let e = match asked.first() {
            Some(p) => {
                c.check(r.is_null(), || format!("{cmd} both returns and applies its edits"));
                self.workspace_edit(caps, &p["edit"])
            }
            None => self.raw(caps.encoding(), &r),
        };
        match e {
            Ok(e) => Some(e),
            Err(m) => {
                c.fail(format!("{cmd}: {m}"));
                None
            }
        }
    }
}

/// What each command does, independently of capabilities: taken from a client without any.
struct Baseline {
    create: Effect,
    migrate: Effect,
    extract: BTreeMap<(usize, usize), Effect>,
}

const CREATE: &str = "file:///verif-none/proj/";

fn baseline(w: &World) -> Baseline {
    let caps = Caps { enc: Some(&["utf-8"]), ..Default::default() };
    let mut s = Lsp::start(caps.json());
    let mut uris = vec![];
    for d in &DOCS {
        let u = w.sc.uri(&format!("{}/lib.rs", d.dir));
        s.notify("textDocument/didOpen", did_open(&u, 1, d.text));
        uris.push(u);
    }
    let mut go = |cmd: &str, arg: Value| match s.request("workspace/executeCommand", json!({"command": cmd, "arguments": [arg]})).0 {
        Reply::Result(v) => w.raw(Enc::U8, &v).unwrap_or_default(),
        _ => Effect::default(),
    };
    let create = go("createProject", json!({"name": "proj", "root": CREATE}));
    let migrate = go("migrateProject", json!({"uri": uris[0]}));
    let a = Analysis::new(DOCS[1].text, DOCS[1].v);
    let mut extract = BTreeMap::new();
    for p in boundaries(DOCS[1].text) {
        for x in a.actions(tr(p, p)).into_iter().filter(|x| x.kind == ActionKind::Extract) {
            let r = rng(x.range);
            extract.entry(r).or_insert_with(|| go("extractEvent", json!({"uri": uris[1], "range": {"start": r.0, "end": r.1}})));
        }
    }
    Baseline { create, migrate, extract }
}

fn check_responses(c: &mut Case, w: &World, base: &Baseline, caps: &Caps, resolve_advertised: bool, positions: &[Vec<usize>; 2]) {
    let enc = caps.encoding();
    let mut s = Lsp::start(caps.json());
    for (di, d) in DOCS.iter().enumerate() {
        let text = d.text;
        let uri = w.sc.uri(&format!("{}/lib.rs", d.dir));
        let a = Analysis::new(text, d.v);
        s.notify("textDocument/didOpen", did_open(&uri, 1, text));
        // Published diagnostics.
        let published: Vec<_> = s
            .barrier()
            .unwrap_or_default()
            .into_iter()
            .filter_map(|m| match m {
                lsp_server::Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => Some(n.params),
                _ => None,
            })
            .collect();
        c.check(published.len() == 1 && published[0]["uri"] == json!(uri), || format!("published {published:?}"));
        if let Some(p) = published.first() {
            let got: Vec<_> = p["diagnostics"].as_array().into_iter().flatten().map(|x| (range(text, enc, &x["range"]), x["message"].as_str().unwrap_or("").to_owned(), x["severity"].as_u64())).collect();
            let want: Vec<_> = a.diagnostics().into_iter().map(|x| (Some(rng(x.range)), x.message, Some(if x.severity == ink_analyzer::Severity::Error { 1 } else { 2 }))).collect();
            c.check(got == want, || format!("published diagnostics {got:?}, expected {want:?}"));
        }
        for &p in &positions[di] {
            let here = json!({"textDocument": {"uri": uri}, "position": at(text, enc, p)});
            // Completions.
            if let Reply::Result(r) = s.request("textDocument/completion", here.clone()).0 {
                c.step();
                let items = r["items"].as_array().or(r.as_array()).cloned().unwrap_or_default();
                let want = a.completions(ts(p));
                c.check(items.len() == want.len(), || format!("{} completions, expected {}", items.len(), want.len()));
                for (i, x) in items.iter().zip(&want) {
                    let snippet = caps.snippet == Some(true) && x.edit.snippet.is_some();
                    let t = if snippet { x.edit.snippet.clone().unwrap() } else { x.edit.text.clone() };
                    c.check(i["textEdit"]["newText"] == json!(t), || format!("completion text {i}, expected {t:?}"));
                    c.check((i["insertTextFormat"] == json!(2)) == snippet, || format!("completion format {i}"));
                    c.check(range(text, enc, &i["textEdit"]["range"]) == Some(rng(x.edit.range)), || format!("completion range {i}, expected {:?}", rng(x.edit.range)));
                    c.check(i["label"] == json!(x.label) && i["detail"] == json!(x.detail), || format!("completion {i}, expected {x:?}"));
                }
            } else {
                c.fail("completion request failed");
            }
            // Hover.
            if let Reply::Result(r) = s.request("textDocument/hover", here.clone()).0 {
                c.step();
                let got = (!r.is_null()).then(|| (range(text, enc, &r["range"]), r["contents"].as_str().unwrap_or("").to_owned()));
                let want = a.hover(tr(p, p)).map(|h| (Some(rng(h.range)), h.content));
                c.check(got == want, || format!("hover {got:?}, expected {want:?}"));
            } else {
                c.fail("hover request failed");
            }
            // Signature help.
            if let Reply::Result(r) = s.request("textDocument/signatureHelp", here.clone()).0 {
                c.step();
                let want = a.signature_help(ts(p));
                let sigs = r["signatures"].as_array().cloned().unwrap_or_default();
                c.check(sigs.len() == want.len() && r.is_null() == want.is_empty(), || format!("{} signatures, expected {}", sigs.len(), want.len()));
                for (g, x) in sigs.iter().zip(&want) {
                    c.check(g["label"] == json!(x.label), || format!("signature {g}, expected {x:?}"));
                    let active = if caps.active == Some(true) { json!(x.active_parameter) } else { Value::Null };
                    c.check(g["activeParameter"] == active, || format!("active parameter of a signature: {g}, expected {active}"));
                    let ps: Vec<String> = g["parameters"].as_array().into_iter().flatten().map(|q| match &q["label"] {
                        Value::String(t) if caps.label != Some(true) => t.clone(),
                        Value::Array(o) if caps.label == Some(true) && o.len() == 2 => x.label.get(o[0].as_u64().unwrap_or(0) as usize..o[1].as_u64().unwrap_or(0) as usize).unwrap_or("?").to_owned(),
                        v => format!("wrong form: {v}"),
                    }).collect();
                    let want: Vec<String> = x.parameters.iter().map(|q| x.label[rng(q.range).0..rng(q.range).1].to_owned()).collect();
                    c.check(ps == want, || format!("parameters {ps:?}, expected {want:?}"));
                }
                if let Some(first) = want.first() {
                    c.check(r["activeSignature"] == json!(0) && r["activeParameter"] == json!(first.active_parameter), || format!("active signature/parameter: {r}"));
                }
            } else {
                c.fail("signature help request failed");
            }
            // Code actions.
            let q = json!({"textDocument": {"uri": uri}, "range": {"start": at(text, enc, p), "end": at(text, enc, p)}, "context": {"diagnostics": []}});
            if let Reply::Result(r) = s.request("textDocument/codeAction", q).0 {
                c.step();
                let got = r.as_array().cloned().unwrap_or_default();
                let want = a.actions(tr(p, p));
                c.check(got.len() == want.len(), || format!("{} code actions, expected {}", got.len(), want.len()));
                if caps.kinds.is_none() && got.iter().any(|g| g["command"].as_str().is_none()) {
                    c.fail_sig("code action literals for a client that only supports commands", format!("code action literals without literal support at {p}"));
                }
                for (g, x) in got.iter().zip(&want) {
                    let kind = match x.kind {
                        ActionKind::QuickFix => "quickfix",
                        ActionKind::Extract => "refactor.extract",
                        _ => "refactor.rewrite",
                    };
                    c.check(g["title"] == json!(x.label) && g["kind"] == json!(kind), || format!("code action {g}, expected {} of kind {kind}", x.label));
                    let lazy = matches!(x.kind, ActionKind::Extract | ActionKind::Migrate);
                    if !lazy {
                        let e = w.workspace_edit(caps, &g["edit"]);
                        let want: Effect = (BTreeMap::new(), BTreeMap::from([(uri.clone(), x.edits.iter().map(|e| (rng(e.range), e.text.clone())).collect())]));
                        c.check(e.as_ref() == Ok(&want), || format!("edits of {}: {e:?}, expected {want:?}", x.label));
                        continue;
                    }
                    let r = rng(x.range);
                    let want = if x.kind == ActionKind::Migrate { &base.migrate } else { &base.extract[&r] };
                    c.check(g["edit"].is_null(), || format!("{} has an edit", x.label));
                    if g["command"].is_null() {
                        // Resolved lazily: the client must know how, and the server must have said so.
                        c.check(caps.resolves() && resolve_advertised, || format!("{} has to be resolved, but that was not agreed on", x.label));
                        match s.request("codeAction/resolve", g.clone()).0 {
                            Reply::Result(r) => {
                                c.step();
                                let e = w.workspace_edit(caps, &r["edit"]);
                                c.check(e.as_ref() == Ok(want), || format!("{} resolves to {e:?}, expected {want:?}", x.label));
                                c.check(r["title"] == g["title"], || "the resolved action has another title".into());
                            }
                            e => c.fail(format!("{} can't be resolved: {e:?}", x.label)),
                        }
                    } else {
                        let cmd = &g["command"];
                        let asks = caps.apply == Some(true) && (x.kind == ActionKind::Migrate || caps.creates());
                        let e = w.execute(c, &mut s, caps, cmd["command"].as_str().unwrap_or("?"), cmd["arguments"].clone(), asks);
                        c.step();
                        if let Some(e) = e {
                            c.check(&e == want, || format!("{} does {e:?}, expected {want:?}", x.label));
                        }
                    }
                }
            } else {
                c.fail("code action request failed");
            }
        }
        let all = json!({"textDocument": {"uri": uri}, "range": {"start": pos(0, 0), "end": at(text, enc, text.len())}});
        if let Reply::Result(r) = s.request("textDocument/inlayHint", all).0 {
            let got: Vec<_> = r.as_array().into_iter().flatten().map(|h| (offset(text, enc, &h["position"]), h["label"].as_str().unwrap_or("").to_owned())).collect();
            let want: Vec<_> = a.inlay_hints(None).into_iter().map(|h| (Some(us(h.position)), format!(": {}", h.label))).collect();
            c.check(got == want, || format!("inlay hints {got:?}, expected {want:?}"));
        } else {
            c.fail("inlay hint request failed");
        }
    }
    let e = w.execute(c, &mut s, caps, "createProject", json!([{"name": "proj", "root": CREATE}]), caps.apply == Some(true) && caps.creates());
    if let Some(e) = e {
        c.check(e == base.create, || format!("createProject does {e:?}, expected {:?}", base.create));
    }
    let end = s.finish();
    c.check(end == "ok", || format!("the server ended: {end}"));
}

type Strs = &'static [&'static str];
const ENCS: [Option<Strs>; 10] = [None, Some(&["utf-8"]), Some(&["utf-16"]), Some(&["utf-32"]), Some(&[]), Some(&["utf-16", "utf-8"]), Some(&["utf-16", "utf-32", "utf-8"]), Some(&["utf-8", "utf-32", "utf-16"]), Some(&["x"]), Some(&["x", "utf-32"])];
const RESOLVES: [Option<Strs>; 4] = [None, Some(&["edit"]), Some(&["command"]), Some(&["command", "edit"])];
const OPS: [Option<Strs>; 4] = [None, Some(&["create"]), Some(&["rename", "delete"]), Some(&["rename", "create", "delete"])];
const FLAG: [Option<bool>; 3] = [None, Some(true), Some(false)];

pub fn run(ctx: &Ctx) -> Info {
    let w = World { sc: Scratch::new("c12") };
    for (i, d) in DOCS.iter().enumerate() {
        w.sc.write(&format!("{}/Cargo.toml", d.dir), MANIFESTS[i]);
        w.sc.write(&format!("{}/lib.rs", d.dir), d.text);
    }
    let base = baseline(&w);
    const KINDS: [&str; 6] = ["", "quickfix", "refactor", "refactor.rewrite", "refactor.extract", "source"];
    let kinds: Vec<Option<Vec<&str>>> = std::iter::once(None).chain((0..64usize).map(|m| Some(KINDS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, k)| *k).collect()))).collect();
    ctx.explore("handshake", product(&[ENCS.len(), kinds.len(), RESOLVES.len(), 3, 3, OPS.len()]), |i, c| {
        let mut d = Digits(i);
        let caps = Caps { enc: *d.pick(&ENCS), kinds: d.pick(&kinds).clone(), resolve: *d.pick(&RESOLVES), snippet: *d.pick(&FLAG), docs: *d.pick(&FLAG), ops: *d.pick(&OPS), ..Default::default() };
        c.state(&format!("{caps:?}"));
        check_initialize(c, &caps);
    });
    // Every position once, for the baseline capabilities of each encoding.
    let every: [Vec<usize>; 2] = [boundaries(DOCS[0].text), boundaries(DOCS[1].text)];
    let step = 8;
    ctx.explore("positions", (ENCS.len() * 2 * every[0].len().max(every[1].len()).div_ceil(step)) as u64, |i, c| {
        let mut d = Digits(i);
        let full = d.take(2) == 1;
        let mut caps = Caps { enc: *d.pick(&ENCS), kinds: Some(KINDS.to_vec()), ..Default::default() };
        if full {
            caps = Caps { snippet: Some(true), resolve: RESOLVES[1], active: Some(true), label: Some(true), apply: Some(true), docs: Some(true), ops: OPS[1], ..caps };
        }
        let k = d.0 as usize * step;
        let ps = [0, 1].map(|x| every[x].iter().copied().skip(k).take(step).collect::<Vec<_>>());
        c.state(&format!("{caps:?} positions {ps:?}"));
        let adv = check_initialize(c, &caps).unwrap_or(false);
        check_responses(c, &w, &base, &caps, adv, &ps);
    });
    // The product of all capabilities at positions that use each of them.
    let spots: [Vec<usize>; 2] = [
        ["ontract()", ")]\nmod", "(constructor", ", )]", "vent)]", "age, sel", "fn get"].iter().map(|m| DOCS[0].text.find(m).unwrap() + 1).collect(),
        ["vent()", ")] pub struct Ev", ", )]", "vent)]", "opic)]", "ackend", "nk(storage"].iter().map(|m| DOCS[1].text.find(m).unwrap() + 1).collect(),
    ];
    let q = ctx.quick();
    let encs: &[Option<Strs>] = if q { &ENCS[..4] } else { &ENCS };
    let ks: Vec<Option<Vec<&str>>> = if q { vec![None, Some(KINDS.to_vec()), Some(vec!["source"])] } else { vec![None, Some(KINDS.to_vec()), Some(vec!["source"]), Some(vec!["quickfix"]), Some(vec!["refactor.extract"])] };
    let resolves: &[Option<Strs>] = if q { &RESOLVES[..3] } else { &RESOLVES };
    let ops: &[Option<Strs>] = if q { &OPS[..3] } else { &OPS };
    let flags: &[Option<bool>] = if q { &FLAG[..2] } else { &FLAG };
    let f = flags.len();
    ctx.explore("responses", product(&[encs.len(), f, ks.len(), resolves.len(), f, f, f, f, ops.len()]), |i, c| {
        let mut d = Digits(i);
        let caps = Caps { enc: *d.pick(encs), snippet: *d.pick(flags), kinds: d.pick(&ks).clone(), resolve: *d.pick(resolves), active: *d.pick(flags), label: *d.pick(flags), apply: *d.pick(flags), docs: *d.pick(flags), ops: *d.pick(ops) };
        c.state(&format!("{caps:?}"));
        let Some(adv) = check_initialize(c, &caps) else { return };
        check_responses(c, &w, &base, &caps, adv, &spots);
    });
    info(
        format!("all combinations of {} position-encoding lists, snippet support, {} code-action kind sets (64 in the handshake), {} resolve lists, signature-help flags, applyEdit, documentChanges and {} resource-operation lists; 2 documents with non-ASCII text (all positions for the encodings, 7 positions each in the product)", encs.len(), ks.len(), resolves.len(), ops.len()),
        &["expected contents come from the analyzer itself on the same text; the check decides their translation for the client"],
    )
}
