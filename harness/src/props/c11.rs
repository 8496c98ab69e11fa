//! C11: every request gets exactly one response and bad input never stops the server.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Ok,
    Err(i32),
    AnyErr,
    /// Error or result, but exactly one.
    Any,
}

#[derive(Clone, Debug)]
enum Msg {
    Req(String, Value, Want),
    Not(String, Value),
    Resp(Value, bool),
}

const INVALID_PARAMS: i32 = -32602;
const NOT_FOUND: i32 = -32601;

fn alphabet(uri: &str) -> Vec<Msg> {
    let r = |m: &str, p: Value, w: Want| Msg::Req(m.into(), p, w);
    let n = |m: &str, p: Value| Msg::Not(m.into(), p);
    let td = json!({"textDocument": {"uri": uri}});
    let rgp = |a: (u32, u32), b: (u32, u32)| json!({"textDocument": {"uri": uri}, "range": {"start": pos(a.0, a.1), "end": pos(b.0, b.1)}, "context": {"diagnostics": []}});
    let text = "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct E { #[ink(topic)] a: u8 }\n}\n";
    let mut v = vec![
        n("textDocument/didOpen", did_open(uri, 1, text)),
        n("textDocument/didChange", did_change(uri, 2, "#[ink::event] struct 𝕊é {}")),
        n("textDocument/didClose", did_close(uri)),
        // Malformed notifications.
        n("textDocument/didOpen", Value::Null),
        n("textDocument/didOpen", json!({"textDocument": {"uri": "not a uri", "languageId": "rust", "version": 1, "text": ""}})),
        n("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": "x", "text": 3}})),
        n("textDocument/didChange", json!({"textDocument": {"uri": uri}})),
        n("textDocument/didChange", json!([])),
        n("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 7}, "contentChanges": [{"text": 5}]})),
        n("textDocument/didClose", json!({"textDocument": {}})),
        n("textDocument/didClose", json!("x")),
        // Unknown, irrelevant or misdirected notifications.
        n("$/cancelRequest", json!({"id": 1})),
        n("workspace/didChangeConfiguration", json!({"settings": null})),
        n("textDocument/hover", doc_pos(uri, 0, 4)),
        n("textDocument/didSave", td.clone()),
        n("", Value::Null),
        // Well-formed requests, inside and outside the document.
        r("textDocument/hover", doc_pos(uri, 0, 4), Want::Ok),
        r("textDocument/hover", doc_pos(uri, 0, 4000), Want::Any),
        r("textDocument/hover", doc_pos(uri, 4000, 0), Want::Any),
        r("textDocument/completion", doc_pos(uri, 0, 2), Want::Ok),
        r("textDocument/completion", doc_pos(uri, u32::MAX, u32::MAX), Want::Any),
        r("textDocument/signatureHelp", doc_pos(uri, 2, 10), Want::Any),
        r("textDocument/signatureHelp", doc_pos(uri, 0, u32::MAX), Want::Any),
        r("textDocument/codeAction", rgp((0, 0), (0, 3)), Want::Ok),
        r("textDocument/codeAction", rgp((0, 3), (0, 0)), Want::Any),
        r("textDocument/codeAction", rgp((0, 0), (9, 99)), Want::Any),
        r("textDocument/inlayHint", rgp((0, 0), (0, 3)), Want::Ok),
        r("textDocument/inlayHint", rgp((1, 3), (0, 0)), Want::Any),
        r("textDocument/hover", doc_pos("file:///other-verif.rs", 0, 0), Want::Ok),
        r("textDocument/hover", doc_pos("untitled:Untitled-1", 0, 0), Want::Ok),
        // Malformed requests.
        r("textDocument/hover", Value::Null, Want::Err(INVALID_PARAMS)),
        r("textDocument/hover", doc_pos("nonsense", 0, 0), Want::Err(INVALID_PARAMS)),
        r("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": {"line": -1, "character": 0}}), Want::Err(INVALID_PARAMS)),
        r("textDocument/completion", json!({}), Want::Err(INVALID_PARAMS)),
        r("textDocument/codeAction", td.clone(), Want::Err(INVALID_PARAMS)),
        r("textDocument/inlayHint", td.clone(), Want::Err(INVALID_PARAMS)),
        r("textDocument/signatureHelp", json!([1, 2]), Want::Err(INVALID_PARAMS)),
        r("workspace/executeCommand", json!({}), Want::Err(INVALID_PARAMS)),
        r("codeAction/resolve", json!({}), Want::Err(INVALID_PARAMS)),
        // Unknown or unsupported requests.
        r("textDocument/definition", doc_pos(uri, 0, 0), Want::Err(NOT_FOUND)),
        r("textDocument/didOpen", did_open(uri, 1, text), Want::Err(NOT_FOUND)),
        r("nonsense", Value::Null, Want::Err(NOT_FOUND)),
        r("", Value::Null, Want::Err(NOT_FOUND)),
        // Code action resolution.
        r("codeAction/resolve", json!({"title": "t"}), Want::AnyErr),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "nope"}}), Want::AnyErr),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "migrateProject"}}), Want::AnyErr),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "migrateProject", "uri": uri}}), Want::Any),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "extractEvent", "uri": uri, "range": {"start": 30, "end": 31}}}), Want::Any),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "extractEvent", "uri": uri, "range": {"start": 31, "end": 30}}}), Want::AnyErr),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "extractEvent", "uri": uri, "range": {"start": 3, "end": 30000}}}), Want::AnyErr),
        r("codeAction/resolve", json!({"title": "t", "data": {"command": "extractEvent", "uri": uri, "range": {"start": 4294967296u64, "end": 4294967297u64}}}), Want::AnyErr),
    ];
    let cmd = |c: &str, a: Value, w: Want| r("workspace/executeCommand", json!({"command": c, "arguments": a}), w);
    v.extend([
        cmd("nope", json!([]), Want::AnyErr),
        cmd("createProject", json!([]), Want::AnyErr),
        cmd("createProject", json!([{"name": "ok", "root": "file:///verif-none/"}]), Want::Ok),
        cmd("createProject", json!([{"name": "ok", "root": "file:///verif-none"}]), Want::Ok),
        cmd("createProject", json!([{"name": "1bad", "root": "file:///verif-none/"}]), Want::AnyErr),
        cmd("createProject", json!([{"name": "", "root": "file:///verif-none/"}]), Want::AnyErr),
        cmd("createProject", json!([{"name": "ok", "root": "nope"}]), Want::AnyErr),
        cmd("createProject", json!([{"name": "ok", "root": "data:x"}]), Want::Any),
        cmd("createProject", json!([5]), Want::AnyErr),
        cmd("migrateProject", json!([]), Want::AnyErr),
        cmd("migrateProject", json!([{"uri": uri}]), Want::Any),
        cmd("migrateProject", json!([{"uri": "file:///verif-none/x.txt"}]), Want::AnyErr),
        cmd("migrateProject", json!([{"uri": "untitled:a.rs"}]), Want::AnyErr),
        cmd("migrateProject", json!([{"uri": 3}]), Want::AnyErr),
        cmd("extractEvent", json!([{"uri": uri}]), Want::AnyErr),
        cmd("extractEvent", json!([{"uri": uri, "range": {"start": 30, "end": 40}}]), Want::Any),
        cmd("extractEvent", json!([{"uri": uri, "range": {"start": 40, "end": 30}}]), Want::AnyErr),
        cmd("extractEvent", json!([{"uri": uri, "range": {"start": 4294967295u64, "end": 4294967295u64}}]), Want::AnyErr),
        cmd("extractEvent", json!([{"uri": uri, "range": {"start": 4294967326u64, "end": 30}}]), Want::AnyErr),
        cmd("extractEvent", json!([{"uri": uri, "range": {"start": -1, "end": 3}}]), Want::AnyErr),
        // Responses of the client to server requests.
        Msg::Resp(json!("initialize-project::file:///verif-none/"), true),
        Msg::Resp(json!("initialize-project::nonsense"), true),
        Msg::Resp(json!("initialize-project::data:x"), true),
        Msg::Resp(json!(17), true),
        Msg::Resp(json!("migrate-project::x"), false),
    ]);
    v
}

fn run_seq(c: &mut Case, msgs: &[&Msg], caps: &Value, end: usize) {
    let label = format!("{msgs:?} caps={caps} end={end}");
    c.state(&label);
    let mut s = Lsp::start(caps.clone());
    let mut expect: Vec<(lsp_server::RequestId, Want)> = vec![];
    for (k, m) in msgs.iter().enumerate() {
        c.step();
        match m {
            Msg::Req(method, params, want) => {
                // Numeric and string ids.
                let id: lsp_server::RequestId = if k % 2 == 0 { (100 + k as i32).into() } else { format!("id-{k}").into() };
                s.send(lsp_server::Message::Request(lsp_server::Request { id: id.clone(), method: method.clone(), params: params.clone() }));
                expect.push((id, want.clone()));
            }
            Msg::Not(method, params) => {
                s.notify(method, params.clone());
            }
            Msg::Resp(id, ok) => {
                let id: lsp_server::RequestId = match id {
                    Value::String(x) => x.clone().into(),
                    v => (v.as_i64().unwrap() as i32).into(),
                };
                s.send(lsp_server::Message::Response(lsp_server::Response {
                    id,
                    result: ok.then(|| json!({"applied": true})),
                    error: (!ok).then(|| lsp_server::ResponseError { code: 1, message: "x".into(), data: None }),
                }));
            }
        }
    }
    let mut seen = match s.barrier() {
        Ok(m) => m,
        Err(e) => return c.fail(format!("the server stopped: {e}")),
    };
    // Ending.
    match end {
        0 => {
            let id = s.send_request("shutdown", Value::Null);
            // The reply to shutdown arrives before the server waits for `exit`.
            let mut got = 0;
            while let Some(m) = s.recv() {
                match m {
                    lsp_server::Message::Response(r) if r.id == id => {
                        got += 1;
                        c.check(r.error.is_none(), || "shutdown was answered with an error".into());
                        break;
                    }
                    m => seen.push(m),
                }
            }
            c.check(got == 1, || "shutdown was not answered".into());
            s.notify("exit", Value::Null);
            let end = s.handle.take().unwrap().join();
            c.check(matches!(end, Ok(Ok(Ok(())))), || format!("shutdown/exit did not end normally: {end:?}"));
        }
        1 => {
            s.notify("exit", Value::Null);
            let end = s.handle.take().unwrap().join();
            c.check(matches!(end, Ok(Ok(Ok(())))), || format!("exit did not end normally: {end:?}"));
        }
        _ => {
            s.conn = None;
            let end = s.handle.take().unwrap().join();
            c.check(matches!(end, Ok(Ok(Ok(())))), || format!("disconnect did not end normally: {end:?}"));
        }
    }
    let mut kinds = vec![];
    for (id, want) in &expect {
        let rs: Vec<_> = seen
            .iter()
            .filter_map(|m| match m {
                lsp_server::Message::Response(r) if r.id == *id => Some(r),
                _ => None,
            })
            .collect();
        if rs.len() != 1 {
            c.fail(format!("request {id} got {} responses", rs.len()));
            continue;
        }
        let code = rs[0].error.as_ref().map(|e| e.code);
        kinds.push(code);
        let ok = match want {
            Want::Ok => code.is_none(),
            Want::Err(k) => code == Some(*k),
            Want::AnyErr => code.is_some(),
            Want::Any => true,
        };
        c.check(ok && !(rs[0].error.is_some() && rs[0].result.is_some()), || format!("request {id}: expected {want:?}, got error code {code:?}"));
    }
    c.outcome(&kinds);
    for m in &seen {
        match m {
            lsp_server::Message::Response(r) => {
                c.check(expect.iter().any(|(id, _)| *id == r.id), || format!("response to something that was not asked: {r:?}"))
            }
            lsp_server::Message::Request(r) => c.check(r.method == "workspace/applyEdit" || r.method == "window/showDocument", || format!("unexpected request {r:?}")),
            lsp_server::Message::Notification(n) => c.check(n.method == "textDocument/publishDiagnostics", || format!("unexpected notification {n:?}")),
        }
    }
}

pub fn run(ctx: &Ctx) -> Info {
    let sc = Scratch::new("c11");
    sc.write("Cargo.toml", "[package]\nname = \"a\"\nversion = \"0.1.0\"\n[dependencies]\nink = \"4.3.0\"\n");
    sc.write("lib.rs", "");
    let uri = sc.uri("lib.rs");
    let al = alphabet(&uri);
    let k = al.len() as u64;
    let full = json!({"workspace": {"applyEdit": true, "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create"]}}});
    let caps = [json!({}), full];
    let n2 = seq_count(k, 2);
    ctx.explore("sequences", n2 * 2, |i, c| {
        let seq: Vec<&Msg> = seq_decode(i / 2, k).into_iter().map(|j| &al[j]).collect();
        run_seq(c, &seq, &caps[(i % 2) as usize], 2)
    });
    ctx.explore("after-open", n2, |i, c| {
        let mut seq: Vec<&Msg> = vec![&al[0]];
        seq.extend(seq_decode(i, k).into_iter().map(|j| &al[j]));
        run_seq(c, &seq, &caps[1], 2)
    });
    ctx.explore("endings", (k + 1) * 3, |i, c| {
        let seq: Vec<&Msg> = seq_decode(i / 3, k).into_iter().map(|j| &al[j]).collect();
        run_seq(c, &seq, &caps[0], (i % 3) as usize)
    });
    if !ctx.quick() {
        ctx.explore("sequences-3", k * k * k, |i, c| {
            let mut d = Digits(i);
            let seq: Vec<&Msg> = (0..3).map(|_| d.pick(&al)).collect();
            run_seq(c, &seq, &caps[0], 2)
        });
    }
    info(
        format!("all message sequences of length <= {} over {k} messages (well-formed, out-of-range, malformed, unknown, misdirected), from the empty state and after an open document, 2 capability sets, 3 ways to end", ctx.pick(2, 3)),
        &["server runs in-process over an in-memory connection; JSON framing is the lsp-server crate's"],
    )
}
