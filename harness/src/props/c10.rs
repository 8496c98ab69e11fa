//! C10: the server's view of each document equals the client's, after any history.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use serde_json::{json, Value};

const TEXTS: [&str; 4] = [
    "#[ink::contract]\nmod c {\n    #[ink(message)]\n    fn f() {}\n}\n",
    "#[ink::event]\nstruct E { #[ink(topic)] a: u8 }\n",
    "",
    "// é𝕊\n#[ink::contract(env = X)]\nmod c { #[ink(storage)] struct S {} }\n#[ink(event)] fn g() {}",
];

#[derive(Clone, Debug)]
enum Ev {
    Open(usize, usize),
    /// Same uri announced as another language.
    OpenOther(usize, usize),
    Change(usize, usize),
    /// Two content changes in one notification: the last one wins.
    Change2(usize, usize, usize),
    ChangeNone(usize),
    Close(usize),
    Save(usize),
}

fn alphabet(docs: usize, texts: usize) -> Vec<Ev> {
    let mut v = vec![];
    for d in 0..docs {
        for t in 0..texts {
            v.push(Ev::Open(d, t));
        }
        for t in 0..texts {
            v.push(Ev::Change(d, t));
        }
        v.push(Ev::Close(d));
        v.push(Ev::OpenOther(d, 0));
        v.push(Ev::Change2(d, 0, 1));
        v.push(Ev::ChangeNone(d));
        if d == 0 {
            v.push(Ev::Save(d));
        }
    }
    v
}

fn ranges(text: &str, r: TextRange) -> Value {
    let (x, y) = (Enc::U16.position(text, us(r.start())), Enc::U16.position(text, us(r.end())));
    json!({"start": pos(x.0, x.1), "end": pos(y.0, y.1)})
}

/// Order-insensitive canonical form of the diagnostics the analyzer itself computes.
fn expected_diags(text: &str, v: Version) -> Vec<String> {
    let mut out: Vec<String> = Analysis::new(text, v)
        .diagnostics()
        .into_iter()
        .map(|d| json!([ranges(text, d.range), d.message, if d.severity == Severity::Error { 1 } else { 2 }]).to_string())
        .collect();
    out.sort();
    out
}

fn got_diags(p: &Value) -> Vec<String> {
    let mut out: Vec<String> =
        p["diagnostics"].as_array().cloned().unwrap_or_default().iter().map(|d| json!([d["range"], d["message"], d["severity"]]).to_string()).collect();
    out.sort();
    out
}

fn probes(uri: &str) -> Vec<(&'static str, Value)> {
    let rg = json!({"start": pos(0, 0), "end": pos(0, 8)});
    vec![
        ("textDocument/hover", doc_pos(uri, 0, 4)),
        ("textDocument/hover", doc_pos(uri, 1, 8)),
        ("textDocument/completion", doc_pos(uri, 0, 2)),
        ("textDocument/signatureHelp", doc_pos(uri, 1, 18)),
        ("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": {"start": pos(0, 0), "end": pos(2, 0)}})),
        ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": rg, "context": {"diagnostics": []}})),
        ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": pos(2, 8), "end": pos(2, 9)}, "context": {"diagnostics": []}})),
    ]
}

fn canon(r: &Reply) -> String {
    match r {
        Reply::Result(v) => v.to_string(),
        r => format!("{r:?}"),
    }
}

pub fn run(ctx: &Ctx) -> Info {
    let sc = Scratch::new("c10");
    sc.write("a/Cargo.toml", "[package]\nname = \"a\"\nversion = \"0.1.0\"\n[dependencies]\nink = { version = \"5.0.0\" }\n");
    sc.write("b/Cargo.toml", "[package]\nname = \"b\"\nversion = \"0.1.0\"\n[dependencies]\nink = { version = \"4.3.0\" }\n");
    sc.write("a/lib.rs", "");
    sc.write("b/lib.rs", "");
    let uris = [sc.uri("a/lib.rs"), sc.uri("b/lib.rs")];
    let vers = [Version::V5, Version::V4];
    // Reference answers: a fresh server that only ever saw this text.
    let ndocs = 2;
    let ntexts = TEXTS.len();
    let fresh: Vec<Vec<Vec<String>>> = (0..ndocs)
        .map(|d| {
            (0..=ntexts)
                .map(|t| {
                    let mut s = Lsp::start(json!({}));
                    if t < ntexts {
                        s.notify("textDocument/didOpen", did_open(&uris[d], 1, TEXTS[t]));
                    }
                    probes(&uris[d]).into_iter().map(|(m, p)| canon(&s.request(m, p).0)).collect()
                })
                .collect()
        })
        .collect();
    let diag: Vec<Vec<Vec<String>>> = (0..ndocs).map(|d| TEXTS.iter().map(|t| expected_diags(t, vers[d])).collect()).collect();

    let run_history = |c: &mut Case, evs: &[&Ev], every: bool| {
        let label = format!("{evs:?}");
        c.state(&label);
        let mut s = Lsp::start(json!({}));
        let mut model: Vec<Option<usize>> = vec![None; ndocs];
        let mut expect: Vec<Value> = vec![];
        let probe = |c: &mut Case, s: &mut Lsp, model: &[Option<usize>], k: usize, lite: bool, seen: &mut Vec<lsp_server::Message>| -> bool {
            for d in 0..ndocs {
                for (q, (m, p)) in probes(&uris[d]).into_iter().enumerate() {
                    if lite && q != 1 && q != 5 {
                        continue;
                    }
                    c.step();
                    let (r, others) = s.request(m, p);
                    seen.extend(others);
                    if let Reply::Dead(e) = &r {
                        c.fail(format!("after {} events: server ended: {e}", k + 1));
                        return false;
                    }
                    let want = &fresh[d][model[d].unwrap_or(ntexts)][q];
                    let got = canon(&r);
                    c.check(got == *want, || format!("after {} events, {m} #{q} on document {d}: got {}\nfresh server: {}", k + 1, trunc(&got, 300), trunc(want, 300)));
                }
            }
            true
        };
        let mut seen = vec![];
        for (k, ev) in evs.iter().enumerate() {
            c.step();
            let ver = k as i32 + 3;
            let mut publish = |d: usize, t: Option<usize>| {
                expect.push(json!({"uri": uris[d], "version": t.map(|_| ver), "diagnostics": t.map(|t| diag[d][t].clone()).unwrap_or_default()}));
            };
            match ev {
                Ev::Open(d, t) => {
                    s.notify("textDocument/didOpen", did_open(&uris[*d], ver, TEXTS[*t]));
                    model[*d] = Some(*t);
                    publish(*d, Some(*t));
                }
                Ev::OpenOther(d, t) => {
                    s.notify("textDocument/didOpen", json!({"textDocument": {"uri": uris[*d], "languageId": "toml", "version": ver, "text": TEXTS[*t]}}));
                }
                Ev::Change(d, t) => {
                    s.notify("textDocument/didChange", did_change(&uris[*d], ver, TEXTS[*t]));
                    if model[*d].is_some() {
                        model[*d] = Some(*t);
                        publish(*d, Some(*t));
                    }
                }
                Ev::Change2(d, t, u) => {
                    s.notify("textDocument/didChange", json!({"textDocument": {"uri": uris[*d], "version": ver}, "contentChanges": [{"text": TEXTS[*t]}, {"text": TEXTS[*u]}]}));
                    if model[*d].is_some() {
                        model[*d] = Some(*u);
                        publish(*d, Some(*u));
                    }
                }
                Ev::ChangeNone(d) => {
                    s.notify("textDocument/didChange", json!({"textDocument": {"uri": uris[*d], "version": ver}, "contentChanges": []}));
                }
                Ev::Close(d) => {
                    s.notify("textDocument/didClose", did_close(&uris[*d]));
                    if model[*d].take().is_some() {
                        publish(*d, None);
                    }
                }
                Ev::Save(d) => {
                    s.notify("textDocument/didSave", did_close(&uris[*d]));
                }
            }
            if every && k + 1 < evs.len() && !probe(c, &mut s, &model, k, true, &mut seen) {
                return;
            }
        }
        if !probe(c, &mut s, &model, evs.len().saturating_sub(1), false, &mut seen) {
            return;
        }
        match s.barrier() {
            Ok(m) => seen.extend(m),
            Err(e) => return c.fail(format!("server ended: {e}")),
        }
        let mut got = vec![];
        for m in &seen {
            match m {
                lsp_server::Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                    got.push(json!({"uri": n.params["uri"], "version": n.params["version"], "diagnostics": got_diags(&n.params)}))
                }
                m => c.fail(format!("unexpected message {m:?}")),
            }
        }
        c.outcome(&format!("{model:?}{}", got.len()));
        c.check(got == expect, || format!("published diagnostics differ:\n got {}\nwant {}", json!(got), json!(expect)));
    };

    let al = alphabet(2, 2);
    let depth = ctx.pick(3, 4);
    let k = al.len() as u64;
    ctx.explore("histories", seq_count(k, depth), |i, c| {
        let evs: Vec<&Ev> = seq_decode(i, k).into_iter().map(|j| &al[j]).collect();
        run_history(c, &evs, false)
    });
    // Requests between the notifications, more texts, one document deeper.
    let al1 = alphabet(1, 4);
    let k1 = al1.len() as u64;
    let depth1 = ctx.pick(3, 4);
    ctx.explore("histories-with-requests", seq_count(k1, depth1), |i, c| {
        let evs: Vec<&Ev> = seq_decode(i, k1).into_iter().map(|j| &al1[j]).collect();
        run_history(c, &evs, true)
    });
    // Core alphabet, longer histories.
    let core: Vec<Ev> = vec![Ev::Open(0, 0), Ev::Change(0, 1), Ev::Close(0), Ev::Open(1, 3), Ev::Change(1, 2), Ev::Close(1)];
    let depth2 = ctx.pick(5, 7);
    ctx.explore("deep-histories", seq_count(6, depth2), |i, c| {
        let evs: Vec<&Ev> = seq_decode(i, 6).into_iter().map(|j| &core[j]).collect();
        run_history(c, &evs, false)
    });
    info(
        format!("all notification histories: length <= {depth} over {k} events (2 documents), length <= {depth1} over {k1} events with interleaved requests, length <= {depth2} over 6 core events; {} probes per document at the end", probes("").len()),
        &["the published diagnostics of one text are those of the analyzer library for that text", "server runs in-process over an in-memory connection"],
    )
}
