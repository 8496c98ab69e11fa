//! C09: editor positions map to source offsets exactly, in every encoding.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use ink_lsp_server::translator::{from_lsp, to_lsp, PositionTranslationContext};
use line_index::LineIndex;
use serde_json::{json, Value};

const ALPHA: [char; 6] = ['a', 'é', '\n', '€', '𝕊', '\r'];

fn enc_kind(e: Enc) -> lsp_types::PositionEncodingKind {
    match e {
        Enc::U8 => lsp_types::PositionEncodingKind::UTF8,
        Enc::U16 => lsp_types::PositionEncodingKind::UTF16,
        Enc::U32 => lsp_types::PositionEncodingKind::UTF32,
    }
}

/// Byte span of line `l` without its line feed.
fn line_span(text: &str, l: u32) -> Option<(usize, usize)> {
    let mut start = 0;
    for (k, line) in text.split('\n').enumerate() {
        if k as u32 == l {
            return Some((start, start + line.len()));
        }
        start += line.len() + 1;
    }
    None
}

fn texts(ctx: &Ctx) {
    let max = ctx.pick(5, 7);
    let k = ALPHA.len() as u64;
    ctx.explore("texts", seq_count(k, max), |i, c| {
        let text: String = seq_decode(i, k).into_iter().map(|d| ALPHA[d]).collect();
        c.state(&text);
        let offs = boundaries(&text);
        let nl = text.matches('\n').count() as u32;
        for e in Enc::ALL {
            let cx = PositionTranslationContext { encoding: enc_kind(e), line_index: LineIndex::new(&text) };
            let refp: Vec<(u32, u32)> = offs.iter().map(|o| e.position(&text, *o)).collect();
            for (o, (l, col)) in offs.iter().zip(&refp) {
                c.step();
                let p = to_lsp::position(ts(*o), &cx).map(|p| (p.line, p.character));
                c.check(p == Some((*l, *col)), || format!("{e:?}: offset {o} -> {p:?}, expected ({l},{col}) in {text:?}"));
                let back = from_lsp::offset(lsp_types::Position::new(*l, *col), &cx).map(us);
                c.check(back == Some(*o), || format!("{e:?}: ({l},{col}) -> {back:?}, expected {o} in {text:?}"));
            }
            for (a, pa) in offs.iter().zip(&refp) {
                for (b, pb) in offs.iter().zip(&refp) {
                    let r = lsp_types::Range::new(lsp_types::Position::new(pa.0, pa.1), lsp_types::Position::new(pb.0, pb.1));
                    let got = from_lsp::text_range(r, &cx).map(rng);
                    let want = (a <= b).then_some((*a, *b));
                    c.check(got == want, || format!("{e:?}: range {r:?} -> {got:?}, expected {want:?}"));
                    if a <= b {
                        let got = to_lsp::range(tr(*a, *b), &cx);
                        c.check(got == Some(r), || format!("{e:?}: text range {a}..{b} -> {got:?}, expected {r:?}"));
                    }
                }
            }
            for l in 0..=nl + 1 {
                let cols: Vec<u32> = (0..=text.len() as u32 + 2).chain([u32::MAX - 1, u32::MAX]).collect();
                for col in cols {
                    c.step();
                    let got = guarded(|| from_lsp::offset(lsp_types::Position::new(l, col), &cx).map(us));
                    c.outcome(&(e, got.clone().ok().flatten().is_some(), l > nl));
                    match (got, line_span(&text, l)) {
                        (Err(p), _) => c.fail(format!("{e:?}: position ({l},{col}) in {text:?} panicked: {p}")),
                        (Ok(Some(o)), Some((s, t))) => {
                            c.check(o >= s && o <= t && text.is_char_boundary(o), || {
                                format!("{e:?}: position ({l},{col}) in {text:?} -> {o}, outside its line {s}..{t} or inside a character")
                            });
                            // Positions that are exact must map exactly; overlong ones may only clamp to the line end.
                            let (_, pc) = e.position(&text, o.min(text.len()));
                            c.check(pc == col || o == t || text[s..t].ends_with('\r') && o + 1 == t, || {
                                format!("{e:?}: position ({l},{col}) in {text:?} -> {o} (column {pc})")
                            });
                        }
                        (Ok(Some(o)), None) => c.fail(format!("{e:?}: position ({l},{col}) beyond the last line of {text:?} -> {o}")),
                        (Ok(None), _) => {}
                    }
                }
            }
        }
    });
}

/// Documents whose ink! parts are preceded by characters of every width on the same line.
fn docs() -> Vec<String> {
    let mut v = vec![];
    for pre in ["", "/*a*/", "/*é*/", "/*€*/", "/*𝕊*/", "/*é𝕊€*/", "/*𝕊𝕊é*/\n/*é*/", "// 𝕊\r\n"] {
        v.push(format!("{pre}#[ink::contract(env = é)]mod c {{ {pre}\n#[ink(message, selector = 1)] fn f() {{}} }}"));
        v.push(format!("{pre}#[ink::event] pub struct E {{ {pre}#[ink(topic)] a: u8 }}{pre}"));
        v.push(format!("mod c {{{pre}#[ink(event)]{pre}pub struct E {{}} }}"));
        v.push(format!("{pre}#[ink::chain_extension(extension = 1)]trait T {{ type ErrorCode = (); {pre}#[ink(function = 1)] fn é(); }}"));
    }
    v
}

fn e2e(ctx: &Ctx) {
    let ds = docs();
    ctx.explore("server", (ds.len() * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let text = d.pick(&ds).clone();
        let e = *d.pick(&Enc::ALL);
        c.state(&format!("{}\n{text}", e.name()));
        let caps = json!({"general": {"positionEncodings": [e.name()]}});
        let a = Analysis::new(&text, Version::V4);
        let mut s = Lsp::start(caps.clone());
        let uri = "file:///nonexistent-verif/doc.rs";
        s.notify("textDocument/didOpen", did_open(uri, 1, &text));
        let range = |r: TextRange| {
            let (x, y) = (e.position(&text, us(r.start())), e.position(&text, us(r.end())));
            json!({"start": pos(x.0, x.1), "end": pos(y.0, y.1)})
        };
        // Published diagnostics.
        match s.recv() {
            Some(lsp_server::Message::Notification(n)) if n.method == "textDocument/publishDiagnostics" => {
                let got: Vec<Value> = n.params["diagnostics"].as_array().cloned().unwrap_or_default().iter().map(|d| d["range"].clone()).collect();
                let want: Vec<Value> = a.diagnostics().iter().map(|d| range(d.range)).collect();
                c.check(got == want, || format!("diagnostic ranges {got:?}, expected {want:?}"));
            }
            m => return c.fail(format!("expected diagnostics, got {m:?}")),
        }
        // Exact positions.
        for o in boundaries(&text) {
            let (l, col) = e.position(&text, o);
            c.step();
            let (r, _) = s.request("textDocument/hover", doc_pos(uri, l, col));
            let want = a.hover(tr(o, o)).map(|h| range(h.range)).unwrap_or(Value::Null);
            let got = match &r {
                Reply::Result(v) => v["range"].clone(),
                Reply::Error(x) => json!({ "error": x }),
                Reply::Dead(x) => return c.fail(format!("hover at {l}:{col} ended the server: {x}")),
            };
            c.outcome(&got.is_null());
            c.check(got == want, || format!("hover at offset {o} ({l}:{col}): range {got}, expected {want}"));
            c.step();
            let (r, _) = s.request("textDocument/completion", doc_pos(uri, l, col));
            let want: Vec<Value> = a.completions(ts(o)).iter().map(|h| range(h.range)).collect();
            let got: Vec<Value> = match &r {
                Reply::Result(v) => v["items"].as_array().cloned().unwrap_or_default().iter().map(|x| x["textEdit"]["range"].clone()).collect(),
                Reply::Error(x) => vec![json!({ "error": x })],
                Reply::Dead(x) => return c.fail(format!("completion at {l}:{col} ended the server: {x}")),
            };
            c.check(got == want, || format!("completion at offset {o} ({l}:{col}): ranges {got:?}, expected {want:?}"));
            c.step();
            let (r, _) = s.request("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": pos(l, col), "end": pos(l, col)}, "context": {"diagnostics": []}}));
            let want: Vec<Value> = a.actions(tr(o, o)).iter().filter(|x| !x.edits.is_empty()).map(|h| Value::Array(h.edits.iter().map(|e| range(e.range)).collect())).collect();
            let got: Vec<Value> = match &r {
                Reply::Result(v) => v
                    .as_array()
                    .cloned()
                    .unwrap_or_default()
                    .iter()
                    .filter(|x| x.get("edit").is_some())
                    .map(|x| Value::Array(x["edit"]["changes"][uri].as_array().unwrap().iter().map(|x| x["range"].clone()).collect()))
                    .collect(),
                Reply::Error(x) => vec![json!({ "error": x })],
                Reply::Dead(x) => return c.fail(format!("code action at {l}:{col} ended the server: {x}")),
            };
            c.check(got == want, || format!("code action at offset {o} ({l}:{col}): ranges {got:?}, expected {want:?}"));
        }
        // Inlay hints of the whole document.
        let (l, col) = e.position(&text, text.len());
        let (r, _) = s.request("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": {"start": pos(0, 0), "end": pos(l, col)}}));
        let want: Vec<Value> = a.inlay_hints(None).iter().map(|h| { let p = e.position(&text, us(h.position)); pos(p.0, p.1) }).collect();
        let got: Vec<Value> = match &r {
            Reply::Result(v) => v.as_array().cloned().unwrap_or_default().iter().map(|x| x["position"].clone()).collect(),
            r => vec![json!(format!("{r:?}"))],
        };
        c.check(got == want, || format!("inlay hints {got:?}, expected {want:?}"));
        // Every position on a grid reaching beyond line and text ends, and ranges built from them.
        let nl = text.matches('\n').count() as u32;
        for l in 0..=nl + 1 {
            let width = line_span(&text, l).map(|(a, b)| (b - a) as u32).unwrap_or(0);
            for col in (0..=width + 2).chain([100_000, u32::MAX]) {
                for (m, p) in [
                    ("textDocument/hover", doc_pos(uri, l, col)),
                    ("textDocument/completion", doc_pos(uri, l, col)),
                    ("textDocument/signatureHelp", doc_pos(uri, l, col)),
                    ("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": {"start": pos(0, 0), "end": pos(l, col)}})),
                    ("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": {"start": pos(l, col), "end": pos(0, 0)}})),
                    ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": pos(l, col), "end": pos(l, col)}, "context": {"diagnostics": []}})),
                    ("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": pos(l, col), "end": pos(0, 1)}, "context": {"diagnostics": []}})),
                ] {
                    c.step();
                    c.cmp();
                    if let (Reply::Dead(x), _) = s.request(m, p) {
                        c.fail(format!("{m} at {l}:{col} ended the server: {x}"));
                        s = Lsp::start(caps.clone());
                        s.notify("textDocument/didOpen", did_open(uri, 1, &text));
                        if c.fails.len() > 3 {
                            return;
                        }
                    }
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx) -> Info {
    texts(ctx);
    e2e(ctx);
    info(
        format!("all texts of length <= {} over {ALPHA:?} x all positions (beyond line/text ends included) x 3 encodings; {} documents x 3 encodings x all positions through the running server", ctx.pick(5, 7), docs().len()),
        &["line ends are line feeds, as in the server", "the reference recounts code units from the text"],
    )
}
