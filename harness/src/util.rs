//! Helpers over the public API of the crates under test.
#![allow(dead_code)]
pub use ink_analyzer::{Action, ActionKind, Analysis, Completion, Diagnostic, Severity, TextEdit, TextRange, TextSize, Version};
use serde_json::{json, Value};
use std::time::Duration;

pub const VERSIONS: [Version; 2] = [Version::V4, Version::V5];

pub fn vname(v: Version) -> &'static str {
    match v {
        Version::V4 => "V4",
        Version::V5 => "V5",
    }
}

pub fn ts(n: usize) -> TextSize {
    TextSize::from(n as u32)
}
pub fn tr(a: usize, b: usize) -> TextRange {
    TextRange::new(ts(a), ts(b))
}
pub fn us(t: TextSize) -> usize {
    u32::from(t) as usize
}
pub fn rng(r: TextRange) -> (usize, usize) {
    (us(r.start()), us(r.end()))
}

/// Whether the text has no syntax errors according to the parser used by the project.
pub fn parses(code: &str) -> bool {
    syntax_errors(code).is_empty()
}

pub fn syntax_errors(code: &str) -> Vec<String> {
    ink_analyzer_ir::syntax::SourceFile::parse(code).errors().iter().map(|e| format!("{:?} {}", e.range(), e)).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Diag {
    pub start: usize,
    pub end: usize,
    pub error: bool,
    pub msg: String,
}

pub fn diags(code: &str, v: Version) -> Vec<Diag> {
    Analysis::new(code, v)
        .diagnostics()
        .into_iter()
        .map(|d| Diag { start: us(d.range.start()), end: us(d.range.end()), error: d.severity == Severity::Error, msg: d.message })
        .collect()
}

pub fn errors(code: &str, v: Version) -> Vec<Diag> {
    diags(code, v).into_iter().filter(|d| d.error).collect()
}

pub fn show(code: &str, ds: &[Diag]) -> String {
    ds.iter()
        .map(|d| {
            format!("{}@{}..{} {:?}: {}", if d.error { "E" } else { "W" }, d.start, d.end, code.get(d.start..d.end).unwrap_or("<bad range>"), d.msg)
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Applies edits (simultaneously, in document order; inserts at one offset in list order).
pub fn apply(code: &str, edits: &[TextEdit]) -> Result<String, String> {
    let mut es: Vec<(usize, usize, &str)> = edits.iter().map(|e| (us(e.range.start()), us(e.range.end()), e.text.as_str())).collect();
    es.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, t) in es {
        if a < pos {
            return Err(format!("overlapping edits at {a}"));
        }
        if b > code.len() || !code.is_char_boundary(a) || !code.is_char_boundary(b) {
            return Err(format!("edit range {a}..{b} is not valid for the text"));
        }
        out.push_str(&code[pos..a]);
        out.push_str(t);
        pos = b;
    }
    out.push_str(&code[pos..]);
    Ok(out)
}

pub fn show_edits(edits: &[TextEdit]) -> String {
    edits.iter().map(|e| format!("{:?} <- {:?}", e.range, e.text)).collect::<Vec<_>>().join("; ")
}

/// Marked source: `«`..`»` delimit regions of interest (numbered by opening order) and are removed from the text.
pub fn marked(src: &str) -> (String, Vec<(usize, usize)>) {
    let mut out = String::new();
    let mut stack = vec![];
    let mut regions = vec![];
    for c in src.chars() {
        match c {
            '«' => {
                stack.push(regions.len());
                regions.push((out.len(), out.len()));
            }
            '»' => {
                let k = stack.pop().expect("harness bug: unbalanced mark");
                regions[k].1 = out.len();
            }
            c => out.push(c),
        }
    }
    assert!(stack.is_empty(), "harness bug: unbalanced mark");
    (out, regions)
}

// ---------------------------------------------------------------------------------------------
// LSP

pub struct Lsp {
    pub conn: Option<lsp_server::Connection>,
    pub handle: Option<std::thread::JoinHandle<Result<Result<(), String>, String>>>,
    next_id: i32,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Reply {
    Result(Value),
    Error(i32),
    /// The server ended instead of answering.
    Dead(String),
}

pub fn default_caps() -> Value {
    json!({})
}

pub const RECV_TIMEOUT: Duration = Duration::from_secs(30);

impl Lsp {
    pub fn start(caps: Value) -> Lsp {
        let caps: lsp_types::ClientCapabilities = serde_json::from_value(caps).expect("harness bug: caps");
        let (server, client) = lsp_server::Connection::memory();
        let handle = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                crate::common::guarded(move || ink_lsp_server::main_loop(server, caps).map_err(|e| e.to_string()))
            })
            .unwrap();
        Lsp { conn: Some(client), handle: Some(handle), next_id: 1 }
    }

    fn conn(&self) -> &lsp_server::Connection {
        self.conn.as_ref().unwrap()
    }

    pub fn send(&self, m: lsp_server::Message) -> bool {
        self.conn().sender.send(m).is_ok()
    }

    pub fn notify(&self, method: &str, params: Value) -> bool {
        self.send(lsp_server::Message::Notification(lsp_server::Notification { method: method.to_owned(), params }))
    }

    pub fn recv(&self) -> Option<lsp_server::Message> {
        self.conn().receiver.recv_timeout(RECV_TIMEOUT).ok()
    }

    pub fn send_request(&mut self, method: &str, params: Value) -> lsp_server::RequestId {
        let id = self.next_id;
        self.next_id += 1;
        self.send(lsp_server::Message::Request(lsp_server::Request { id: id.into(), method: method.to_owned(), params }));
        id.into()
    }

    /// Sends a request and returns everything received up to and including its response.
    pub fn request(&mut self, method: &str, params: Value) -> (Reply, Vec<lsp_server::Message>) {
        let id = self.send_request(method, params);
        let mut others = vec![];
        loop {
            match self.conn().receiver.recv_timeout(RECV_TIMEOUT) {
                Ok(lsp_server::Message::Response(r)) if r.id == id => {
                    let reply = match (r.result, r.error) {
                        (_, Some(e)) => Reply::Error(e.code),
                        (Some(v), None) => Reply::Result(v),
                        (None, None) => Reply::Result(Value::Null),
                    };
                    return (reply, others);
                }
                Ok(m) => others.push(m),
                Err(crossbeam_channel::RecvTimeoutError::Disconnected) => return (Reply::Dead(self.finish()), others),
                Err(crossbeam_channel::RecvTimeoutError::Timeout) => return (Reply::Dead("no response within 30 s".into()), others),
            }
        }
    }

    /// A request for an unknown method is used as a barrier: everything sent before it has been handled.
    pub fn barrier(&mut self) -> Result<Vec<lsp_server::Message>, String> {
        match self.request("verif/barrier", Value::Null) {
            (Reply::Dead(e), _) => Err(e),
            (_, others) => Ok(others),
        }
    }

    /// Drops the connection and returns how the server ended.
    pub fn finish(&mut self) -> String {
        self.conn = None;
        match self.handle.take() {
            None => "already ended".into(),
            Some(h) => match h.join() {
                Ok(Ok(Ok(()))) => "ok".into(),
                Ok(Ok(Err(e))) => format!("server error: {e}"),
                Ok(Err(p)) => format!("server panic: {p}"),
                Err(_) => "server panic".into(),
            },
        }
    }
}

impl Drop for Lsp {
    fn drop(&mut self) {
        self.conn = None;
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

pub fn did_open(uri: &str, version: i32, text: &str) -> Value {
    json!({"textDocument": {"uri": uri, "languageId": "rust", "version": version, "text": text}})
}
pub fn did_change(uri: &str, version: i32, text: &str) -> Value {
    json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]})
}
pub fn did_close(uri: &str) -> Value {
    json!({"textDocument": {"uri": uri}})
}
pub fn pos(line: u32, ch: u32) -> Value {
    json!({"line": line, "character": ch})
}
pub fn doc_pos(uri: &str, line: u32, ch: u32) -> Value {
    json!({"textDocument": {"uri": uri}, "position": pos(line, ch)})
}

/// Reference position arithmetic: (line, column) of a byte offset in the units of an encoding.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Enc {
    U8,
    U16,
    U32,
}
impl Enc {
    pub const ALL: [Enc; 3] = [Enc::U8, Enc::U16, Enc::U32];
    pub fn name(self) -> &'static str {
        match self {
            Enc::U8 => "utf-8",
            Enc::U16 => "utf-16",
            Enc::U32 => "utf-32",
        }
    }
    pub fn width(self, c: char) -> u32 {
        match self {
            Enc::U8 => c.len_utf8() as u32,
            Enc::U16 => c.len_utf16() as u32,
            Enc::U32 => 1,
        }
    }
    pub fn position(self, text: &str, off: usize) -> (u32, u32) {
        let (mut l, mut c) = (0, 0);
        for (i, ch) in text.char_indices() {
            if i >= off {
                break;
            }
            if ch == '\n' {
                l += 1;
                c = 0;
            } else {
                c += self.width(ch);
            }
        }
        (l, c)
    }
}

// ---------------------------------------------------------------------------------------------
// Scratch directories

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-{}-{tag}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("harness bug: scratch dir");
        Scratch(p)
    }
    pub fn write(&self, rel: &str, text: &str) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).expect("harness bug: mkdir");
        std::fs::write(p, text).expect("harness bug: write");
    }
    pub fn uri(&self, rel: &str) -> String {
        format!("file://{}", self.0.join(rel).display())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
