//! C16: the ink! version of a document follows its manifest.
use super::{info, Info};
use crate::common::*;
use crate::util::*;
use serde_json::json;

/// Version requirements: (text, majors among 4 and 5 that they admit).
const REQS: [(&str, &[u8]); 40] = [
    ("5", &[5]),
    ("5.0", &[5]),
    ("5.0.0", &[5]),
    ("5.1.4", &[5]),
    ("5.0.0-rc.1", &[5]),
    ("^5", &[5]),
    ("^5.0.0-rc", &[5]),
    ("~5", &[5]),
    ("~5.0.2", &[5]),
    ("=5.0.0", &[5]),
    ("= 5.0.0", &[5]),
    (" 5.0 ", &[5]),
    (">=5", &[5]),
    (">= 5.0.0", &[5]),
    (">5.0.0", &[5]),
    ("5.*", &[5]),
    ("5.0.*", &[5]),
    (">=5, <6", &[5]),
    (">=5.0.0, <5.1", &[5]),
    (">4", &[5]),
    ("*", &[4, 5, 55]),
    ("4", &[4]),
    ("4.0", &[4]),
    ("4.3.0", &[4]),
    ("4.5.0", &[4]),
    ("4.0.5", &[4]),
    ("4.15.5", &[4]),
    ("4.0.0-beta.5", &[4]),
    ("4.0.0-rc.5.1", &[4]),
    ("^4.2", &[4]),
    ("~4", &[4]),
    ("=4.3.0", &[4]),
    ("4.*", &[4]),
    (">=4, <5", &[4]),
    (">=4.0.0, <5.0.0", &[4]),
    ("<5", &[4]),
    ("<5.0.0", &[4]),
    ("<=4.3", &[4]),
    ("3.4.0", &[4]),
    (">=4.3.0", &[4, 5]),
];

/// Dependency forms; REQ is the requirement, `None` for the requirement where it's absent.
const FORMS: [(&str, bool); 16] = [
    ("[dependencies]\nink = \"REQ\"\n", true),
    ("[dependencies]\nink = { version = \"REQ\", default-features = false }\n", true),
    ("[dependencies.ink]\nversion = \"REQ\"\ndefault-features = false\n", true),
    ("[dependencies]\nink.version = \"REQ\"\nink.features = [\"std\"]\n", true),
    ("[dependencies]\nink = { git = \"https://example.org/ink\", version = \"REQ\" }\n", true),
    ("[dependencies]\nink = { path = \"../ink\", version = \"REQ\" }\n", true),
    ("[dev-dependencies]\nink = \"4.0.0\"\nink_e2e = \"4\"\n\n[dependencies]\nscale = \"4.0\"\nink = 'REQ' # 4.0.0\n", true),
    ("dependencies = { ink = \"REQ\", scale-info = \"5.0\" }\n", true),
    // No requirement.
    ("[dependencies]\nink = { git = \"https://example.org/ink\" }\n", false),
    ("[dependencies]\nink = { path = \"../ink\" }\n", false),
    ("[dependencies]\nink = { git = \"https://example.org/ink\", branch = \"v4.0.0\" }\n", false),
    ("[dependencies]\nink_env = \"5.0.0\"\n", false),
    ("[package]\nversion = \"5.0.0\"\n", false),
    ("", false),
    ("not a manifest [", false),
    ("[dev-dependencies]\nink = \"5.0.0\"\n", false),
];

/// The expected version; `None` where it's left open.
fn expected(form: usize, req: usize) -> Option<Version> {
    match form {
        0..=7 => match REQS[req].1 {
            [5] | [4, 5, 55] => Some(Version::V5),
            [4] => Some(Version::V4),
            _ => None,
        },
        // Sources without a requirement are current.
        8 | 9 => Some(Version::V5),
        10 => None,
        _ => Some(Version::V4),
    }
}

fn dependency(form: usize, req: usize) -> String {
    let pkg = if form == 12 { "" } else { "\n" };
    let (text, _) = FORMS[form];
    let head = if text.starts_with("dependencies =") { String::new() } else if form >= 12 && form != 15 { String::new() } else { format!("[package]\nname = \"x\"\nversion = \"5.0.0\"\n{pkg}") };
    head + &text.replace("REQ", REQS[req].0)
}

/// A document whose diagnostics tell the versions apart.
const DOC: &str = "#[ink::event]\npub struct E {}\n\n#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S {}\n    impl S {\n        #[ink(constructor)]\n        pub fn new() -> Self { S {} }\n        #[ink(message)]\n        pub fn m(&self) {}\n    }\n}\n";

fn doc(k: usize) -> String {
    format!("{DOC}// {k}\n")
}

/// The version that the published diagnostics reveal.
fn reveal(l: &mut Lsp, uri: &str) -> Result<Option<Version>, String> {
    let msgs = l.barrier()?;
    let mut seen = None;
    for m in msgs {
        if let lsp_server::Message::Notification(n) = m {
            if n.method == "textDocument/publishDiagnostics" && n.params["uri"] == uri {
                let n = n.params["diagnostics"].as_array().map(|d| d.len()).unwrap_or(0);
                seen = Some(if n == 0 { Version::V5 } else { Version::V4 });
            }
        }
    }
    Ok(seen)
}

fn expect(c: &mut Case, l: &mut Lsp, uri: &str, want: &[Version], when: &str) {
    c.step();
    match reveal(l, uri) {
        Err(e) => c.fail(format!("server ended: {e}")),
        Ok(v) => {
            c.outcome(&v.map(vname));
            c.check(v.is_some_and(|v| want.contains(&v)), || format!("{when}: version {:?}, expected {:?}", v.map(vname), want.iter().map(|v| vname(*v)).collect::<Vec<_>>()));
            // Requests agree with the diagnostics.
            if let Some(v) = v {
                let at = DOC.find("ink::event").unwrap() as u32;
                let (r, _) = l.request("textDocument/hover", doc_pos(uri, 0, at + 6));
                let help = matches!(&r, Reply::Result(x) if x.to_string().contains("ink!"));
                let (r2, _) = l.request("textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": {"start": pos(4, 1), "end": pos(4, 1)}, "context": {"diagnostics": []}}));
                let migrate = matches!(&r2, Reply::Result(x) if x.to_string().contains("Migrate"));
                c.check(migrate == (v == Version::V4), || format!("{when}: migration offered: {migrate}, version {}", vname(v)));
                let _ = help;
            }
        }
    }
}

fn kept(v: Option<Version>) -> Vec<Version> {
    v.map(|v| vec![v]).unwrap_or(VERSIONS.to_vec())
}

pub fn run(ctx: &Ctx) -> Info {
    // Every dependency form with every requirement.
    ctx.explore("forms", product(&[FORMS.len(), REQS.len()]), |i, c| {
        let mut d = Digits(i);
        let (f, r) = (d.take(FORMS.len()), d.take(REQS.len()));
        if !FORMS[f].1 && r != 0 {
            return;
        }
        let m = dependency(f, r);
        let sc = Scratch::new("v");
        sc.write("Cargo.toml", &m);
        c.state(&m);
        let mut l = Lsp::start(json!({}));
        let uri = sc.uri("lib.rs");
        l.notify("textDocument/didOpen", did_open(&uri, 0, &doc(0)));
        expect(c, &mut l, &uri, &kept(expected(f, r)), "on opening");
    });
    // Layouts: a manifest in any of the ancestor directories; the nearest one decides.
    let depth = ctx.pick(4usize, 6);
    let fs: [(usize, usize); 4] = [(0, 2), (0, 23), (11, 0), (14, 0)];
    ctx.explore("layouts", (fs.len() as u64 + 1).pow(depth as u32), |i, c| {
        let mut d = Digits(i);
        let sc = Scratch::new("l");
        let mut dir = String::new();
        let mut nearest = None;
        let mut desc = String::new();
        for level in 0..depth {
            let k = d.take(fs.len() + 1);
            if k > 0 {
                let (f, r) = fs[k - 1];
                sc.write(&format!("{dir}Cargo.toml"), &dependency(f, r));
                nearest = Some(expected(f, r));
                desc += &format!("{dir}Cargo.toml: {:?}\n", dependency(f, r));
            }
            if level + 1 < depth {
                dir += &format!("d{level}/");
            }
        }
        c.state(&desc);
        std::fs::create_dir_all(sc.0.join(&dir)).unwrap();
        let mut l = Lsp::start(json!({}));
        let uri = sc.uri(&format!("{dir}main.rs"));
        l.notify("textDocument/didOpen", did_open(&uri, 0, &doc(0)));
        // The nearest manifest decides, whatever it says.
        expect(c, &mut l, &uri, &kept(nearest.unwrap_or(Some(Version::V4))), "on opening");
    });
    // Long chains: the manifest is any number of directories above the document, possibly below an unrelated one.
    ctx.explore("deep-layouts", product(&[11, 2, 3]), |i, c| {
        let mut d = Digits(i);
        let (up, req, outer) = (d.take(11), [2usize, 23][d.take(2)], d.take(3));
        let sc = Scratch::new("d");
        let base = if outer == 0 { "" } else { "o/" };
        if outer > 0 {
            sc.write("Cargo.toml", &dependency(0, [23usize, 2][outer - 1]));
        }
        sc.write(&format!("{base}Cargo.toml"), &dependency(0, req));
        let dir: String = (0..up).map(|k| format!("d{k}/")).collect();
        std::fs::create_dir_all(sc.0.join(base).join(&dir)).unwrap();
        c.state(&format!("{up} up, {}, outer {outer}", REQS[req].0));
        let mut l = Lsp::start(json!({}));
        let uri = sc.uri(&format!("{base}{dir}main.rs"));
        l.notify("textDocument/didOpen", did_open(&uri, 0, &doc(0)));
        expect(c, &mut l, &uri, &kept(expected(0, req)), &format!("{up} directories below the manifest"));
    });
    // Workspace dependencies.
    let roots: [(&str, Option<u8>); 7] = [
        ("[workspace]\nmembers = [\"a\"]\n\n[workspace.dependencies]\nink = { version = \"REQ\" }\n", Some(0)),
        ("[workspace.dependencies]\nink = \"REQ\"\n\n[dependencies]\nink = \"4.0.0\"\n", Some(0)),
        ("[workspace.dependencies.ink]\nversion = \"REQ\"\ndefault-features = false\n", Some(0)),
        ("[workspace]\ndependencies = { ink = \"REQ\" }\n", Some(0)),
        ("[workspace.dependencies]\nink = { git = \"https://example.org/ink\" }\n", Some(5)),
        ("[workspace.dependencies]\nscale = \"5.0\"\n\n[dependencies]\nink = \"5.0\"\n", Some(4)),
        ("[dependencies]\nink = \"5.0.0\"\n", Some(4)),
    ];
    let members = ["[dependencies]\nink = { workspace = true }\n", "[dependencies]\nink.workspace = true\n", "[dependencies.ink]\nworkspace = true\n", "[dependencies]\nink = { workspace = true, features = [\"std\"] }\n"];
    let wreqs = [2usize, 0, 23, 34, 20];
    ctx.explore("workspaces", product(&[roots.len(), members.len(), wreqs.len(), 4, 2]), |i, c| {
        let mut d = Digits(i);
        let (r, m, q, at, src) = (d.pick(&roots), d.pick(&members), *d.pick(&wreqs), d.take(4), d.take(2));
        let sc = Scratch::new("w");
        let root = r.0.replace("REQ", REQS[q].0);
        let want = match r.1 {
            Some(0) => expected(0, q),
            Some(5) => Some(Version::V5),
            _ => Some(Version::V4),
        };
        // The workspace root is 1 or 2 directories up, the same manifest, or beyond an unrelated manifest.
        let dir = match at {
            0 => "a/",
            1 => "a/b/",
            2 => "",
            _ => "a/b/",
        };
        let (root, member) = if at == 2 {
            if root.contains("[dependencies]") {
                return;
            }
            (String::new(), format!("{}\n{root}", m))
        } else {
            (root, m.to_string())
        };
        if !root.is_empty() {
            sc.write("Cargo.toml", &root);
        }
        if at == 3 {
            if r.1 != Some(0) {
                return;
            }
            sc.write("a/Cargo.toml", "[package]\nname = \"other\"\n\n[dependencies]\nink = \"4.3.0\"\n");
        }
        sc.write(&format!("{dir}Cargo.toml"), &member);
        c.state(&format!("{root}\n--- {dir}\n{member}\n--- at={at} src={src}"));
        let mut l = Lsp::start(json!({}));
        let uri = sc.uri(&format!("{dir}{}", ["lib.rs", "src/lib.rs"][src]));
        l.notify("textDocument/didOpen", did_open(&uri, 0, &doc(0)));
        expect(c, &mut l, &uri, &kept(want), "on opening");
    });
    // Histories over two documents of two packages.
    // 0 edit a, 1 edit b, 2 reopen a, 3 migrate command for a, 4 resolve for a, 5 manifest of a to 5, 6 manifest of a to 4, 7 manifest of a removed
    const OPS: u64 = 8;
    let n = seq_count(OPS, ctx.pick(5, 6));
    ctx.explore("histories", n, |i, c| {
        let seq = seq_decode(i, OPS);
        let sc = Scratch::new("h");
        let m4 = "[package]\nname = \"x\"\n\n[dependencies]\nink = { version = \"4.3.0\" }\n";
        let m5 = "[package]\nname = \"x\"\n\n[dependencies]\nink = { version = \"5.0.0\" }\n";
        sc.write("a/Cargo.toml", m4);
        sc.write("b/Cargo.toml", m5);
        c.state(&format!("{seq:?}"));
        let (a, b) = (sc.uri("a/lib.rs"), sc.uri("b/lib.rs"));
        let mut l = Lsp::start(json!({"textDocument": {"codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["quickfix", "refactor", "refactor.rewrite"]}}, "dataSupport": true, "resolveSupport": {"properties": ["edit"]}}}}));
        l.notify("textDocument/didOpen", did_open(&a, 0, &doc(0)));
        l.notify("textDocument/didOpen", did_open(&b, 0, &doc(0)));
        let _ = l.barrier();
        // Reference: manifest of a, version of a, edits since the last migration request.
        let (mut disk, mut ver, mut fuel) = (Version::V4, Version::V4, 0u32);
        for (k, op) in seq.iter().enumerate() {
            let k = k + 1;
            match op {
                0 => {
                    l.notify("textDocument/didChange", did_change(&a, k as i32, &doc(k)));
                    // Within the two edits after a migration request the manifest is read again.
                    let want = if fuel > 0 { disk } else { ver };
                    fuel = fuel.saturating_sub(1);
                    ver = want;
                    expect(c, &mut l, &a, &[want], &format!("step {k}: edit"));
                }
                1 => {
                    l.notify("textDocument/didChange", did_change(&b, k as i32, &doc(k)));
                    fuel = fuel.saturating_sub(1);
                    expect(c, &mut l, &b, &[Version::V5], &format!("step {k}: edit of another package"));
                }
                2 => {
                    l.notify("textDocument/didClose", did_close(&a));
                    let _ = l.barrier();
                    l.notify("textDocument/didOpen", did_open(&a, k as i32, &doc(k)));
                    ver = disk;
                    fuel = fuel.saturating_sub(1);
                    expect(c, &mut l, &a, &[ver], &format!("step {k}: reopening"));
                }
                3 => {
                    c.step();
                    l.request("workspace/executeCommand", json!({"command": "migrateProject", "arguments": [{"uri": a}]}));
                    fuel = 2;
                }
                4 => {
                    c.step();
                    l.request("codeAction/resolve", json!({"title": "Migrate to ink! 5.0", "kind": "refactor.rewrite", "data": {"command": "migrateProject", "uri": a}}));
                    fuel = 2;
                }
                5 => {
                    sc.write("a/Cargo.toml", m5);
                    disk = Version::V5;
                }
                6 => {
                    sc.write("a/Cargo.toml", m4);
                    disk = Version::V4;
                }
                _ => {
                    let _ = std::fs::remove_file(sc.0.join("a/Cargo.toml"));
                    disk = Version::V4;
                }
            }
        }
    });
    info(
        format!("{} dependency forms x {} requirements, all manifest placements in {depth} nested directories, workspace layouts, all histories of up to {} steps", FORMS.len(), REQS.len(), ctx.pick(5, 6)),
        &["requirements that admit both ink! 4 and 5 are left open (except `*`)", "scratch directories have no manifest above them"],
    )
}
