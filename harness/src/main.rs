mod common;
mod corpus;
mod props;
mod rules;
mod util;
use common::*;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("child") => child(&args[1..]),
        Some("diag") => {
            let code = std::fs::read_to_string(&args[1]).unwrap();
            for v in util::VERSIONS {
                for d in util::Analysis::new(&code, v).diagnostics() {
                    println!("{} {:?} {:?} {}", util::vname(v), d.severity, d.range, d.message);
                }
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
            let a: Vec<String> = vec![
                v["property"].as_str().unwrap().into(),
                v["tier"].as_str().unwrap().into(),
                "--only".into(),
                v["case"].as_str().unwrap().into(),
            ];
            child(&a)
        }
        Some(_) if args.len() >= 2 => parent(&args[0], &args[1]),
        _ => {
            eprintln!("usage: mc <ID> quick|thorough | mc child <ID> <tier> [--only case] | mc replay <file>");
            exit(2)
        }
    }
}

/// Known findings: `finding` entries suppress exactly the listed signature, `fixed` entries nothing.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif().join("known_findings.jsonl")).unwrap_or_default();
    text.lines()
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["property"] == id && v["kind"] == "finding")
        .map(|v| (v["sig"].as_str().unwrap_or("").to_owned(), v["what"].as_str().unwrap_or("").to_owned()))
        .collect()
}

fn write_replay(id: &str, tier: &str, k: usize, case: &str, sig: &str, msg: &str, input: &str) -> std::path::PathBuf {
    let dir = verif().join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{k}.json"));
    let v = serde_json::json!({
        "property": id, "tier": tier, "case": case, "sig": sig, "message": msg, "input": input,
        "replay_cmd": format!(". /verif/env.sh && cd /verif/harness && cargo run --release --offline --locked -- replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn child(args: &[String]) {
    let id = args[0].clone();
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut only = None;
    let mut slots = None;
    let mut it = args[2..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--only" => {
                let s = it.next().unwrap();
                let (a, b) = s.rsplit_once(':').unwrap();
                only = Some((a.to_owned(), b.parse().unwrap()));
            }
            "--slots" => slots = Some(std::fs::OpenOptions::new().write(true).open(it.next().unwrap()).unwrap()),
            _ => panic!("harness bug: bad argument {a}"),
        }
    }
    install_panic_hook();
    let budget: u64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 7200 });
    let known = known(&id);
    let ctx = Ctx {
        hit: known.iter().map(|_| 0.into()).collect(),
        known,
        id: id.clone(),
        tier,
        only,
        stats: Default::default(),
        stop: false.into(),
        slots,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        truncated: false.into(),
    };
    let Some(info) = props::run(&id, &ctx) else {
        println!("unknown property {id}");
        exit(2)
    };
    let stats = ctx.stats.lock().unwrap();
    if ctx.only.is_some() {
        println!("{} failure(s)", stats.fails.len());
        exit(if stats.fails.is_empty() { 0 } else { 1 });
    }
    if let Ok(p) = std::env::var("MC_DUMP") {
        let text: String = stats.fails.iter().map(|f| serde_json::json!({"case": f.case, "msg": f.msg, "input": f.input}).to_string() + "\n").collect();
        let _ = std::fs::write(p, text);
    }
    let bad: Vec<&Failure> = stats.fails.iter().collect();
    for (k, (_, what)) in ctx.known.iter().enumerate() {
        let n = ctx.hit[k].load(Ordering::Relaxed);
        if n > 0 {
            println!("KNOWN-FINDING: property={id} {what} ({n} cases)");
        }
    }
    let truncated = ctx.truncated.load(Ordering::Relaxed);
    let complete = !truncated && stats.spaces.values().all(|(n, d)| n == d);
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let ev = serde_json::json!({
        "property": id, "tier": tier_s,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": stats.states.len(), "transitions": stats.transitions,
            "traces_validated_against_impl": stats.compared,
            "distinct_outcomes": stats.outcomes.len(),
            "exhaustive": complete,
            "bound": info.bound,
            "spaces": stats.spaces.iter().map(|(k, (n, d))| (k.clone(), serde_json::json!({"size": n, "explored": d}))).collect::<serde_json::Map<_, _>>(),
            "notes": stats.notes,
            "samples": stats.samples,
        },
        "assumptions": info.assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": bad.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (k, f) in bad.iter().take(MAX_VIOLATIONS).enumerate() {
        let p = write_replay(&id, tier_s, k, &f.case, &f.sig, &f.msg, &f.input);
        println!("VIOLATION property={id} replay={}", p.display());
        println!("  case {}: {}", f.case, trunc(&f.msg, 600));
    }
    if !bad.is_empty() {
        println!("{} violation(s) in total", bad.len());
        exit(1);
    }
    if truncated {
        println!("time budget exhausted before the space was covered");
        exit(2);
    }
    println!("OK property={id} states={} transitions={} compared={} outcomes={}", stats.states.len(), stats.transitions, stats.compared, stats.outcomes.len());
    exit(0)
}

fn parent(id: &str, tier: &str) {
    let me = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", std::process::id(), id));
    std::fs::write(&slots, vec![b' '; SLOT * (workers() + 1)]).unwrap();
    let _ = std::fs::remove_dir_all(verif().join(format!("evidence/replay/{id}")));
    let mut cmd = Command::new(&me);
    cmd.args(["child", id, tier, "--slots"]).arg(&slots);
    if std::env::var_os("MC_VERBOSE").is_none() {
        // The server under test logs to stderr.
        cmd.stderr(Stdio::null());
    }
    let status = cmd.status().expect("spawn child");
    let crashed = status.signal().is_some() || status.code() == Some(77);
    if !crashed {
        let _ = std::fs::remove_file(&slots);
        exit(status.code().unwrap_or(2));
    }
    // The code under test crashed or hung: find the case by running each candidate alone.
    println!("child ended abnormally ({status}); looking for the case");
    let mut text = String::new();
    let _ = std::fs::File::open(&slots).and_then(|mut f| f.read_to_string(&mut text));
    let _ = std::fs::remove_file(&slots);
    let mut n = 0;
    let verdicts: Vec<(String, Option<String>)> = text
        .lines()
        .map(str::trim)
        .filter(|l| l.contains(':'))
        .map(|case| (case.to_owned(), Command::new(&me).args(["child", id, tier, "--only", case]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap()))
        .collect::<Vec<_>>()
        .into_iter()
        .map(|(case, mut c)| {
            let t = Instant::now();
            let verdict = loop {
                match c.try_wait().unwrap() {
                    Some(s) if s.code() == Some(77) => break Some("did not terminate within 45 s".to_owned()),
                    Some(s) => break s.signal().map(|s| format!("crashed with signal {s} (stack overflow or abort)")),
                    None if t.elapsed() > Duration::from_secs(90) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break Some("did not terminate within 90 s".to_owned());
                    }
                    None => std::thread::sleep(Duration::from_millis(20)),
                }
            };
            (case, verdict)
        })
        .collect();
    for (case, verdict) in verdicts {
        if let Some(v) = verdict {
            let p = write_replay(id, tier, n, &case, &case, &v, "(see case)");
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  case {case}: {v}");
            n += 1;
        }
    }
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": 1, "level": "model_checking",
        "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [text.trim()], "exhaustive": false},
        "wall_s": 0.0, "violations": n,
    });
    let _ = std::fs::write(verif().join(format!("evidence/{id}.json")), ev.to_string());
    exit(if n > 0 { 1 } else { 2 })
}
