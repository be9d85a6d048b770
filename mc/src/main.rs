mod engine;
mod ext;
mod model;
mod common;
mod corpus;
mod pools;
mod sweeps;
mod words;
mod reflect;
mod props;

use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, exit};

use engine::{Ctx, Tier, Violation, hash64, install_quiet_panic_hook};
use serde_json::{Value, json};

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// Known findings of a property: (kind, exact input).
fn known(prop: &str) -> Vec<(String, String, String)> {
    let path = format!("{}/known_findings.jsonl", verif_dir());
    let mut out = vec![];
    for line in fs::read_to_string(path).unwrap_or_default().lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["status"] == "known" && v["property"] == prop {
            let s = |k: &str| v[k].as_str().unwrap_or_default().to_string();
            out.push((s("kind"), s("input"), s("what")));
        }
    }
    out
}

/// Write evidence and replay files, print the verdict, return the exit code.
pub fn finish(ctx: &Ctx) -> i32 {
    let dir = verif_dir();
    let known = known(&ctx.prop);
    let mut fresh: Vec<Violation> = vec![];
    let mut seen = 0;
    for v in ctx.violations() {
        match known.iter().find(|(k, i, _)| *k == v.kind && *i == v.input) {
            Some((_, _, what)) => {
                seen += 1;
                println!("KNOWN-FINDING: property={} {what}", ctx.prop);
            }
            None => fresh.push(v),
        }
    }
    let _ = fs::create_dir_all(format!("{dir}/evidence"));
    let evidence = ctx.evidence(fresh.len(), seen);
    if !ctx.replaying() {
        let path = format!("{dir}/evidence/{}.json", ctx.prop);
        let text = serde_json::to_string_pretty(&evidence).unwrap();
        if let Err(e) = fs::write(&path, text) {
            eprintln!("cannot write {path}: {e}");
            return 2;
        }
    }
    let c = &evidence["coverage"];
    println!(
        "{} {}: states={} transitions={} traces={} exhaustive={} known={} violations={} wall={:.1}s",
        ctx.prop,
        evidence["tier"].as_str().unwrap(),
        c["states"],
        c["transitions"],
        c["traces_validated_against_impl"],
        c["exhaustive"],
        seen,
        fresh.len(),
        evidence["wall_s"].as_f64().unwrap()
    );
    if fresh.is_empty() {
        return 0;
    }
    let _ = fs::create_dir_all(format!("{dir}/replays"));
    for v in fresh.iter().take(10) {
        let path = format!("{dir}/replays/{}-{:016x}.json", ctx.prop, hash64(&v.key));
        let body = json!({
            "property": ctx.prop,
            "tier": evidence["tier"],
            "space": v.space,
            "kind": v.kind,
            "what": v.what,
            "input": v.input,
            "how": "mc replay <this file>",
        });
        let _ = fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("  {} [{}] {}", v.space, v.kind, clip(&v.what, 1500));
        let shown = match v.input.split_once("=== Plan\n") {
            Some((pre, plan)) if pre.len() > 300 => format!("… === Plan\n{plan}"),
            _ => v.input.clone(),
        };
        println!("    input: {}", clip(&format!("{shown:?}"), 1500));
        println!("VIOLATION property={} replay={path}", ctx.prop);
    }
    1
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

fn run_child(prop: &str, tier: Tier, only: Option<(String, u64)>) -> i32 {
    install_quiet_panic_hook();
    let mut ctx = Ctx::new(prop, tier);
    if let Some((s, i)) = only {
        ctx = ctx.only(&s, i);
    }
    if !props::run(&ctx) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    finish(&ctx)
}

/// Run the exploration in a child process, so that a crash of the code under
/// test (stack overflow, abort) becomes a verdict rather than an ending.
fn supervise(prop: &str, tier: &str) -> i32 {
    let me = std::env::current_exe().unwrap();
    let status = Command::new(&me).args(["child", prop, tier]).status().unwrap();
    if let Some(code) = status.code() {
        return code;
    }
    let sig = status.signal().unwrap_or(0);
    if ![4, 6, 7, 8, 11].contains(&sig) {
        eprintln!("the exploration was ended by signal {sig}");
        return 2;
    }
    // Run again with breadcrumbs to name the inputs in flight at the crash.
    let dir = std::env::temp_dir().join(format!("mc-crumbs-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let again = Command::new(&me)
        .args(["child", prop, tier])
        .env("MC_CRUMBS", &dir)
        .stdout(std::process::Stdio::null())
        .status()
        .unwrap();
    let mut crumbs = String::new();
    for f in fs::read_dir(&dir).into_iter().flatten().flatten() {
        crumbs.push_str(&fs::read_to_string(f.path()).unwrap_or_default());
        crumbs.push_str("\n----\n");
    }
    let _ = fs::remove_dir_all(&dir);
    let ctx = Ctx::new(prop, if tier == "quick" { Tier::Quick } else { Tier::Thorough });
    ctx.add_violation(Violation {
        space: "process".into(),
        kind: "crash".into(),
        key: format!("process/crash/{sig}"),
        what: format!("the process was killed by signal {sig} (again: {again:?}); inputs in flight follow"),
        input: crumbs,
    });
    finish(&ctx)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match arg(1) {
        "run" => supervise(arg(2), if arg(3) == "thorough" { "thorough" } else { "quick" }),
        "child" => run_child(arg(2), tier(arg(3)), None),
        "probe" => {
            install_quiet_panic_hook();
            props::probe(arg(2), &args[3..])
        }
        "replay" => {
            let v: Value = serde_json::from_str(&fs::read_to_string(arg(2)).unwrap()).unwrap();
            let space = v["space"].as_str().unwrap_or_default();
            let (name, index) = space.rsplit_once('#').unwrap_or((space, "0"));
            println!("replaying {space} [{}]\ninput:\n{}", v["kind"], v["input"].as_str().unwrap_or(""));
            run_child(
                v["property"].as_str().unwrap(),
                tier(v["tier"].as_str().unwrap_or("quick")),
                Some((name.to_string(), index.parse().unwrap_or(0))),
            )
        }
        _ => {
            eprintln!("usage: mc run <property> quick|thorough | mc replay <file>");
            2
        }
    };
    exit(code);
}
