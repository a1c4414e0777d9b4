//! pokerscheck run <ID> --tier quick|thorough --seed N --root /verif
//! pokerscheck replay <file>
//!
//! `run` starts itself as a child that generates and checks the cases. The parent turns what the
//! child found, or how it died, into the exit code: 0 held, 1 violation, anything else an error.

#![allow(unexpected_cfgs)]

mod engine;
mod eq;
mod gen;
mod oracle;
mod p_basic;
mod p_eq;
mod p_more;
mod p_range;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus};
use std::time::{Duration, Instant};

const IDS: [&str; 23] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18",
    "P19", "P20", "P21", "P22", "P23",
];

fn run_property(ctx: &Ctx, rep: &mut Report) {
    match ctx.id.as_str() {
        "P01" => p_basic::p01(ctx, rep),
        "P02" => p_basic::p02(ctx, rep),
        "P03" => p_basic::p03(ctx, rep),
        "P04" => p_range::p04(ctx, rep),
        "P05" => p_range::p05(ctx, rep),
        "P06" => p_basic::p06(ctx, rep),
        "P07" => p_eq::p07(ctx, rep),
        "P08" => p_eq::p08(ctx, rep),
        "P09" => p_eq::p09(ctx, rep),
        "P10" => p_eq::p10(ctx, rep),
        "P11" => p_eq::p11(ctx, rep),
        "P12" => p_eq::p12(ctx, rep),
        "P13" => p_eq::p13(ctx, rep),
        "P14" => p_basic::p14(ctx, rep),
        "P15" => p_basic::p15(ctx, rep),
        "P16" => p_basic::p16(ctx, rep),
        "P21" => p_basic::p21(ctx, rep),
        "P17" => p_range::p17(ctx, rep),
        "P18" => p_eq::p18(ctx, rep),
        "P19" => p_eq::p19(ctx, rep),
        "P20" => p_eq::p20(ctx, rep),
        "P22" => p_more::p22(ctx, rep),
        "P23" => p_more::p23(ctx, rep),
        _ => panic!("unknown property {}", ctx.id),
    }
}

fn replay_case(id: &str, kind: &str, v: &Value) -> CheckResult {
    set_current(&json!({"kind": kind, "case": v}).to_string());
    let f = || {
        p_eq::replay(id, kind, v)
            .or_else(|| p_basic::replay(kind, v))
            .or_else(|| p_range::replay(kind, v))
            .or_else(|| p_more::replay(kind, v))
            .unwrap_or_else(|| panic!("unknown kind {kind} of property {id}"))
    };
    match guard(f) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&a[2]),
        Some("child") => child(&a[2]),
        Some("matrix") => {
            std::fs::write(&a[2], oracle::preflop_matrix()).unwrap();
            0
        }
        Some("replay") => replay(Path::new(&a[2])),
        _ => {
            eprintln!("usage: pokerscheck run <ID> --tier quick|thorough --seed N --root DIR | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn tier() -> Tier {
    match arg("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    arg("--seed").and_then(|s| s.parse::<u64>().ok().or_else(|| Some(hash_str(&s)))).unwrap_or(1)
}

fn replay(file: &Path) -> i32 {
    quiet_panics();
    watchdog(Duration::from_secs(200), 12 << 30);
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&text).expect("replay file");
    let (id, kind) = (v["property"].as_str().unwrap_or(""), v["kind"].as_str().unwrap_or(""));
    // what depends on the timing of threads or on unseeded generators may need a few attempts
    let times = if matches!(id, "P10" | "P11" | "P13" | "P18" | "P19" | "P23") { 20 } else { 1 };
    for _ in 0..times {
        if let Err(e) = replay_case(id, kind, &v["case"]) {
            println!("FAIL {e}");
            return 1;
        }
    }
    println!("PASS");
    0
}

fn child(id: &str) -> i32 {
    quiet_panics();
    let dir = PathBuf::from(arg("--dir").expect("--dir"));
    let _ = HARD_OUT.set(dir.join("hard"));
    let ctx = Ctx { id: id.to_string(), tier: tier(), seed: seed(), workers: 8, journal_dir: dir.clone() };
    watchdog(Duration::from_secs(200), 12 << 30);
    let mut rep = Report::default();
    if let Err(e) = guard(|| run_property(&ctx, &mut rep)) {
        eprintln!("{id}: the harness failed: {e}");
        return 5;
    }
    let fail = rep.failure.as_ref().map(|f| json!({"case": f.case, "msg": f.msg}));
    let out = json!({
        "cases": rep.cases,
        "evaluations": rep.evaluations,
        "distinct_nontrivial": rep.distinct_nontrivial,
        "rule": rep.rule.join(" "),
        "samples": rep.samples,
        "labels": rep.labels,
        "exhaustive": rep.exhaustive,
        "known": rep.known,
        "failure": fail,
        "hooks": cfg!(pokers_verif),
    });
    std::fs::write(dir.join("result"), out.to_string()).expect("result file");
    0
}

fn wait(mut c: std::process::Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            _ if t.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

fn read_json(p: &Path) -> Option<Value> {
    serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
}

fn parent(id: &str) -> i32 {
    let start = Instant::now();
    if !IDS.contains(&id) {
        eprintln!("unknown property {id}");
        return 2;
    }
    let root = PathBuf::from(arg("--root").unwrap_or("/verif".into()));
    let tier = tier();
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir = std::env::temp_dir().join(format!("pokerscheck-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let code = supervise(id, &root, tier_name, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise(id: &str, root: &Path, tier: &str, dir: &Path, start: Instant) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let limit = Duration::from_secs(if tier == "quick" { 780 } else { 6 * 3600 });
    let c = Command::new(&exe)
        .args(["child", id, "--tier", tier, "--seed", &seed().to_string(), "--dir"])
        .arg(dir)
        .spawn()
        .expect("child");
    let Some(status) = wait(c, limit) else {
        eprintln!("{id}: no answer within {limit:?}");
        return 3;
    };
    let mut result = read_json(&dir.join("result"));
    let mut failure: Option<Value> = result.as_ref().and_then(|r| r.get("failure").cloned()).filter(|f| !f.is_null());
    if result.is_none() {
        // it died
        if let Some(h) = read_json(&dir.join("hard")) {
            failure = Some(h);
        } else {
            eprintln!("{id}: the checking process ended with {status}; looking for the case");
            let mut running = None;
            for w in 0..64 {
                let Some(text) = Journal::read(&dir.join(format!("{id}-{w}"))) else { continue };
                let Ok(v) = serde_json::from_str::<Value>(&text) else { continue };
                if v.is_null() {
                    continue;
                }
                running.get_or_insert(v.clone());
                let f = dir.join("try.json");
                let _ = std::fs::write(&f, json!({"property": id, "kind": v["kind"], "case": v["case"]}).to_string());
                let c = Command::new(&exe).arg("replay").arg(&f).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn();
                let Ok(c) = c else { continue };
                match wait(c, Duration::from_secs(60)) {
                    Some(s) if s.code() == Some(0) => {}
                    Some(s) => {
                        failure = Some(json!({"case": v, "msg": format!("the process was ended by the code under test ({s})")}));
                        break;
                    }
                    None => {}
                }
            }
            if failure.is_none() {
                eprintln!("{id}: no single case ends the process");
                use std::os::unix::process::ExitStatusExt;
                // an abort, an illegal instruction or a memory error
                match (running, status.signal()) {
                    (Some(v), Some(4 | 6 | 7 | 8 | 11)) => {
                        failure = Some(json!({"case": v, "msg": format!("the process was ended ({status}) while this case ran, among others")}));
                    }
                    _ => return 4,
                }
            }
        }
        result = Some(json!({
            "cases": 0, "evaluations": 1, "distinct_nontrivial": 0, "rule": "the run was cut short by the violation",
            "samples": [failure.as_ref().unwrap()["case"]], "labels": {}, "exhaustive": false, "known": [], "hooks": cfg!(pokers_verif),
        }));
    }
    let result = result.unwrap();
    // known findings that are listed are reported, others are violations
    let listed = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    for k in result["known"].as_array().into_iter().flatten() {
        let (name, msg) = (k[0].as_str().unwrap_or(""), k[1].as_str().unwrap_or(""));
        let tag = format!("finding: property={id} {name}:");
        if listed.lines().any(|l| l.starts_with(&tag)) {
            let short: String = msg.chars().take(300).collect();
            println!("KNOWN-FINDING: property={id} {name}: {short}");
        } else if failure.is_none() {
            failure = Some(json!({"case": {"kind": "known", "case": name}, "msg": msg}));
        }
    }
    let mut code = 0;
    if let Some(f) = &failure {
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let case = &f["case"];
        let text = serde_json::to_string_pretty(&json!({
            "property": id, "seed": seed(), "kind": case["kind"], "case": case["case"], "message": f["msg"],
        }))
        .unwrap();
        let path = rdir.join(format!("{id}-{:08x}.json", hash_str(&case.to_string()) as u32));
        std::fs::write(&path, text).expect("replay file");
        println!("{id}: {}", f["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": result["evaluations"],
            "distinct_nontrivial": result["distinct_nontrivial"],
            "rule": result["rule"],
            "samples": result["samples"],
            "exhaustive": result["exhaustive"],
            "cases": result["cases"],
            "classes": result["labels"],
            "hooks": result["hooks"],
        },
        "assumptions": assumptions(id),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": code,
    });
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence file");
    println!(
        "{id} {tier}: {} cases, {} evaluations, {} distinct and non-trivial, {:.1} s",
        result["cases"],
        result["evaluations"],
        result["distinct_nontrivial"],
        start.elapsed().as_secs_f64()
    );
    code
}

fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec!["the reference model in harness/src/oracle.rs states the rules of the game correctly (its fast evaluator is tested against a direct one)"];
    match id {
        "P07" | "P08" | "P09" | "P18" | "P20" => v.push("products of weights times boards stay below 2^60 (see the known finding on overflow)"),
        "P10" => v.push("thread schedules are sampled by the operating system, with random delays in front of locks where the hooks build"),
        "P11" | "P19" => v.push("deviations of more than 7 standard deviations of a sample do not happen by chance"),
        "P01" | "P02" => v.push("hands of 0 or 1 card have no claimed strength"),
        _ => {}
    }
    v
}
