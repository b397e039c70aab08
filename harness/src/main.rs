//! Property-based checks of the traffic simulation.
//!
//! `harness run <ID>` decides one property (seed and tier from VERIF_SEED and VERIF_TIER),
//! `harness replay <file>` re-runs one saved case, `harness list` names the properties.

mod chain;
mod cross;
mod crowd;
mod gens;
mod geom;
mod inter;
mod lanes;
mod net;
mod props;
mod runner;
mod scenario;
mod world;

use props::Prop;
use runner::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

/// How long one case may take before the run is given up as inconclusive.
const CASE_LIMIT: Duration = Duration::from_secs(120);

fn env(name: &str, default: &str) -> String {
    std::env::var(name)
        .ok()
        .filter(|s| !s.is_empty())
        .unwrap_or_else(|| default.to_string())
}

/// The directory evidence and replay files go to.
fn out_dir() -> PathBuf {
    PathBuf::from(env("VERIF_OUT", "/verif/evidence"))
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    let code = match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("run"), Some(id)) => supervise(id),
        (Some("child"), Some(id)) => run(id, args.get(3).cloned()),
        (Some("replay"), Some(file)) => replay(Path::new(file)),
        (Some("list"), _) => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run <ID> | replay <file> | list");
            2
        }
    };
    ExitCode::from(code)
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

/// Runs the check in a child process, so that a crash of the code under test (a stack overflow,
/// say) can be attributed to a case.
fn supervise(id: &str) -> u8 {
    let exe = std::env::current_exe().expect("own path");
    let status = Command::new(&exe).args(["child", id]).status();
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    if let Some(code) = status.code() {
        return code as u8;
    }

    // The run is deterministic, so repeat it, this time recording each case before it runs.
    eprintln!("{id}: the check process died ({status}); repeating with a trace");
    let dir = std::env::temp_dir().join(format!("harness-trace-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let trace = dir.join("case");
    let _ = Command::new(&exe)
        .args(["child", id, trace.to_str().unwrap()])
        .stdout(Stdio::null())
        .status();
    let mut code = 3;
    for shard in 0..64 {
        let file = dir.join(format!("case.{shard}"));
        if !file.exists() {
            continue;
        }
        let out = Command::new(&exe).arg("replay").arg(&file).output();
        if let Ok(out) = out {
            let err = String::from_utf8_lossy(&out.stderr);
            if out.status.code().is_none() && err.contains("overflowed its stack") {
                let to = out_dir().join(format!("{id}.replay.json"));
                let _ = std::fs::copy(&file, &to);
                println!("{id}: stack overflow in the code under test");
                println!("VIOLATION property={id} replay={}", to.display());
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Re-runs the saved case in `file`.
fn replay(file: &Path) -> u8 {
    install_panic_hook();
    start_watchdog(CASE_LIMIT);
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    set_strict(true);
    match replay_value(&v) {
        Ok(Ok(())) => {
            println!("{id}: the case passes");
            0
        }
        Ok(Err(m)) => {
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            2
        }
    }
}

/// Outer result: whether the file can be used at all; inner result: whether the case passes.
fn replay_value(v: &Value) -> Result<Result<(), String>, String> {
    let id = v["property"].as_str().ok_or("no property")?;
    let part = v["part"].as_str().ok_or("no part")?;
    let prop = find(id).ok_or("unknown property")?;
    let parts = (prop.parts)();
    let part = parts
        .iter()
        .find(|p| p.name() == part)
        .ok_or("unknown part")?;
    // A generous stack, as in the search itself
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || Ok(part.replay(&v["case"])))
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Saved cases of this property, replayed before the search.
fn regressions(id: &str) -> Vec<(PathBuf, Value)> {
    let dir = PathBuf::from(env("VERIF_REGRESS", "/verif/regress"));
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files
        .into_iter()
        .filter(|p| {
            p.file_name()
                .and_then(|n| n.to_str())
                .map_or(false, |n| n.starts_with(&format!("{id}-")))
        })
        .filter_map(|p| {
            let v = serde_json::from_str(&std::fs::read_to_string(&p).ok()?).ok()?;
            Some((p, v))
        })
        .collect()
}

fn run(id: &str, trace: Option<String>) -> u8 {
    install_panic_hook();
    start_watchdog(CASE_LIMIT);
    let Some(prop) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let tier = match env("VERIF_TIER", "quick").as_str() {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = env("VERIF_SCALE", "1").parse().unwrap_or(1.0);
    let only = env("VERIF_PART", "");
    let start = Instant::now();
    let out = out_dir();
    let _ = std::fs::create_dir_all(&out);

    let mut violation: Option<(String, Value)> = None;
    let mut replayed = 0;
    if trace.is_none() {
        // What is known to fail
        for (key, what) in known_findings(id) {
            let file = PathBuf::from(env("VERIF_FINDINGS", "/verif/findings")).join(format!("{id}-{key}.json"));
            let v = std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            set_strict(true);
            let result = v.as_ref().map(replay_value);
            set_strict(false);
            match result {
                Some(Ok(Ok(()))) => {}
                Some(Ok(Err(_))) => println!("KNOWN-FINDING: property={id} {what}"),
                _ => {
                    eprintln!("{}: cannot be replayed", file.display());
                    return 2;
                }
            }
        }
        for (path, v) in regressions(id) {
            match replay_value(&v) {
                Ok(Ok(())) => replayed += 1,
                Ok(Err(m)) => {
                    violation = Some((m, v.clone()));
                    break;
                }
                Err(e) => {
                    eprintln!("{}: {e}", path.display());
                    return 2;
                }
            }
        }
    }

    let cx = Cx {
        prop: id.to_string(),
        tier,
        seed,
        // Fixed, so that the cases do not depend on the machine
        shards: 8,
        scale,
        trace,
    };
    let mut reports = vec![];
    for part in (prop.parts)() {
        if violation.is_some() {
            break;
        }
        if !only.is_empty() && part.name() != only {
            continue;
        }
        let t = Instant::now();
        let r = part.run(&cx);
        println!(
            "{id}/{}: {} cases, {} distinct non-trivial, {:.1} s  {:?} {:?} {:?}",
            r.name,
            r.evaluations,
            r.distinct,
            t.elapsed().as_secs_f64(),
            r.labels,
            r.counts,
            r.maxima
        );
        if let Some(e) = &r.error {
            eprintln!("{id}/{}: {e}", r.name);
            return 3;
        }
        if let Some((m, c)) = &r.failure {
            violation = Some((
                m.clone(),
                json!({"property": id, "part": r.name, "message": m, "case": c}),
            ));
        }
        reports.push(r);
    }

    let replay_file = out.join(format!("{id}.replay.json"));
    let _ = std::fs::remove_file(&replay_file);
    if let Some((_, v)) = &violation {
        let _ = std::fs::write(&replay_file, serde_json::to_string_pretty(v).unwrap());
    }
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct).sum::<u64>(),
            "rule": reports.iter().map(|r| format!("{}: {}", r.name, r.rule))
                .collect::<Vec<_>>().join(" | "),
            "samples": reports.iter()
                .flat_map(|r| r.samples.iter().take(2).map(move |s| json!({"part": r.name, "case": s})))
                .collect::<Vec<_>>(),
            "saved_cases_replayed": replayed,
            "parts": reports.iter().map(|r| json!({
                "part": r.name,
                "evaluations": r.evaluations,
                "distinct_nontrivial": r.distinct,
                "cases_by_label": r.labels,
                "totals": r.counts,
                "extremes_measured": r.maxima,
                "shrink_evaluations": r.shrink_evals,
            })).collect::<Vec<_>>(),
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u8,
    });
    let file = out.join(format!("{id}.json"));
    if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("{}: {e}", file.display());
        return 2;
    }
    match violation {
        Some((m, _)) => {
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={}", replay_file.display());
            1
        }
        None => 0,
    }
}
