//! check <ID>                 run all parts of a property
//! check <ID> --replay FILE   re-run one stored failure
//! check <ID> --sub OUT       run quietly and write counts (used for the second build)
//! check --serve              answer decode requests on standard input (used for the second build)

use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

use mbus_verif::checks;
use mbus_verif::runner::{self, Property};
use serde_json::{json, Value};

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn known_findings(id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = BTreeMap::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let Some((prop, rest)) = rest.split_once(" signature=") else { continue };
        let (sig, what) = rest.split_once(' ').unwrap_or((rest, ""));
        if prop == id {
            out.insert(sig.to_string(), what.to_string());
        }
    }
    out
}

fn config_name() -> &'static str {
    if cfg!(feature = "plaintext-before-extension") {
        "plaintext-before-extension"
    } else {
        "default"
    }
}

fn write_replay(p: &Property, seed: u64, f: &runner::Failure) -> PathBuf {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{}-{}-{seed}.json", p.id, f.part.replace(' ', "_"), config_name()));
    let v = json!({
        "property": p.id, "seed": seed, "config": config_name(), "part": f.part, "tape": f.tape, "failure": f.message,
        "how": format!("bash /verif/run.sh {} --replay {}", p.id, file.display()),
    });
    let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
    file
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    runner::install_panic_hook();
    if args.first().map(String::as_str) == Some("--serve") {
        mbus_verif::sut::serve();
        return;
    }
    let Some(id) = args.first() else {
        for p in checks::all() {
            println!("{}", p.id);
        }
        return;
    };
    let Some(p) = checks::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if std::env::var_os("VERIF_WORKER").is_none() {
        std::process::exit(supervise(&p, &args));
    }
    let known = known_findings(id);
    let flag = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();

    watch(&p, flag("--sub"), flag("--replay"));

    if let Some(file) = flag("--replay") {
        let text = std::fs::read_to_string(&file).unwrap_or_else(|e| {
            eprintln!("{file}: {e}");
            std::process::exit(2)
        });
        let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
        if v["config"] != config_name() {
            let other = other_binary();
            let st = std::process::Command::new(other).env_remove("VERIF_WORKER").args([id.as_str(), "--replay", &file]).status().expect("second build");
            std::process::exit(st.code().unwrap_or(2));
        }
        let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let part = p.parts.iter().find(|q| Some(q.name) == v["part"].as_str()).unwrap_or_else(|| {
            eprintln!("no such part");
            std::process::exit(2)
        });
        match runner::replay_part(part, &tape, &known) {
            Ok(()) => println!("replay passed"),
            Err(f) => {
                println!("{}", f.message);
                println!("VIOLATION property={id} replay={file}");
                std::process::exit(1);
            }
        }
        return;
    }

    let seed = seed();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let start = Instant::now();
    let only = flag("--part");
    let sub = flag("--sub");

    let mut evaluations = 0u64;
    let mut nontrivial = 0u64;
    let mut parts = serde_json::Map::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut violations: Vec<(PathBuf, String)> = vec![];

    for part in &p.parts {
        if only.as_deref().is_some_and(|o| o != part.name) {
            continue;
        }
        let t = Instant::now();
        let o = runner::run_part(p.id, part, seed, thorough, scale, &known);
        evaluations += o.ctx.evaluations;
        nontrivial += o.ctx.nontrivial.len() as u64;
        parts.insert(
            o.name.to_string(),
            json!({"evaluations": o.ctx.evaluations, "distinct_nontrivial": o.ctx.nontrivial.len(), "classes": o.ctx.classes,
                   "exhaustive": matches!(part.kind, runner::Kind::Exhaustive { .. }),
                   "wall_s": (t.elapsed().as_secs_f64() * 1000.0).round() / 1000.0}),
        );
        samples.extend(o.ctx.samples.iter().take(3).map(|s| format!("{}: {s}", o.name)));
        for (k, (n, m)) in o.ctx.known {
            let e = known_hits.entry(k).or_insert((0, m));
            e.0 += n;
        }
        if let Some(f) = o.failure {
            let file = write_replay(&p, seed, &f);
            violations.push((file, format!("[{}] {}", f.part, f.message)));
        }
    }

    if let Some(out) = sub {
        let v = json!({"evaluations": evaluations, "nontrivial": nontrivial, "parts": parts, "samples": samples,
            "known": known_hits.iter().map(|(k, (n, m))| json!([k, n, m])).collect::<Vec<_>>(),
            "violations": violations.iter().map(|(f, m)| json!([f.display().to_string(), m])).collect::<Vec<_>>()});
        std::fs::write(out, serde_json::to_string(&v).unwrap()).expect("write result");
        return;
    }

    let mut configs = vec![config_name()];
    if p.both_builds {
        let out = std::env::temp_dir().join(format!("mbus-verif-{}-{}.json", id, std::process::id()));
        let mut cmd = std::process::Command::new(other_binary());
        cmd.env_remove("VERIF_WORKER");
        cmd.args([id.as_str(), "--sub", out.to_str().unwrap()]);
        if let Some(o) = &only {
            cmd.args(["--part", o]);
        }
        let st = cmd.status().expect("second build runs");
        if !st.success() {
            eprintln!("second build ended with {st}");
            std::process::exit(3);
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).expect("result")).expect("json");
        let _ = std::fs::remove_file(&out);
        configs.push("plaintext-before-extension");
        evaluations += v["evaluations"].as_u64().unwrap();
        nontrivial += v["nontrivial"].as_u64().unwrap();
        for (k, x) in v["parts"].as_object().unwrap() {
            parts.insert(format!("{k} (plaintext-before-extension)"), x.clone());
        }
        samples.extend(v["samples"].as_array().unwrap().iter().take(2).map(|s| format!("plaintext-before-extension: {}", s.as_str().unwrap())));
        for x in v["known"].as_array().unwrap() {
            let e = known_hits.entry(x[0].as_str().unwrap().into()).or_insert((0, x[2].as_str().unwrap().into()));
            e.0 += x[1].as_u64().unwrap();
        }
        for x in v["violations"].as_array().unwrap() {
            violations.push((PathBuf::from(x[0].as_str().unwrap()), x[1].as_str().unwrap().to_string()));
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let evidence = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": p.rule, "samples": samples,
            "parts": parts, "configurations": configs,
            "known_finding_hits": known_hits.iter().map(|(k, (n, _))| (k.clone(), *n)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    if only.is_none() {
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence directory");
        write_atomic(&dir.join(format!("{}.json", p.id)), &serde_json::to_string_pretty(&evidence).unwrap());
    }
    for (sig, what) in &known {
        // Listed findings are named on every run; the search excludes or matches them by signature.
        let hits = known_hits.get(sig).map_or(0, |k| k.0);
        println!("KNOWN-FINDING: property={id} {what} [{sig}, met {hits} times]");
    }
    println!("{id}: {evaluations} cases, {nontrivial} distinct non-trivial, {wall:.1} s, seed {seed}");
    for (file, m) in &violations {
        println!("{m}");
        println!("VIOLATION property={id} replay={}", file.display());
    }
    let _ = std::io::stdout().flush();
    if !violations.is_empty() {
        std::process::exit(1);
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// Reports a violation found outside the normal course of the check.
fn report(p: &Property, sub: Option<&str>, file: &str, message: &str) -> i32 {
    if let Some(out) = sub {
        let v = json!({"evaluations": 0, "nontrivial": 0, "parts": {}, "samples": [], "known": [], "violations": [[file, message]]});
        std::fs::write(out, v.to_string()).expect("write result");
        return 0;
    }
    let evidence = json!({
        "property": p.id,
        "tier": if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [message], "parts": {}, "configurations": [config_name()], "known_finding_hits": {}},
        "assumptions": p.assumptions,
        "wall_s": 0,
        "violations": 1,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    write_atomic(&dir.join(format!("{}.json", p.id)), &serde_json::to_string_pretty(&evidence).unwrap());
    println!("{message}");
    println!("VIOLATION property={} replay={file}", p.id);
    let _ = std::io::stdout().flush();
    1
}

/// Ends the check with a violation when a case does not return.
fn watch(p: &Property, sub: Option<String>, replay: Option<String>) {
    let p = Property { parts: vec![], ..*p };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let Some((part, tape)) = runner::hanging() else { continue };
        let message = format!("a call does not return within {} s", runner::HANG.as_secs());
        if let Some(file) = &replay {
            println!("{message}");
            println!("VIOLATION property={} replay={file}", p.id);
            std::process::exit(1);
        }
        let f = runner::Failure { part: part.to_string(), tape, message };
        let file = write_replay(&p, seed(), &f);
        std::process::exit(report(&p, sub.as_deref(), &file.display().to_string(), &format!("[{part}] {}", f.message)));
    });
}

/// Whether a process ended by a fault of its own (stack overflow, abort,
/// allocation failure, invalid access), not by a signal from outside.
fn crashed(st: std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11))
}

/// Runs the check in a process of its own. If that crashes, it is run again
/// noting each case, and the case that crashes is shrunk and reported.
fn supervise(p: &Property, args: &[String]) -> i32 {
    let own = std::env::current_exe().expect("own path");
    let worker = |args: &[String], quiet: bool, trace: Option<&Path>| {
        let mut c = std::process::Command::new(&own);
        c.args(args).env("VERIF_WORKER", "1");
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        if let Some(t) = trace {
            c.env("VERIF_TRACE", t);
        }
        c.status().expect("worker runs")
    };
    let st = worker(args, false, None);
    if !crashed(st) {
        return st.code().unwrap_or(3);
    }
    let flag = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let message = format!("a call ends the whole process ({st})");
    if let Some(file) = flag("--replay") {
        println!("{message}");
        println!("VIOLATION property={} replay={file}", p.id);
        return 1;
    }
    let dir = root().join("target").join(format!("trace-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace directory");
    worker(args, true, Some(&dir));
    let mut found = None;
    for slot in 0..runner::SHARDS {
        let Some(v) = std::fs::read_to_string(dir.join(slot.to_string())).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
        let mut f = runner::Failure {
            part: v["part"].as_str().unwrap_or("").to_string(),
            tape: v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default(),
            message: message.clone(),
        };
        let fails = |f: &runner::Failure| {
            let file = write_replay(p, seed(), f);
            crashed(worker(&[p.id.to_string(), "--replay".into(), file.display().to_string()], true, None))
        };
        if !fails(&f) {
            continue;
        }
        // Shorter tapes that still crash, within half a minute.
        let t = Instant::now();
        let mut step = f.tape.len() / 2;
        while step > 0 && t.elapsed().as_secs() < 30 {
            let keep = f.tape.len().saturating_sub(step);
            let shorter = runner::Failure { tape: f.tape[..keep].to_vec(), part: f.part.clone(), message: f.message.clone() };
            if f.tape.len() > step && fails(&shorter) {
                f = shorter;
            } else {
                step /= 2;
            }
        }
        found = Some(f);
        break;
    }
    let _ = std::fs::remove_dir_all(&dir);
    let Some(f) = found else {
        eprintln!("check ended with {st}, and no noted case does so alone");
        return 3;
    };
    let file = write_replay(p, seed(), &f);
    report(p, flag("--sub").as_deref(), &file.display().to_string(), &format!("[{}] {}", f.part, f.message))
}

fn other_binary() -> PathBuf {
    let name = if cfg!(feature = "plaintext-before-extension") { "default" } else { "plaintext" };
    root().join("target").join(name).join("release/check")
}

fn write_atomic(path: &Path, text: &str) {
    let tmp = path.with_extension("json.tmp");
    std::fs::write(&tmp, text).expect("write evidence");
    std::fs::rename(&tmp, path).expect("rename evidence");
}
