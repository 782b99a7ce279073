//! vh check <ID> [name=path-of-another-build]... | replay <FILE> | list | fingerprint <threads> <step>...

use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::Instant;
use vh::engine::{self, Options, Property};
use vh::props;

fn verif() -> PathBuf {
    std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

fn repo_src() -> PathBuf {
    Path::new(&std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into())).join("src")
}

fn write(path: &Path, v: &Value) {
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
}

struct Part {
    failure: Option<engine::Failure>,
    coverage: Value,
    wall_s: f64,
}

fn options(shift: u64) -> Options {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    Options { seed: seed.wrapping_add(shift), thorough, threads }
}

/// Explores in this process.
fn explore(p: &Property, o: &Options, on_hang: &(dyn Fn(&engine::Failure) + Sync)) -> Part {
    let start = Instant::now();
    let hints = engine::mine(&repo_src());
    let r = engine::run(p, o, &hints, on_hang);
    Part { failure: r.failure, coverage: r.coverage, wall_s: start.elapsed().as_secs_f64() }
}

fn failure_json(f: &engine::Failure) -> Value {
    json!({"kind": f.kind, "args": engine::hex(&f.args), "message": f.message, "found_by": f.found_by,
        "found": engine::hex(&f.found), "before": engine::history_json(&f.before)})
}

fn hang_coverage(p: &Property, f: &engine::Failure) -> Value {
    json!({
        "evaluations": 1,
        "distinct_nontrivial": 1,
        "rule": p.rule,
        "samples": [{"kind": f.kind, "args": engine::hex(&f.args)}],
        "note": "the run stopped at a case that never returned",
    })
}

/// The exploration of one build of this program, in a process of its own: OUT receives the result.
fn part(id: &str, out: &str, shift: u64) -> i32 {
    let Some(p) = props::get(id) else { return 2 };
    let save = |failure: Value, coverage: Value, wall_s: f64| {
        write(Path::new(out), &json!({"failure": failure, "coverage": coverage, "wall_s": wall_s}));
    };
    let on_hang = |f: &engine::Failure| {
        save(failure_json(f), hang_coverage(&p, f), 0.0);
        std::process::exit(0);
    };
    let r = explore(&p, &options(shift), &on_hang);
    save(r.failure.as_ref().map(failure_json).unwrap_or(Value::Null), r.coverage, r.wall_s);
    0
}

/// Runs `part` in the given build.  The result, or what killed it.
fn run_part(p: &Property, name: &str, exe: &str, shift: u64) -> Result<Value, String> {
    let id = p.id;
    let base = verif().join(".build").join(format!("part-{id}-{name}-{}", std::process::id()));
    let (out, flight) = (base.with_extension("json"), base.with_extension("flight"));
    std::fs::write(&flight, []).map_err(|e| e.to_string())?;
    let status = std::process::Command::new(exe).args(["part", id]).arg(&out).arg(shift.to_string()).env("VH_FLIGHT", &flight).status();
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let cases = engine::flight::read(&flight);
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&flight);
    if let Ok(v) = serde_json::from_str::<Value>(&text) {
        return Ok(v);
    }
    let own = matches!(&status, Ok(s) if s.code() == Some(2));
    // Only what kills a process of its own again is held against the code under test.
    for (kind, args) in cases.into_iter().filter(|_| !own) {
        let f = json!({"kind": kind, "args": engine::hex(&args), "message": "the process died", "found_by": "death of the process"});
        let Some(k) = p.kinds.iter().find(|k| k.name == kind) else { continue };
        if fails_afresh(id, exe, &f, &f["args"], &[]).is_some() {
            let begin = Instant::now();
            let args = smaller(id, exe, &f, k, args, &[], &|| begin.elapsed().as_secs() > 40);
            let mut f = f;
            f["args"] = json!(engine::hex(&args));
            if let Some(m) = fails_afresh(id, exe, &f, &f["args"], &[]).filter(|m| !m.is_empty()) {
                f["message"] = json!(m);
            }
            let coverage = json!({
                "evaluations": 1,
                "distinct_nontrivial": 1,
                "rule": p.rule,
                "samples": [{"kind": k.name, "args": f["args"]}],
                "note": "the run ended at a case that killed its process",
            });
            return Ok(json!({"failure": f, "coverage": coverage, "wall_s": 0.0}));
        }
    }
    Err(format!("the {name} build gave no result ({status:?})"))
}

/// A coverage-guided campaign in its own instrumented build.  Ok(None): nothing found.
fn campaign(p: &Property, exe: &str, o: &Options) -> (Option<Value>, Value) {
    let kinds: Vec<usize> = (0..p.kinds.len()).filter(|i| p.kinds[*i].fuzzable()).collect();
    if kinds.is_empty() {
        return (None, Value::Null);
    }
    let dir = verif().join(".build").join(format!("fuzz-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    let seeds = dir.join("seeds");
    std::fs::create_dir_all(&seeds).unwrap();
    let hints = engine::mine(&repo_src());
    let mut longest = 16;
    for (i, s) in engine::fuzz_seeds(p, &kinds, o.seed, &hints, 48).iter().enumerate() {
        longest = longest.max(s.len());
        std::fs::write(seeds.join(format!("{i}")), s).unwrap();
    }
    let (runs, seconds) = if o.thorough { (2_000_000_000u64, 240) } else { (1_500_000, 10) };
    let begin = Instant::now();
    let mut workers = vec![];
    for w in 0..o.threads {
        // one corpus for all: every worker reloads what the others found
        let own = dir.join("corpus");
        std::fs::create_dir_all(&own).unwrap();
        let log = std::fs::File::create(dir.join(format!("log-{w}"))).unwrap();
        let fuzz_seed = (o.seed.wrapping_mul(64).wrapping_add(w as u64) & 0x7fff_ffff) + 1;
        let kid = std::process::Command::new(exe)
            .arg(&own)
            .arg(&seeds)
            .args([
                format!("-seed={fuzz_seed}"),
                format!("-runs={runs}"),
                format!("-max_total_time={seconds}"),
                format!("-max_len={longest}"),
                format!("-artifact_prefix={}/stopped-{w}-", dir.display()),
                // also climb towards equal operands of comparisons
                "-use_value_profile=1".into(),
                "-reload=1".into(),
                "-len_control=0".into(),
                "-timeout=60".into(),
                "-rss_limit_mb=3000".into(),
                "-print_final_stats=1".into(),
            ])
            .env("VH_FUZZ_PROP", p.id)
            .env("VH_FUZZ_OUT", dir.join(format!("failed-{w}")))
            .stdout(std::process::Stdio::null())
            .stderr(log)
            .spawn();
        match kid {
            Ok(k) => workers.push((w, k)),
            Err(e) => {
                eprintln!("error: cannot start the fuzzer: {e}");
                std::process::exit(2);
            }
        }
    }
    let mut failure: Option<Value> = None;
    let (mut execs, mut features, mut corpus, mut trouble) = (0u64, 0u64, 0u64, vec![]);
    for (w, mut kid) in workers {
        let status = kid.wait();
        let log = std::fs::read_to_string(dir.join(format!("log-{w}"))).unwrap_or_default();
        if let Some(v) = std::fs::read_to_string(dir.join(format!("failed-{w}"))).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            failure.get_or_insert(v);
        } else if !status.as_ref().map(|s| s.success()).unwrap_or(false) {
            // A crash or a hang counts when it happens again on the saved input.
            let saved = std::fs::read_dir(&dir).into_iter().flatten().flatten().map(|e| e.path()).find(|q| {
                let n = q.file_name().unwrap().to_string_lossy().to_string();
                n.starts_with(&format!("stopped-{w}-crash")) || n.starts_with(&format!("stopped-{w}-timeout"))
            });
            if let Some(data) = saved.as_ref().and_then(|q| std::fs::read(q).ok()) {
                let (kind, args) = p.case_from_bytes(&kinds, &data);
                let again = std::process::Command::new(exe)
                    .arg(saved.unwrap())
                    .arg("-timeout=60")
                    .arg("-rss_limit_mb=3000")
                    .env("VH_FUZZ_PROP", p.id)
                    .env("VH_FUZZ_OUT", dir.join("again"))
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                if again.map(|s| !s.success()).unwrap_or(false) {
                    failure.get_or_insert(json!({"kind": kind.name, "args": engine::hex(&args),
                        "message": DIED, "found_by": "coverage-guided fuzzing"}));
                }
            }
            trouble.push(format!("worker {w}: {status:?}"));
        }
        for l in log.lines() {
            if let Some(n) = l.strip_prefix("stat::number_of_executed_units:") {
                execs += n.trim().parse::<u64>().unwrap_or(0);
            }
            if l.contains(" DONE ") || l.contains("\tDONE ") {
                let f: Vec<&str> = l.split_whitespace().collect();
                for pair in f.windows(2) {
                    if pair[0] == "ft:" {
                        features = features.max(pair[1].parse().unwrap_or(0));
                    }
                    if pair[0] == "corp:" {
                        corpus += pair[1].split('/').next().unwrap_or("0").parse::<u64>().unwrap_or(0);
                    }
                }
            }
        }
    }
    let stats = json!({
        "engine": "libFuzzer",
        "workers": o.threads,
        "executions": execs,
        "most_features": features,
        "corpus_entries": corpus,
        "kinds": kinds.iter().map(|i| p.kinds[*i].name).collect::<Vec<_>>(),
        "trouble": trouble,
        "wall_s": begin.elapsed().as_secs_f64(),
    });
    let _ = std::fs::remove_dir_all(&dir);
    // smallest form, in this build; a failure that needs its history is reported as it was found
    let failure = failure.map(|f| {
        if f["message"].as_str().unwrap().starts_with(DIED) {
            return f;
        }
        let kind = p.kinds.iter().find(|k| k.name == f["kind"].as_str().unwrap()).unwrap();
        let args: Vec<u64> = parse_args(&f["args"]);
        let (args, message) = engine::shrink(kind, &args, f["message"].as_str().unwrap().to_string());
        let mut f = f;
        f["args"] = json!(engine::hex(&args));
        f["message"] = json!(message);
        f
    });
    (failure, stats)
}

const DIED: &str = "the process died or never finished on this input";

fn parse_args(v: &Value) -> Vec<u64> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|a| u64::from_str_radix(a.as_str().unwrap().trim_start_matches("0x"), 16).unwrap())
        .collect()
}

/// Does this case, after these others, fail in a process of its own?
fn fails_afresh(id: &str, exe: &str, f: &Value, args: &Value, before: &[Value]) -> Option<String> {
    fails_with(id, exe, f, args, before, 1)
}

fn fails_with(id: &str, exe: &str, f: &Value, args: &Value, before: &[Value], threads: u64) -> Option<String> {
    let path = verif().join(".build").join(format!("replay-{id}-{}.json", std::process::id()));
    write(&path, &json!({"property": id, "kind": f["kind"], "args": args, "before": before, "threads": threads}));
    let kid = std::process::Command::new(exe)
        .arg("replay")
        .arg(&path)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut kid = kid.ok()?;
    let begin = Instant::now();
    while begin.elapsed().as_secs() < 60 && matches!(kid.try_wait(), Ok(None)) {
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    let _ = kid.kill();
    let out = kid.wait_with_output();
    let _ = std::fs::remove_file(&path);
    let out = out.ok()?;
    // 2: the machinery could not work
    if out.status.success() || out.status.code() == Some(2) {
        return None;
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let text = text.lines().filter(|l| !l.starts_with("VIOLATION")).map(str::trim).collect::<Vec<_>>().join(" ");
    Some(text.split_once("]: ").map(|x| x.1.to_string()).unwrap_or(text))
}

/// A smaller case that still fails in a process of its own.
fn smaller(id: &str, exe: &str, f: &Value, kind: &engine::Kind, mut case: Vec<u64>, before: &[Value], over: &dyn Fn() -> bool) -> Vec<u64> {
    let fails = |c: &[u64]| !over() && fails_afresh(id, exe, f, &json!(engine::hex(c)), before).is_some();
    if let Some((head, _, _)) = &kind.list {
        let mut at = head.len();
        while at < case.len() && !over() {
            let mut fewer = case.clone();
            fewer.remove(at);
            if fails(&fewer) {
                case = fewer;
            } else {
                at += 1;
            }
        }
    }
    for i in 0..case.len() {
        let mut tries = vec![0, 1, case[i] & 0xff, case[i] & 0xffff_ffff];
        tries.retain(|v| *v < case[i]);
        for v in tries {
            let mut c = case.clone();
            c[i] = v;
            if fails(&c) {
                case = c;
                break;
            }
        }
        let mut step = case[i] / 2;
        while step > 0 && !over() {
            let mut c = case.clone();
            c[i] -= step;
            if fails(&c) {
                case = c;
            }
            step = (step / 2).min(case[i] / 2);
        }
    }
    case
}

/// A replay file has to fail on its own.  State that an earlier case left behind may have misled the
/// search for the smallest case, so it is confirmed, and if need be repeated, in fresh processes.
fn settle(id: &str, exe: &str, f: &mut Value) {
    if f["found_by"] == json!("watchdog") || f["found_by"] == json!("death of the process") {
        return;
    }
    let begin = Instant::now();
    let none: &[Value] = &[];
    let found = f["found"].take();
    let mut before: Vec<Value> = f["before"].take().as_array().cloned().unwrap_or_default();
    f.as_object_mut().unwrap().retain(|k, _| k != "found" && k != "before");
    if fails_afresh(id, exe, f, &f["args"], none).is_some() {
        return;
    }
    let mut args = found;
    if args.is_null() {
        return;
    }
    if fails_afresh(id, exe, f, &args, none).is_some() {
        before.clear();
    } else if fails_afresh(id, exe, f, &args, &before).is_none() {
        f["args"] = args;
        if fails_with(id, exe, f, &f["args"], &before, 8).is_some() {
            f["before"] = json!(before);
            f["threads"] = json!(8);
            f["note"] = json!("needs several threads that repeat these cases at the same time");
            return;
        }
        f["note"] = json!("not reproduced in a fresh process by this case alone: it needs other threads or more of what this process did before");
        return;
    }
    // fewer cases before it, then fewer and smaller numbers
    let over = |begin: Instant| begin.elapsed().as_secs() > 40;
    let mut size = before.len().div_ceil(2);
    while size > 0 && !over(begin) {
        let mut at = 0;
        while at < before.len() && !over(begin) {
            let mut fewer = before.clone();
            fewer.drain(at..(at + size).min(before.len()));
            if fails_afresh(id, exe, f, &args, &fewer).is_some() {
                before = fewer;
            } else {
                at += size;
            }
        }
        size /= 2;
    }
    let p = props::get(id).unwrap();
    let kind = p.kinds.iter().find(|k| f["kind"] == json!(k.name)).unwrap();
    let case = smaller(id, exe, f, kind, parse_args(&args), &before, &|| over(begin));
    args = json!(engine::hex(&case));
    if let Some(m) = fails_afresh(id, exe, f, &args, &before) {
        f["message"] = json!(m);
    }
    f["args"] = args;
    if !before.is_empty() {
        f["before"] = json!(before);
    }
}

fn report(id: &str, seed: u64, build: &str, f: &Value) {
    let path = verif().join("replays").join(format!("{id}-{}.json", f["kind"].as_str().unwrap()));
    let mut v = f.clone();
    v["property"] = json!(id);
    v["seed"] = json!(seed);
    v["build"] = json!(build);
    v["rerun"] = json!(format!("./check replay {}", path.display()));
    write(&path, &v);
    let cut = |s: String| if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + " ..." } else { s };
    println!("{id} {} {} ({build} build): {}", f["kind"].as_str().unwrap(), cut(f["args"].to_string()), cut(f["message"].as_str().unwrap().to_string()));
    println!("VIOLATION property={id} replay={}", path.display());
}

fn check(id: &str, others: &[String]) -> i32 {
    let Some(p) = props::get(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let o = options(0);
    let start = Instant::now();
    let evidence = |coverage: &Value, violations: usize| {
        write(
            &verif().join("evidence").join(format!("{id}.json")),
            &json!({
                "property": id,
                "tier": if o.thorough { "thorough" } else { "quick" },
                "seed": o.seed,
                "level": "exploration",
                "coverage": coverage,
                "assumptions": p.assumptions,
                "wall_s": start.elapsed().as_secs_f64(),
                "violations": violations,
            }),
        );
    };
    let me = std::env::current_exe().unwrap().display().to_string();
    let mut r = match run_part(&p, "checked", &me, 0) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("error: {e}");
            return 2;
        }
    };
    let mut coverage = r["coverage"].take();
    let mut failed: Option<(String, Value)> = Some(r["failure"].take()).filter(|f| !f.is_null()).map(|f| ("checked".to_string(), f));
    let mut further = serde_json::Map::new();
    for other in others {
        if failed.is_some() {
            break;
        }
        let (name, exe) = other.split_once('=').expect("name=path");
        if name == "fuzz" {
            let (f, stats) = campaign(&p, exe, &o);
            if !stats.is_null() {
                let n = coverage["evaluations"].as_u64().unwrap() + stats["executions"].as_u64().unwrap_or(0);
                coverage["evaluations"] = json!(n);
                coverage["coverage_guided"] = stats;
            }
            failed = f.map(|f| ("instrumented".to_string(), f));
            continue;
        }
        let mut v = match run_part(&p, name, exe, 0x5eed) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("error: {e}");
                return 2;
            }
        };
        if !v["failure"].is_null() {
            failed = Some((name.to_string(), v["failure"].take()));
        }
        let n = coverage["evaluations"].as_u64().unwrap() + v["coverage"]["evaluations"].as_u64().unwrap_or(0);
        coverage["evaluations"] = json!(n);
        if let Some(c) = v["coverage"].as_object_mut() {
            for k in ["rule", "samples", "kinds", "dictionary_size", "classes"] {
                c.remove(k);
            }
        }
        v.as_object_mut().unwrap().remove("failure");
        further.insert(name.to_string(), v);
    }
    if !further.is_empty() {
        coverage["further_builds"] = Value::Object(further);
        coverage["note"] = json!("evaluations counts every build and the coverage-guided executions; distinct_nontrivial, classes and samples are those of the build with arithmetic checks, whose seed is VERIF_SEED");
    }
    evidence(&coverage, failed.is_some() as usize);
    if let Some((build, f)) = &mut failed {
        let exe = others.iter().filter_map(|o| o.split_once('=')).find(|(n, _)| n == build).map(|x| x.1.to_string());
        settle(id, &exe.unwrap_or(me), f);
        report(id, o.seed, build, f);
        return 1;
    }
    println!(
        "{id}: held on {} cases ({} distinct and non-trivial), {:.1} s",
        coverage["evaluations"],
        coverage["distinct_nontrivial"],
        start.elapsed().as_secs_f64()
    );
    0
}

/// The same cases from several threads for a while.
fn crowd(p: &Property, kind: &engine::Kind, args: &[u64], v: &Value) -> engine::Verdict {
    let mut cases: Vec<(&engine::Kind, Vec<u64>)> = vec![];
    for b in v["before"].as_array().into_iter().flatten() {
        if let Some(k) = p.kinds.iter().find(|k| b["kind"] == json!(k.name)) {
            cases.push((k, parse_args(&b["args"])));
        }
    }
    cases.push((kind, args.to_vec()));
    let begin = Instant::now();
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..v["threads"].as_u64().unwrap_or(1) as usize {
            let (cases, bad) = (&cases, &bad);
            s.spawn(move || {
                for (k, a) in cases.iter().cycle().skip(t) {
                    if begin.elapsed().as_secs() >= 8 || bad.lock().unwrap().is_some() {
                        return;
                    }
                    if let Err(m) = engine::judge(k, a) {
                        *bad.lock().unwrap() = Some(m);
                    }
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(m) => Err(m),
        None => engine::real("held in several threads"),
    }
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let p = props::get(id).expect("property");
    let kind = p.kinds.iter().find(|k| k.name == v["kind"].as_str().unwrap()).expect("kind");
    let args = parse_args(&v["args"]);
    // what has to happen before; its answers are judged too, but only the last one is reported
    for b in v["before"].as_array().into_iter().flatten() {
        if let Some(k) = p.kinds.iter().find(|k| b["kind"] == json!(k.name)) {
            let _ = engine::judge(k, &parse_args(&b["args"]));
        }
    }
    let mut verdict = engine::judge(kind, &args);
    if v["threads"].as_u64().unwrap_or(1) > 1 && verdict.is_ok() {
        verdict = crowd(&p, kind, &args, &v);
    }
    match verdict {
        Ok(c) => {
            println!("{id} {}: holds ({})", kind.name, c.label);
            0
        }
        Err(m) => {
            println!("{id} {} {:?}: {m}", kind.name, engine::hex(&args));
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    engine::install_panic_hook();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() >= 2 => check(&a[1], &a[2..]),
        Some("part") if a.len() == 4 => part(&a[1], &a[2], a[3].parse().unwrap()),
        // on a thread like those that search, with a stack of that size
        Some("replay") if a.len() == 2 => std::thread::scope(|s| s.spawn(|| replay(&a[1])).join().unwrap_or(2)),
        Some("list") => {
            for (id, _) in props::ALL {
                println!("{id}");
            }
            0
        }
        // the base list, after an intended change of the tree: vh literals > harness/base_literals.txt
        Some("literals") => {
            for (v, n) in engine::count_literals(&repo_src()) {
                println!("{v} {n}");
            }
            0
        }
        Some("within") if a.len() >= 3 && props::get(&a[1]).is_some() => {
            let n: Vec<u64> = a[2..].iter().map(|s| s.parse().unwrap()).collect();
            props::mixed::child(n[0] as usize, &n[1..]);
            0
        }
        Some("fingerprint") if a.len() >= 2 => {
            let n: Vec<u64> = a[1..].iter().map(|s| s.parse().unwrap()).collect();
            props::determinism::child(n[0] as usize, &n[1..]);
            0
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
