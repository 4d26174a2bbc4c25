//! Splits the cases of a check among worker processes, watches them, collects what they observed.
use crate::checks::{self, Check};
use crate::env::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// CPU seconds a single case may take within a worker
const CASE_CPU: u64 = 60;
const MAX_VIOLATIONS: usize = 3;

struct Opts {
    tier: String,
    seed: u64,
    bin: PathBuf,
    scratch: PathBuf,
    out: PathBuf,
    cases: Option<u64>,
    secs: Option<u64>,
    jobs: usize,
    rest: Vec<String>,
}

fn opts(args: &[String]) -> Opts {
    let mut o = Opts {
        tier: "quick".into(),
        seed: 1,
        bin: "/verif/target/debug".into(),
        scratch: std::env::temp_dir(),
        out: "/verif".into(),
        cases: None,
        secs: None,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        rest: vec![],
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("value").clone();
        match a.as_str() {
            "--tier" => o.tier = val(),
            "--seed" => {
                let v = val();
                o.seed = v.parse().unwrap_or_else(|_| crate::rng::hash_str(&v) >> 16);
            }
            "--bin" => o.bin = val().into(),
            "--scratch" => o.scratch = val().into(),
            "--out" => o.out = val().into(),
            "--cases" => o.cases = val().parse().ok(),
            "--secs" => o.secs = val().parse().ok(),
            "--jobs" => o.jobs = val().parse().unwrap(),
            _ => o.rest.push(a.clone()),
        }
    }
    o
}

fn find(id: &str) -> &'static Check {
    checks::CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no such check: {id}");
        std::process::exit(2)
    })
}

fn plan(c: &Check, o: &Opts) -> (u64, u64) {
    let (n, s) = if o.tier == "thorough" { c.thorough } else { c.quick };
    (o.cases.unwrap_or(n), o.secs.unwrap_or(s))
}

fn limit_as() {
    let r = libc::rlimit {
        rlim_cur: 3 << 30,
        rlim_max: 3 << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

/// worker ID --seed .. --tier .. SHARD SHARDS OUT
pub fn worker(args: &[String]) -> i32 {
    let o = opts(args);
    let check = find(&o.rest[0]);
    let shard: u64 = o.rest[1].parse().unwrap();
    let shards: u64 = o.rest[2].parse().unwrap();
    let out = PathBuf::from(&o.rest[3]);
    let (cases, secs) = plan(check, &o);
    // A server built with the thread sanitizer reserves far more address space than it uses
    if !o.bin.join("tsan").exists() {
        limit_as();
    }
    install_panic_hook();
    let mut env = Env::new(&o.tier, o.seed, o.scratch.clone(), o.bin.clone());
    let _ = CURRENT.set(std::fs::File::create(out.join("current")).unwrap());
    let begin = Instant::now();
    let mut violations = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut evaluated = 0u64;
    let mut case = shard;
    let mut cut = false;
    while case < cases {
        if begin.elapsed().as_secs() >= secs {
            cut = true;
            break;
        }
        mark_case(case);
        match (check.run)(&mut env, case) {
            Ok(()) => {}
            Err(Fail::Viol(v)) => {
                let files: BTreeMap<String, String> = v
                    .files
                    .iter()
                    .map(|(n, b)| (n.clone(), String::from_utf8_lossy(b).to_string()))
                    .collect();
                violations.push(json!({"case": case, "msg": v.msg, "files": files}));
                if violations.len() >= MAX_VIOLATIONS {
                    break;
                }
            }
            Err(Fail::Inconclusive(m)) => {
                inconclusive.push(format!("case {case}: {m}"));
                if inconclusive.len() >= 20 {
                    break;
                }
            }
        }
        evaluated += 1;
        case += shards;
    }
    let res = json!({
        "evaluated": evaluated,
        "cut": cut,
        "counters": env.counters,
        "distinct": env.distinct,
        "samples": env.samples,
        "facts": env.facts,
        "violations": violations,
        "inconclusive": inconclusive,
        "known": env.known,
    });
    std::fs::write(out.join("result.json"), res.to_string()).unwrap();
    0
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

struct Worker {
    child: Child,
    dir: PathBuf,
    case: String,
    cpu: u64,
    ended: Option<std::process::ExitStatus>,
    hung: bool,
}

fn read_case(dir: &Path) -> String {
    std::fs::read_to_string(dir.join("current")).unwrap_or_default()
}

fn load_known(out: &Path, id: &str) -> Vec<String> {
    let Ok(s) = std::fs::read_to_string(out.join("known-findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.starts_with(&format!("property={id} ")))
        .map(|l| l.to_string())
        .collect()
}

pub fn check(args: &[String]) -> i32 {
    let o = opts(args);
    let check = find(&o.rest[0]);
    let begin = Instant::now();
    let (cases, secs) = plan(check, &o);
    let jobs = o.jobs.min(check.max_jobs).min(cases.max(1) as usize);
    let known_listed = load_known(&o.out, check.id);
    let mut workers = vec![];
    for i in 0..jobs {
        let dir = o.scratch.join(format!("w{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.arg("worker")
            .arg(check.id)
            .arg(i.to_string())
            .arg(jobs.to_string())
            .arg(&dir)
            .args(["--tier", &o.tier])
            .args(["--seed", &o.seed.to_string()])
            .arg("--bin")
            .arg(&o.bin)
            .arg("--scratch")
            .arg(&dir)
            .args(["--cases", &cases.to_string()])
            .args(["--secs", &secs.to_string()])
            .arg("--out")
            .arg(&o.out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join("stderr")).unwrap());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        workers.push(Worker {
            child: cmd.spawn().expect("cannot spawn worker"),
            dir,
            case: String::new(),
            cpu: 0,
            ended: None,
            hung: false,
        });
    }
    // Watch
    loop {
        let mut open = false;
        for w in workers.iter_mut() {
            if w.ended.is_some() {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => w.ended = Some(st),
                _ => {
                    open = true;
                    let case: String = read_case(&w.dir).chars().take(20).collect();
                    let Some(cpu) = cpu_ticks(w.child.id()) else { continue };
                    if case != w.case {
                        w.case = case;
                        w.cpu = cpu;
                    } else if cpu.saturating_sub(w.cpu) > CASE_CPU * 100 && !w.case.is_empty() {
                        w.hung = true;
                        let _ = w.child.kill();
                    }
                }
            }
        }
        if !open {
            break;
        }
        if begin.elapsed().as_secs() > secs + 240 {
            for w in workers.iter_mut() {
                let _ = w.child.kill();
            }
            eprintln!("{}: the workers do not end", check.id);
            std::thread::sleep(Duration::from_millis(200));
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // Collect
    let mut evaluated = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut facts = 0u64;
    let mut violations: Vec<Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut known: Vec<String> = vec![];
    let mut cut = false;
    for w in &workers {
        let st = w.ended.unwrap();
        let current = read_case(&w.dir);
        let sut = current.ends_with('S');
        let case = current.trim_end_matches(['S', 'H']).to_string();
        let err = std::fs::read_to_string(w.dir.join("stderr")).unwrap_or_default();
        let tail: String = {
            let c: Vec<char> = err.chars().collect();
            c[c.len().saturating_sub(2000)..].iter().collect()
        };
        let n: u64 = case.parse().unwrap_or(u64::MAX);
        if (w.hung || st.signal().is_some()) && !sut {
            inconclusive.push(format!("the harness failed with {st:?} in case {case}: {tail}"));
            continue;
        }
        if w.hung {
            violations.push(json!({"case": n, "files": {}, "msg":
                format!("the code under test did not finish within {CASE_CPU} s of cpu time")}));
            continue;
        }
        if let Some(sig) = st.signal() {
            if sig == libc::SIGKILL || sig == libc::SIGTERM {
                inconclusive.push(format!("worker was killed (case {case})"));
            } else {
                violations.push(json!({"case": n, "files": {}, "msg":
                    format!("the code under test ended the process with signal {sig}: {tail}")}));
            }
            continue;
        }
        if st.code() != Some(0) {
            inconclusive.push(format!("worker failed with {st:?} in case {case}: {tail}"));
            continue;
        }
        let Ok(res) = std::fs::read_to_string(w.dir.join("result.json"))
            .map_err(|e| e.to_string())
            .and_then(|s| serde_json::from_str::<Value>(&s).map_err(|e| e.to_string()))
        else {
            inconclusive.push(format!("no result of a worker: {tail}"));
            continue;
        };
        evaluated += res["evaluated"].as_u64().unwrap();
        facts += res["facts"].as_u64().unwrap();
        cut |= res["cut"].as_bool().unwrap();
        for (k, v) in res["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        distinct.extend(res["distinct"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()));
        if samples.len() < 3 {
            samples.extend(res["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        violations.extend(res["violations"].as_array().unwrap().iter().cloned());
        inconclusive.extend(res["inconclusive"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()));
        known.extend(res["known"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()));
    }
    // Known findings that were observed; those that are not listed are violations
    known.sort();
    known.dedup();
    for k in &known {
        let line = format!("property={} {k}", check.id);
        if known_listed.contains(&line) {
            println!("KNOWN-FINDING: {line}");
        } else {
            violations.push(json!({"case": u64::MAX, "files": {}, "msg": k}));
        }
    }
    violations.sort_by_key(|v| v["case"].as_u64());
    let wall = begin.elapsed().as_secs_f64();
    let replay_dir = o.out.join("replay").join(check.id);
    let _ = std::fs::remove_dir_all(&replay_dir);
    for (i, v) in violations.iter().enumerate() {
        let case = v["case"].as_u64().unwrap_or(u64::MAX);
        std::fs::create_dir_all(&replay_dir).unwrap();
        let p = replay_dir.join(format!("{i}.json"));
        let full = json!({"check": check.id, "tier": o.tier, "seed": o.seed, "case": case,
            "msg": v["msg"], "files": v["files"]});
        std::fs::write(&p, serde_json::to_string_pretty(&full).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", check.id, p.display());
        let msg: String = v["msg"].as_str().unwrap_or("").chars().take(1500).collect();
        println!("  case {case}: {}", msg.replace('\n', "\n  "));
    }
    counters.insert("facts compared".into(), facts);
    let mut coverage = json!({
        "evaluations": evaluated,
        "distinct_nontrivial": distinct.len(),
        "rule": check.rule,
        "samples": samples,
        "planned_cases": cases,
        "stopped_by_time": cut,
        "workers": jobs,
        "inconclusive_cases": inconclusive.len(),
        "observed": counters,
        "known_findings_observed": known.len(),
    });
    if let Ok(extra) = std::env::var("GV_EXTRA") {
        if let Ok(v) = serde_json::from_str::<Value>(&extra) {
            coverage["extra"] = v;
        }
    }
    let ev = json!({
        "property": check.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": coverage,
        "wall_s": wall,
        "assumptions": check.assumptions,
        "violations": violations.len(),
    });
    std::fs::create_dir_all(o.out.join("evidence")).unwrap();
    std::fs::write(
        o.out.join("evidence").join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    for i in inconclusive.iter().take(5) {
        eprintln!("{}: inconclusive: {i}", check.id);
    }
    if !violations.is_empty() {
        return 1;
    }
    println!(
        "{} {}: {evaluated} cases, {} distinct, {facts} facts compared, {wall:.1} s{}",
        check.id,
        o.tier,
        distinct.len(),
        if cut { " (stopped by time)" } else { "" }
    );
    if evaluated == 0 || distinct.is_empty() || inconclusive.len() as u64 * 10 > evaluated {
        eprintln!("{}: no verdict", check.id);
        return 2;
    }
    0
}

/// replay FILE: runs the recorded case again
pub fn replay(args: &[String]) -> i32 {
    let o = opts(args);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&o.rest[0]).expect("replay file")).expect("json");
    let check = find(v["check"].as_str().unwrap());
    install_panic_hook();
    let mut env = Env::new(
        v["tier"].as_str().unwrap(),
        v["seed"].as_u64().unwrap(),
        o.scratch.clone(),
        o.bin.clone(),
    );
    env.verbose = true;
    match (check.run)(&mut env, v["case"].as_u64().unwrap()) {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(Fail::Viol(x)) => {
            println!("VIOLATION property={} replay={}", check.id, o.rest[0]);
            println!("{}", x.msg);
            for (n, b) in x.files {
                println!("--- {n}\n{}", String::from_utf8_lossy(&b));
            }
            1
        }
        Err(Fail::Inconclusive(m)) => {
            println!("inconclusive: {m}");
            2
        }
    }
}
