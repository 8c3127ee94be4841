//! The parent process of a check: runs the workers (each a build of this
//! crate against /repo, possibly with another target feature or under a
//! sanitizer), survives their death, minimises crashes, writes the evidence.
use crate::engine::*;
use crate::{find, seed, tier};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug)]
enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}

fn wait(mut child: std::process::Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                return match st.code() {
                    Some(c) => End::Exit(c),
                    None => End::Signal(st.signal().unwrap_or(0)),
                }
            }
            None => {
                if t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 300 { 1 } else { 20 }));
            }
        }
    }
}

const ASAN_EXIT: i32 = 77;

fn command(exe: &Path, asan: bool) -> Command {
    // bound memory so that a runaway loop dies here and not in the sandbox
    let mut c;
    if asan {
        c = Command::new(exe);
        c.env("ASAN_OPTIONS", format!("exitcode={}:detect_leaks=0:abort_on_error=0:symbolize=0:hard_rss_limit_mb=16000:allocator_may_return_null=0", ASAN_EXIT));
    } else {
        c = Command::new("bash");
        c.arg("-c").arg("ulimit -v 16000000 -c 0; exec \"$@\"").arg("csverif").arg(exe);
    }
    c.env("MALLOC_MMAP_THRESHOLD_", "1073741824").env("MALLOC_TRIM_THRESHOLD_", "1073741824");
    c.stdin(Stdio::null()).stdout(Stdio::null());
    c
}

/// Did evaluating this case kill (or hang) the process?
pub fn case_dies(exe: &Path, id: &str, sub: &str, v: &serde_json::Value, dir: &str) -> bool {
    matches!(case_end(exe, id, sub, v, dir, std::env::var_os("CSVERIF_ASAN").is_some()), Some(End::Signal(_)) | Some(End::Exit(ASAN_EXIT)) | Some(End::Timeout))
}

fn case_end(exe: &Path, id: &str, sub: &str, v: &serde_json::Value, dir: &str, asan: bool) -> Option<End> {
    let f = format!("{}/case-{}.json", dir, std::process::id());
    std::fs::write(&f, serde_json::to_string(v).unwrap()).ok()?;
    let mut c = command(exe, asan);
    c.arg("case").arg(id).arg(sub).arg(&f).stderr(Stdio::null());
    let e = wait(c.spawn().ok()?, Duration::from_secs(20));
    let _ = std::fs::remove_file(&f);
    Some(e)
}

struct Worker {
    name: String,
    exe: std::path::PathBuf,
    asan: bool,
}

struct Outcome {
    report: Option<WorkerReport>,
    failures: Vec<Failure>,
    error: Option<String>,
}

fn read_journals(dir: &str) -> Vec<(String, u32, u64, serde_json::Value)> {
    let mut v = Vec::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.path().extension().map(|x| x == "journal").unwrap_or(false) {
                if let Ok(s) = std::fs::read(e.path()) {
                    let s = String::from_utf8_lossy(&s);
                    if s.len() > 10 {
                        if let Ok(n) = s[..10].trim().parse::<usize>() {
                            if let Some(j) = s.get(10..10 + n) {
                                if let Ok(x) = serde_json::from_str::<(String, u32, u64, serde_json::Value)>(j) {
                                    v.push(x);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v.sort_by_key(|x| x.1);
    v
}

fn run_worker(w: &Worker, id: &str, scratch: &str) -> Outcome {
    let quick = tier() == Tier::Quick;
    let (soft, hard) = if quick { (240u64, 330u64) } else { (3300, 3500) };
    let out = format!("{}/{}.json", scratch, w.name);
    let err = format!("{}/{}.stderr", scratch, w.name);
    let spawn = |journal: Option<&str>, limit: u64| -> End {
        let mut c = command(&w.exe, w.asan);
        c.arg("worker").arg(id).arg(&out).env("CSVERIF_DEADLINE_S", soft.to_string()).env("CSVERIF_SCRATCH", scratch);
        if let Some(j) = journal {
            c.arg("--journal").arg(j);
        }
        c.stderr(std::fs::File::create(&err).expect("stderr file"));
        wait(c.spawn().expect("spawn worker"), Duration::from_secs(limit))
    };
    let fatal = |m: String| Outcome {
        report: None,
        failures: vec![],
        error: Some(m),
    };
    let tail = || {
        let s = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).to_string();
        let n = s.len().saturating_sub(3000);
        s.get(n..).unwrap_or("").to_string()
    };
    let end = spawn(None, hard);
    let why = match end {
        End::Exit(0) => {
            let r: WorkerReport = match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                Some(r) => r,
                None => return fatal("worker left no report".into()),
            };
            let failures = r.failures.clone();
            return Outcome {
                report: Some(r),
                failures,
                error: None,
            };
        }
        End::Signal(9) => return fatal("worker was killed".into()),
        End::Exit(c) if c != ASAN_EXIT => return fatal(format!("worker exited with {}: {}", c, tail())),
        End::Exit(_) => format!("sanitizer report: {}", tail()),
        End::Signal(s) => format!("died with signal {}: {}", s, tail()),
        End::Timeout => "did not terminate".to_string(),
    };
    eprintln!("worker {} {}", w.name, why);
    // find the case: run again, journalling the case under evaluation
    let jd = format!("{}/{}.journals", scratch, w.name);
    std::fs::create_dir_all(&jd).expect("journal dir");
    let _ = spawn(Some(&jd), if quick { 150 } else { 3500 });
    let cands = read_journals(&jd);
    for (sub, shard, idx, case) in &cands {
        let e = case_end(&w.exe, id, sub, case, scratch, w.asan);
        let reason = match e {
            Some(End::Signal(s)) => format!("process died with signal {} while evaluating this case", s),
            Some(End::Exit(ASAN_EXIT)) => "memory error reported by the sanitizer while evaluating this case".to_string(),
            Some(End::Timeout) => "evaluation did not terminate within 20 s".to_string(),
            _ => continue,
        };
        let mut failure = Failure {
            sub: sub.clone(),
            reason: reason.clone(),
            case: case.clone(),
        };
        if !matches!(e, Some(End::Timeout)) {
            // minimise, evaluating every candidate in its own process
            let so = format!("{}/{}.shrunk", scratch, w.name);
            let mut c = Command::new(&w.exe);
            c.arg("shrink").arg(id).arg(sub).arg(shard.to_string()).arg(idx.to_string()).arg(&so);
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            if w.asan {
                c.env("CSVERIF_ASAN", "1");
            }
            if let Ok(ch) = c.spawn() {
                wait(ch, Duration::from_secs(120));
            }
            if let Some(f) = std::fs::read_to_string(&so).ok().and_then(|s| serde_json::from_str::<Failure>(&s).ok()) {
                failure.case = f.case;
            }
        }
        return Outcome {
            report: None,
            failures: vec![failure],
            error: None,
        };
    }
    fatal(format!("worker {} but no single case reproduces it ({} candidates)", why, cands.len()))
}

fn parse_workers(args: &[String]) -> Vec<Worker> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--worker" {
            let mut p = args[i + 1].splitn(2, ':');
            let name = p.next().unwrap().to_string();
            let exe = p.next().expect("--worker NAME:PATH").into();
            v.push(Worker {
                asan: name.contains("asan"),
                name,
                exe,
            });
            i += 1;
        }
        i += 1;
    }
    v
}

pub fn run(id: &str, args: &[String]) -> i32 {
    let t0 = Instant::now();
    let root = args.iter().position(|a| a == "--root").map(|i| args[i + 1].clone()).unwrap_or_else(|| ".".into());
    let note = args.iter().position(|a| a == "--note").map(|i| args[i + 1].clone());
    let workers = parse_workers(args);
    let p = find(id);
    let scratch = format!("{}/.scratch/{}-{}", root, id, std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::fs::create_dir_all(format!("{}/evidence", root)).expect("evidence dir");
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut nontrivial = 0;
    let mut samples = Vec::new();
    let mut per = serde_json::Map::new();
    let mut failures: Vec<(String, Failure)> = Vec::new();
    let mut errors = Vec::new();
    let many = workers.len() > 1;
    for w in &workers {
        let o = run_worker(w, id, &scratch);
        if let Some(r) = o.report {
            evaluations += r.evaluations;
            nontrivial += r.nontrivial;
            distinct += r.distinct_nontrivial;
            for (k, s) in r.per_sub {
                let key = if many { format!("{}:{}", w.name, k) } else { k };
                for x in &s.samples {
                    samples.push(serde_json::json!({"check": key, "case": x}));
                }
                per.insert(
                    key,
                    serde_json::json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial, "distinct_nontrivial": s.distinct_nontrivial, "classes": s.classes, "wall_s": s.wall_s}),
                );
            }
        }
        failures.extend(o.failures.into_iter().map(|f| (w.name.clone(), f)));
        if let Some(e) = o.error {
            errors.push(format!("{}: {}", w.name, e));
        }
        if !failures.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let _ = std::fs::remove_dir(format!("{}/.scratch", root));
    let tier_s = if tier() == Tier::Quick { "quick" } else { "thorough" };
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.extend(note);
    let ev = serde_json::json!({
        "property": id,
        "tier": tier_s,
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "nontrivial": nontrivial,
            "rule": p.rule,
            "samples": samples,
            "sub_checks": per,
            "builds": workers.iter().map(|w| w.name.clone()).collect::<Vec<_>>(),
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    write_json(&format!("{}/evidence/{}.json", root, id), &ev);
    if !failures.is_empty() {
        let dir = format!("{}/replays", root);
        std::fs::create_dir_all(&dir).expect("replays");
        for (w, f) in &failures {
            let path = format!("{}/{}-{}-{}-seed{}.json", dir, id, w, f.sub, seed());
            write_json(&path, &serde_json::json!({"property": id, "worker": w, "sub": f.sub, "reason": f.reason, "case": f.case}));
            eprintln!("{} {}: {}", id, f.sub, f.reason);
            println!("VIOLATION property={} replay={}", id, path);
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {}", e);
        }
        return 2;
    }
    if evaluations == 0 || distinct < 1 {
        eprintln!("error: no non-trivial case was evaluated");
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        id,
        evaluations,
        distinct,
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn replay(file: &str, args: &[String]) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let (id, sub, wname) = (v["property"].as_str().unwrap(), v["sub"].as_str().unwrap(), v["worker"].as_str().unwrap());
    let workers = parse_workers(args);
    let w = workers.iter().find(|w| w.name == wname).unwrap_or_else(|| {
        eprintln!("no build named {}", wname);
        std::process::exit(2)
    });
    let dir = std::env::temp_dir();
    let f = dir.join(format!("csverif-replay-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(&v["case"]).unwrap()).unwrap();
    let mut c = command(&w.exe, w.asan);
    c.arg("case").arg(id).arg(sub).arg(&f);
    let e = wait(c.spawn().expect("spawn"), Duration::from_secs(60));
    let _ = std::fs::remove_file(&f);
    match e {
        End::Exit(0) => {
            println!("{} {}: holds on this case", id, sub);
            0
        }
        e => {
            println!("{} {}: fails ({:?})", id, sub, e);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
    }
}
