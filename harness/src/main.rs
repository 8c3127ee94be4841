//! Property-based checks of the colorspace crate. See ../DESIGN.md.
//!
//! csverif run ID --worker NAME:PATH[:asan]... --root DIR
//!     parent: runs the worker binaries, writes evidence, prints VIOLATION
//! csverif worker ID OUT [--journal DIR] [--only SUB]
//! csverif case ID SUB FILE        evaluate one case (child of the parent)
//! csverif replay FILE             evaluate a replay file, exit 1 if it fails
//! csverif shrink ID SUB SHARD IDX OUT SELF   minimise a crashing case
mod c_color;
mod c_math;
mod c_more;
mod c_rest;
mod calls;
mod c_spec;
mod engine;
mod fp;
mod gen;
mod parent;
mod refcolor;
mod refspec;
mod tables;

use engine::*;

pub fn properties() -> Vec<Property> {
    vec![
        c_color::c01(),
        c_color::c02(),
        c_color::c03(),
        c_color::c04(),
        c_color::c05(),
        c_color::c06(),
        c_color::c07(),
        c_color::c08(),
        c_color::c09(),
        c_math::c10(),
        c_math::c11(),
        c_spec::c12(),
        c_spec::c13(),
        c_spec::c14(),
        c_spec::c15(),
        c_spec::c16(),
        c_rest::c17(),
        c_rest::c18(),
        c_rest::c19(),
        c_rest::c20(),
        c_rest::c21(),
        calls::c22(),
        c_rest::c23(),
        calls::c24(),
        c_more::c25(),
        c_more::c26(),
    ]
}

pub fn find(id: &str) -> Property {
    properties().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in properties() {
                for s in &p.subs {
                    println!("{} {}", p.id, s.name());
                }
            }
        }
        "dump-tables" => println!("{}", serde_json::to_string(&tables::all()).unwrap()),
        "run" => std::process::exit(parent::run(&args[1], &args[2..])),
        "replay" => std::process::exit(parent::replay(&args[1], &args[2..])),
        "worker" => {
            install_quiet_panic_hook();
            let p = find(&args[1]);
            let deadline = std::env::var("CSVERIF_DEADLINE_S")
                .ok()
                .and_then(|s| s.parse::<u64>().ok())
                .map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s));
            let r = run_property(&p, seed(), tier(), opt(&args, "--journal"), opt(&args, "--only"), deadline);
            write_json(&args[2], &r);
        }
        "calls" => calls::calls_main(&args[1], &args[2]),
        "worn" => calls::worn_main(&args[1], &args[2]),
        "first-use" => calls::first_use_main(args[1].parse().expect("seed"), args[2] == "1", &args[3]),
        "case" => {
            // exit 0: held, 10: failed (reason on stderr), anything else: died
            install_quiet_panic_hook();
            let p = find(&args[1]);
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("case file")).expect("case json");
            match p.subs.iter().find(|s| s.name() == args[2]).expect("sub").replay(&v) {
                Ok(()) => std::process::exit(0),
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(10)
                }
            }
        }
        "shrink" => {
            install_quiet_panic_hook();
            let p = find(&args[1]);
            let s = p.subs.iter().find(|s| s.name() == args[2]).expect("sub");
            let (shard, idx): (u32, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            let dir = format!("{}.d", args[5]);
            std::fs::create_dir_all(&dir).unwrap();
            let me = std::env::current_exe().unwrap();
            let f = |v: &serde_json::Value| parent::case_dies(&me, &args[1], &args[2], v, &dir);
            let o = ShardOpts {
                seed: seed(),
                prop: p.id,
                shard,
                nshards: NSHARDS,
                tier: tier(),
                scale_pct: scale_pct(p.id, tier()),
                journal: None,
                deadline: None,
                crash: Some((idx, &f)),
            };
            if let Some(f) = s.run_shard(&o, &mut Stats::default()) {
                write_json(&args[5], &f);
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
        _ => {
            eprintln!("usage: csverif run|worker|case|replay|shrink|list ...");
            std::process::exit(2);
        }
    }
}
