mod engine;
mod gen;
mod ops;
mod sel;
mod evo;
mod breed;
mod misc;
mod iso;
mod alive;
mod custom;
mod stat;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

fn subs_of(prop: &str) -> Option<(Vec<Box<dyn Sub>>, &'static [&'static str])> {
    let all = [ops::subs, sel::subs, evo::subs, breed::subs, misc::subs, iso::subs, alive::subs, custom::subs];
    for f in all {
        if let Some(s) = f(prop) {
            return Some(s);
        }
    }
    None
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_quiet_hook();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    match args.get(1).map(String::as_str) {
        Some("run") => run(&args[2], &dir),
        Some("replay") => replay(Path::new(&args[2])),
        Some("list") => {
            for prop in (1..100).map(|k| format!("C{k:02}")) {
                for sub in subs_of(&prop).iter().flat_map(|s| &s.0) {
                    println!("{prop}\t{}\t{}", sub.name(), sub.rule());
                }
            }
        }
        _ => {
            eprintln!("usage: harness run <property> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn run(prop: &str, dir: &Path) {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Ctx { tier, seed };
    let Some((subs, assumptions)) = subs_of(prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no answer within {limit} s (inconclusive)");
        std::process::exit(3);
    });
    let start = std::time::Instant::now();
    {
        // A case that never ends is a violation too: every operation of the library terminates.
        let (prop, dir) = (prop.to_string(), dir.to_path_buf());
        let limit = if tier == Tier::Quick { 180 } else { 1200 };
        std::thread::spawn(move || {
            let f = wait_for_endless_case(std::time::Duration::from_secs(limit));
            let out = Outcome { failure: Some(f), per_sub: vec![] };
            let ev = evidence(&prop, &ctx, &out, start.elapsed().as_secs_f64(), &["stopped at a case that did not end"]);
            std::fs::create_dir_all(dir.join("evidence")).unwrap();
            std::fs::write(dir.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            report(&prop, &dir, seed, out.failure.unwrap())
        });
    }
    let out = run_all(prop, &subs, &ctx);
    let wall = start.elapsed().as_secs_f64();
    std::fs::create_dir_all(dir.join("evidence")).unwrap();
    let ev = evidence(prop, &ctx, &out, wall, assumptions);
    std::fs::write(
        dir.join("evidence").join(format!("{prop}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{prop}: {} cases, {} distinct non-trivial, {:.1} s",
        ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["per_check"]).unwrap());
        println!("slowest case: {} ms", SLOWEST.load(std::sync::atomic::Ordering::Relaxed));
    }
    if let Some(f) = out.failure {
        report(prop, dir, seed, f);
    }
}

/// Writes the replay file, prints the VIOLATION line and exits.
fn report(prop: &str, dir: &Path, seed: u64, f: Failure) -> ! {
    let rdir = dir.join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    let path = rdir.join(format!("{prop}-{}.json", f.sub));
    let v = json!({"property": prop, "check": f.sub, "seed": seed, "shard": f.shard, "message": f.message, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("{prop}/{}: {}", f.sub, f.message);
    println!("VIOLATION property={prop} replay={}", path.display());
    std::process::exit(1);
}

fn replay(file: &Path) {
    std::thread::spawn(|| {
        let f = wait_for_endless_case(std::time::Duration::from_secs(300));
        println!("{}: {}\nVIOLATION (a recorded case that does not end)", f.sub, f.message);
        std::process::exit(1);
    });
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let check = v["check"].as_str().unwrap();
    let (subs, _) = subs_of(prop).unwrap();
    let sub = subs.iter().find(|s| s.name() == check).unwrap();
    // Several attempts: a failure may depend on the schedule of the worker threads.
    for _ in 0..20 {
        if let Err(m) = sub.replay(&v["case"]) {
            println!("{prop}/{check}: {m}");
            println!("VIOLATION property={prop} replay={}", file.display());
            std::process::exit(1);
        }
    }
    println!("{prop}/{check}: the recorded case holds on this tree");
}
