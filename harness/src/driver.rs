//! Command line of a harness: one child process per check, crash triage, replay.
use crate::core::*;
use std::io::Write;

#[global_allocator]
static A: CapAlloc = CapAlloc;

pub type Check = fn(&Ctx);
static REG: std::sync::OnceLock<fn() -> Vec<(&'static str, Check)>> = std::sync::OnceLock::new();

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn load_known(prop: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.jsonl", verif_dir());
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    t.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["status"] == "known" && v["property"] == prop)
        .map(|v| Known { key: v["key"].as_str().unwrap_or("").into(), what: v["what"].as_str().unwrap_or("").into() })
        .collect()
}
pub fn run(reg: fn() -> Vec<(&'static str, Check)>) {
    REG.set(reg).ok();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--child") => child(&args[2], &args[3], seed, &args[4], None),
        Some("--case") => child(&args[2], &args[3], args[4].parse().unwrap(), "", Some((args[5].clone(), args[6].parse().unwrap()))),
        Some("--replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            child(
                v["property"].as_str().unwrap(),
                v["tier"].as_str().unwrap(),
                v["seed"].as_u64().unwrap(),
                "",
                Some((v["group"].as_str().unwrap().into(), v["case"].as_u64().unwrap())),
            )
        }
        Some("--list") => {
            for (n, _) in REG.get().unwrap()() {
                println!("{n}");
            }
            0
        }
        Some(id) => parent(id, args.get(2).map(|s| s.as_str()).unwrap_or("quick"), seed),
        None => 2,
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
fn child(id: &str, tier: &str, seed: u64, progress: &str, only: Option<(String, u64)>) -> i32 {
    install_panic_hook();
    mute_stderr();
    unsafe {
        // no core files, and a ceiling that keeps a runaway case from hurting the sandbox
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        let m = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &m);
    }
    let Some((_, f)) = REG.get().unwrap()().into_iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut ctx = Ctx::new(id, tier, seed, load_known(id));
    if !progress.is_empty() {
        ctx.progress = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(progress).ok();
    }
    ctx.only = only;
    f(&ctx);
    ctx.finish(&verif_dir())
}
fn parent(id: &str, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let prog = dir.join("progress");
    let st = std::process::Command::new(&exe)
        .args(["--child", id, tier, prog.to_str().unwrap()])
        .env("VERIF_SEED", seed.to_string())
        .env("VH_SCRATCH", &dir)
        .status()
        .unwrap();
    let code = if let Some(c) = st.code() {
        c
    } else {
        let sig = st.signal().unwrap_or(0);
        eprintln!("worker died of signal {sig}");
        let mut code = 2;
        if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
            let known = load_known(id);
            let text = std::fs::read_to_string(&prog).unwrap_or_default();
            for line in text.lines() {
                let line = line.trim_matches(|c: char| c.is_whitespace() || c == '\0');
                let Some((g, c)) = line.rsplit_once(' ') else { continue };
                if g == "-" {
                    continue;
                }
                let Ok(cn) = c.parse::<u64>() else { continue };
                let mut ok = 0;
                for _ in 0..2 {
                    let s = std::process::Command::new(&exe)
                        .args(["--case", id, tier, &seed.to_string(), g, c])
                        .env("VH_SCRATCH", &dir)
                        .stdout(std::process::Stdio::null())
                        .status()
                        .unwrap();
                    if s.signal() == Some(sig) {
                        ok += 1;
                    }
                }
                if ok == 2 {
                    let key = format!("crash:{g}");
                    if known.iter().any(|k| k.key == key) {
                        continue;
                    }
                    let p = write_replay(&verif_dir(), id, tier, seed, g, cn, &key,
                        &format!("process killed by signal {sig} (abort, stack overflow or oversized allocation)"));
                    println!("VIOLATION property={id} replay={p}");
                    code = 1;
                }
            }
            if code == 1 {
                let ev = serde_json::json!({"property":id,"tier":tier,"seed":seed,"level":"exploration",
                    "coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"run ended by a crash of the code under test","samples":[]},
                    "wall_s":0.0,"violations":1});
                let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
                let _ = std::fs::write(format!("{}/evidence/{id}.json", verif_dir()), ev.to_string());
            }
        }
        code
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
