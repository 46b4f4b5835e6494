#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code)]
mod dict;
mod doc;
mod exec;
mod faults;
mod json;
mod net;
mod plan;
mod rng;
mod rt;
mod runner;
mod shm;
mod texts;
mod vfs;

#[global_allocator]
static HEAP: rt::Heap = rt::Heap;

extern "C" {
    fn personality(p: u64) -> i32;
}

fn main() {
    // Addresses are part of an execution: fix them.
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("SIM_FIXED").is_none() && personality(cur as u64 | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("SIM_FIXED", "1").exec();
            eprintln!("sim: cannot start again: {}", e);
        }
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
    let workers: usize = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let verbose = a.iter().any(|x| x == "-v" || x == "--verbose");
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(&a[1], &tier, seed, workers, &root, opt("--runs").and_then(|s| s.parse().ok())),
        Some("replay") => runner::replay(&a[1], verbose),
        Some("show") => runner::show(&a[1], seed, a[2].parse().unwrap(), tier == "thorough", verbose),
        Some("dict") => {
            println!("{:?}", dict::source());
            0
        }
        Some("selftest") => runner::selftest(seed),
        Some("stress") => runner::stress(&a[1], seed, opt("--from").and_then(|s| s.parse().ok()).unwrap_or(0), opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(20), opt("--times").and_then(|s| s.parse().ok()).unwrap_or(200)),
        Some("all") => {
            // every failing run, not only the first (development)
            let n = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(1000);
            let r = runner::search(&a[1], seed, 0, n, tier == "thorough", workers, 3600.0, false);
            println!("{} runs in {:.1} s, {} histories, {} schedules, refs {}, skipped {}", r.runs, r.wall, r.hist.len(), r.sched.len(), r.refs, r.skipped);
            0
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE [-v] | show PROP RUN [-v] | selftest | all PROP --runs N");
            2
        }
    };
    std::process::exit(code);
}
