//! amsim: deterministic simulation of accountmerge.
//!   amsim check PROP     seeded search (VERIF_SEED, VERIF_TIER)
//!   amsim replay FILE    re-execute a replay file
//!   amsim selftest       determinism of the simulator itself
//!   amsim trace ARGS...  one command in an example world, with its calls
#![allow(non_upper_case_globals)]
mod bank;
mod closure;
mod common;
mod disk;
mod engine;
mod gen;
mod helpers;
mod hist;
mod io;
mod ledger;
mod machine;
mod model;
mod multi;
mod orderly;
mod privacy;
mod reject;
mod rng;
mod types;

use engine::{Options, Prop};
use std::path::PathBuf;
use std::sync::Arc;

fn props() -> Vec<Box<dyn Prop>> {
    vec![Box::new(io::C01), Box::new(io::C02), Box::new(reject::C03), Box::new(io::C04), Box::new(io::C05), Box::new(multi::C06), Box::new(bank::C07), Box::new(hist::C08), Box::new(hist::C09), Box::new(hist::C10), Box::new(multi::C11), Box::new(multi::C12), Box::new(io::C13), Box::new(multi::C14), Box::new(bank::C15), Box::new(hist::C16), Box::new(io::C17), Box::new(privacy::C18), Box::new(orderly::C19), Box::new(closure::C20)]
}

fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}

fn main() {
    // The same address layout in every run; the shim perturbs it by seed.
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        if libc::personality(0xffff_ffff) as libc::c_ulong & ADDR_NO_RANDOMIZE == 0 {
            libc::personality(ADDR_NO_RANDOMIZE);
        }
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::umask(0o022);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("AM_VERIF").unwrap_or("/verif".into()));
    let build = verif.join(".build");
    let cfg = Arc::new(machine::Config {
        bin: std::env::var("AM_BIN").map(PathBuf::from).unwrap_or(build.join("am/debug/accountmerge")),
        shim: build.join("shim.so"),
    });
    for f in [&cfg.bin, &cfg.shim] {
        if !f.exists() {
            eprintln!("{} is missing: run through /verif/run.sh", f.display());
            std::process::exit(2);
        }
    }
    let find = |id: &str| -> Box<dyn Prop> {
        props().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2);
        })
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            let o = Options {
                cfg,
                verif,
                seed: env_u64("VERIF_SEED").unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
                runs: env_u64("AM_RUNS"),
                secs: env_u64("AM_SECS"),
                workers: env_u64("AM_WORKERS").map(|n| n as usize).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
            };
            engine::check(&*find(&args[1]), &o)
        }
        Some("replay") if args.len() >= 2 => {
            let t = std::fs::read_to_string(&args[1]).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
            engine::replay(&*find(v["property"].as_str().unwrap_or("")), std::path::Path::new(&args[1]), cfg)
        }
        Some("selftest") => engine::selftest(&props(), cfg, env_u64("VERIF_SEED").unwrap_or(1), env_u64("AM_RUNS").unwrap_or(20)),
        Some("trace") => {
            let scratch = engine::scratch_base();
            let mut m = machine::Machine::new(cfg, &scratch, "w0");
            m.reset(&[types::FileSpec::file("a.journal", "2020-01-02 x\n  foo  GBP 10.00\n  bar  GBP -10.00\n")]);
            match m.run(&types::Cmd::new(&args[1..]), 0) {
                Ok(r) => {
                    print!("{}", r.trace_text());
                    println!("{:?}\n{}\n{}", r.exit, String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
                    for (k, v) in m.tree() {
                        println!("{k}: {v:?}");
                    }
                }
                Err(e) => eprintln!("{e:?}"),
            }
            let _ = std::fs::remove_dir_all(scratch);
            0
        }
        _ => {
            eprintln!("usage: amsim check PROP | replay FILE | selftest | trace ARGS");
            2
        }
    };
    std::process::exit(code);
}
