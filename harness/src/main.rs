//! Runtime monitors for ginko. See /verif/DESIGN.md.
#![allow(dead_code)]

#[cfg(feature = "ast")]
mod astcmp;
mod checks;
mod env;
mod gen;
mod inproc;
mod model;
mod proc;
mod refparse;
mod rng;
mod supervise;
mod toks;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervise::check(&args[2..]),
        Some("worker") => supervise::worker(&args[2..]),
        Some("replay") => supervise::replay(&args[2..]),
        Some("list") => {
            for c in checks::CHECKS {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: gv check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
