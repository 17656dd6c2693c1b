#[path = "../../harness/src/engine.rs"]
mod engine;
mod p_bind;
mod p_pip;
mod p_run;
mod prog;

use engine::{Property, Tier};
use std::path::PathBuf;

fn properties() -> Vec<Property> {
    let p = |id: &'static str, jobs: fn(Tier) -> Vec<engine::Job>, a: &[&str]| Property {
        id,
        jobs,
        assumptions: a.iter().map(|s| (*s).to_string()).collect(),
    };
    let llvm = "the runner's sources are compiled against a stand-in for the inkwell crate over LLVM 18 (the real one needs LLVM 20 and the network)";
    vec![p("C29", p_run::c29, &[llvm]), p("C31", p_pip::c31, &[llvm, "the Python binding is compiled against a stand-in for pyo3"]), p("C30", p_bind::c30, &[llvm])]
}

fn main() {
    engine::install_quiet_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == p_pip::SCRIPT) {
        // the program as the Python interpreter starts it: this program is the interpreter, the first argument the script
        std::process::exit(match qirrunner::main(None) {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                3
            }
        });
    }
    engine::main_with(properties(), &args, PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())));
}
