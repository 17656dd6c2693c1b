#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
mod p_capi;

use engine::Property;
use std::path::PathBuf;

fn main() {
    engine::install_quiet_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = vec![Property {
        id: "C33",
        jobs: p_capi::c33,
        assumptions: vec!["the header is compiled as C++ by g++ on Linux; the module definition file is read, not used to link (it is for Windows)".into()],
    }];
    engine::main_with(props, &args, PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())));
}
