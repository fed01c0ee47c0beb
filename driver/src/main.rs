//! rustc driver that dumps the resolved program (MIR, types, constants, call
//! targets) of the crate under analysis as JSON facts.
//!
//! It runs as RUSTC_WORKSPACE_WRAPPER. For every crate except the one named by
//! YV_CRATE it behaves exactly as rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let facts = dump::dump(tcx);
            let tmp = format!("{}.tmp", out);
            std::fs::write(&tmp, facts).expect("cannot write facts");
            std::fs::rename(&tmp, out).expect("cannot rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    let krate = std::env::var("YV_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate)
        && !args.iter().any(|a| a == "--test")
        && args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let mut cb = Cb { out: None };
    if is_target {
        cb.out = std::env::var("YV_OUT").ok();
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on", "-Cdebug-assertions=off", "-Zalways-encode-mir"] {
            args.push(a.to_string());
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
