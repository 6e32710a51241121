//! rustc driver: exports the monomorphic MIR reachable from the crate's entry points as JSON.
//!
//! Runs the ordinary compiler front end on the crate with the build's own flags. Before anything
//! steals the MIR it clones every body of the crate ("mir_promoted": after overflow checks and
//! bounds checks were inserted, before drop elaboration and optimisation), then collects every
//! instance reachable from `main`, from the crate's trait impls and from the unit's constants, and
//! writes them out with all callees resolved to instances.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod export;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        export::export(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && args[1].contains("rustc") && !args[1].starts_with('-') {
        args.remove(1);
    }
    let out = std::env::var("MIR_EXPORT_OUT").unwrap_or_default();
    let is_target = !out.is_empty()
        && args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && b == "bcalc")
        && !args.iter().any(|a| a == "--test");
    if is_target {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
