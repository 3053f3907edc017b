//! Static analyser for the language-tag crate: a rustc driver.
//!
//! Used as RUSTC_WRAPPER. Compiles every crate normally; for the crate under analysis it also
//! dumps facts, and for the harness crate it runs the abstract interpreter on each entry point.
#![feature(rustc_private)]
#![allow(clippy::too_many_arguments, clippy::type_complexity)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod abnf;
mod api;
mod auto;
mod effects;
mod facts;
mod interp;
mod models;
mod rank;
mod run;
mod spec;
mod val;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis(&mut self, _c: &Compiler, tcx: TyCtxt<'_>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        api::externs(tcx);
        match name.as_str() {
            "langtag" => {
                facts::dump(tcx);
                api::dump(tcx);
                effects::dump(tcx);
            }
            "lt_harness" => run::main(tcx),
            _ => {}
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: <self> <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
