#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod bits;
mod entry;
mod facts;
mod interp;
mod intrinsics;
mod json;
mod state;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("VP_MODE").as_deref() == Ok("facts") {
            facts::run(tcx);
            return Compilation::Continue;
        }
        if std::env::var("VP_MODE").as_deref() == Ok("docs") {
            facts::run_docs(tcx);
            return Compilation::Stop;
        }
        if std::env::var("VP_OUT").is_ok() {
            entry::run(tcx);
            return Compilation::Stop;
        }
        Compilation::Continue
    }
}

fn main() {
    // deep call graphs are analysed recursively
    unsafe { std::env::set_var("RUST_MIN_STACK", (3u64 << 30).to_string()); }
    let mut args: Vec<String> = std::env::args().collect();
    // used as a wrapper: the first argument is the real compiler
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let c = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if c == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
