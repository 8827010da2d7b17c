//! Static-analysis driver: type checks a crate with the real compiler flags and then answers
//! questions about the type-checked program (MIR of instances, types, trait obligations,
//! signatures, visibilities) over a line based JSON protocol.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

#[macro_use]
mod json;
mod serve;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    serve: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.serve {
            serve::serve(tcx);
            Compilation::Stop
        } else {
            Compilation::Continue
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if let Ok(_) = std::env::var("DYNC_SERVE") {
        // args: driver <rustc args...>
        rustc_driver::compiler_entrypoint(&args, &mut Cb { serve: true });
        return;
    }
    // wrapper mode: driver rustc <args...>. Record the command line of the crate of interest.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    if let (Ok(out), Ok(name)) = (std::env::var("DYNC_RECORD"), std::env::var("DYNC_CRATE")) {
        let is = args
            .windows(2)
            .any(|w| w[0] == "--crate-name" && w[1] == name);
        let test = args.iter().any(|a| a == "--test");
        if is && !test {
            let mut o = String::new();
            for a in &args[1..] {
                o.push_str(a);
                o.push('\0');
            }
            std::fs::write(out, o).unwrap();
        }
    }
    let st = std::process::Command::new(&args[0])
        .args(&args[1..])
        .status()
        .expect("cannot run rustc");
    std::process::exit(st.code().unwrap_or(1));
}
