//! rustc driver that dumps the resolved program of the crate being checked as JSON facts.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::LocalDefId;
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::{Body, Promoted};
use rustc_middle::ty::TyCtxt;
use rustc_data_structures::steal::Steal;
use std::collections::HashMap;
use std::sync::OnceLock;
extern crate rustc_data_structures;

type PromFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>);
static ORIG: OnceLock<PromFn> = OnceLock::new();

thread_local! {
    static STASH: std::cell::RefCell<HashMap<LocalDefId, Body<'static>>> = Default::default();
}

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<IndexVec<Promoted, Body<'tcx>>>) {
    let r = (ORIG.get().unwrap())(tcx, def);
    let b: Body<'tcx> = r.0.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    STASH.with(|s| s.borrow_mut().insert(def, b));
    r
}

pub fn stashed<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> Option<Body<'tcx>> {
    if !STASH.with(|s| s.borrow().contains_key(&def)) {
        if !tcx.is_mir_available(def.to_def_id()) {
            return None;
        }
        let _ = tcx.mir_promoted(def);
    }
    STASH.with(|s| {
        s.borrow().get(&def).map(|b| {
            let b: Body<'static> = b.clone();
            unsafe { std::mem::transmute(b) }
        })
    })
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper form: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MXFACTS_CRATE").unwrap_or_else(|_| "mx_message".into());
    let out = std::env::var("MXFACTS_OUT").unwrap_or_default();
    let mut crate_name = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            crate_name = args[i + 1].clone();
        }
        i += 1;
    }
    let is_test = args.iter().any(|a| a == "--test");
    if crate_name == want && !is_test && !out.is_empty() {
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
