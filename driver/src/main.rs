//! RUSTC_WORKSPACE_WRAPPER that compiles a crate as usual and, on the way, writes the type-checked MIR of
//! every local body (before drop elaboration / coroutine transformation) as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use std::{cell::RefCell, process::exit};

use rustc_driver::Compilation;
use rustc_hir::def_id::LocalDefId;
use rustc_index::IndexVec;
use rustc_interface::interface::Compiler;
use rustc_middle::{
  mir::{Body, BorrowCheckResult, Promoted},
  ty::TyCtxt,
  util::Providers,
};

pub struct Stored {
  pub def: LocalDefId,
  pub body: Body<'static>,
  pub promoted: IndexVec<Promoted, Body<'static>>,
}

thread_local! {
  pub static BODIES: RefCell<Vec<Stored>> = RefCell::new(Vec::new());
}

fn mir_borrowck(tcx: TyCtxt<'_>, def_id: LocalDefId) -> &BorrowCheckResult<'_> {
  let (b, p) = tcx.mir_promoted(def_id);
  let body = b.borrow().clone();
  let promoted = p.borrow().clone();
  // SAFETY: read back only while `tcx` lives (after_analysis).
  let st = unsafe {
    Stored {
      def: def_id,
      body: std::mem::transmute::<Body<'_>, Body<'static>>(body),
      promoted: std::mem::transmute::<
        IndexVec<Promoted, Body<'_>>,
        IndexVec<Promoted, Body<'static>>,
      >(promoted),
    }
  };
  BODIES.with(|v| v.borrow_mut().push(st));
  let mut providers = Providers::default();
  rustc_borrowck::provide(&mut providers);
  (providers.mir_borrowck)(tcx, def_id)
}

struct Cb {
  out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    config.override_queries = Some(|_s, p: &mut Providers| p.mir_borrowck = mir_borrowck);
    // never reuse borrowck results from an incremental cache
    config.opts.incremental = None;
  }

  fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    if let Some(out) = &self.out {
      let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
      let is_bin = tcx
        .crate_types()
        .iter()
        .any(|t| matches!(t, rustc_session::config::CrateType::Executable));
      let name = format!("{}-{}.json", krate, if is_bin { "bin" } else { "lib" });
      let text = dump::dump_crate(tcx);
      let tmp = format!("{out}/.{name}.{}", std::process::id());
      std::fs::write(&tmp, text).expect("mirdump: cannot write");
      std::fs::rename(&tmp, format!("{out}/{name}")).expect("mirdump: cannot rename");
    }
    Compilation::Continue
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  // invoked as: mirdump /path/to/rustc args...
  args.remove(0);
  let probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
    || !args.iter().any(|a| a == "--crate-name");
  let build_script = args
    .iter()
    .position(|a| a == "--crate-name")
    .map(|i| args[i + 1].starts_with("build_script"))
    .unwrap_or(false);
  let out = if probe || build_script { None } else { std::env::var("MIRDUMP_OUT").ok() };
  let mut cb = Cb { out };
  exit(rustc_driver::catch_with_exit_code(|| {
    rustc_driver::RunCompiler::new(&args, &mut cb).run();
    Ok(())
  }))
}
