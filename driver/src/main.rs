//! rustc driver: compiles one crate (the probe crate) exactly as rustc would and
//! dumps, as JSON, the fully resolved and monomorphised MIR of everything reachable
//! from its `probe_*` functions, together with type layouts and constant allocations.
//! For every other crate it behaves as plain rustc.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod inventory;

use std::{env, process};

fn main() {
	let args: Vec<String> = env::args().collect();
	// Arguments are as given to `rustc` (RUSTC=driver) or with path to `rustc` as 1st arg
	// (RUSTC_WORKSPACE_WRAPPER=driver)
	let mut rustc_args = args.clone();
	if rustc_args.len() > 1 && rustc_args[1].ends_with("rustc") {
		rustc_args.remove(1);
	}

	let crate_name = rustc_args
		.iter()
		.position(|a| a == "--crate-name")
		.and_then(|i| rustc_args.get(i + 1))
		.cloned()
		.unwrap_or_default();
	let wanted = env::var("SRV_DUMP_CRATES").unwrap_or_default();
	let is_wanted = wanted.split(',').any(|w| !w.is_empty() && w == crate_name);
	let inventories = env::var("SRV_INVENTORY_CRATES").unwrap_or_default();
	let is_listed = inventories.split(',').any(|w| !w.is_empty() && w == crate_name);
	let is_build_script = crate_name.starts_with("build_script");

	if !is_wanted && !is_listed || is_build_script || rustc_args.iter().any(|a| a == "--print=cfg") {
		let rustc = env::var("SRV_RUSTC").expect("SRV_RUSTC not set");
		let status = process::Command::new(rustc)
			.args(&rustc_args[1..])
			.status()
			.expect("failed to run rustc");
		process::exit(status.code().unwrap_or(1));
	}

	let out_dir = env::var("SRV_DUMP_DIR").expect("SRV_DUMP_DIR not set");
	let res = rustc_public::run_with_tcx!(&rustc_args, |tcx| {
		if is_listed {
			inventory::inventory(tcx, &format!("{}/{}.inv", out_dir, crate_name));
		}
		if is_wanted {
			dump::dump(&format!("{}/{}.json", out_dir, crate_name));
		}
		ControlFlow::<(), ()>::Continue(())
	});
	if res.is_err() {
		process::exit(1);
	}
}
