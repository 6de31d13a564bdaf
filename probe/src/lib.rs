//! Vocabulary of the specification harnesses ("probes").
//!
//! A probe is a function `probe_*` of one of the binaries in `src/bin`. It's never run: checks
//! analyse its MIR together with that of everything it calls. Inputs come from `any()` and
//! memory with arbitrary content from `any_slice()`; obligations are stated with `prove()`.
#![allow(clippy::all, dead_code)]

use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};

mod raw {
	extern "Rust" {
		pub fn sv_any() -> usize;
		pub fn sv_assume(c: bool);
		pub fn sv_prove(p: &'static str, c: bool);
		pub fn sv_fail(p: &'static str);
		pub fn sv_reach(p: &'static str);
		pub fn sv_split(c: bool) -> bool;
		pub fn sv_mem(size: usize, align: usize) -> *mut u8;
		pub fn sv_heap(size: usize, align: usize) -> *mut u8;
		pub fn sv_havoc_mem(p: *const u8);
		pub fn sv_freeze(p: *const u8);
		pub fn sv_thaw(p: *const u8);
		pub fn sv_is_live(p: *const u8) -> bool;
		pub fn sv_panic_ok(c: bool);
		pub fn sv_panic_reset();
		pub fn sv_leak_ok();
		pub fn sv_ghost_get(i: usize) -> usize;
		pub fn sv_ghost_set(i: usize, v: usize);
		pub fn sv_panic() -> ();
		pub fn sv_try(f: fn(*mut u8), data: *mut u8) -> bool;
		pub fn sv_snap(p: *const u8) -> usize;
		pub fn sv_bytes_eq(t: &'static str, a: *const u8, b: *const u8, n: usize);
		pub fn sv_snap_eq(t: &'static str, a: *const u8, snap: usize, off: usize, n: usize);
	}
}

/// Arbitrary number
#[inline(always)]
pub fn any() -> usize {
	unsafe { raw::sv_any() }
}

/// Restrict analysis to inputs satisfying `c`
#[inline(always)]
pub fn assume(c: bool) {
	unsafe { raw::sv_assume(c) }
}

/// Obligation. `p` is "<property>: <rule>"
#[inline(always)]
pub fn prove(p: &'static str, c: bool) {
	unsafe { raw::sv_prove(p, c) }
}

/// Obligation: this is not reachable
#[inline(always)]
pub fn fail(p: &'static str) {
	unsafe { raw::sv_fail(p) }
}

/// Case must be reachable. Checked to guard against vacuous probes
#[inline(always)]
pub fn reach(p: &'static str) {
	unsafe { raw::sv_reach(p) }
}

/// Case split
#[inline(always)]
pub fn split(c: bool) -> bool {
	unsafe { raw::sv_split(c) }
}

/// Both `true` and `false`
#[inline(always)]
pub fn either() -> bool {
	split(any() == 0)
}

/// Arbitrary one of `0..n`, concretely
#[inline(always)]
pub fn choose(n: usize) -> usize {
	let mut i = 0;
	while i + 1 < n {
		if either() {
			return i;
		}
		i += 1;
	}
	i
}

/// Memory with arbitrary content, not owned by anyone
#[inline(always)]
pub fn mem(size: usize, align: usize) -> *mut u8 {
	unsafe { raw::sv_mem(size, align) }
}

/// Heap allocation with arbitrary content
#[inline(always)]
pub fn heap(size: usize, align: usize) -> *mut u8 {
	unsafe { raw::sv_heap(size, align) }
}

/// Make content of an allocation arbitrary
#[inline(always)]
pub fn havoc(p: *const u8) {
	unsafe { raw::sv_havoc_mem(p) }
}

/// From now on nobody may write to this allocation
#[inline(always)]
pub fn freeze<T>(p: *const T) {
	unsafe { raw::sv_freeze(p as *const u8) }
}

#[inline(always)]
pub fn thaw<T>(p: *const T) {
	unsafe { raw::sv_thaw(p as *const u8) }
}

#[inline(always)]
pub fn is_live(p: *const u8) -> bool {
	unsafe { raw::sv_is_live(p) }
}

/// Panics are allowed from now on if `c`
#[inline(always)]
pub fn panic_ok(c: bool) {
	unsafe { raw::sv_panic_ok(c) }
}

#[inline(always)]
pub fn panic_reset() {
	unsafe { raw::sv_panic_reset() }
}

#[inline(always)]
pub fn leak_ok() {
	unsafe { raw::sv_leak_ok() }
}

#[inline(always)]
pub fn ghost(i: usize) -> usize {
	unsafe { raw::sv_ghost_get(i) }
}

#[inline(always)]
pub fn set_ghost(i: usize, v: usize) {
	unsafe { raw::sv_ghost_set(i, v) }
}

/// User code panics here
#[inline(always)]
pub fn inject_panic() {
	unsafe { raw::sv_panic() }
}

/// Call `f`. Returns `true` if it panicked
#[inline(always)]
pub fn catch<F: FnOnce()>(f: F) -> bool {
	fn call<F: FnOnce()>(p: *mut u8) {
		let f = unsafe { std::ptr::read(p as *const F) };
		f()
	}
	let mut f = std::mem::ManuallyDrop::new(f);
	unsafe { raw::sv_try(call::<F>, &mut f as *mut _ as *mut u8) }
}

/// Remember content of an allocation
#[inline(always)]
pub fn snap(p: *const u8) -> usize {
	unsafe { raw::sv_snap(p) }
}

#[inline(always)]
pub fn bytes_eq(t: &'static str, a: *const u8, b: *const u8, n: usize) {
	unsafe { raw::sv_bytes_eq(t, a, b, n) }
}

#[inline(always)]
pub fn snap_eq(t: &'static str, a: *const u8, snap: usize, off: usize, n: usize) {
	unsafe { raw::sv_snap_eq(t, a, snap, off, n) }
}

/// Defines functions `probe_*`
#[macro_export]
macro_rules! probes {
	($($name:ident: $e:expr;)*) => {
		$( #[allow(non_snake_case)] pub mod $name { use super::*; pub fn probe() { $e } } )*
	};
}

#[macro_use]
pub mod content;
pub mod bigint;
pub mod custom;
pub mod many;
pub mod panics;
pub mod raw_ops;
pub mod ser;
pub mod spec;
pub mod st;
pub mod types;
pub mod user;
pub mod val;
pub mod visits;
