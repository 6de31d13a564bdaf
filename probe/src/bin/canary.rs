//! Everything which the effects rule must notice. Checks that it does on every run.
#![allow(dead_code, static_mut_refs)]
use std::{
	cell::Cell,
	rc::Rc,
	sync::atomic::{AtomicUsize, Ordering},
};

static mut COUNT: usize = 0;
static CELL: AtomicUsize = AtomicUsize::new(0);
thread_local! {
	static LOCAL: Cell<usize> = const { Cell::new(0) };
}
extern "C" {
	fn getpid() -> i32;
}

pub fn count() -> usize {
	unsafe {
		COUNT += 1;
		COUNT
	}
}

pub fn cell() -> usize {
	CELL.fetch_add(1, Ordering::Relaxed)
}

pub fn local() -> usize {
	LOCAL.with(|l| l.get())
}

pub fn pid() -> i32 {
	unsafe { getpid() }
}

pub fn env() -> bool {
	std::env::var("X").is_ok()
}

pub fn file() -> bool {
	std::fs::read("/nonexistent").is_ok()
}

pub fn print() {
	println!("x");
}

pub fn clock() -> std::time::Instant {
	std::time::Instant::now()
}

pub fn generic<T>(_: T) -> std::time::SystemTime {
	std::time::SystemTime::now()
}

pub fn map() -> usize {
	std::collections::HashMap::<u8, u8>::new().capacity()
}

pub fn cycles() -> u64 {
	unsafe { std::arch::x86_64::_rdtsc() }
}

pub fn assembly() {
	unsafe { std::arch::asm!("nop") }
}

pub struct Unsound {
	cell: Cell<u8>,
	rc: Rc<u8>,
}
unsafe impl Send for Unsound {}
unsafe impl Sync for Unsound {}

pub struct Open<T> {
	item: *mut T,
}
unsafe impl<T> Sync for Open<T> {}

struct Inner(Option<std::ptr::NonNull<Rc<u8>>>);
pub struct Nested {
	inner: Inner,
	fine: std::marker::PhantomData<*mut u8>,
}
unsafe impl Send for Nested {}

fn main() {}
