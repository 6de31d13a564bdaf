//! Specifications of operations of a storage.
use crate::{st::*, *};
use std::mem::{align_of, forget, size_of};

/// Checks state of storage if an operation panics.
/// `first` is the first position which the operation could write at.
pub struct Guard<S: Full> {
	s: *const S,
	b: Before,
	first: usize,
}

impl<S: Full> Guard<S> {
	pub fn new(s: &S, b: Before, first: usize) -> Self {
		Guard { s: s as *const S, b, first }
	}
}

impl<S: Full> Drop for Guard<S> {
	fn drop(&mut self) {
		let s = unsafe { &*self.s };
		inv(s);
		reach("C24: operation panics");
		prove("C17: position moved by operation which panicked", s.pos() >= self.b.pos && s.pos() <= self.first || s.pos() == self.b.pos);
		prove("C24: capacity changed by operation which panicked", s.capacity() == self.b.cap);
		prove("C17: memory moved by operation which panicked", s.as_ptr() == self.b.ptr);
		snap_eq("C24: written to storage by operation which panicked", s.as_ptr(), self.b.snap, 0, self.b.cap);
	}
}

/// `push_slice` on storage in arbitrary state with slice of arbitrary length
pub fn push_slice<S: Full, T>() {
	let mut s = any_storage::<S>();
	let src = any_slice::<T>();
	push_slice_on(&mut s, src);
}

pub fn push_slice_on<S: Full, T>(s: &mut S, src: &[T]) {
	let b = before(s);
	let size = src.len().wrapping_mul(size_of::<T>());
	let p = up(b.pos, align_of::<T>());
	let end = p.wrapping_add(size);
	panic_ok(end > S::MAX_CAPACITY);
	let g = Guard::new(s, b, p);
	let got = s.push_slice(src);
	forget(g);
	panic_reset();
	reach("C09: slice pushed");
	pushed(s, b, got, p, size);
	bytes_eq("C09: bytes at returned position are not those pushed", s.as_ptr().wrapping_add(got), src.as_ptr() as *const u8, size);
}

pub fn pushed<S: Full>(s: &S, b: Before, got: usize, p: usize, size: usize) {
	let end = p.wrapping_add(size);
	prove("C24: push beyond MAX_CAPACITY did not panic", end <= S::MAX_CAPACITY);
	prove("C09: returned position is not the first aligned one", got == p);
	prove("C09: position after push is not the end of data rounded up to VALUE_ALIGNMENT", s.pos() == up(end, S::VALUE_ALIGNMENT));
	b.kept(s);
	b.grown(s, end);
}

pub fn push_value<S: Full, T>() {
	let mut s = any_storage::<S>();
	push_value_on::<S, T>(&mut s);
}

pub fn push_value_on<S: Full, T>(s: &mut S) {
	let src = any_ref::<T>();
	let b = before(s);
	let p = up(b.pos, align_of::<T>());
	panic_ok(p.wrapping_add(size_of::<T>()) > S::MAX_CAPACITY);
	let g = Guard::new(s, b, p);
	let got = s.push(src);
	forget(g);
	panic_reset();
	reach("C09: value pushed");
	prove("C05: value pushed at position which is not aligned for it", aligned(got, align_of::<T>()));
	pushed(s, b, got, p, size_of::<T>());
	bytes_eq("C09: bytes at returned position are not those pushed", s.as_ptr().wrapping_add(got), src as *const T as *const u8, size_of::<T>());
}

pub fn push_bytes<S: Full>() {
	let mut s = any_storage::<S>();
	let src = any_slice::<u8>();
	push_bytes_on(&mut s, src);
}

pub fn push_bytes_on<S: Full>(s: &mut S, src: &[u8]) {
	let b = before(s);
	panic_ok(b.pos.wrapping_add(src.len()) > S::MAX_CAPACITY);
	let g = Guard::new(s, b, b.pos);
	let got = s.push_bytes(src);
	forget(g);
	panic_reset();
	reach("C09: bytes pushed");
	pushed(s, b, got, b.pos, src.len());
	bytes_eq("C09: bytes at returned position are not those pushed", s.as_ptr().wrapping_add(got), src.as_ptr(), src.len());
}

/// Zero-sized types
pub fn push_zst<S: Full, T>() {
	let mut s = any_storage::<S>();
	let src = slice_of::<T>(any());
	let b = before(&s);
	s.push_slice(src);
	untouched("C19: push of slice of ZSTs", &s, b);
	if src.len() > 0 {
		s.push(&src[0]);
		untouched("C19: push of ZST", &s, b);
	}
}

pub fn untouched<S: Full>(_what: &'static str, s: &S, b: Before) {
	inv(s);
	prove("C19: position changed by zero-sized value", s.pos() == b.pos);
	prove("C19: capacity changed by zero-sized value", s.capacity() == b.cap);
	prove("C19: memory moved by zero-sized value", s.as_ptr() == b.ptr);
	snap_eq("C19: storage altered by zero-sized value", s.as_ptr(), b.snap, 0, b.cap);
}

pub fn push_empty_slice<S: Full, T>() {
	let mut s = any_storage::<S>();
	push_empty_slice_on::<S, T>(&mut s, any());
}

pub fn push_empty_slice_on<S: Full, T>(s: &mut S, len: usize) {
	let b = before(s);
	let p = up(b.pos, align_of::<T>());
	let max = if size_of::<T>() == 0 { usize::MAX } else { S::MAX_CAPACITY.wrapping_sub(p) / size_of::<T>() };
	if S::MAX_CAPACITY < p {
		// Aligned position is beyond `MAX_CAPACITY`. Not possible as it's a multiple of `MAX_VALUE_ALIGNMENT`
		fail("C24: aligned position is beyond MAX_CAPACITY");
	}
	panic_ok(len > max);
	let g = Guard::new(s, b, p);
	let got = s.push_empty_slice::<T>(len);
	forget(g);
	panic_reset();
	reach("C09: empty slice pushed");
	prove("C24: push_empty_slice beyond MAX_CAPACITY did not panic", len <= max);
	let size = size_of::<T>().wrapping_mul(len);
	pushed(s, b, got, p, size);
	snap_eq("C09: written to reserved or existing space", s.as_ptr(), b.snap, 0, b.pos);
}

pub fn push_empty<S: Full, T>() {
	let mut s = any_storage::<S>();
	let b = before(&s);
	let p = up(b.pos, align_of::<T>());
	panic_ok(p.wrapping_add(size_of::<T>()) > S::MAX_CAPACITY);
	let g = Guard::new(&s, b, p);
	let got = s.push_empty::<T>();
	forget(g);
	panic_reset();
	reach("C09: empty value pushed");
	pushed(&s, b, got, p, size_of::<T>());
	// The space is there to be written
	let v = any_ref::<T>();
	let b2 = before(&s);
	unsafe { s.write(got, v) };
	bytes_eq("C23: bytes at position are not those written", s.as_ptr().wrapping_add(got), v as *const T as *const u8, size_of::<T>());
	snap_eq("C23: write changed other bytes", s.as_ptr(), b2.snap, 0, got);
}

/// The separate steps of a push, as a caller of the unchecked API makes them
pub fn push_in_steps<S: Full, T>() {
	let mut s = any_storage::<S>();
	let src = any_slice::<T>();
	let b = before(&s);
	let size = src.len().wrapping_mul(size_of::<T>());
	let p = up(b.pos, align_of::<T>());
	let end = p.wrapping_add(size);
	s.align_for::<T>();
	prove("C05: align_for did not move position to first aligned one", s.pos() == p);
	b.kept(&s);
	panic_ok(end > S::MAX_CAPACITY);
	s.reserve(size);
	panic_reset();
	prove("C07: reserve moved position", s.pos() == p);
	let got = s.pos();
	let c = before(&s);
	unsafe { s.push_slice_unchecked(src, size) };
	prove("C09: position after push_slice_unchecked is not the end of data", s.pos() == end);
	prove("C07: push_slice_unchecked changed capacity", s.capacity() == c.cap && s.as_ptr() == c.ptr);
	s.align_after::<T>();
	pushed(&s, b, got, p, size);
	bytes_eq("C09: bytes at returned position are not those pushed", s.as_ptr().wrapping_add(got), src.as_ptr() as *const u8, size);
}

pub fn reserve<S: Full>() {
	let mut s = any_storage::<S>();
	reserve_on(&mut s, any());
}

pub fn reserve_on<S: Full>(s: &mut S, n: usize) {
	let b = before(s);
	panic_ok(n > S::MAX_CAPACITY.wrapping_sub(b.pos));
	let g = Guard::new(s, b, b.pos);
	s.reserve(n);
	forget(g);
	panic_reset();
	reach("C07: reserve");
	prove("C24: reserve beyond MAX_CAPACITY did not panic", n <= S::MAX_CAPACITY.wrapping_sub(b.pos));
	prove("C07: reserve moved position", s.pos() == b.pos);
	b.kept(s);
	b.grown(s, b.pos.wrapping_add(n));
	prove("C07: reserve did not make room for bytes reserved", s.capacity().wrapping_sub(s.pos()) >= n);
}

pub fn clear<S: Full>() {
	let mut s = any_storage::<S>();
	clear_on(&mut s);
}

pub fn clear_on<S: Full>(s: &mut S) {
	let b = before(s);
	s.clear();
	inv(s);
	prove("C18: position is not 0 after clear", s.pos() == 0);
	prove("C18: clear changed capacity", s.capacity() == b.cap);
	prove("C18: clear moved memory", s.as_ptr() == b.ptr);
	if b.cap > 0 {
		prove("C18: clear freed memory", is_live(s.as_ptr()));
	}
}

pub fn shrink<S: Full>() {
	let mut s = any_storage::<S>();
	shrink_on(&mut s);
	if either() {
		// Later pushes are undisturbed
		push_bytes_on(&mut s, any_slice::<u8>());
	}
}

pub fn shrink_on<S: Full>(s: &mut S) {
	let b = before(s);
	s.shrink_to_fit();
	inv(s);
	prove("C18: shrink_to_fit moved position", s.pos() == b.pos);
	prove("C18: capacity after shrink_to_fit is not position rounded up to MAX_VALUE_ALIGNMENT", s.capacity() == up(b.pos, S::MAX_VALUE_ALIGNMENT));
	snap_eq("C18: shrink_to_fit altered contents", s.as_ptr(), b.snap, 0, b.pos);
	if split(s.capacity() == 0) {
		if split(b.cap > 0) {
			reach("C18: shrink to nothing");
			prove("C18: shrink_to_fit to nothing kept memory", !is_live(b.ptr));
		}
	} else {
		reach("C18: shrink to something");
		prove("C18: shrink_to_fit left storage without memory", is_live(s.as_ptr()));
	}
}

pub fn with_capacity<S: Full>() {
	let n = any();
	panic_ok(n > S::MAX_CAPACITY);
	let mut s = S::with_capacity(n);
	panic_reset();
	reach("C18: with_capacity");
	prove("C24: with_capacity beyond MAX_CAPACITY did not panic", n <= S::MAX_CAPACITY);
	inv(&s);
	prove("C18: with_capacity is not at position 0", s.pos() == 0);
	prove("C18: with_capacity does not give capacity asked for", s.capacity() == up(n, S::MAX_VALUE_ALIGNMENT));
	if split(n == 0) {
		prove("C18: with_capacity(0) allocated", !is_live(s.as_ptr()));
	} else {
		prove("C18: with_capacity did not allocate", is_live(s.as_ptr()));
	}
	let b = before(&s);
	let m = any();
	assume(m <= n);
	push_bytes_on(&mut s, slice_of::<u8>(m));
	if split(n > 0) {
		prove("C18: push within capacity asked for reallocated", s.as_ptr() == b.ptr);
	}
}

pub fn new<S: Full>() {
	let mut s = S::new();
	inv(&s);
	prove("C18: new storage has capacity", s.capacity() == 0);
	prove("C18: new storage is not at position 0", s.pos() == 0);
	prove("C18: new storage allocated", !is_live(s.as_ptr()));
	s.clear();
	s.shrink_to_fit();
	s.reserve(0);
	inv(&s);
	prove("C18: operations which add nothing gave capacity to new storage", s.capacity() == 0 && s.pos() == 0);
}

/// Position moves to first multiple of alignment
pub fn align<S: Full>() {
	let mut a = S::VALUE_ALIGNMENT;
	while a <= S::MAX_VALUE_ALIGNMENT {
		let mut s = any_storage::<S>();
		let b = before(&s);
		unsafe { s.align(a) };
		prove("C05: align did not move position to first multiple", s.pos() == up(b.pos, a));
		b.kept(&s);
		b.grown(&s, 0);
		a = a.wrapping_mul(2);
	}
	let mut s = any_storage::<S>();
	let b = before(&s);
	s.align_after_any();
	prove("C05: align_after_any moved aligned position", s.pos() == b.pos);
}

pub fn random_access<S: Full, T>() {
	let mut s = any_storage_alloc::<S>();
	let src = any_slice::<T>();
	let pos = any();
	let size = src.len().wrapping_mul(size_of::<T>());
	assume(size <= s.capacity());
	assume(pos <= s.capacity().wrapping_sub(size));
	assume(aligned(pos, align_of::<T>()));
	let b = before(&s);
	unsafe { s.write_slice(pos, src) };
	same_state(&s, b);
	bytes_eq("C23: bytes at position are not those written", s.as_ptr().wrapping_add(pos), src.as_ptr() as *const u8, size);
	snap_eq("C23: write_slice changed bytes before its range", s.as_ptr(), b.snap, 0, pos);
	let end = pos.wrapping_add(size);
	snap_eq("C23: write_slice changed bytes after its range", s.as_ptr().wrapping_add(end), b.snap, end, b.cap.wrapping_sub(end));
}

fn same_state<S: Full>(s: &S, b: Before) {
	inv(s);
	prove("C23: random access moved position", s.pos() == b.pos);
	prove("C23: random access changed capacity", s.capacity() == b.cap);
	prove("C23: random access moved memory", s.as_ptr() == b.ptr);
}

pub fn random_value<S: Full, T>() {
	let mut s = any_storage_alloc::<S>();
	let v = any_ref::<T>();
	let pos = any();
	let size = size_of::<T>();
	assume(size <= s.capacity());
	assume(pos <= s.capacity().wrapping_sub(size));
	assume(aligned(pos, align_of::<T>()));
	let b = before(&s);
	unsafe { s.write(pos, v) };
	same_state(&s, b);
	bytes_eq("C23: bytes at position are not those written", s.as_ptr().wrapping_add(pos), v as *const T as *const u8, size);
	snap_eq("C23: write changed bytes before its range", s.as_ptr(), b.snap, 0, pos);
	let end = pos.wrapping_add(size);
	snap_eq("C23: write changed bytes after its range", s.as_ptr().wrapping_add(end), b.snap, end, b.cap.wrapping_sub(end));
	let p = s.as_ptr().wrapping_add(pos);
	unsafe {
		prove("C23: ptr is not address of position", s.ptr(pos) == p);
		prove("C23: mut_ptr is not address of position", s.mut_ptr(pos) as *const u8 == p);
		prove("C23: as_mut_ptr is not as_ptr", s.as_mut_ptr() as *const u8 == s.as_ptr());
	}
	let any_pos = any();
	assume(any_pos <= s.capacity());
	unsafe {
		prove("C23: ptr is not address of position", s.ptr(any_pos) == s.as_ptr().wrapping_add(any_pos));
		prove("C23: mut_ptr is not address of position", s.mut_ptr(any_pos) as *const u8 == s.as_ptr().wrapping_add(any_pos));
	}
	if split(end <= s.pos()) {
		reach("C23: read");
		let r = unsafe { s.read::<T>(pos) } as *const T as *const u8;
		prove("C23: read is not from position", r == p);
		let r = unsafe { s.read_mut::<T>(pos) } as *mut T as *const u8;
		prove("C23: read_mut is not from position", r == p);
	}
	same_state(&s, b);
}

/// Any few operations after one another, starting from nothing, each to its specification
pub fn history<S: Full, T>(n: usize) {
	let mut s = S::new();
	let mut i = 0;
	while i < n {
		any_op::<S, T>(&mut s);
		i = i.wrapping_add(1);
	}
}

/// As `history` with given first operation
pub fn history_from<S: Full, T>(first: usize, n: usize) {
	let mut s = S::new();
	op::<S, T>(&mut s, first);
	let mut i = 0;
	while i < n {
		any_op::<S, T>(&mut s);
		i = i.wrapping_add(1);
	}
}

pub fn any_op<S: Full, T>(s: &mut S) {
	op::<S, T>(s, choose(6));
}

pub fn op<S: Full, T>(s: &mut S, which: usize) {
	match which {
		0 => push_slice_on(s, any_slice::<T>()),
		1 => push_bytes_on(s, any_slice::<u8>()),
		2 => shrink_on(s),
		3 => clear_on(s),
		4 => push_empty_slice_on::<S, T>(s, any()),
		_ => reserve_on(s, any()),
	}
}

/// Storage is usable after an operation on it panicked
pub fn after_panic<S: Full, T>(which: usize) {
	let mut s = any_storage::<S>();
	panic_ok(true);
	let b = before(&s);
	let panicked = catch(|| match which {
		0 => {
			s.push_slice(any_slice::<T>());
		}
		1 => {
			s.push_empty_slice::<T>(any());
		}
		_ => s.reserve(any()),
	});
	panic_reset();
	if panicked {
		reach("C17: used after panic");
		inv(&s);
		snap_eq("C17: content lost in operation which panicked", s.as_ptr(), b.snap, 0, b.pos);
		any_op::<S, T>(&mut s);
	}
}
