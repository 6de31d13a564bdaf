//! Arbitrary values, and what the copy of a value in a serializer's output must be.
use crate::{st::*, *};
use std::mem::{align_of, size_of, ManuallyDrop};

pub const PURE: usize = 0;
pub const OFFSET: usize = 1;
pub const COMPLETE: usize = 2;

/// Longest slice of which every element is arbitrary
pub const MAX_LEN: usize = 1 << 32;

/// Number of elements of each Vec whose elements have contents, if not 0
pub const LEN: usize = 5;

#[macro_export]
macro_rules! rule {
	($kind:expr, $text:literal) => {
		match $kind {
			$crate::val::PURE => concat!("C04: ", $text),
			$crate::val::OFFSET => concat!("C03: ", $text),
			_ => concat!("C01: ", $text),
		}
	};
}

#[macro_export]
macro_rules! ptr_rule {
	($kind:expr, $text:literal) => {
		match $kind {
			$crate::val::PURE => concat!("C04: ", $text),
			$crate::val::OFFSET => concat!("C03: ", $text),
			_ => concat!("C01,C02: ", $text),
		}
	};
}

/// Where things are in output
pub struct Cx {
	/// Kind of serializer
	pub kind: usize,
	/// Address of storage's memory
	pub base: usize,
	/// Position at which next block goes
	pub cur: usize,
	pub value_align: usize,
	pub max_value_align: usize,
}

impl Cx {
	pub fn place(&mut self, size: usize, align: usize) -> usize {
		let p = up(self.cur, align);
		self.cur = up(p.wrapping_add(size), self.value_align);
		p
	}

	/// What a pointer to `pos` is
	pub fn ptr(&self, orig: usize, pos: usize) -> usize {
		match self.kind {
			PURE => orig,
			OFFSET => pos,
			_ => self.base.wrapping_add(pos),
		}
	}

	pub fn at(&self, pos: usize) -> *const u8 {
		self.base.wrapping_add(pos) as *const u8
	}
}

/// Address in copy of parent of copy of field
#[inline(always)]
pub fn sub<P, F>(parent: &P, field: &F, out: *const u8) -> *const u8 {
	out.wrapping_add((field as *const F as usize).wrapping_sub(parent as *const P as usize))
}

pub trait Val: Sized {
	/// Has no memory of its own
	const LEAF: bool = false;

	fn any() -> Self;

	/// Make everything owned read-only / writable again
	fn hold(&self, _on: bool) {}

	/// Copy at `out` is right within its own block, other than pointers to contents
	fn header(&self, out: *const u8, cx: &Cx);

	/// Pointers of copy at `out`, and everything they point to
	fn data(&self, _out: *const u8, _cx: &mut Cx) {}

	/// Moves `cx` on as `data` does, without looking at any output
	fn extent(&self, _cx: &mut Cx) {}
}

pub fn hold<T>(p: *const T, on: bool) {
	if on {
		freeze(p);
	} else {
		thaw(p);
	}
}

pub fn same_bytes<T>(inp: &T, out: *const u8, kind: usize) {
	bytes_eq(rule!(kind, "bytes of copy differ from input"), out, inp as *const T as *const u8, size_of::<T>());
}

macro_rules! pod {
	($($t:ty),*) => {$(
		impl Val for $t {
			const LEAF: bool = true;
			fn any() -> Self {
				unsafe { std::ptr::read(mem(size_of::<$t>(), align_of::<$t>()) as *const $t) }
			}
			fn header(&self, out: *const u8, cx: &Cx) {
				same_bytes(self, out, cx.kind);
			}
		}
	)*};
}
pod!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

macro_rules! special {
	($($t:ty: $e:expr;)*) => {$(
		impl Val for $t {
			const LEAF: bool = true;
			fn any() -> Self {
				$e
			}
			fn header(&self, out: *const u8, cx: &Cx) {
				same_bytes(self, out, cx.kind);
			}
		}
	)*};
}

fn nz() -> usize {
	let x = any();
	assume(x > 0);
	assume(x < 128);
	x
}

special! {
	bool: either();
	char: { let x = any(); assume(x < 0xD800); unsafe { char::from_u32_unchecked(x as u32) } };
	std::num::NonZeroU8: unsafe { std::num::NonZeroU8::new_unchecked(nz() as u8) };
	std::num::NonZeroU16: unsafe { std::num::NonZeroU16::new_unchecked(nz() as u16) };
	std::num::NonZeroU32: unsafe { std::num::NonZeroU32::new_unchecked(nz() as u32) };
	std::num::NonZeroU64: unsafe { std::num::NonZeroU64::new_unchecked(nz() as u64) };
	std::num::NonZeroU128: unsafe { std::num::NonZeroU128::new_unchecked(nz() as u128) };
	std::num::NonZeroUsize: unsafe { std::num::NonZeroUsize::new_unchecked(nz()) };
	std::num::NonZeroI8: unsafe { std::num::NonZeroI8::new_unchecked(nz() as i8) };
	std::num::NonZeroI16: unsafe { std::num::NonZeroI16::new_unchecked(nz() as i16) };
	std::num::NonZeroI32: unsafe { std::num::NonZeroI32::new_unchecked(nz() as i32) };
	std::num::NonZeroI64: unsafe { std::num::NonZeroI64::new_unchecked(nz() as i64) };
	std::num::NonZeroI128: unsafe { std::num::NonZeroI128::new_unchecked(nz() as i128) };
	std::num::NonZeroIsize: unsafe { std::num::NonZeroIsize::new_unchecked(nz() as isize) };
	(): ();
}

impl<T: Val> Val for Box<T> {
	fn any() -> Self {
		if size_of::<T>() == 0 {
			return Box::new(T::any());
		}
		let v = T::any();
		let p = heap(size_of::<T>(), align_of::<T>()) as *mut T;
		unsafe {
			std::ptr::write(p, v);
			Box::from_raw(p)
		}
	}

	fn hold(&self, on: bool) {
		if size_of::<T>() != 0 {
			hold(&**self, on);
			(**self).hold(on);
		}
	}

	fn header(&self, out: *const u8, cx: &Cx) {
		if size_of::<T>() == 0 {
			same_bytes(self, out, cx.kind);
		}
	}

	fn data(&self, out: *const u8, cx: &mut Cx) {
		if size_of::<T>() == 0 {
			return;
		}
		let p = cx.place(size_of::<T>(), align_of::<T>());
		let got = unsafe { *(out as *const usize) };
		prove(ptr_rule!(cx.kind, "pointer of Box is not that of its copy"), got == cx.ptr(&**self as *const T as usize, p));
		(**self).header(cx.at(p), cx);
		(**self).data(cx.at(p), cx);
	}

	fn extent(&self, cx: &mut Cx) {
		if size_of::<T>() != 0 {
			cx.place(size_of::<T>(), align_of::<T>());
			(**self).extent(cx);
		}
	}
}

/// Indices of (pointer, capacity, length) in a `Vec`
pub fn vec_words<T>() -> (usize, usize, usize) {
	let v = ManuallyDrop::new(unsafe { Vec::<u64>::from_raw_parts(64 as *mut u64, 1, 2) });
	let w = unsafe { *(&v as *const _ as *const [usize; 3]) };
	let find = |x: usize| {
		if w[0] == x {
			0
		} else if w[1] == x {
			1
		} else {
			2
		}
	};
	(find(64), find(2), find(1))
}

pub fn word(p: *const u8, i: usize) -> usize {
	unsafe { *(p as *const usize).wrapping_add(i) }
}

/// Header of a Vec or String in output
pub fn vec_header<T>(inp: *const u8, len: usize, out: *const u8, kind: usize) {
	let (p, c, l) = vec_words::<T>();
	prove(rule!(kind, "length of copy differs from input"), word(out, l) == len);
	if kind != COMPLETE || size_of::<T>() == 0 {
		prove(rule!(kind, "capacity of copy differs from input"), word(out, c) == word(inp, c));
	} else if split(len == 0) {
		prove("C10: capacity of empty Vec or String is not 0", word(out, c) == 0);
		prove("C10: pointer of empty Vec or String is not the dangling pointer of its elements", word(out, p) == align_of::<T>());
	} else {
		prove("C10: capacity of Vec or String is not its length", word(out, c) == len);
	}
	if kind == PURE || kind == OFFSET && split(len == 0) || size_of::<T>() == 0 {
		prove(rule!(kind, "pointer of Vec or String without contents, or of pure copy, was altered"), word(out, p) == word(inp, p));
	}
}

/// Pointer of Vec or String which has contents. Returns position of contents
pub fn vec_ptr<T>(orig: *const T, len: usize, out: *const u8, cx: &mut Cx) -> usize {
	let (p, _, _) = vec_words::<T>();
	let at = cx.place(len.wrapping_mul(size_of::<T>()), align_of::<T>());
	prove(ptr_rule!(cx.kind, "pointer of Vec or String is not that of its copy"), word(out, p) == cx.ptr(orig as usize, at));
	at
}

/// Vec of given length, with arbitrary spare capacity
pub fn vec_of<T>(len: usize) -> Vec<T> {
	if size_of::<T>() == 0 {
		return unsafe { Vec::from_raw_parts(align_of::<T>() as *mut T, len, 0) };
	}
	if split(len == 0) && either() {
		return Vec::new();
	}
	let cap = any();
	assume(cap > 0);
	assume(cap <= MAX_LEN);
	assume(len <= cap);
	let p = heap(cap.wrapping_mul(size_of::<T>()), align_of::<T>()) as *mut T;
	unsafe { Vec::from_raw_parts(p, len, cap) }
}

impl<T: Val> Val for Vec<T> {
	fn any() -> Self {
		if T::LEAF {
			return vec_of(any());
		}
		match ghost(LEN) {
			0 => vec_with(choose(3)),
			n => vec_with(n),
		}
	}

	fn hold(&self, on: bool) {
		if size_of::<T>() != 0 && split(self.capacity() != 0) {
			hold(self.as_ptr(), on);
			if !T::LEAF {
				for x in self {
					x.hold(on);
				}
			}
		}
	}

	fn header(&self, out: *const u8, cx: &Cx) {
		vec_header::<T>(self as *const Self as *const u8, self.len(), out, cx.kind);
	}

	fn data(&self, out: *const u8, cx: &mut Cx) {
		if size_of::<T>() == 0 || split(self.len() == 0) {
			return;
		}
		let p = vec_ptr(self.as_ptr(), self.len(), out, cx);
		if T::LEAF {
			bytes_eq(
				rule!(cx.kind, "contents of Vec differ from input"),
				cx.at(p),
				self.as_ptr() as *const u8,
				self.len().wrapping_mul(size_of::<T>()),
			);
			return;
		}
		let mut i = 0;
		while i < self.len() {
			self[i].header(cx.at(p.wrapping_add(i.wrapping_mul(size_of::<T>()))), cx);
			i = i.wrapping_add(1);
		}
		i = 0;
		while i < self.len() {
			self[i].data(cx.at(p.wrapping_add(i.wrapping_mul(size_of::<T>()))), cx);
			i = i.wrapping_add(1);
		}
	}

	fn extent(&self, cx: &mut Cx) {
		if size_of::<T>() == 0 || split(self.len() == 0) {
			return;
		}
		cx.place(self.len().wrapping_mul(size_of::<T>()), align_of::<T>());
		if !T::LEAF {
			let mut i = 0;
			while i < self.len() {
				self[i].extent(cx);
				i = i.wrapping_add(1);
			}
		}
	}
}

/// Vec of known length with arbitrary elements
pub fn vec_with<T: Val>(len: usize) -> Vec<T> {
	let mut v = vec_of::<T>(len);
	let mut i = 0;
	while i < len {
		unsafe { std::ptr::write(v.as_mut_ptr().wrapping_add(i), T::any()) };
		i = i.wrapping_add(1);
	}
	v
}

impl Val for String {
	fn any() -> Self {
		unsafe { String::from_utf8_unchecked(vec_of::<u8>(any())) }
	}

	fn hold(&self, on: bool) {
		if split(self.capacity() != 0) {
			hold(self.as_ptr(), on);
		}
	}

	fn header(&self, out: *const u8, cx: &Cx) {
		vec_header::<u8>(self as *const Self as *const u8, self.len(), out, cx.kind);
	}

	fn data(&self, out: *const u8, cx: &mut Cx) {
		if split(self.len() == 0) {
			return;
		}
		let p = vec_ptr(self.as_ptr(), self.len(), out, cx);
		bytes_eq(rule!(cx.kind, "contents of String differ from input"), cx.at(p), self.as_ptr(), self.len());
	}

	fn extent(&self, cx: &mut Cx) {
		if !split(self.len() == 0) {
			cx.place(self.len(), 1);
		}
	}
}

impl<T: Val> Val for Option<T> {
	const LEAF: bool = T::LEAF;

	fn any() -> Self {
		if either() {
			None
		} else {
			Some(T::any())
		}
	}

	fn hold(&self, on: bool) {
		if let Some(x) = self {
			x.hold(on);
		}
	}

	fn header(&self, out: *const u8, cx: &Cx) {
		let is_some = unsafe { &*(out as *const Option<T>) }.is_some();
		prove(rule!(cx.kind, "copy of Option has other variant"), is_some == self.is_some());
		if let Some(x) = self {
			x.header(sub(self, x, out), cx);
		}
	}

	fn data(&self, out: *const u8, cx: &mut Cx) {
		if let Some(x) = self {
			x.data(sub(self, x, out), cx);
		}
	}

	fn extent(&self, cx: &mut Cx) {
		if let Some(x) = self {
			x.extent(cx);
		}
	}
}

impl<T: Val, const N: usize> Val for [T; N] {
	const LEAF: bool = T::LEAF;

	fn any() -> Self {
		let mut a = std::mem::MaybeUninit::<[T; N]>::uninit();
		let mut i = 0;
		while i < N {
			unsafe { std::ptr::write((a.as_mut_ptr() as *mut T).wrapping_add(i), T::any()) };
			i = i.wrapping_add(1);
		}
		unsafe { a.assume_init() }
	}

	fn hold(&self, on: bool) {
		for x in self {
			x.hold(on);
		}
	}

	fn header(&self, out: *const u8, cx: &Cx) {
		for x in self {
			x.header(sub(self, x, out), cx);
		}
	}

	fn data(&self, out: *const u8, cx: &mut Cx) {
		for x in self {
			x.data(sub(self, x, out), cx);
		}
	}

	fn extent(&self, cx: &mut Cx) {
		for x in self {
			x.extent(cx);
		}
	}
}

macro_rules! tuple {
	($($i:tt $t:ident),*) => {
		impl<$($t: Val),*> Val for ($($t,)*) {
			const LEAF: bool = true $(&& $t::LEAF)*;
			fn any() -> Self {
				($($t::any(),)*)
			}
			fn hold(&self, on: bool) {
				$(self.$i.hold(on);)*
			}
			fn header(&self, out: *const u8, cx: &Cx) {
				$(self.$i.header(sub(self, &self.$i, out), cx);)*
			}
			fn data(&self, out: *const u8, cx: &mut Cx) {
				$(self.$i.data(sub(self, &self.$i, out), cx);)*
			}
			fn extent(&self, cx: &mut Cx) {
				$(self.$i.extent(cx);)*
			}
		}
	};
}
tuple!(0 A);
tuple!(0 A, 1 B);
tuple!(0 A, 1 B, 2 C);
tuple!(0 A, 1 B, 2 C, 3 D);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E);

/// `Val` for a struct
#[macro_export]
macro_rules! val_struct {
	($t:ident { $($f:ident: $ft:ty),* $(,)? }) => {
		impl $crate::val::Val for $t {
			fn any() -> Self {
				$t { $($f: <$ft as $crate::val::Val>::any()),* }
			}
			fn hold(&self, on: bool) {
				$($crate::val::Val::hold(&self.$f, on);)*
			}
			fn header(&self, out: *const u8, cx: &$crate::val::Cx) {
				$($crate::val::Val::header(&self.$f, $crate::val::sub(self, &self.$f, out), cx);)*
			}
			fn data(&self, out: *const u8, cx: &mut $crate::val::Cx) {
				$($crate::val::Val::data(&self.$f, $crate::val::sub(self, &self.$f, out), cx);)*
			}
			fn extent(&self, cx: &mut $crate::val::Cx) {
				$($crate::val::Val::extent(&self.$f, cx);)*
			}
		}
	};
}

/// Reduces arbitrary storage to one in which there's certainly enough room below `MAX_CAPACITY`
pub fn start<S: Full>() -> S {
	let s = any_storage::<S>();
	assume(s.pos() <= 1 << 40);
	s
}

/// Arbitrary storage which has enough room
pub fn roomy<S: Full>() -> S {
	let s = any_storage_alloc::<S>();
	assume(s.pos() <= 1 << 40);
	assume(s.capacity() >= s.pos().wrapping_add(1 << 42));
	s
}

pub fn cx<S: Full>(kind: usize, s: &S, cur: usize) -> Cx {
	Cx {
		kind,
		base: s.as_ptr() as usize,
		cur,
		value_align: S::VALUE_ALIGNMENT,
		max_value_align: S::MAX_VALUE_ALIGNMENT,
	}
}

pub fn checked<V: Val>(v: &V, pos: usize, cx: &mut Cx) {
	if size_of::<V>() == 0 {
		return;
	}
	let p = cx.place(size_of::<V>(), align_of::<V>());
	prove("C09: position returned is not that of value", pos == p);
	v.header(cx.at(p), cx);
	v.data(cx.at(p), cx);
}

/// Position after value and all its contents, if it starts at `pos`
pub fn extent<S: Full, V: Val>(v: &V, pos: usize) -> usize {
	if size_of::<V>() == 0 {
		return pos;
	}
	let mut cx = Cx {
		kind: PURE,
		base: 0,
		cur: pos,
		value_align: S::VALUE_ALIGNMENT,
		max_value_align: S::MAX_VALUE_ALIGNMENT,
	};
	cx.place(size_of::<V>(), align_of::<V>());
	v.extent(&mut cx);
	cx.cur
}
