//! What containers do with their contents.
use crate::{spec::*, st::*, val::*, *};
use ser_raw::{Serialize, Serializer};
use std::mem::{align_of, size_of};

const COUNT: usize = 0;
const BASE: usize = 1;
const END: usize = 2;
const STRIDE: usize = 3;
const DROPS: usize = 4;
const TABLE: usize = 10;

/// An element of something contiguous. Checks that it's the one which is due
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Lined<T>(T);

impl<T, S: Serializer> Serialize<S> for Lined<T> {
	fn serialize_data(&self, s: &mut S) {
		let n = ghost(COUNT);
		prove(
			"C13: container visits something other than its next element",
			self as *const Self as usize == ghost(BASE).wrapping_add(n.wrapping_mul(size_of::<Self>())),
		);
		prove("C13: element visited when contents were not copied (yet), or more than them", s.pos() == ghost(END));
		set_ghost(COUNT, n.wrapping_add(1));
	}
}

/// As `Lined`, and adds data of its own
#[repr(transparent)]
pub struct Loud<T>(T);

impl<T, S: Serializer> Serialize<S> for Loud<T> {
	fn serialize_data(&self, s: &mut S) {
		let n = ghost(COUNT);
		prove(
			"C13: container visits something other than its next element",
			self as *const Self as usize == ghost(BASE).wrapping_add(n.wrapping_mul(size_of::<Self>())),
		);
		let pos = s.push_raw(&0u64);
		prove(
			"C13: data of element is not in order right after contents",
			pos == ghost(END).wrapping_add(n.wrapping_mul(ghost(STRIDE))),
		);
		set_ghost(COUNT, n.wrapping_add(1));
	}
}

/// One of a list of things. Checks that it's the one which is due
pub struct Listed<T>(T);

impl<T, S: Serializer> Serialize<S> for Listed<T> {
	fn serialize_data(&self, s: &mut S) {
		let n = ghost(COUNT);
		prove(
			"C13: container visits something other than its next field",
			self as *const Self as usize == ghost(TABLE.wrapping_add(n)),
		);
		prove("C13: field visited when value was not copied (yet), or more than it", s.pos() == ghost(END));
		set_ghost(COUNT, n.wrapping_add(1));
	}
}

pub fn listed<T>(x: T) -> Listed<T> {
	Listed(x)
}

/// Has drop glue
#[derive(Default)]
pub struct Dropped<T>(T);
impl<T> Drop for Dropped<T> {
	fn drop(&mut self) {
		prove("C15: part of a value was dropped", ghost(DROPS) != 0);
	}
}

/// Vec of any length
pub fn vec<S, Ser, T>(make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	Vec<T>: Serialize<Ser>,
{
	let s = start::<S>();
	let n = any();
	assume(n <= MAX_LEN);
	let v = vec_of::<T>(n);
	let head = up(up(s.pos(), 8).wrapping_add(24), S::VALUE_ALIGNMENT);
	let mut end = up(up(head, align_of::<T>()).wrapping_add(n.wrapping_mul(size_of::<T>())), S::VALUE_ALIGNMENT);
	if size_of::<T>() == 0 || split(n == 0) {
		end = head;
	}
	set_ghost(BASE, v.as_ptr() as usize);
	set_ghost(END, end);
	let s = make(s).serialize(&v).1;
	reach("C13: Vec serialized");
	if size_of::<T>() == 0 {
		prove("C13: elements which are zero-sized were visited in part", ghost(COUNT) == 0 || ghost(COUNT) == n);
	} else {
		prove("C13: not every element of Vec was visited", ghost(COUNT) == n);
	}
	prove("C13: Vec added data beyond that of its elements", s.pos() == end);
	set_ghost(DROPS, 1);
}

/// Vec with elements which have data
pub fn vec_loud<S, Ser, T>(make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	Vec<T>: Serialize<Ser>,
{
	let s = roomy::<S>();
	let n = choose(4);
	let v = vec_of::<T>(n);
	let head = up(up(s.pos(), 8).wrapping_add(24), S::VALUE_ALIGNMENT);
	let mut end = up(up(head, align_of::<T>()).wrapping_add(n.wrapping_mul(size_of::<T>())), S::VALUE_ALIGNMENT);
	if split(n == 0) {
		end = head;
	}
	set_ghost(BASE, v.as_ptr() as usize);
	set_ghost(END, end);
	set_ghost(STRIDE, 8);
	let s = make(s).serialize(&v).1;
	reach("C13: Vec with data serialized");
	prove("C13: not every element of Vec was visited", ghost(COUNT) == n);
	prove("C13: position after Vec is not the end of data of its elements", s.pos() == end.wrapping_add(n.wrapping_mul(8)));
}

/// Values which hold `N` elements in line, starting at `base`
pub fn inline<S, Ser, V, const N: usize>(make: fn(S) -> Ser, base: fn(&V) -> usize)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = roomy::<S>();
	let v = any_ref::<V>();
	let end = up(up(s.pos(), align_of::<V>()).wrapping_add(size_of::<V>()), S::VALUE_ALIGNMENT);
	set_ghost(BASE, base(v));
	set_ghost(END, end);
	let s = make(s).serialize(v).1;
	reach("C13: array serialized");
	prove("C13: not every element was visited", ghost(COUNT) == N);
	prove("C13: container added data beyond that of its elements", s.pos() == end);
}

/// Values which hold fields. `list` gives their addresses
pub fn fields<S, Ser, V>(make: fn(S) -> Ser, v: &V, list: fn(&V) -> usize)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = roomy::<S>();
	let mut end = s.pos();
	if size_of::<V>() != 0 {
		end = up(up(s.pos(), align_of::<V>()).wrapping_add(size_of::<V>()), S::VALUE_ALIGNMENT);
	}
	set_ghost(END, end);
	let n = list(v);
	let s = make(s).serialize(v).1;
	reach("C13: fields serialized");
	prove("C13: not every field was visited", ghost(COUNT) == n);
	prove("C13: container added data beyond that of its fields", s.pos() == end);
}

pub fn expect<T>(i: usize, field: &T) {
	set_ghost(TABLE.wrapping_add(i), field as *const T as usize);
}

/// Box, and Box within Box
pub fn boxed<S, Ser, T>(make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	Box<T>: Serialize<Ser>,
{
	let s = start::<S>();
	let v: Box<T> = unsafe { Box::from_raw(heap(size_of::<T>(), align_of::<T>()) as *mut T) };
	let head = up(up(s.pos(), 8).wrapping_add(8), S::VALUE_ALIGNMENT);
	let end = up(up(head, align_of::<T>()).wrapping_add(size_of::<T>()), S::VALUE_ALIGNMENT);
	set_ghost(BASE, &*v as *const T as usize);
	set_ghost(END, end);
	let s = make(s).serialize(&v).1;
	reach("C13: Box serialized");
	prove("C13: content of Box was not visited once", ghost(COUNT) == 1);
	prove("C13: Box added data beyond that of its content", s.pos() == end);
	set_ghost(DROPS, 1);
}

/// Serializing data of `v` does nothing at all
pub fn nothing<S, Ser, V>(make: fn(S) -> Ser, v: &V)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = any_storage::<S>();
	let mut ser = make(s);
	let b = before(ser.storage());
	v.serialize_data(&mut ser);
	let s = ser.finalize();
	reach("C13: nothing to serialize");
	inv(&s);
	prove("C13,C19: value without data moved position", s.pos() == b.pos);
	prove("C13,C19: value without data changed capacity", s.capacity() == b.cap);
	prove("C13,C19: value without data moved memory", s.as_ptr() == b.ptr);
	snap_eq("C13,C19: value without data altered storage", s.as_ptr(), b.snap, 0, b.cap);
	prove("C13: value without data visited something", ghost(COUNT) == 0);
}

/// Zero-sized value
pub fn zst<S, Ser, V>(make: fn(S) -> Ser, v: &V)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = any_storage::<S>();
	let b = before(&s);
	let mut ser = make(s);
	ser.serialize_value(v);
	ser.serialize_value(v);
	let s = ser.finalize();
	reach("C19: zero-sized value serialized");
	untouched("", &s, b);
}

/// Container of zero-sized values, `header` bytes in size
pub fn zst_in<S, Ser, V>(make: fn(S) -> Ser, v: &V)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = start::<S>();
	let b = before(&s);
	let at = up(b.pos, align_of::<V>());
	let end = up(at.wrapping_add(size_of::<V>()), S::VALUE_ALIGNMENT);
	let (pos, s) = make(s).serialize(v);
	reach("C19: container of zero-sized values serialized");
	prove("C19: container of zero-sized values is not where it should be", pos == at);
	prove("C19: container of zero-sized values added data", s.pos() == end);
	b.grown(&s, end);
	snap_eq("C19: content of storage lost or altered", s.as_ptr(), b.snap, 0, b.pos);
	bytes_eq(
		"C19: pointer or length of container of zero-sized values was altered",
		s.as_ptr().wrapping_add(pos),
		v as *const V as *const u8,
		size_of::<V>(),
	);
}

/// Type which must be serialized through a proxy, though it could be itself
pub struct Foreign(u32);

impl<S: Serializer> Serialize<S> for Foreign {
	fn serialize_data(&self, _s: &mut S) {
		fail("C11: field with `ser_with` was serialized itself");
	}
}

/// Type which can only be serialized through a proxy
pub struct Alien<T>(T);

pub fn visited<T>(x: &T) {
	let n = ghost(COUNT);
	prove(
		"C11: proxy was given something other than field which is due",
		x as *const T as usize == ghost(TABLE.wrapping_add(n)),
	);
	set_ghost(COUNT, n.wrapping_add(1));
}

/// Derived types. `list` gives addresses of fields
pub fn derived<S, Ser, V>(make: fn(S) -> Ser, v: V, list: fn(&V) -> usize)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Serialize<Ser>,
{
	let s = roomy::<S>();
	let mut end = s.pos();
	if size_of::<V>() != 0 {
		end = up(up(s.pos(), align_of::<V>()).wrapping_add(size_of::<V>()), S::VALUE_ALIGNMENT);
	}
	set_ghost(END, end);
	let n = list(&v);
	let s = make(s).serialize(&v).1;
	reach("C11: derived type serialized");
	prove("C11: not every field was visited, or one more than once", ghost(COUNT) == n);
	prove("C11: derived impl added data beyond that of fields", s.pos() == end);
	std::mem::forget(v);
}
