//! Specifications of operations of serializers which only pass on to their storage, and of the ways
//! to make a serializer.
use crate::{ser::borrow, spec::*, st::*, val::*, *};
use ser_raw::{Serialize, Serializer};
use std::mem::{align_of, forget, size_of};

/// One of the operations which push without a pointer to what is pushed
pub fn raw<S, Ser, T>(which: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
{
	let mut s = any_storage::<S>();
	let b = before(&s);
	let p = up(b.pos, align_of::<T>());
	let size = size_of::<T>();
	let (value, slice) = (any_ref::<T>(), any_slice::<T>());
	let n = match which {
		0 | 2 => 1,
		1 => slice.len(),
		_ => any(),
	};
	let max = S::MAX_CAPACITY.wrapping_sub(p) / size;
	panic_ok(n > max);
	let g = Guard::new(&s, b, p);
	let mut ser = make(borrow(&mut s));
	let got = match which {
		0 => ser.push_raw(value),
		1 => ser.push_raw_slice(slice),
		2 => ser.push_empty::<T>(),
		_ => ser.push_empty_slice::<T>(n),
	};
	forget(g);
	panic_reset();
	reach("C09: pushed through serializer");
	let orig = &s as *const S;
	prove("C20: storage of serializer is not that which was borrowed", ser.storage() as *const S == orig);
	let s = ser.finalize();
	let total = size.wrapping_mul(n);
	pushed(s, b, got, p, total);
	let at = s.as_ptr().wrapping_add(got);
	match which {
		0 => bytes_eq("C09: bytes at returned position are not those pushed", at, value as *const T as *const u8, size),
		1 => bytes_eq("C09: bytes at returned position are not those pushed", at, slice.as_ptr() as *const u8, total),
		_ => (),
	}
}

pub fn raw_bytes<S, Ser>(make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
{
	let mut s = any_storage::<S>();
	let b = before(&s);
	let src = any_slice::<u8>();
	panic_ok(b.pos.wrapping_add(src.len()) > S::MAX_CAPACITY);
	let g = Guard::new(&s, b, b.pos);
	let mut ser = make(borrow(&mut s));
	let got = ser.push_raw_bytes(src);
	forget(g);
	panic_reset();
	reach("C09: bytes pushed through serializer");
	let s = ser.finalize();
	pushed(s, b, got, b.pos, src.len());
	bytes_eq("C09: bytes at returned position are not those pushed", s.as_ptr().wrapping_add(got), src.as_ptr(), src.len());
}

/// Zero-sized values pushed through serializer
pub fn raw_zst<S, Ser, T>(make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
{
	let mut s = any_storage::<S>();
	let b = before(&s);
	let src = any_slice::<T>();
	let mut ser = make(borrow(&mut s));
	ser.push_raw_slice(src);
	if src.len() > 0 {
		ser.push_raw(&src[0]);
	}
	untouched("C19: zero-sized values pushed through serializer", ser.finalize(), b);
}

/// Serializer made by its own constructors
pub fn made<S, Ser, V>(kind: usize, new: fn() -> Ser, with_capacity: fn(usize) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	let ser = if either() {
		let ser = new();
		prove("C18: new serializer has capacity", ser.capacity() == 0);
		prove("C18: new serializer allocated", !is_live(ser.storage().as_ptr()));
		ser
	} else {
		let n = any();
		panic_ok(n > S::MAX_CAPACITY);
		let ser = with_capacity(n);
		panic_reset();
		prove("C24: with_capacity beyond MAX_CAPACITY did not panic", n <= S::MAX_CAPACITY);
		prove("C18: with_capacity does not give capacity asked for", ser.capacity() == up(n, S::MAX_VALUE_ALIGNMENT));
		if split(n == 0) {
			prove("C18: with_capacity(0) allocated", !is_live(ser.storage().as_ptr()));
		} else {
			prove("C18: with_capacity did not allocate", is_live(ser.storage().as_ptr()));
		}
		ser
	};
	prove("C18: new serializer is not at position 0", ser.pos() == 0);
	inv(ser.storage());
	let v = V::any();
	v.hold(true);
	freeze(&v);
	let (pos, s) = ser.serialize(&v);
	reach("C18: value serialized by new serializer");
	let mut cx = cx(kind, &s, 0);
	checked(&v, pos, &mut cx);
	prove("C09: position after value is not the end of its data", s.pos() == cx.cur);
	inv(&s);
	thaw(&v);
	v.hold(false);
}

/// Functions which do arithmetic on positions
pub fn arithmetic() {
	let a = 1usize << choose(13);
	let x = any();
	assume(x <= isize::MAX as usize);
	let r = ser_raw::util::align_up_to(x, a);
	prove("C05: align_up_to does not give the first multiple", r == up(x, a));
	prove("C05: align_up_to does not give a multiple", aligned(r, a));
	prove("C05: align_up_to goes down", r >= x);
	prove("C05: align_up_to goes too far", r.wrapping_sub(x) < a);
	prove("C05: is_aligned_to is wrong", ser_raw::util::is_aligned_to(x, a) == aligned(x, a));
}
