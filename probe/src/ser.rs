//! Specifications of serializers, end to end.
use crate::{spec::*, st::*, val::*, *};
use ser_raw::{Serialize, Serializer};

/// Serialize one value of type `V` into storage owned by serializer
pub fn owned<S, Ser, V>(kind: usize, make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	owned_in::<S, Ser, V>(kind, make, start::<S>())
}

/// As `owned`, where storage doesn't need to grow
pub fn owned_roomy<S, Ser, V>(kind: usize, make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	owned_in::<S, Ser, V>(kind, make, roomy::<S>())
}

pub fn owned_in<S, Ser, V>(kind: usize, make: fn(S) -> Ser, s: S)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	let b = before(&s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	let (pos, s) = make(s).serialize(&v);
	reach("C01: value serialized into owned storage");
	let mut cx = cx(kind, &s, b.pos);
	checked(&v, pos, &mut cx);
	prove("C09: position after value is not the end of its data", s.pos() == cx.cur);
	b.kept(&s);
	thaw(&v);
	v.hold(false);
}

/// Serialize 2 values one after the other into borrowed storage which may have content
pub fn lent<S, Ser, V, W>(kind: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let mut s = start::<S>();
	two::<S, Ser, V, W>(kind, borrow(&mut s), make);
}

pub fn lent_roomy<S, Ser, V, W>(kind: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let mut s = roomy::<S>();
	two::<S, Ser, V, W>(kind, borrow(&mut s), make);
}

pub fn two<S, Ser, V, W>(kind: usize, s: &'static mut S, make: fn(&'static mut S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let b = before(s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	let w = W::any();
	w.hold(true);
	freeze(&w);
	let orig = s as *const S;
	let mut ser = make(s);
	let pos1 = ser.serialize_value(&v);
	prove("C20: position reported by serializer is not that of its storage", ser.pos() == ser.storage().pos());
	prove("C20: capacity reported by serializer is not that of its storage", ser.capacity() == ser.storage().capacity());
	let pos2 = ser.serialize_value(&w);
	let s = ser.finalize();
	reach("C20: values serialized into borrowed storage");
	prove("C20: storage handed back is not that which was borrowed", s as *const S == orig);
	let mut cx = cx(kind, s, b.pos);
	checked(&v, pos1, &mut cx);
	checked(&w, pos2, &mut cx);
	prove("C09: position after values is not the end of their data", s.pos() == cx.cur);
	b.kept(s);
	thaw(&v);
	v.hold(false);
	thaw(&w);
	w.hold(false);
}

/// Something which storage is part of
#[repr(C)]
pub struct Held<S> {
	before: u64,
	s: S,
	after: u32,
}

impl<S> Held<S> {
	pub fn new(s: S) -> Self {
		Held { before: 0x5555, s, after: 7 }
	}
}

impl<S> std::borrow::Borrow<S> for Held<S> {
	fn borrow(&self) -> &S {
		&self.s
	}
}

impl<S> std::borrow::BorrowMut<S> for Held<S> {
	fn borrow_mut(&mut self) -> &mut S {
		&mut self.s
	}
}

/// As `lent`, where what serializer is given is neither storage nor a reference to it
pub fn held<S, H, Ser, V, W>(kind: usize, hold: fn(S) -> H, make: fn(H) -> Ser)
where
	S: Full,
	H: std::borrow::BorrowMut<S>,
	Ser: Serializer<Storage = S, BorrowedStorage = H>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let s = start::<S>();
	let b = before(&s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	let w = W::any();
	w.hold(true);
	freeze(&w);
	let mut ser = make(hold(s));
	prove("C20: serializer made from storage isn't at its position", ser.pos() == b.pos);
	let pos1 = ser.serialize_value(&v);
	prove("C20: position reported by serializer is not that of its storage", ser.pos() == ser.storage().pos());
	prove("C20: capacity reported by serializer is not that of its storage", ser.capacity() == ser.storage().capacity());
	let (pos2, mut h) = ser.serialize(&w);
	reach("C20: values serialized into storage held by something else");
	let s: &mut S = h.borrow_mut();
	let mut cx = cx(kind, s, b.pos);
	checked(&v, pos1, &mut cx);
	checked(&w, pos2, &mut cx);
	prove("C09: position after values is not the end of their data", s.pos() == cx.cur);
	b.kept(s);
	thaw(&v);
	v.hold(false);
	thaw(&w);
	w.hold(false);
}

/// Serialize a value, clear storage, serialize another
pub fn cleared<S, Ser, V, W>(kind: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let mut s = start::<S>();
	let s = borrow(&mut s);
	let v = V::any();
	let (_, s) = make(s).serialize(&v);
	s.clear();
	let w = W::any();
	w.hold(true);
	freeze(&w);
	let (pos, s) = make(s).serialize(&w);
	reach("C20: value serialized into storage after clear");
	let mut cx = cx(kind, s, 0);
	checked(&w, pos, &mut cx);
	prove("C09: position after value is not the end of its data", s.pos() == cx.cur);
	inv(s);
	thaw(&w);
	w.hold(false);
}

/// Storage owned by serializer is what it hands over in the end
pub fn handover<S, Ser, V>(_kind: usize, make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	let s = start::<S>();
	let (pos, cap, ptr) = (s.pos(), s.capacity(), s.as_ptr());
	let mut ser = make(s);
	prove("C20: serializer made from storage isn't at its position", ser.pos() == pos);
	prove("C20: serializer made from storage doesn't have its capacity", ser.capacity() == cap);
	prove("C20: serializer made from storage has other memory", ser.storage().as_ptr() == ptr);
	let v = V::any();
	ser.serialize_value(&v);
	let (pos, cap, ptr) = (ser.storage_mut().pos(), ser.storage().capacity(), ser.storage().as_ptr());
	let snap = snap(ptr);
	let s = ser.into_storage();
	reach("C20: storage handed over");
	prove("C20: storage handed over is at another position", s.pos() == pos);
	prove("C20: storage handed over has another capacity", s.capacity() == cap);
	prove("C20: storage handed over has other memory", s.as_ptr() == ptr);
	snap_eq("C20: content of storage handed over was altered", s.as_ptr(), snap, 0, pos);
	inv(&s);
}

/// A place for storage which is borrowed
pub fn borrow<S: Full>(s: &mut S) -> &'static mut S {
	unsafe { &mut *(s as *mut S) }
}

/// Serialize into storage of limited size. Panics if there's not enough room, and only then
pub fn limited<S, Ser, V>(kind: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
{
	let mut s = any_storage::<S>();
	let b = before(&s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	let end = extent::<S, V>(&v, b.pos);
	panic_ok(end > S::MAX_CAPACITY);
	let mut pos = 0;
	let (q, at) = (&mut s as *mut S, &mut pos as *mut usize);
	let panicked = catch(|| unsafe { *at = make(&mut *q).serialize(&v).0 });
	panic_reset();
	let s = &mut s;
	b.kept(s);
	if panicked {
		reach("C24: value exceeds MAX_CAPACITY");
		prove("C17: position before that from before value which panicked", s.pos() >= b.pos);
	} else {
		prove("C24: value which exceeds MAX_CAPACITY did not panic", end <= S::MAX_CAPACITY);
		reach("C24: value within MAX_CAPACITY");
		let mut cx = cx(kind, s, b.pos);
		checked(&v, pos, &mut cx);
		prove("C09: position after value is not the end of its data", s.pos() == cx.cur);
		prove("C09: position after value is not what layout makes it", s.pos() == end);
		b.grown(s, end);
	}
	thaw(&v);
	v.hold(false);
}
