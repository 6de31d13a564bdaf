//! Unwinding out of serialization.
use crate::{st::*, val::*, *};
use ser_raw::{pos::Addr, Serialize, Serializer};

const FUSE: usize = 0;

/// User code which panics, at one of several places, when visited for the `FUSE`th time
pub struct Bomb {
	x: u32,
	y: u64,
}

fn tick() {
	let n = ghost(FUSE);
	if n == 1 {
		reach("C17: user code panics");
		inject_panic();
	}
	if n > 0 {
		set_ghost(FUSE, n.wrapping_sub(1));
	}
}

impl<S: Serializer> Serialize<S> for Bomb {
	fn serialize_data(&self, s: &mut S) {
		tick();
		s.push_raw(&self.y);
		s.overwrite_with(|s| {
			unsafe { s.overwrite(S::Addr::from_ref(&self.x), &5u32) };
			tick();
		});
	}
}

impl Val for Bomb {
	fn any() -> Self {
		Bomb { x: Val::any(), y: Val::any() }
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.y.header(sub(self, &self.y, out), cx);
	}
	fn data(&self, _out: *const u8, cx: &mut Cx) {
		let p = cx.place(8, 8);
		self.y.header(cx.at(p), cx);
	}
}

/// Serialize into borrowed storage, with panic at any point; then go on using storage
pub fn lent<S, Ser, V, W>(kind: usize, make: fn(&'static mut S) -> Ser, s: S, fuse: usize)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let mut s = s;
	let b = before(&s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	panic_ok(true);
	set_ghost(FUSE, choose(fuse).wrapping_add(1));
	let p = &mut s as *mut S;
	let panicked = catch(|| {
		make(unsafe { &mut *p }).serialize(&v);
	});
	panic_reset();
	set_ghost(FUSE, 0);
	if panicked {
		reach("C17: serialization panicked");
		usable::<S, Ser, W>(kind, make, &mut s, b);
	}
	thaw(&v);
	v.hold(false);
}

fn usable<S, Ser, W>(kind: usize, make: fn(&'static mut S) -> Ser, s: &mut S, b: Before)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	W: Val + Serialize<Ser>,
{
	left(s, b);
	let pos = s.pos();
	let w = W::any();
	w.hold(true);
	freeze(&w);
	let end = extent::<S, W>(&w, pos);
	panic_ok(end > S::MAX_CAPACITY);
	let mut at = 0;
	let (q, r) = (s as *mut S, &mut at as *mut usize);
	let panicked = catch(|| unsafe { *r = make(&mut *q).serialize(&w).0 });
	panic_reset();
	reach("C17: storage used after panic");
	if panicked {
		left(s, b);
	} else {
		prove("C24: value which exceeds MAX_CAPACITY did not panic", end <= S::MAX_CAPACITY);
		let mut cx = cx(kind, s, pos);
		checked(&w, at, &mut cx);
		prove("C17: position wrong after storage was used again", s.pos() == cx.cur);
	}
	snap_eq("C17: data from before panic altered later", s.as_ptr(), b.snap, 0, b.pos);
	thaw(&w);
	w.hold(false);
}

/// What a storage must be like after a panic
fn left<S: Full>(s: &S, b: Before) {
	inv(s);
	prove("C17: position before that from before operation", s.pos() >= b.pos);
	prove("C17: position exceeds capacity after panic", s.pos() <= s.capacity());
	prove("C17: capacity shrank in operation which panicked", s.capacity() >= b.cap);
	snap_eq("C17: data from before panic lost or altered", s.as_ptr(), b.snap, 0, b.pos);
}

/// As `lent`, and go on with same serializer
pub fn resumed<S, Ser, V, W>(kind: usize, make: fn(&'static mut S) -> Ser, s: S, fuse: usize)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
{
	let mut s = s;
	let b = before(&s);
	let v = V::any();
	v.hold(true);
	freeze(&v);
	panic_ok(true);
	set_ghost(FUSE, choose(fuse).wrapping_add(1));
	let p = &mut s as *mut S;
	let mut ser = make(unsafe { &mut *p });
	let q = &mut ser as *mut Ser;
	let panicked = catch(|| {
		unsafe { &mut *q }.serialize_value(&v);
	});
	panic_reset();
	set_ghost(FUSE, 0);
	if panicked {
		reach("C17: serialization panicked");
		left(ser.storage(), b);
		let pos = ser.pos();
		let w = W::any();
		w.hold(true);
		freeze(&w);
		let at = ser.serialize_value(&w);
		let s = ser.finalize();
		reach("C17: serializer used after panic");
		let mut cx = cx(kind, s, pos);
		checked(&w, at, &mut cx);
		prove("C17: position wrong after serializer was used again", s.pos() == cx.cur);
		snap_eq("C17: data from before panic altered later", s.as_ptr(), b.snap, 0, b.pos);
		thaw(&w);
		w.hold(false);
	}
	thaw(&v);
	v.hold(false);
}

/// Storage owned by serializer is freed (which is checked when analysis ends)
pub fn owned<S, Ser, V>(make: fn(S) -> Ser, s: S, fuse: usize)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	let v = V::any();
	v.hold(true);
	freeze(&v);
	panic_ok(true);
	set_ghost(FUSE, choose(fuse).wrapping_add(1));
	let ptr = s.as_ptr();
	let panicked = catch(|| {
		make(s).serialize(&v);
	});
	panic_reset();
	if panicked {
		reach("C17: serialization panicked");
		prove("C17: storage owned by serializer was not freed", !is_live(ptr));
	}
	thaw(&v);
	v.hold(false);
}
