//! Types with hand-written `Serialize`, which use what serializers offer to user code.
use crate::{st::*, val::*, *};
use ser_raw::{pos::Addr, ser_traits::PosTracking, Serialize, Serializer};
use std::mem::size_of;

const IDS: usize = 0;
const FIRST: usize = 10;

/// A fresh number, and room for `n` ghost variables
fn id(n: usize) -> usize {
	let i = ghost(IDS);
	set_ghost(IDS, i.wrapping_add(n));
	FIRST.wrapping_add(i)
}

/// Records position reported for itself
#[repr(C)]
pub struct Mark {
	id: usize,
	x: u16,
}

impl<S: PosTracking> Serialize<S> for Mark {
	fn serialize_data(&self, s: &mut S) {
		set_ghost(self.id, s.pos_for(self));
		set_ghost(self.id.wrapping_add(1), s.pos_mapping().pos_for(&self.x));
	}
}

impl Val for Mark {
	fn any() -> Self {
		Mark { id: id(2), x: Val::any() }
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.id.header(sub(self, &self.id, out), cx);
		self.x.header(sub(self, &self.x, out), cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		let pos = (out as usize).wrapping_sub(cx.base);
		prove("C22: position reported for value is not that of its copy", ghost(self.id) == pos);
		let off = (&self.x as *const u16 as usize).wrapping_sub(self as *const _ as usize);
		prove("C22: position reported for field is not that of its copy", ghost(self.id.wrapping_add(1)) == pos.wrapping_add(off));
	}
}

/// Records positions before and after contents are serialized, and adds data of its own
pub struct Around<T> {
	id: usize,
	a: u8,
	t: T,
	z: u64,
}

impl<T: Serialize<S>, S: PosTracking> Serialize<S> for Around<T> {
	fn serialize_data(&self, s: &mut S) {
		set_ghost(self.id, s.pos_for(&self.z));
		self.t.serialize_data(s);
		set_ghost(self.id.wrapping_add(1), s.pos_for(&self.z));
		let p = s.push_raw(&self.z);
		set_ghost(self.id.wrapping_add(2), p);
		set_ghost(self.id.wrapping_add(3), s.pos_for(&self.a));
	}
}

impl<T: Val> Val for Around<T> {
	fn any() -> Self {
		Around {
			id: id(4),
			a: Val::any(),
			t: Val::any(),
			z: Val::any(),
		}
	}
	fn hold(&self, on: bool) {
		self.t.hold(on);
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.a.header(sub(self, &self.a, out), cx);
		self.t.header(sub(self, &self.t, out), cx);
		self.z.header(sub(self, &self.z, out), cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		let base = cx.base;
		let z = (sub(self, &self.z, out) as usize).wrapping_sub(base);
		let a = (sub(self, &self.a, out) as usize).wrapping_sub(base);
		self.t.data(sub(self, &self.t, out), cx);
		let p = cx.place(8, 8);
		prove("C22: position reported before contents is not that of copy", ghost(self.id) == z);
		prove("C22: position reported after contents is not that of copy", ghost(self.id.wrapping_add(1)) == z);
		prove("C22: position reported after raw push is not that of copy", ghost(self.id.wrapping_add(3)) == a);
		prove("C09: position returned by push_raw is not that of value", ghost(self.id.wrapping_add(2)) == p);
		self.z.header(cx.at(p), cx);
	}
}

/// Overwrites one of its fields in output
pub struct Patched {
	x: u32,
	y: u64,
	z: u16,
}

pub const PATCH: u64 = 0x0123_4567_89AB_CDEF;

impl<S: Serializer> Serialize<S> for Patched {
	fn serialize_data(&self, s: &mut S) {
		let pos = s.pos();
		s.overwrite_with(|s| unsafe { s.overwrite(S::Addr::from_ref(&self.y), &PATCH) });
		let off = (&self.z as *const u16 as usize).wrapping_sub(self as *const Self as usize);
		unsafe { s.overwrite(S::Addr::from_ref_offset(self, off), &7u16) };
		prove("C22: overwrite moved position", s.pos() == pos);
	}
}

impl Val for Patched {
	fn any() -> Self {
		Patched {
			x: Val::any(),
			y: Val::any(),
			z: Val::any(),
		}
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.x.header(sub(self, &self.x, out), cx);
		if cx.kind != COMPLETE {
			self.y.header(sub(self, &self.y, out), cx);
			self.z.header(sub(self, &self.z, out), cx);
		}
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		if cx.kind == COMPLETE {
			let y = unsafe { *(sub(self, &self.y, out) as *const u64) };
			prove("C22: overwrite did not hit copy of field addressed", y == PATCH);
			let z = unsafe { *(sub(self, &self.z, out) as *const u16) };
			prove("C22: overwrite did not hit copy of field addressed by offset", z == 7);
		}
	}
}

/// Adds any amount of data between pointers
pub struct Grow {
	b: Box<u16>,
	fill: &'static [u8],
	c: Box<u16>,
}

impl<S: Serializer> Serialize<S> for Grow {
	fn serialize_data(&self, s: &mut S) {
		self.b.serialize_data(s);
		s.push_raw_bytes(self.fill);
		self.c.serialize_data(s);
	}
}

impl Val for Grow {
	fn any() -> Self {
		let n = any();
		assume(n <= 1 << 40);
		Grow {
			b: Val::any(),
			fill: slice_of(n),
			c: Val::any(),
		}
	}
	fn hold(&self, on: bool) {
		self.b.hold(on);
		self.c.hold(on);
	}
	fn header(&self, _out: *const u8, _cx: &Cx) {}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		self.b.data(sub(self, &self.b, out), cx);
		let p = cx.place(self.fill.len(), 1);
		bytes_eq("C09: bytes pushed are not at position returned", cx.at(p), self.fill.as_ptr(), self.fill.len());
		self.c.data(sub(self, &self.c, out), cx);
	}
}

/// Pointers of its own to memory which it doesn't own
pub struct Handmade {
	n: usize,
	one: *const u64,
	many: *const u32,
	b: *const Box<u8>,
	bs: *const Box<u16>,
}

impl Handmade {
	fn many(&self) -> &'static [u32] {
		unsafe { std::slice::from_raw_parts(self.many, self.n) }
	}
	fn bs(&self) -> &'static [Box<u16>] {
		unsafe { std::slice::from_raw_parts(self.bs, 2) }
	}
}

impl<S: Serializer> Serialize<S> for Handmade {
	fn serialize_data(&self, s: &mut S) {
		s.push(unsafe { &*self.one }, S::Addr::from_ref(&self.one));
		s.push_slice(self.many(), S::Addr::from_ref(&self.many));
		let b = unsafe { &*self.b };
		s.push_and_process(b, S::Addr::from_ref(&self.b), |s| b.serialize_data(s));
		s.push_and_process_slice(self.bs(), S::Addr::from_ref(&self.bs), |s| {
			// Order is up to user
			self.bs()[1].serialize_data(s);
			self.bs()[0].serialize_data(s);
		});
	}
}

fn place<T: Val>(v: T) -> *const T {
	let p = mem(size_of::<T>(), std::mem::align_of::<T>()) as *mut T;
	unsafe { std::ptr::write(p, v) };
	p
}

impl Val for Handmade {
	fn any() -> Self {
		let n = any();
		assume(n > 0);
		assume(n <= MAX_LEN);
		Handmade {
			n,
			one: place(Val::any()),
			many: slice_of::<u32>(n).as_ptr(),
			b: place(Val::any()),
			bs: place::<[Box<u16>; 2]>(Val::any()) as *const Box<u16>,
		}
	}
	fn hold(&self, on: bool) {
		hold(self.one, on);
		hold(self.b, on);
		hold(self.bs, on);
		unsafe {
			(*self.b).hold(on);
			self.bs()[0].hold(on);
			self.bs()[1].hold(on);
		}
		if !on {
			unsafe {
				std::ptr::read(self.b);
				std::ptr::read(self.bs);
				std::ptr::read(self.bs.wrapping_add(1));
			}
		}
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.n.header(sub(self, &self.n, out), cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		let slot = |p: *const u8| unsafe { *(sub(self, unsafe { &*p }, out) as *const usize) };
		let p = cx.place(8, 8);
		let text = ptr_rule!(cx.kind, "pointer of user's type is not that of copy of its target");
		prove(text, slot(&self.one as *const _ as *const u8) == cx.ptr(self.one as usize, p));
		unsafe { (*self.one).header(cx.at(p), cx) };
		let p = cx.place(self.n.wrapping_mul(4), 4);
		prove(text, slot(&self.many as *const _ as *const u8) == cx.ptr(self.many as usize, p));
		bytes_eq(
			rule!(cx.kind, "contents of slice pushed differ from input"),
			cx.at(p),
			self.many as *const u8,
			self.n.wrapping_mul(4),
		);
		let p = cx.place(8, 8);
		prove(text, slot(&self.b as *const _ as *const u8) == cx.ptr(self.b as usize, p));
		unsafe { (*self.b).data(cx.at(p), cx) };
		let p = cx.place(16, 8);
		prove(text, slot(&self.bs as *const _ as *const u8) == cx.ptr(self.bs as usize, p));
		self.bs()[1].data(cx.at(p.wrapping_add(8)), cx);
		self.bs()[0].data(cx.at(p), cx);
	}
}

/// Uses those methods of a serializer which only add data
pub struct Raw {
	x: u32,
	many: &'static [u16],
	n: usize,
	id: usize,
}

impl<S: Serializer> Serialize<S> for Raw {
	fn serialize_data(&self, s: &mut S) {
		set_ghost(self.id, s.push_raw(&self.x));
		set_ghost(self.id.wrapping_add(1), s.push_raw_slice(self.many));
		set_ghost(self.id.wrapping_add(2), s.push_empty::<u64>());
		set_ghost(self.id.wrapping_add(3), s.push_empty_slice::<u32>(self.n));
		set_ghost(self.id.wrapping_add(4), s.push_raw(&self.x));
	}
}

impl Val for Raw {
	fn any() -> Self {
		let (n, m) = (any(), any());
		assume(n <= MAX_LEN);
		assume(m <= MAX_LEN);
		Raw {
			x: Val::any(),
			many: slice_of(m),
			n,
			id: id(5),
		}
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.x.header(sub(self, &self.x, out), cx);
	}
	fn data(&self, _out: *const u8, cx: &mut Cx) {
		let p = cx.place(4, 4);
		prove("C09: position returned by push_raw is not that of value", ghost(self.id) == p);
		self.x.header(cx.at(p), cx);
		let p = cx.place(self.many.len().wrapping_mul(2), 2);
		prove("C09: position returned by push_raw_slice is not that of slice", ghost(self.id.wrapping_add(1)) == p);
		bytes_eq("C09: bytes pushed are not at position returned", cx.at(p), self.many.as_ptr() as *const u8, self.many.len().wrapping_mul(2));
		let p = cx.place(8, 8);
		prove("C09: position returned by push_empty is not that of space", ghost(self.id.wrapping_add(2)) == p);
		let p = cx.place(self.n.wrapping_mul(4), 4);
		prove("C09: position returned by push_empty_slice is not that of space", ghost(self.id.wrapping_add(3)) == p);
		let p = cx.place(4, 4);
		prove("C09: position returned by push_raw is not that of value", ghost(self.id.wrapping_add(4)) == p);
		self.x.header(cx.at(p), cx);
	}
}
