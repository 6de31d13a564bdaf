//! Many pointers, many moves of storage's memory.
use crate::{ser::*, st::*, val::*, *};
use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	CompleteSerializer, Serialize, Serializer,
};
use std::borrow::BorrowMut;

/// Storage which grows by no more than it must, to new memory each time.
/// If `APART`, new memory is never where there was some before.
pub struct Mover<const APART: bool> {
	inner: AlignedVec,
	/// Addresses where memory was
	past: [usize; 16],
	moves: usize,
}

impl<const APART: bool> Storage for Mover<APART> {
	const STORAGE_ALIGNMENT: usize = 16;
	const MAX_VALUE_ALIGNMENT: usize = 16;
	const VALUE_ALIGNMENT: usize = 8;
	const MAX_CAPACITY: usize = <AlignedVec as Storage>::MAX_CAPACITY;

	fn new() -> Self {
		Mover { inner: AlignedVec::new(), past: [0; 16], moves: 0 }
	}

	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		Mover { inner: AlignedVec::with_capacity_unchecked(capacity), past: [0; 16], moves: 0 }
	}

	fn capacity(&self) -> usize {
		self.inner.capacity()
	}

	fn pos(&self) -> usize {
		self.inner.pos()
	}

	unsafe fn set_pos(&mut self, pos: usize) {
		self.inner.set_pos(pos)
	}

	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		self.inner.push_slice_unchecked(slice, size)
	}

	fn reserve(&mut self, additional: usize) {
		let pos = self.inner.pos();
		if split(additional <= self.inner.capacity().wrapping_sub(pos)) {
			return;
		}
		let cap = up(pos.wrapping_add(additional), 16);
		let mut new = unsafe { AlignedVec::with_capacity_unchecked(cap) };
		if APART {
			let mut i = 0;
			while i < self.moves {
				assume(new.as_ptr() as usize != self.past[i]);
				i = i.wrapping_add(1);
			}
			self.past[self.moves] = self.inner.as_ptr() as usize;
			self.moves = self.moves.wrapping_add(1);
		}
		unsafe {
			std::ptr::copy_nonoverlapping(self.inner.as_ptr(), new.as_mut_ptr(), pos);
			new.set_pos(pos);
		}
		self.inner = new;
	}

	fn shrink_to_fit(&mut self) {
		self.inner.shrink_to_fit()
	}
}

impl<const APART: bool> RandomAccessStorage for Mover<APART> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		self.inner.write_slice(pos, slice)
	}

	unsafe fn read<T>(&self, pos: usize) -> &T {
		self.inner.read(pos)
	}

	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		self.inner.read_mut(pos)
	}

	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.inner.ptr(pos)
	}

	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.inner.mut_ptr(pos)
	}
}

impl<const APART: bool> ContiguousStorage for Mover<APART> {
	fn as_ptr(&self) -> *const u8 {
		self.inner.as_ptr()
	}

	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.inner.as_mut_ptr()
	}
}

pub type Far = Mover<true>;
pub type Near = Mover<false>;

#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompMover<const APART: bool, B: BorrowMut<Mover<APART>>> {
	#[ser_storage(Mover<APART>)]
	storage: B,
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_pos_mapping]
	mapping: PosMapping,
}

fn comp<const APART: bool, B: BorrowMut<Mover<APART>>>(storage: B) -> CompMover<APART, B> {
	CompMover { storage, ptrs: Ptrs::new(), mapping: PosMapping::dummy() }
}

/// Each push moves memory
pub fn moved<const APART: bool, V: Val + Serialize<CompMover<APART, Mover<APART>>>>() {
	owned_in::<Mover<APART>, _, V>(COMPLETE, comp, full())
}

/// Each push moves memory, for 2 values
pub fn moved_lent<const APART: bool, V, W>()
where
	V: Val + Serialize<CompMover<APART, &'static mut Mover<APART>>>,
	W: Val + Serialize<CompMover<APART, &'static mut Mover<APART>>>,
{
	let mut s = full::<Mover<APART>>();
	two::<Mover<APART>, _, V, W>(COMPLETE, borrow(&mut s), comp);
}

/// Storage which has no room left
pub fn full<S: Full>() -> S {
	let s = any_storage_alloc::<S>();
	assume(s.pos() <= 1 << 40);
	assume(s.pos() == s.capacity());
	s
}

/// Storage which has exactly as much room left as given
pub fn tight<S: Full>(room: usize) -> S {
	let s = any_storage_alloc::<S>();
	assume(s.pos() <= 1 << 40);
	assume(s.pos().wrapping_add(room) == s.capacity());
	s
}

/// Vecs have given length
pub fn long<S, Ser, V>(kind: usize, make: fn(S) -> Ser, len: usize)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	set_ghost(LEN, len);
	owned_roomy::<S, Ser, V>(kind, make);
}

/// Storage which moves once, or a few times, at some point in between
pub fn squeezed<S, Ser, V>(kind: usize, make: fn(S) -> Ser, room: usize, len: usize)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	set_ghost(LEN, len);
	owned_in::<S, Ser, V>(kind, make, tight::<S>(room));
}

/// Storage without any memory, which grows as it does
pub fn from_new<S, Ser, V>(kind: usize, make: fn(S) -> Ser)
where
	S: Full,
	Ser: Serializer<Storage = S, BorrowedStorage = S>,
	V: Val + Serialize<Ser>,
{
	owned_in::<S, Ser, V>(kind, make, S::new());
}

/// 3 values by one serializer
pub fn in_a_row<S, Ser, V, W, X>(kind: usize, make: fn(&'static mut S) -> Ser)
where
	S: Full + 'static,
	Ser: Serializer<Storage = S, BorrowedStorage = &'static mut S>,
	V: Val + Serialize<Ser>,
	W: Val + Serialize<Ser>,
	X: Val + Serialize<Ser>,
{
	let mut s = start::<S>();
	let b = before(&s);
	let (v, w, x) = (V::any(), W::any(), X::any());
	v.hold(true);
	w.hold(true);
	x.hold(true);
	let mut ser = make(borrow(&mut s));
	let pos1 = ser.serialize_value(&v);
	let pos2 = ser.serialize_value(&w);
	let (pos3, s) = ser.serialize(&x);
	reach("C20: 3 values serialized");
	let mut cx = cx(kind, s, b.pos);
	checked(&v, pos1, &mut cx);
	checked(&w, pos2, &mut cx);
	checked(&x, pos3, &mut cx);
	prove("C09: position after values is not the end of their data", s.pos() == cx.cur);
	b.kept(s);
	v.hold(false);
	w.hold(false);
	x.hold(false);
}

/// Each push moves memory, Vecs have given length
pub fn moved_long<const APART: bool, V: Val + Serialize<CompMover<APART, Mover<APART>>>>(len: usize) {
	set_ghost(LEN, len);
	moved::<APART, V>();
}
