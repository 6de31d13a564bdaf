//! Sharing between threads
use probe::{probes, st::*, *};
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer, storage::*};

const fn is_send<T: Send>() {}
const fn is_sync<T: Sync>() {}
type W = AlignedVec<64, 32, 4, 1120>;
macro_rules! threads {
	($($t:ty,)*) => { $( const _: () = { is_send::<$t>(); is_sync::<$t>() }; )* };
}
threads! {
	A16, W,
	CompleteSerializer<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>,
	PtrOffsetSerializer<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>,
	PureCopySerializer<16, 16, 8, 1024, AlignedVec<16, 16, 8, 1024>>,
}

/// Several threads may hold a shared reference: methods which take one must not write
fn shared<S: Full + Sync>() {
	let s = any_storage::<S>();
	let before = before(&s);
	freeze(&s);
	let r = &s;
	if before.cap > 0 {
		freeze(before.ptr);
	}
	let pos = r.pos();
	let cap = r.capacity();
	let ptr = r.as_ptr();
	prove("C16: position changes when it's asked for", pos == r.pos());
	prove("C16: capacity changes when it's asked for", cap == r.capacity());
	prove("C16: pointer changes when it's asked for", ptr == r.as_ptr());
	if split(cap > 0) {
		let at = any();
		assume(at <= cap);
		let p = unsafe { r.ptr(at) };
		prove("C16: pointer is not to position asked for", p as usize == ptr as usize + at);
	}
	if split(pos > 0) {
		let at = any();
		assume(at < pos);
		let x: &u8 = unsafe { r.read(at) };
		prove("C16: reference is not to position asked for", x as *const u8 as usize == ptr as usize + at);
	}
	if before.cap > 0 {
		thaw(before.ptr);
	}
	thaw(&s);
	before.kept(&s);
}

macro_rules! ser_shared {
	($name:ident, $ser:ident) => {
		fn $name() {
			let store = any_storage::<A16>();
			let pos = store.pos();
			let cap = store.capacity();
			let ser = $ser::from_storage(store);
			freeze(&ser);
			let r = &ser;
			prove("C16: position of serializer is not that of storage", r.pos() == pos);
			prove("C16: capacity of serializer is not that of storage", r.capacity() == cap);
			prove("C16: position of serializer is not that of storage", r.storage().pos() == pos);
			thaw(&ser);
			let s = ser.finalize();
			prove("C16: position of serializer is not that of storage", s.pos() == pos);
		}
	};
}
ser_shared!(complete, CompleteSerializer);
ser_shared!(offset, PtrOffsetSerializer);
ser_shared!(pure, PureCopySerializer);

probes! {
	shared_a16: shared::<A16>();
	shared_v4: shared::<V4>();
	ser_complete: complete();
	ser_offset: offset();
	ser_pure: pure();
}
fn main() {}
