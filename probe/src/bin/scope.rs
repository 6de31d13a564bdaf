//! Types of users which ask for positions, overwrite, and push
use probe::{probes, ser::*, st::*, user::*, val::*};
use ser_raw::{
	pos::{PosMapping, Ptrs, TrackingAddr},
	ser_traits::{Complete, PosTracking, PtrWriting, Writable},
	Serialize, CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serializer,
};
use std::borrow::BorrowMut;

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
type S = A16;
type CS = complete::Ser<S>;
type OS = offset::Ser<S>;
type PS = pure::Ser<S>;
type TS = Track<A16>;

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct Track<B: BorrowMut<A16>> {
	#[ser_storage(A16)]
	c: B,
	#[ser_pos_mapping]
	b: PosMapping,
}

fn track<B: BorrowMut<A16>>(c: B) -> Track<B> {
	Track { b: PosMapping::dummy(), c }
}

/// All traits implemented by hand
pub struct Hand {
	s: A16,
	m: PosMapping,
	p: Ptrs,
}

fn hand(s: A16) -> Hand {
	Hand { s, m: PosMapping::dummy(), p: Ptrs::new() }
}

impl PosTracking for Hand {
	fn pos_mapping(&self) -> &PosMapping {
		&self.m
	}
	fn set_pos_mapping(&mut self, m: PosMapping) {
		self.m = m
	}
}

impl PtrWriting for Hand {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		self.do_overwrite_ptr(ptr_pos, target_pos)
	}
}

impl Writable for Hand {}

impl Complete for Hand {
	fn ptrs(&self) -> &Ptrs {
		&self.p
	}
	fn ptrs_mut(&mut self) -> &mut Ptrs {
		&mut self.p
	}
}

impl Serializer for Hand {
	type Storage = A16;
	type BorrowedStorage = A16;
	type Addr = TrackingAddr;

	fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
		self.do_serialize_value(value)
	}
	fn push_slice<T>(&mut self, slice: &[T], addr: TrackingAddr) -> usize {
		PtrWriting::do_push_slice(self, slice, addr)
	}
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], addr: TrackingAddr, process: P) -> usize {
		PtrWriting::do_push_and_process_slice(self, slice, addr, process)
	}
	unsafe fn overwrite<T>(&mut self, addr: TrackingAddr, value: &T) {
		Complete::do_overwrite(self, addr, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		self.do_overwrite_with(write)
	}
	fn finalize(self) -> A16 {
		self.do_finalize()
	}
	fn storage(&self) -> &A16 {
		&self.s
	}
	fn storage_mut(&mut self) -> &mut A16 {
		&mut self.s
	}
	fn into_storage(self) -> A16 {
		self.s
	}
}

type Nested = Around<Box<Around<Box<Mark>>>>;
type Three = (Mark, Box<Mark>, Mark);
type Vecs = (Vec<Mark>, Mark);
type Deep = (Around<Vec<Box<Mark>>>, Option<Box<Mark>>, Mark);

probes! {
	complete_mark: owned::<S, CS, Mark>(COMPLETE, C::own);
	complete_around: owned::<S, CS, Around<Box<Mark>>>(COMPLETE, C::own);
	complete_nested: owned_roomy::<S, CS, Nested>(COMPLETE, C::own);
	complete_three: owned_roomy::<S, CS, Three>(COMPLETE, C::own);
	complete_vecs: owned_roomy::<S, CS, Vecs>(COMPLETE, C::own);
	complete_deep: owned_roomy::<S, CS, Deep>(COMPLETE, C::own);
	complete_string: owned_roomy::<S, CS, Around<(String, Vec<u32>, Mark)>>(COMPLETE, C::own);
	complete_array: owned_roomy::<S, CS, [Around<Box<Mark>>; 2]>(COMPLETE, C::own);
	complete_lent: lent_roomy::<S, complete::Lent<S>, Box<Mark>, (Mark, Box<Mark>)>(COMPLETE, C::lend);
	complete_patched: owned::<S, CS, Patched>(COMPLETE, C::own);
	complete_patched_box: owned::<S, CS, (u8, Box<Patched>)>(COMPLETE, C::own);
	complete_patched_all: owned_roomy::<S, CS, (Box<Patched>, Patched, Vec<Patched>)>(COMPLETE, C::own);
	complete_patched_after: owned_roomy::<S, CS, (Vec<Box<u8>>, Patched)>(COMPLETE, C::own);
	complete_patched_v16: owned_roomy::<W16, complete::Ser<W16>, (u8, Box<Patched>, Patched)>(COMPLETE, C::own);
	complete_grow: owned::<S, CS, Grow>(COMPLETE, C::own);
	complete_grow_box: owned::<S, CS, Box<Grow>>(COMPLETE, C::own);
	complete_grow_lent: lent_roomy::<S, complete::Lent<S>, Grow, Grow>(COMPLETE, C::lend);
	complete_handmade: owned_roomy::<S, CS, Handmade>(COMPLETE, C::own);
	complete_handmade_in: owned_roomy::<S, CS, (Box<Handmade>, Box<u8>)>(COMPLETE, C::own);
	complete_raw: owned_roomy::<S, CS, (Raw, Box<u8>)>(COMPLETE, C::own);

	offset_mark: owned::<S, OS, Mark>(OFFSET, O::own);
	offset_around: owned::<S, OS, Around<Box<Mark>>>(OFFSET, O::own);
	offset_nested: owned_roomy::<S, OS, Nested>(OFFSET, O::own);
	offset_three: owned_roomy::<S, OS, Three>(OFFSET, O::own);
	offset_vecs: owned_roomy::<S, OS, Vecs>(OFFSET, O::own);
	offset_deep: owned_roomy::<S, OS, Deep>(OFFSET, O::own);
	offset_string: owned_roomy::<S, OS, Around<(String, Vec<u32>, Mark)>>(OFFSET, O::own);
	offset_array: owned_roomy::<S, OS, [Around<Box<Mark>>; 2]>(OFFSET, O::own);
	offset_lent: lent_roomy::<S, offset::Lent<S>, Box<Mark>, (Mark, Box<Mark>)>(OFFSET, O::lend);
	offset_patched: owned_roomy::<S, OS, (Box<Patched>, Patched, Vec<Patched>)>(OFFSET, O::own);
	offset_grow: owned::<S, OS, Grow>(OFFSET, O::own);
	offset_handmade: owned_roomy::<S, OS, Handmade>(OFFSET, O::own);
	offset_handmade_in: owned_roomy::<S, OS, (Box<Handmade>, Box<u8>)>(OFFSET, O::own);
	offset_raw: owned_roomy::<S, OS, (Raw, Box<u8>)>(OFFSET, O::own);

	track_mark: owned::<S, TS, Mark>(PURE, track);
	track_around: owned::<S, TS, Around<Box<Mark>>>(PURE, track);
	track_nested: owned_roomy::<S, TS, Nested>(PURE, track);
	track_three: owned_roomy::<S, TS, Three>(PURE, track);
	track_vecs: owned_roomy::<S, TS, Vecs>(PURE, track);
	track_deep: owned_roomy::<S, TS, Deep>(PURE, track);
	track_string: owned_roomy::<S, TS, Around<(String, Vec<u32>, Mark)>>(PURE, track);
	track_lent: lent_roomy::<S, Track<&'static mut A16>, Box<Mark>, (Mark, Box<Mark>)>(PURE, track);

	hand_mark: owned::<S, Hand, Around<Box<Mark>>>(COMPLETE, hand);
	hand_nested: owned_roomy::<S, Hand, Nested>(COMPLETE, hand);
	hand_patched: owned::<S, Hand, (u8, Box<Patched>)>(COMPLETE, hand);
	hand_patched_all: owned_roomy::<S, Hand, (Box<Patched>, Patched, Vec<Patched>)>(COMPLETE, hand);
	hand_vec: owned::<S, Hand, (u8, Vec<u32>)>(COMPLETE, hand);

	pure_patched: owned_roomy::<S, PS, (Box<Patched>, Patched, Vec<Patched>)>(PURE, P::own);
	pure_grow: owned::<S, PS, Grow>(PURE, P::own);
	pure_handmade: owned_roomy::<S, PS, Handmade>(PURE, P::own);
	pure_handmade_in: owned_roomy::<S, PS, (Box<Handmade>, Box<u8>)>(PURE, P::own);
	pure_raw: owned_roomy::<S, PS, (Raw, Box<u8>)>(PURE, P::own);
}
fn main() {}
