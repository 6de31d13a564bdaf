//! Serializers defined by user with `#[derive(Serializer)]`
use probe::{custom::{C16, C1, C8}, probes, ser::*, st::*, types::*, user::*, val::*};
use ser_raw::{
	pos::{PosMapping, Ptrs},
	storage::AlignedVec,
	Serializer,
};
use std::borrow::BorrowMut;

/// Generic over how storage is held. Fields in unusual order, and others which look just like those tagged
#[derive(Serializer)]
#[ser_type(complete)]
pub struct Comp<B: BorrowMut<A16>> {
	ptrs: Ptrs,
	storage: u8,
	#[ser_ptrs]
	p: Ptrs,
	pos_mapping: PosMapping,
	#[ser_storage(A16)]
	st: B,
	other: [u32; 3],
	#[ser_pos_mapping]
	m: PosMapping,
}

impl<B: BorrowMut<A16>> Comp<B> {
	fn make(st: B) -> Self {
		Comp {
			ptrs: Ptrs::new(),
			storage: 1,
			p: Ptrs::new(),
			pos_mapping: PosMapping::dummy(),
			st,
			other: [1, 2, 3],
			m: PosMapping::dummy(),
		}
	}
}

/// Not generic
#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompOwned {
	#[ser_pos_mapping]
	r#type: PosMapping,
	#[ser_storage(AlignedVec<32, 16, 16, { ser_raw::util::aligned_max_capacity(32) }>)]
	r#struct: W16,
	#[ser_ptrs]
	r#fn: Ptrs,
}

fn comp_owned(s: W16) -> CompOwned {
	CompOwned {
		r#type: PosMapping::dummy(),
		r#struct: s,
		r#fn: Ptrs::new(),
	}
}

/// Generic over const, lifetime and type
#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompConst<'a, const MAX: usize, X>
where
	X: Copy,
{
	x: X,
	#[ser_storage(AlignedVec<16, 16, 8, MAX>)]
	storage: &'a mut AlignedVec<16, 16, 8, MAX>,
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_pos_mapping]
	mapping: PosMapping,
}

fn comp_const<const MAX: usize>(storage: &'static mut AlignedVec<16, 16, 8, MAX>) -> CompConst<'static, MAX, u64> {
	CompConst {
		x: 1,
		storage,
		ptrs: Ptrs::new(),
		mapping: PosMapping::dummy(),
	}
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct Off<B: BorrowMut<A16>> {
	#[ser_pos_mapping]
	b: PosMapping,
	a: PosMapping,
	ptrs: Ptrs,
	#[ser_storage(A16)]
	c: B,
}

impl<B: BorrowMut<A16>> Off<B> {
	fn make(c: B) -> Self {
		Off {
			b: PosMapping::dummy(),
			a: PosMapping::dummy(),
			ptrs: Ptrs::new(),
			c,
		}
	}
}

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct Track<B: BorrowMut<A16>> {
	a: PosMapping,
	#[ser_storage(A16)]
	c: B,
	#[ser_pos_mapping]
	b: PosMapping,
}

impl<B: BorrowMut<A16>> Track<B> {
	fn make(c: B) -> Self {
		Track {
			b: PosMapping::dummy(),
			a: PosMapping::dummy(),
			c,
		}
	}
}

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct Pure<B: BorrowMut<A16>> {
	#[ser_storage(A16)]
	store: B,
	a: PosMapping,
}

impl<B: BorrowMut<A16>> Pure<B> {
	fn make(store: B) -> Self {
		Pure { store, a: PosMapping::dummy() }
	}
}

/// With storages defined by user too
#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompCustom<B: BorrowMut<C8>> {
	#[ser_storage(C8)]
	storage: B,
	#[ser_ptrs]
	ptrs: Ptrs,
	#[ser_pos_mapping]
	mapping: PosMapping,
}

impl<B: BorrowMut<C8>> CompCustom<B> {
	fn make(storage: B) -> Self {
		CompCustom {
			storage,
			ptrs: Ptrs::new(),
			mapping: PosMapping::dummy(),
		}
	}
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct OffCustom {
	#[ser_storage(C1)]
	storage: C1,
	#[ser_pos_mapping]
	mapping: PosMapping,
}

fn off_custom(storage: C1) -> OffCustom {
	OffCustom { storage, mapping: PosMapping::dummy() }
}

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct TrackCustom {
	#[ser_pos_mapping]
	mapping: PosMapping,
	#[ser_storage(C16)]
	storage: C16,
}

fn track_custom(storage: C16) -> TrackCustom {
	TrackCustom { storage, mapping: PosMapping::dummy() }
}

/// Storage is a type parameter, and attributes stand among others
#[derive(Serializer)]
#[ser_type(ptr_offset)]
#[allow(dead_code)]
pub struct OffAny<'b, T, const P: usize>
where
	T: Full + 'b,
{
	pad: [u8; P],
	#[doc = "storage"]
	#[ser_storage(T)]
	#[allow(dead_code)]
	held: &'b mut T,
	/// Mapping
	#[allow(unused)]
	#[ser_pos_mapping]
	mapping: ser_raw::pos::PosMapping,
	mappings: (PosMapping, PosMapping),
}

fn off_any<S: Full>(held: &'static mut S) -> OffAny<'static, S, 3> {
	OffAny {
		pad: [9; 3],
		held,
		mapping: PosMapping::dummy(),
		mappings: (PosMapping::dummy(), PosMapping::dummy()),
	}
}

#[allow(dead_code)]
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct TrackAny<T: Full, P: BorrowMut<T>, const ON: bool>
where
	[u8; 4]: Copy,
{
	#[ser_storage(T)]
	held: P,
	#[ser_pos_mapping]
	mapping: PosMapping,
	mark: std::marker::PhantomData<fn() -> T>,
}

fn track_any<S: Full, B: BorrowMut<S>>(held: B) -> TrackAny<S, B, true> {
	TrackAny {
		held,
		mapping: PosMapping::dummy(),
		mark: std::marker::PhantomData,
	}
}

/// Fields named as methods of trait
#[allow(dead_code)]
#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct PureAny<'b, T: Copy, S: Full, const N: usize> {
	storage_mut: T,
	#[ser_storage(S)]
	storage: &'b mut S,
	into_storage: [T; N],
}

fn pure_any<S: Full>(storage: &'static mut S) -> PureAny<'static, u8, S, 2> {
	PureAny {
		storage_mut: 1,
		storage,
		into_storage: [1, 2],
	}
}

/// Names of fields crossed over, and parameters named as those of methods
#[derive(Serializer)]
#[ser_type(complete)]
pub struct CompAny<T: Full, P, W: Copy>
where
	P: BorrowMut<T>,
{
	#[ser_pos_mapping]
	ptrs: PosMapping,
	#[ser_ptrs]
	mapping: ser_raw::pos::Ptrs,
	#[ser_storage(T)]
	storage: P,
	mark: std::marker::PhantomData<(T, W)>,
}

fn comp_any<S: Full, B: BorrowMut<S>>(storage: B) -> CompAny<S, B, u8> {
	CompAny {
		ptrs: PosMapping::dummy(),
		mapping: Ptrs::new(),
		storage,
		mark: std::marker::PhantomData,
	}
}

/// Implements the trait by hand
pub struct ByHand<S: Full> {
	storage: S,
}

impl<S: Full> Serializer for ByHand<S> {
	type Storage = S;
	type BorrowedStorage = S;
	type Addr = ser_raw::pos::NoopAddr;

	fn storage(&self) -> &S {
		&self.storage
	}

	fn storage_mut(&mut self) -> &mut S {
		&mut self.storage
	}

	fn into_storage(self) -> S {
		self.storage
	}
}

fn by_hand<S: Full>(storage: S) -> ByHand<S> {
	ByHand { storage }
}

type Own<T> = Comp<T>;
type Lend = &'static mut A16;
type BigMax = AlignedVec<16, 16, 8, { ser_raw::util::aligned_max_capacity(16) }>;

type Nested = Around<Box<Around<Box<Mark>>>>;
type Three = (Mark, Box<Mark>, Mark);
type Vecs = (u8, Vec<Mark>, Mark);

probes! {
	complete_u64: owned::<A16, Own<A16>, u64>(COMPLETE, Comp::make);
	complete_box: owned::<A16, Own<A16>, Box<u16>>(COMPLETE, Comp::make);
	complete_vec: owned::<A16, Own<A16>, Vec<u32>>(COMPLETE, Comp::make);
	complete_opt: owned::<A16, Own<A16>, Option<String>>(COMPLETE, Comp::make);
	complete_2_boxes: owned::<A16, Own<A16>, [Box<u16>; 2]>(COMPLETE, Comp::make);
	complete_nested: owned_roomy::<A16, Own<A16>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(COMPLETE, Comp::make);
	complete_vec_box: owned_roomy::<A16, Own<A16>, Vec<Box<u32>>>(COMPLETE, Comp::make);
	complete_struct: owned_roomy::<A16, Own<A16>, Plain>(COMPLETE, Comp::make);
	complete_lent: lent::<A16, Comp<Lend>, Box<u8>, Box<u64>>(COMPLETE, Comp::make);
	complete_lent_vec: lent::<A16, Comp<Lend>, u8, Vec<u16>>(COMPLETE, Comp::make);
	complete_lent_room: lent_roomy::<A16, Comp<Lend>, Box<Box<u8>>, (Box<u16>, Vec<u8>)>(COMPLETE, Comp::make);
	complete_again: cleared::<A16, Comp<Lend>, Box<u8>, Vec<u64>>(COMPLETE, Comp::make);
	complete_handover: handover::<A16, Comp<A16>, Box<u32>>(COMPLETE, Comp::make);
	raw_idents: owned::<W16, CompOwned, Box<Box<u16>>>(COMPLETE, comp_owned);
	raw_idents_vec: owned::<W16, CompOwned, (u8, Vec<u16>)>(COMPLETE, comp_owned);
	generics: lent::<BigMax, CompConst<'static, { ser_raw::util::aligned_max_capacity(16) }, u64>, u8, Box<u64>>(COMPLETE, comp_const);
	generics_vec: lent_roomy::<BigMax, CompConst<'static, { ser_raw::util::aligned_max_capacity(16) }, u64>, Vec<Box<u8>>, Box<u64>>(COMPLETE, comp_const);
	offset_box: owned::<A16, Off<A16>, Box<u16>>(OFFSET, Off::make);
	offset_vec: owned::<A16, Off<A16>, Vec<u32>>(OFFSET, Off::make);
	offset_2_boxes: owned::<A16, Off<A16>, [Box<u16>; 2]>(OFFSET, Off::make);
	offset_nested: owned_roomy::<A16, Off<A16>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(OFFSET, Off::make);
	offset_struct: owned_roomy::<A16, Off<A16>, Plain>(OFFSET, Off::make);
	offset_lent: lent::<A16, Off<Lend>, Box<u8>, Vec<u64>>(OFFSET, Off::make);
	offset_again: cleared::<A16, Off<Lend>, Box<u8>, Vec<u64>>(OFFSET, Off::make);
	offset_handover: handover::<A16, Off<A16>, Box<u32>>(OFFSET, Off::make);
	track_box: owned::<A16, Track<A16>, Box<u16>>(PURE, Track::make);
	track_vec: owned::<A16, Track<A16>, Vec<u32>>(PURE, Track::make);
	track_nested: owned_roomy::<A16, Track<A16>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(PURE, Track::make);
	track_lent: lent::<A16, Track<Lend>, Box<u8>, Vec<u64>>(PURE, Track::make);
	track_handover: handover::<A16, Track<A16>, Box<u32>>(PURE, Track::make);
	pure_box: owned::<A16, Pure<A16>, Box<u16>>(PURE, Pure::make);
	pure_vec: owned::<A16, Pure<A16>, Vec<u32>>(PURE, Pure::make);
	pure_nested: owned_roomy::<A16, Pure<A16>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(PURE, Pure::make);
	pure_lent: lent::<A16, Pure<Lend>, Box<u8>, Vec<u64>>(PURE, Pure::make);
	pure_handover: handover::<A16, Pure<A16>, Box<u32>>(PURE, Pure::make);
	complete_mark: owned::<A16, Comp<A16>, Mark>(COMPLETE, Comp::make);
	complete_mark_nested: owned_roomy::<A16, Comp<A16>, Nested>(COMPLETE, Comp::make);
	complete_mark_three: owned_roomy::<A16, Comp<A16>, Three>(COMPLETE, Comp::make);
	complete_mark_vecs: owned_roomy::<A16, Comp<A16>, Vecs>(COMPLETE, Comp::make);
	complete_mark_lent: lent_roomy::<A16, Comp<Lend>, Box<Mark>, (Mark, Box<Mark>)>(COMPLETE, Comp::make);
	offset_mark: owned::<A16, Off<A16>, Mark>(OFFSET, Off::make);
	offset_mark_nested: owned_roomy::<A16, Off<A16>, Nested>(OFFSET, Off::make);
	offset_mark_three: owned_roomy::<A16, Off<A16>, Three>(OFFSET, Off::make);
	offset_mark_vecs: owned_roomy::<A16, Off<A16>, Vecs>(OFFSET, Off::make);
	offset_mark_lent: lent_roomy::<A16, Off<Lend>, Box<Mark>, (Mark, Box<Mark>)>(OFFSET, Off::make);
	track_mark: owned::<A16, Track<A16>, Mark>(PURE, Track::make);
	track_mark_nested: owned_roomy::<A16, Track<A16>, Nested>(PURE, Track::make);
	track_mark_three: owned_roomy::<A16, Track<A16>, Three>(PURE, Track::make);
	track_mark_vecs: owned_roomy::<A16, Track<A16>, Vecs>(PURE, Track::make);
	track_mark_lent: lent_roomy::<A16, Track<Lend>, Box<Mark>, (Mark, Box<Mark>)>(PURE, Track::make);
	complete_patched: owned_roomy::<A16, Comp<A16>, (Box<Patched>, Patched)>(COMPLETE, Comp::make);
	complete_grow: owned::<A16, Comp<A16>, Grow>(COMPLETE, Comp::make);
	complete_handmade: owned_roomy::<A16, Comp<A16>, Handmade>(COMPLETE, Comp::make);
	complete_raw: owned_roomy::<A16, Comp<A16>, (Raw, Box<u8>)>(COMPLETE, Comp::make);
	offset_patched: owned_roomy::<A16, Off<A16>, (Box<Patched>, Patched)>(OFFSET, Off::make);
	offset_grow: owned::<A16, Off<A16>, Grow>(OFFSET, Off::make);
	offset_handmade: owned_roomy::<A16, Off<A16>, Handmade>(OFFSET, Off::make);
	offset_raw: owned_roomy::<A16, Off<A16>, (Raw, Box<u8>)>(OFFSET, Off::make);
	track_patched: owned_roomy::<A16, Track<A16>, (Box<Patched>, Patched)>(PURE, Track::make);
	track_grow: owned::<A16, Track<A16>, Grow>(PURE, Track::make);
	track_handmade: owned_roomy::<A16, Track<A16>, Handmade>(PURE, Track::make);
	track_raw: owned_roomy::<A16, Track<A16>, (Raw, Box<u8>)>(PURE, Track::make);
	pure_patched: owned_roomy::<A16, Pure<A16>, (Box<Patched>, Patched)>(PURE, Pure::make);
	pure_grow: owned::<A16, Pure<A16>, Grow>(PURE, Pure::make);
	pure_handmade: owned_roomy::<A16, Pure<A16>, Handmade>(PURE, Pure::make);
	pure_raw: owned_roomy::<A16, Pure<A16>, (Raw, Box<u8>)>(PURE, Pure::make);
	custom_complete_box: owned::<C8, CompCustom<C8>, Box<u16>>(COMPLETE, CompCustom::make);
	custom_complete_vec: owned::<C8, CompCustom<C8>, (u8, Vec<u32>)>(COMPLETE, CompCustom::make);
	custom_complete_opt: owned::<C8, CompCustom<C8>, Option<String>>(COMPLETE, CompCustom::make);
	custom_complete_nested: owned_roomy::<C8, CompCustom<C8>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(COMPLETE, CompCustom::make);
	custom_complete_patched: owned_roomy::<C8, CompCustom<C8>, (Box<Patched>, Patched)>(COMPLETE, CompCustom::make);
	custom_complete_lent: lent::<C8, CompCustom<&'static mut C8>, Box<u8>, Vec<u64>>(COMPLETE, CompCustom::make);
	custom_offset_box: owned::<C1, OffCustom, Box<u16>>(OFFSET, off_custom);
	custom_offset_vec: owned::<C1, OffCustom, (u8, Vec<u32>)>(OFFSET, off_custom);
	custom_offset_nested: owned_roomy::<C1, OffCustom, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(OFFSET, off_custom);
	custom_track_box: owned_roomy::<C16, TrackCustom, Box<u16>>(PURE, track_custom);
	custom_track_mark: owned_roomy::<C16, TrackCustom, (Mark, Box<Mark>)>(PURE, track_custom);
	by_hand_box: owned::<C1, ByHand<C1>, Box<u16>>(PURE, by_hand);
	by_hand_vec: owned::<A16, ByHand<A16>, (u8, Vec<u32>)>(PURE, by_hand);
	by_hand_nested: owned_roomy::<C8, ByHand<C8>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(PURE, by_hand);
	by_hand_patched: owned_roomy::<A16, ByHand<A16>, (Box<Patched>, Patched)>(PURE, by_hand);
	by_hand_grow: owned::<A16, ByHand<A16>, Grow>(PURE, by_hand);
	any_offset_box: lent::<A16, OffAny<'static, A16, 3>, Box<u8>, Box<u16>>(OFFSET, off_any);
	any_offset_vec: lent_roomy::<W16, OffAny<'static, W16, 3>, (u8, Vec<u32>), Vec<Box<u8>>>(OFFSET, off_any);
	any_offset_custom: lent::<C8, OffAny<'static, C8, 3>, Box<u8>, Option<String>>(OFFSET, off_any);
	any_offset_again: cleared::<A16, OffAny<'static, A16, 3>, Box<u8>, Vec<u64>>(OFFSET, off_any);
	any_track_vec: owned::<A16, TrackAny<A16, A16, true>, Vec<u32>>(PURE, track_any);
	any_track_nested: owned_roomy::<W16, TrackAny<W16, W16, true>, (Box<(Box<u8>, Box<u16>)>, Vec<u32>)>(PURE, track_any);
	any_track_lent: lent::<A16, TrackAny<A16, Lend, true>, Box<u8>, Vec<u64>>(PURE, track_any);
	any_track_mark: lent_roomy::<A16, TrackAny<A16, Lend, true>, Box<Mark>, (Mark, Box<Mark>)>(PURE, track_any);
	any_pure_box: lent::<A16, PureAny<'static, u8, A16, 2>, Box<u8>, Vec<u64>>(PURE, pure_any);
	any_pure_custom: lent_roomy::<C1, PureAny<'static, u8, C1, 2>, (Box<u8>, Vec<u16>), Box<u64>>(PURE, pure_any);
	any_complete_box: owned::<A16, CompAny<A16, A16, u8>, Box<u16>>(COMPLETE, comp_any);
	any_complete_vec: owned_roomy::<W16, CompAny<W16, W16, u8>, (u8, Vec<Box<u16>>)>(COMPLETE, comp_any);
	any_complete_lent: lent::<A16, CompAny<A16, Lend, u8>, u8, Box<u64>>(COMPLETE, comp_any);
	any_complete_custom: lent_roomy::<C8, CompAny<C8, &'static mut C8, u8>, Vec<u8>, (Box<u16>, Vec<u8>)>(COMPLETE, comp_any);
	complete_held: held::<A16, _, Comp<Held<A16>>, Box<u8>, u64>(COMPLETE, Held::new, Comp::make);
	complete_boxed: held::<A16, _, Comp<Box<A16>>, u8, Vec<u32>>(COMPLETE, Box::new, Comp::make);
	offset_held: held::<A16, _, Off<Held<A16>>, u8, Box<u16>>(OFFSET, Held::new, Off::make);
	track_held: held::<A16, _, Track<Held<A16>>, u8, Vec<u16>>(PURE, Held::new, Track::make);
	pure_boxed: held::<A16, _, Pure<Box<A16>>, Box<u8>, u64>(PURE, Box::new, Pure::make);
	custom_held: held::<C8, _, CompCustom<Held<C8>>, u8, Box<u16>>(COMPLETE, Held::new, CompCustom::make);
}
fn main() {}
