//! Probes of serializers' output, same for all serializers.

/// How to make a serializer of some kind from a storage
#[macro_export]
macro_rules! mk {
	($ser:ident) => {
		pub type Ser<S> = <S as Mk>::Owned;
		pub type Lent<S> = <S as Mk>::Borrowed;
		#[allow(dead_code)]
		pub type In<S> = <S as Mk>::Within;
		#[allow(dead_code)]
		pub type Boxed<S> = <S as Mk>::InBox;

		pub trait Mk: $crate::st::Full + 'static {
			type Owned;
			type Borrowed;
			type Within;
			type InBox;
			fn own(self) -> Self::Owned;
			fn lend(s: &'static mut Self) -> Self::Borrowed;
			fn within(s: $crate::ser::Held<Self>) -> Self::Within;
			fn in_box(s: Box<Self>) -> Self::InBox;
		}

		impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Mk for ser_raw::storage::AlignedVec<SA, MVA, VA, MAX> {
			type Owned = $ser<SA, MVA, VA, MAX, Self>;
			type Borrowed = $ser<SA, MVA, VA, MAX, &'static mut Self>;
			type Within = $ser<SA, MVA, VA, MAX, $crate::ser::Held<Self>>;
			type InBox = $ser<SA, MVA, VA, MAX, Box<Self>>;
			fn own(self) -> Self::Owned {
				$ser::from_storage(self)
			}
			fn lend(s: &'static mut Self) -> Self::Borrowed {
				$ser::from_storage(s)
			}
			fn within(s: $crate::ser::Held<Self>) -> Self::Within {
				$ser::from_storage(s)
			}
			fn in_box(s: Box<Self>) -> Self::InBox {
				$ser::from_storage(s)
			}
		}
	};
}

/// Storage in any state
#[macro_export]
macro_rules! content_any {
	($kind:expr) => {
		probes! {
			any_u8: owned::<A16, Ser<A16>, u8>($kind, Mk::own);
			any_u32: owned::<A16, Ser<A16>, u32>($kind, Mk::own);
			any_u128: owned::<A16, Ser<A16>, u128>($kind, Mk::own);
			any_f64: owned::<A16, Ser<A16>, f64>($kind, Mk::own);
			any_bool: owned::<A16, Ser<A16>, bool>($kind, Mk::own);
			any_char: owned::<A16, Ser<A16>, char>($kind, Mk::own);
			any_nonzero: owned::<A16, Ser<A16>, std::num::NonZeroU32>($kind, Mk::own);
			any_array: owned::<A16, Ser<A16>, [u16; 5]>($kind, Mk::own);
			any_unit: owned::<A16, Ser<A16>, ()>($kind, Mk::own);
			any_box_u8: owned::<A16, Ser<A16>, Box<u8>>($kind, Mk::own);
			any_box_u64: owned::<A16, Ser<A16>, Box<u64>>($kind, Mk::own);
			any_box_u128: owned::<A16, Ser<A16>, Box<u128>>($kind, Mk::own);
			any_box_array: owned::<A16, Ser<A16>, Box<[u16; 3]>>($kind, Mk::own);
			any_box_tuple: owned::<A16, Ser<A16>, Box<(u8, u32)>>($kind, Mk::own);
			any_box_unit: owned::<A16, Ser<A16>, Box<()>>($kind, Mk::own);
			any_vec_u8: owned::<A16, Ser<A16>, Vec<u8>>($kind, Mk::own);
			any_vec_u64: owned::<A16, Ser<A16>, Vec<u64>>($kind, Mk::own);
			any_vec_u128: owned::<A16, Ser<A16>, Vec<u128>>($kind, Mk::own);
			any_vec_odd: owned::<A16, Ser<A16>, Vec<[u16; 3]>>($kind, Mk::own);
			any_vec_unit: owned::<A16, Ser<A16>, Vec<()>>($kind, Mk::own);
			any_string: owned::<A16, Ser<A16>, String>($kind, Mk::own);
			any_opt: owned::<A16, Ser<A16>, Option<u32>>($kind, Mk::own);
			any_opt_box: owned::<A16, Ser<A16>, Option<Box<u32>>>($kind, Mk::own);
			any_opt_vec: owned::<A16, Ser<A16>, Option<Vec<u16>>>($kind, Mk::own);
			any_opt_string: owned::<A16, Ser<A16>, Option<String>>($kind, Mk::own);
			any_box_box: owned::<A16, Ser<A16>, Box<Box<u16>>>($kind, Mk::own);
			any_box_vec: owned::<A16, Ser<A16>, Box<Vec<u8>>>($kind, Mk::own);
			any_tuple: owned::<A16, Ser<A16>, (u8, Box<u64>, String)>($kind, Mk::own);
			any_2_boxes: owned::<A16, Ser<A16>, [Box<u16>; 2]>($kind, Mk::own);
			any_3_boxes: owned::<A16, Ser<A16>, (Box<u8>, Box<u64>, Box<u16>)>($kind, Mk::own);
			v1_tuple: owned::<W1, Ser<W1>, (Box<u8>, Box<u64>)>($kind, Mk::own);
			v2_tuple: owned::<W2, Ser<W2>, (Box<[u8; 3]>, Box<u64>)>($kind, Mk::own);
			v4_tuple: owned::<W4, Ser<W4>, (Box<u8>, Box<u64>)>($kind, Mk::own);
			v16_tuple: owned::<W16, Ser<W16>, (Box<u8>, Box<u64>)>($kind, Mk::own);
			v8_tuple: owned::<W8, Ser<W8>, (Box<u8>, Vec<u64>)>($kind, Mk::own);
		}
	};
}

/// Storage with enough room
#[macro_export]
macro_rules! content_roomy {
	($kind:expr) => {
		probes! {
			room_vec_vec: owned_roomy::<A16, Ser<A16>, Vec<Vec<u16>>>($kind, Mk::own);
			room_vec_string: owned_roomy::<A16, Ser<A16>, Vec<String>>($kind, Mk::own);
			room_vec_box: owned_roomy::<A16, Ser<A16>, Vec<Box<u32>>>($kind, Mk::own);
			room_vec_opt: owned_roomy::<A16, Ser<A16>, Vec<Option<Box<u8>>>>($kind, Mk::own);
			room_vec_tuple: owned_roomy::<A16, Ser<A16>, Vec<(u8, Box<u16>)>>($kind, Mk::own);
			room_vec_array: owned_roomy::<A16, Ser<A16>, Vec<[Box<u8>; 2]>>($kind, Mk::own);
			room_box_box_box: owned_roomy::<A16, Ser<A16>, Box<Box<Box<u8>>>>($kind, Mk::own);
			room_box_vec_box: owned_roomy::<A16, Ser<A16>, Box<Vec<Box<u8>>>>($kind, Mk::own);
			room_box_tuple: owned_roomy::<A16, Ser<A16>, Box<(Box<u8>, Vec<u16>)>>($kind, Mk::own);
			room_opt_box_opt: owned_roomy::<A16, Ser<A16>, Option<Box<Option<Box<u8>>>>>($kind, Mk::own);
			room_tuple: owned_roomy::<A16, Ser<A16>, (u8, Box<u64>, Box<Box<u8>>, Vec<u8>)>($kind, Mk::own);
			room_array: owned_roomy::<A16, Ser<A16>, [Vec<u8>; 2]>($kind, Mk::own);
			room_nested: owned_roomy::<A16, Ser<A16>, (Box<(Box<u8>, Box<u16>)>, Box<u32>)>($kind, Mk::own);
			room_units: owned_roomy::<A16, Ser<A16>, (Vec<()>, Box<()>, Vec<u8>)>($kind, Mk::own);
			room_v1: owned_roomy::<W1, Ser<W1>, (Vec<u8>, Box<u64>, Vec<u16>)>($kind, Mk::own);
			room_v2: owned_roomy::<W2, Ser<W2>, (Vec<u8>, Box<u64>, Box<u16>)>($kind, Mk::own);
			room_v4: owned_roomy::<W4, Ser<W4>, (Vec<u8>, Box<u64>, Box<u16>)>($kind, Mk::own);
			room_v16: owned_roomy::<W16, Ser<W16>, (Vec<u8>, Box<u64>, Box<u16>)>($kind, Mk::own);
			room_struct: owned_roomy::<A16, Ser<A16>, Plain>($kind, Mk::own);
			room_enum: owned_roomy::<A16, Ser<A16>, Choice>($kind, Mk::own);
			room_generic: owned_roomy::<A16, Ser<A16>, Holder<2>>($kind, Mk::own);
		}
	};
}

/// Storage which is borrowed and already has content, 2 values
#[macro_export]
macro_rules! content_lent {
	($kind:expr) => {
		probes! {
			lent_scalars: lent::<A16, Lent<A16>, u8, u64>($kind, Mk::lend);
			lent_boxes: lent::<A16, Lent<A16>, Box<u8>, Box<u64>>($kind, Mk::lend);
			lent_vec: lent::<A16, Lent<A16>, u8, Vec<u32>>($kind, Mk::lend);
			lent_vec_first: lent::<A16, Lent<A16>, Vec<u8>, u64>($kind, Mk::lend);
			lent_unit: lent::<A16, Lent<A16>, (), Box<()>>($kind, Mk::lend);
			lent_opt: lent::<A16, Lent<A16>, Option<Box<u16>>, u8>($kind, Mk::lend);
			lent_v1: lent::<W1, Lent<W1>, u8, Box<u64>>($kind, Mk::lend);
			lent_v16: lent::<W16, Lent<W16>, Box<u8>, u8>($kind, Mk::lend);
			lent_strings: lent_roomy::<A16, Lent<A16>, String, String>($kind, Mk::lend);
			lent_nested: lent_roomy::<A16, Lent<A16>, Box<Box<u8>>, (Box<u16>, Box<u8>)>($kind, Mk::lend);
			again: cleared::<A16, Lent<A16>, Box<u8>, Box<u64>>($kind, Mk::lend);
			again_vec: cleared::<A16, Lent<A16>, Vec<u8>, (u8, Box<u16>)>($kind, Mk::lend);
			handover: handover::<A16, Ser<A16>, Box<u32>>($kind, Mk::own);
			handover_unit: handover::<A16, Ser<A16>, ()>($kind, Mk::own);
			within: held::<A16, _, In<A16>, Box<u8>, u64>($kind, Held::new, Mk::within);
			within_vec: held::<W16, _, In<W16>, u8, Vec<u32>>($kind, Held::new, Mk::within);
			in_box: held::<A16, _, Boxed<A16>, u8, Box<u64>>($kind, Box::new, Mk::in_box);
		}
	};
}

/// Storage which is limited in size, in any state
#[macro_export]
macro_rules! content_limited {
	($kind:expr) => {
		probes! {
			small_u64: limited::<Small, Lent<Small>, u64>($kind, Mk::lend);
			small_box: limited::<Small, Lent<Small>, Box<u16>>($kind, Mk::lend);
			small_vec: limited::<Small, Lent<Small>, Vec<u32>>($kind, Mk::lend);
			small_string: limited::<Small, Lent<Small>, (u8, String)>($kind, Mk::lend);
			small_tuple: limited::<Small, Lent<Small>, (u8, Box<u64>, Option<Vec<u16>>)>($kind, Mk::lend);
			v1_box: limited::<V1, Lent<V1>, (Box<u8>, Box<u64>)>($kind, Mk::lend);
			v1_vec: limited::<V1, Lent<V1>, Vec<u16>>($kind, Mk::lend);
			v2_vec: limited::<V2, Lent<V2>, Box<Vec<u8>>>($kind, Mk::lend);
			v4_box: limited::<V4, Lent<V4>, (Box<[u16; 3]>, u8)>($kind, Mk::lend);
			v16_box: limited::<V16, Lent<V16>, Box<Box<u8>>>($kind, Mk::lend);
			v16_string: limited::<V16, Lent<V16>, String>($kind, Mk::lend);
			tiny_box: limited::<Tiny, Lent<Tiny>, Box<u64>>($kind, Mk::lend);
			tiny_vec: limited::<Tiny, Lent<Tiny>, Vec<u8>>($kind, Mk::lend);
			one_box: limited::<One, Lent<One>, Box<u8>>($kind, Mk::lend);
			u32_box: limited::<U32, Lent<U32>, Box<u64>>($kind, Mk::lend);
			u32_vec: limited::<U32, Lent<U32>, Vec<u16>>($kind, Mk::lend);
			u32_string: limited::<U32, Lent<U32>, (u8, String)>($kind, Mk::lend);
			page_vec: limited::<Page, Lent<Page>, Vec<u64>>($kind, Mk::lend);
		}
	};
}
