use probe::{probes, spec, st::*};

#[repr(C, align(64))]
pub struct Align64([u8; 64]);
#[repr(C, align(64))]
pub struct Zst64;
pub struct Pad(u8, u32);

probes! {
	push_slice_u8_small: spec::push_slice::<Small, u8>();
	push_slice_u16_a16: spec::push_slice::<A16, u16>();
	push_slice_u32_a16: spec::push_slice::<A16, u32>();
	push_slice_u64_a16: spec::push_slice::<A16, u64>();
	push_slice_u128_a16: spec::push_slice::<A16, u128>();
	push_slice_b3_v1: spec::push_slice::<V1, [u8; 3]>();
	push_slice_u32_v1: spec::push_slice::<V1, u32>();
	push_slice_u64_v2: spec::push_slice::<V2, u64>();
	push_slice_b12_v2: spec::push_slice::<V2, [u32; 3]>();
	push_slice_u128_v4: spec::push_slice::<V4, u128>();
	push_slice_u8_v4: spec::push_slice::<V4, u8>();
	push_slice_u128_v16: spec::push_slice::<V16, u128>();
	push_slice_u16_v16: spec::push_slice::<V16, u16>();
	push_slice_pad_v16: spec::push_slice::<V16, Pad>();
	push_slice_u64_tiny: spec::push_slice::<Tiny, u64>();
	push_slice_u8_byte: spec::push_slice::<Byte, u8>();
	push_slice_u64_u32: spec::push_slice::<U32, u64>();
	push_slice_align64_page: spec::push_slice::<Page, Align64>();
	push_slice_u16_page: spec::push_slice::<Page, u16>();
	push_slice_u8_one: spec::push_slice::<One, u8>();
	push_value_u8: spec::push_value::<A16, u8>();
	push_value_b6: spec::push_value::<V2, [u16; 3]>();
	push_value_u128: spec::push_value::<V4, u128>();
	push_value_u64_v1: spec::push_value::<V1, u64>();
	push_value_align64: spec::push_value::<Page, Align64>();
	push_value_b33_v16: spec::push_value::<V16, [u8; 33]>();
	push_bytes_byte: spec::push_bytes::<Byte>();
	push_bytes_a16: spec::push_bytes::<A16>();
	push_bytes_v16: spec::push_bytes::<V16>();
	push_bytes_tiny: spec::push_bytes::<Tiny>();
	push_zst_unit: spec::push_zst::<A16, ()>();
	push_zst_u64s: spec::push_zst::<V1, [u64; 0]>();
	push_zst_align64: spec::push_zst::<Page, Zst64>();
	empty_slice_u8: spec::push_empty_slice::<A16, u8>();
	empty_slice_u64_v1: spec::push_empty_slice::<V1, u64>();
	empty_slice_b3_v4: spec::push_empty_slice::<V4, [u8; 3]>();
	empty_slice_u128_u32: spec::push_empty_slice::<U32, u128>();
	empty_slice_u16_v16: spec::push_empty_slice::<V16, u16>();
	empty_slice_unit: spec::push_empty_slice::<V16, ()>();
	empty_slice_align64_page: spec::push_empty_slice::<Page, Align64>();
	empty_u8: spec::push_empty::<A16, u8>();
	empty_u64_v1: spec::push_empty::<V1, u64>();
	empty_b6_v2: spec::push_empty::<V2, [u16; 3]>();
	empty_align64: spec::push_empty::<Page, Align64>();
	steps_u8: spec::push_in_steps::<A16, u8>();
	steps_b3_v2: spec::push_in_steps::<V2, [u8; 3]>();
	steps_u64_v1: spec::push_in_steps::<V1, u64>();
	steps_u128_v4: spec::push_in_steps::<V4, u128>();
	steps_align64: spec::push_in_steps::<Page, Align64>();
	reserve_a16: spec::reserve::<A16>();
	reserve_small: spec::reserve::<Small>();
	reserve_v1: spec::reserve::<V1>();
	reserve_v4: spec::reserve::<V4>();
	reserve_v16: spec::reserve::<V16>();
	reserve_tiny: spec::reserve::<Tiny>();
	reserve_byte: spec::reserve::<Byte>();
	reserve_u32: spec::reserve::<U32>();
	reserve_page: spec::reserve::<Page>();
	reserve_one: spec::reserve::<One>();
	clear_a16: spec::clear::<A16>();
	clear_v1: spec::clear::<V1>();
	shrink_a16: spec::shrink::<A16>();
	shrink_v1: spec::shrink::<V1>();
	shrink_v4: spec::shrink::<V4>();
	shrink_v16: spec::shrink::<V16>();
	shrink_byte: spec::shrink::<Byte>();
	shrink_page: spec::shrink::<Page>();
	with_capacity_a16: spec::with_capacity::<A16>();
	with_capacity_v4: spec::with_capacity::<V4>();
	with_capacity_tiny: spec::with_capacity::<Tiny>();
	with_capacity_byte: spec::with_capacity::<Byte>();
	with_capacity_u32: spec::with_capacity::<U32>();
	with_capacity_page: spec::with_capacity::<Page>();
	new_a16: spec::new::<A16>();
	new_page: spec::new::<Page>();
	new_byte: spec::new::<Byte>();
	align_a16: spec::align::<A16>();
	align_v1: spec::align::<V1>();
	align_v4: spec::align::<V4>();
	align_page: spec::align::<Page>();
	align_byte: spec::align::<Byte>();
	access_u8: spec::random_access::<A16, u8>();
	access_u64_v1: spec::random_access::<V1, u64>();
	access_b3_v4: spec::random_access::<V4, [u8; 3]>();
	access_align64: spec::random_access::<Page, Align64>();
	value_u8: spec::random_value::<A16, u8>();
	value_u64_v1: spec::random_value::<V1, u64>();
	value_b12_v2: spec::random_value::<V2, [u32; 3]>();
	value_unit: spec::random_value::<A16, ()>();
	value_align64: spec::random_value::<Page, Align64>();
	after_panic_push: spec::after_panic::<V1, u32>(0);
	after_panic_empty: spec::after_panic::<V4, u64>(1);
	after_panic_reserve: spec::after_panic::<Tiny, u8>(2);
}
fn main() {}
