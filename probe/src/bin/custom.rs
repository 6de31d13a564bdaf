//! Storages defined by a user of the library
use probe::{custom::*, probes, spec};

probes! {
	slice_u16_c1: all::<C1, u16>(0);
	slice_u128_c1: all::<C1, u128>(0);
	slice_b3_c8: all::<C8, [u8; 3]>(0);
	slice_u64_small: all::<CSmall, u64>(0);
	slice_u16_wide: all::<CWide, u16>(0);
	value_u32_c1: all::<C1, u32>(1);
	value_u128_c8: all::<C8, u128>(1);
	value_b33_wide: all::<CWide, [u8; 33]>(1);
	value_b6_small: all::<CSmall, [u16; 3]>(1);
	empty_slice_u32_c1: all::<C1, u32>(2);
	empty_slice_u128_c8: all::<C8, u128>(2);
	empty_slice_b3_small: all::<CSmall, [u8; 3]>(2);
	empty_slice_u8_wide: all::<CWide, u8>(2);
	empty_u64_c1: all::<C1, u64>(3);
	empty_b33_wide: all::<CWide, [u8; 33]>(3);
	steps_u64_c1: all::<C1, u64>(4);
	steps_b3_c8: all::<C8, [u8; 3]>(4);
	bytes_c1: spec::push_bytes::<C1>();
	bytes_wide: spec::push_bytes::<CWide>();
	zst_c8: spec::push_zst::<C8, [u64; 0]>();
	clear_c8: spec::clear::<C8>();
	with_capacity_c8: spec::with_capacity::<C8>();
	with_capacity_small: spec::with_capacity::<CSmall>();
	with_capacity_wide: spec::with_capacity::<CWide>();
	align_c1: spec::align::<C1>();
	align_wide: spec::align::<CWide>();
	value_at_c1: spec::random_value::<C1, u64>();
	value_at_small: spec::random_value::<CSmall, [u16; 3]>();
	gap_value_u32: placed::<G1, u32>(0);
	gap_value_u8: placed::<G8, u8>(0);
	gap_slice_u64: placed::<G1, u64>(1);
	gap_slice_b3: placed::<G8, [u8; 3]>(1);
	gap_empty_u128: placed::<G8, u128>(2);
	gap_empty_slice_u16: placed::<G1, u16>(3);
}
fn main() {}
