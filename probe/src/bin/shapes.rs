//! Storages with unusual parameters, and values of many sizes
use probe::{probes, spec, st::*};

#[repr(C, align(1024))]
pub struct Align1024([u8; 1024]);
#[repr(C, align(4096))]
pub struct Align4096([u8; 4096]);
#[repr(C, align(65536))]
pub struct Align65536([u8; 65536]);
#[repr(C, align(128))]
pub struct Align128([u8; 384]);

probes! {
	new_huge: spec::new::<Huge>();
	with_capacity_huge: spec::with_capacity::<Huge>();
	reserve_huge: spec::reserve::<Huge>();
	shrink_huge: spec::shrink::<Huge>();
	clear_huge: spec::clear::<Huge>();
	push_slice_a_huge: spec::push_slice::<Huge, Align4096>();
	push_value_a_huge: spec::push_value::<Huge, Align4096>();
	empty_slice_a_huge: spec::push_empty_slice::<Huge, Align4096>();
	access_a_huge: spec::random_access::<Huge, Align4096>();
	push_slice_b_huge: spec::push_slice::<Huge, u64>();
	push_value_b_huge: spec::push_value::<Huge, u64>();
	empty_slice_b_huge: spec::push_empty_slice::<Huge, u64>();
	access_b_huge: spec::random_access::<Huge, u64>();
	steps_huge: spec::push_in_steps::<Huge, u64>();
	push_bytes_huge: spec::push_bytes::<Huge>();
	push_zst_huge: spec::push_zst::<Huge, ()>();
	after_panic_huge: spec::after_panic::<Huge, u64>(0);
	empty_huge: spec::push_empty::<Huge, u64>();
	value_huge: spec::random_value::<Huge, Align4096>();
	new_odd: spec::new::<Odd>();
	with_capacity_odd: spec::with_capacity::<Odd>();
	reserve_odd: spec::reserve::<Odd>();
	shrink_odd: spec::shrink::<Odd>();
	clear_odd: spec::clear::<Odd>();
	push_slice_a_odd: spec::push_slice::<Odd, Align65536>();
	push_value_a_odd: spec::push_value::<Odd, Align65536>();
	empty_slice_a_odd: spec::push_empty_slice::<Odd, Align65536>();
	access_a_odd: spec::random_access::<Odd, Align65536>();
	push_slice_b_odd: spec::push_slice::<Odd, [u8; 3]>();
	push_value_b_odd: spec::push_value::<Odd, [u8; 3]>();
	empty_slice_b_odd: spec::push_empty_slice::<Odd, [u8; 3]>();
	access_b_odd: spec::random_access::<Odd, [u8; 3]>();
	steps_odd: spec::push_in_steps::<Odd, [u8; 3]>();
	push_bytes_odd: spec::push_bytes::<Odd>();
	push_zst_odd: spec::push_zst::<Odd, ()>();
	after_panic_odd: spec::after_panic::<Odd, [u8; 3]>(0);
	empty_odd: spec::push_empty::<Odd, [u8; 3]>();
	value_odd: spec::random_value::<Odd, Align65536>();
	new_two: spec::new::<Two>();
	with_capacity_two: spec::with_capacity::<Two>();
	reserve_two: spec::reserve::<Two>();
	shrink_two: spec::shrink::<Two>();
	clear_two: spec::clear::<Two>();
	align_two: spec::align::<Two>();
	push_slice_a_two: spec::push_slice::<Two, u16>();
	push_value_a_two: spec::push_value::<Two, u16>();
	empty_slice_a_two: spec::push_empty_slice::<Two, u16>();
	access_a_two: spec::random_access::<Two, u16>();
	push_slice_b_two: spec::push_slice::<Two, [u8; 5]>();
	push_value_b_two: spec::push_value::<Two, [u8; 5]>();
	empty_slice_b_two: spec::push_empty_slice::<Two, [u8; 5]>();
	access_b_two: spec::random_access::<Two, [u8; 5]>();
	steps_two: spec::push_in_steps::<Two, [u8; 5]>();
	push_bytes_two: spec::push_bytes::<Two>();
	push_zst_two: spec::push_zst::<Two, ()>();
	after_panic_two: spec::after_panic::<Two, [u8; 5]>(0);
	empty_two: spec::push_empty::<Two, [u8; 5]>();
	value_two: spec::random_value::<Two, u16>();
	new_four: spec::new::<Four>();
	with_capacity_four: spec::with_capacity::<Four>();
	reserve_four: spec::reserve::<Four>();
	shrink_four: spec::shrink::<Four>();
	clear_four: spec::clear::<Four>();
	align_four: spec::align::<Four>();
	push_slice_a_four: spec::push_slice::<Four, u8>();
	push_value_a_four: spec::push_value::<Four, u8>();
	empty_slice_a_four: spec::push_empty_slice::<Four, u8>();
	access_a_four: spec::random_access::<Four, u8>();
	push_slice_b_four: spec::push_slice::<Four, [u8; 2]>();
	push_value_b_four: spec::push_value::<Four, [u8; 2]>();
	empty_slice_b_four: spec::push_empty_slice::<Four, [u8; 2]>();
	access_b_four: spec::random_access::<Four, [u8; 2]>();
	steps_four: spec::push_in_steps::<Four, [u8; 2]>();
	push_bytes_four: spec::push_bytes::<Four>();
	push_zst_four: spec::push_zst::<Four, ()>();
	after_panic_four: spec::after_panic::<Four, [u8; 2]>(0);
	empty_four: spec::push_empty::<Four, [u8; 2]>();
	value_four: spec::random_value::<Four, u8>();
	new_line: spec::new::<Line>();
	with_capacity_line: spec::with_capacity::<Line>();
	reserve_line: spec::reserve::<Line>();
	shrink_line: spec::shrink::<Line>();
	clear_line: spec::clear::<Line>();
	align_line: spec::align::<Line>();
	push_slice_a_line: spec::push_slice::<Line, u64>();
	push_value_a_line: spec::push_value::<Line, u64>();
	empty_slice_a_line: spec::push_empty_slice::<Line, u64>();
	access_a_line: spec::random_access::<Line, u64>();
	push_slice_b_line: spec::push_slice::<Line, [u8; 65]>();
	push_value_b_line: spec::push_value::<Line, [u8; 65]>();
	empty_slice_b_line: spec::push_empty_slice::<Line, [u8; 65]>();
	access_b_line: spec::random_access::<Line, [u8; 65]>();
	steps_line: spec::push_in_steps::<Line, [u8; 65]>();
	push_bytes_line: spec::push_bytes::<Line>();
	push_zst_line: spec::push_zst::<Line, ()>();
	after_panic_line: spec::after_panic::<Line, [u8; 65]>(0);
	empty_line: spec::push_empty::<Line, [u8; 65]>();
	value_line: spec::random_value::<Line, u64>();
	new_sector: spec::new::<Sector>();
	with_capacity_sector: spec::with_capacity::<Sector>();
	reserve_sector: spec::reserve::<Sector>();
	shrink_sector: spec::shrink::<Sector>();
	clear_sector: spec::clear::<Sector>();
	align_sector: spec::align::<Sector>();
	push_slice_a_sector: spec::push_slice::<Sector, Align128>();
	push_value_a_sector: spec::push_value::<Sector, Align128>();
	empty_slice_a_sector: spec::push_empty_slice::<Sector, Align128>();
	access_a_sector: spec::random_access::<Sector, Align128>();
	push_slice_b_sector: spec::push_slice::<Sector, u32>();
	push_value_b_sector: spec::push_value::<Sector, u32>();
	empty_slice_b_sector: spec::push_empty_slice::<Sector, u32>();
	access_b_sector: spec::random_access::<Sector, u32>();
	steps_sector: spec::push_in_steps::<Sector, u32>();
	push_bytes_sector: spec::push_bytes::<Sector>();
	push_zst_sector: spec::push_zst::<Sector, ()>();
	after_panic_sector: spec::after_panic::<Sector, u32>(0);
	empty_sector: spec::push_empty::<Sector, u32>();
	value_sector: spec::random_value::<Sector, Align128>();
	new_k2: spec::new::<K2>();
	with_capacity_k2: spec::with_capacity::<K2>();
	reserve_k2: spec::reserve::<K2>();
	shrink_k2: spec::shrink::<K2>();
	clear_k2: spec::clear::<K2>();
	push_slice_a_k2: spec::push_slice::<K2, Align1024>();
	push_value_a_k2: spec::push_value::<K2, Align1024>();
	empty_slice_a_k2: spec::push_empty_slice::<K2, Align1024>();
	access_a_k2: spec::random_access::<K2, Align1024>();
	push_slice_b_k2: spec::push_slice::<K2, u64>();
	push_value_b_k2: spec::push_value::<K2, u64>();
	empty_slice_b_k2: spec::push_empty_slice::<K2, u64>();
	access_b_k2: spec::random_access::<K2, u64>();
	steps_k2: spec::push_in_steps::<K2, u64>();
	push_bytes_k2: spec::push_bytes::<K2>();
	push_zst_k2: spec::push_zst::<K2, ()>();
	after_panic_k2: spec::after_panic::<K2, u64>(0);
	empty_k2: spec::push_empty::<K2, u64>();
	value_k2: spec::random_value::<K2, Align1024>();
	push_value_size_1: spec::push_value::<A16, [u8; 1]>();
	push_slice_size_1: spec::push_slice::<W1, [u8; 1]>();
	value_size_1: spec::random_value::<W8, [u8; 1]>();
	access_size_1: spec::random_access::<W4, [u8; 1]>();
	push_value_size_2: spec::push_value::<W1, [u8; 2]>();
	push_slice_size_2: spec::push_slice::<A16, [u8; 2]>();
	value_size_2: spec::random_value::<W2, [u8; 2]>();
	access_size_2: spec::random_access::<W8, [u8; 2]>();
	push_value_size_3: spec::push_value::<W2, [u8; 3]>();
	push_slice_size_3: spec::push_slice::<W16, [u8; 3]>();
	value_size_3: spec::random_value::<A16, [u8; 3]>();
	access_size_3: spec::random_access::<W1, [u8; 3]>();
	push_value_size_4: spec::push_value::<W4, [u8; 4]>();
	push_slice_size_4: spec::push_slice::<W2, [u8; 4]>();
	value_size_4: spec::random_value::<W1, [u8; 4]>();
	access_size_4: spec::random_access::<A16, [u8; 4]>();
	push_value_size_5: spec::push_value::<W8, [u8; 5]>();
	push_slice_size_5: spec::push_slice::<W4, [u8; 5]>();
	value_size_5: spec::random_value::<W16, [u8; 5]>();
	access_size_5: spec::random_access::<W2, [u8; 5]>();
	push_value_size_6: spec::push_value::<W16, [u8; 6]>();
	push_slice_size_6: spec::push_slice::<W8, [u8; 6]>();
	value_size_6: spec::random_value::<W4, [u8; 6]>();
	access_size_6: spec::random_access::<W16, [u8; 6]>();
	push_value_size_7: spec::push_value::<A16, [u8; 7]>();
	push_slice_size_7: spec::push_slice::<W1, [u8; 7]>();
	value_size_7: spec::random_value::<W8, [u8; 7]>();
	access_size_7: spec::random_access::<W4, [u8; 7]>();
	push_value_size_8: spec::push_value::<W1, [u8; 8]>();
	push_slice_size_8: spec::push_slice::<A16, [u8; 8]>();
	value_size_8: spec::random_value::<W2, [u8; 8]>();
	access_size_8: spec::random_access::<W8, [u8; 8]>();
	push_value_size_9: spec::push_value::<W2, [u8; 9]>();
	push_slice_size_9: spec::push_slice::<W16, [u8; 9]>();
	value_size_9: spec::random_value::<A16, [u8; 9]>();
	access_size_9: spec::random_access::<W1, [u8; 9]>();
	push_value_size_10: spec::push_value::<W4, [u8; 10]>();
	push_slice_size_10: spec::push_slice::<W2, [u8; 10]>();
	value_size_10: spec::random_value::<W1, [u8; 10]>();
	access_size_10: spec::random_access::<A16, [u8; 10]>();
	push_value_size_12: spec::push_value::<W8, [u8; 12]>();
	push_slice_size_12: spec::push_slice::<W4, [u8; 12]>();
	value_size_12: spec::random_value::<W16, [u8; 12]>();
	access_size_12: spec::random_access::<W2, [u8; 12]>();
	push_value_size_15: spec::push_value::<W16, [u8; 15]>();
	push_slice_size_15: spec::push_slice::<W8, [u8; 15]>();
	value_size_15: spec::random_value::<W4, [u8; 15]>();
	access_size_15: spec::random_access::<W16, [u8; 15]>();
	push_value_size_16: spec::push_value::<A16, [u8; 16]>();
	push_slice_size_16: spec::push_slice::<W1, [u8; 16]>();
	value_size_16: spec::random_value::<W8, [u8; 16]>();
	access_size_16: spec::random_access::<W4, [u8; 16]>();
	push_value_size_17: spec::push_value::<W1, [u8; 17]>();
	push_slice_size_17: spec::push_slice::<A16, [u8; 17]>();
	value_size_17: spec::random_value::<W2, [u8; 17]>();
	access_size_17: spec::random_access::<W8, [u8; 17]>();
	push_value_size_20: spec::push_value::<W2, [u8; 20]>();
	push_slice_size_20: spec::push_slice::<W16, [u8; 20]>();
	value_size_20: spec::random_value::<A16, [u8; 20]>();
	access_size_20: spec::random_access::<W1, [u8; 20]>();
	push_value_size_24: spec::push_value::<W4, [u8; 24]>();
	push_slice_size_24: spec::push_slice::<W2, [u8; 24]>();
	value_size_24: spec::random_value::<W1, [u8; 24]>();
	access_size_24: spec::random_access::<A16, [u8; 24]>();
	push_value_size_31: spec::push_value::<W8, [u8; 31]>();
	push_slice_size_31: spec::push_slice::<W4, [u8; 31]>();
	value_size_31: spec::random_value::<W16, [u8; 31]>();
	access_size_31: spec::random_access::<W2, [u8; 31]>();
	push_value_size_32: spec::push_value::<W16, [u8; 32]>();
	push_slice_size_32: spec::push_slice::<W8, [u8; 32]>();
	value_size_32: spec::random_value::<W4, [u8; 32]>();
	access_size_32: spec::random_access::<W16, [u8; 32]>();
	push_value_size_33: spec::push_value::<A16, [u8; 33]>();
	push_slice_size_33: spec::push_slice::<W1, [u8; 33]>();
	value_size_33: spec::random_value::<W8, [u8; 33]>();
	access_size_33: spec::random_access::<W4, [u8; 33]>();
	push_value_size_40: spec::push_value::<W1, [u8; 40]>();
	push_slice_size_40: spec::push_slice::<A16, [u8; 40]>();
	value_size_40: spec::random_value::<W2, [u8; 40]>();
	access_size_40: spec::random_access::<W8, [u8; 40]>();
	push_value_size_63: spec::push_value::<W2, [u8; 63]>();
	push_slice_size_63: spec::push_slice::<W16, [u8; 63]>();
	value_size_63: spec::random_value::<A16, [u8; 63]>();
	access_size_63: spec::random_access::<W1, [u8; 63]>();
	push_value_size_64: spec::push_value::<W4, [u8; 64]>();
	push_slice_size_64: spec::push_slice::<W2, [u8; 64]>();
	value_size_64: spec::random_value::<W1, [u8; 64]>();
	access_size_64: spec::random_access::<A16, [u8; 64]>();
	push_value_size_65: spec::push_value::<W8, [u8; 65]>();
	push_slice_size_65: spec::push_slice::<W4, [u8; 65]>();
	value_size_65: spec::random_value::<W16, [u8; 65]>();
	access_size_65: spec::random_access::<W2, [u8; 65]>();
	push_value_size_96: spec::push_value::<W16, [u8; 96]>();
	push_slice_size_96: spec::push_slice::<W8, [u8; 96]>();
	value_size_96: spec::random_value::<W4, [u8; 96]>();
	access_size_96: spec::random_access::<W16, [u8; 96]>();
	push_value_size_127: spec::push_value::<A16, [u8; 127]>();
	push_slice_size_127: spec::push_slice::<W1, [u8; 127]>();
	value_size_127: spec::random_value::<W8, [u8; 127]>();
	access_size_127: spec::random_access::<W4, [u8; 127]>();
	push_value_size_128: spec::push_value::<W1, [u8; 128]>();
	push_slice_size_128: spec::push_slice::<A16, [u8; 128]>();
	value_size_128: spec::random_value::<W2, [u8; 128]>();
	access_size_128: spec::random_access::<W8, [u8; 128]>();
	push_value_size_129: spec::push_value::<W2, [u8; 129]>();
	push_slice_size_129: spec::push_slice::<W16, [u8; 129]>();
	value_size_129: spec::random_value::<A16, [u8; 129]>();
	access_size_129: spec::random_access::<W1, [u8; 129]>();
	push_value_size_255: spec::push_value::<W4, [u8; 255]>();
	push_slice_size_255: spec::push_slice::<W2, [u8; 255]>();
	value_size_255: spec::random_value::<W1, [u8; 255]>();
	access_size_255: spec::random_access::<A16, [u8; 255]>();
	push_value_size_256: spec::push_value::<W8, [u8; 256]>();
	push_slice_size_256: spec::push_slice::<W4, [u8; 256]>();
	value_size_256: spec::random_value::<W16, [u8; 256]>();
	access_size_256: spec::random_access::<W2, [u8; 256]>();
	push_value_size_257: spec::push_value::<W16, [u8; 257]>();
	push_slice_size_257: spec::push_slice::<W8, [u8; 257]>();
	value_size_257: spec::random_value::<W4, [u8; 257]>();
	access_size_257: spec::random_access::<W16, [u8; 257]>();
	push_value_size_512: spec::push_value::<A16, [u8; 512]>();
	push_slice_size_512: spec::push_slice::<W1, [u8; 512]>();
	value_size_512: spec::random_value::<W8, [u8; 512]>();
	access_size_512: spec::random_access::<W4, [u8; 512]>();
	push_value_size_1000: spec::push_value::<W1, [u8; 1000]>();
	push_slice_size_1000: spec::push_slice::<A16, [u8; 1000]>();
	value_size_1000: spec::random_value::<W2, [u8; 1000]>();
	access_size_1000: spec::random_access::<W8, [u8; 1000]>();
	push_value_size_4095: spec::push_value::<W2, [u8; 4095]>();
	push_slice_size_4095: spec::push_slice::<W16, [u8; 4095]>();
	value_size_4095: spec::random_value::<A16, [u8; 4095]>();
	access_size_4095: spec::random_access::<W1, [u8; 4095]>();
	push_value_size_4096: spec::push_value::<W4, [u8; 4096]>();
	push_slice_size_4096: spec::push_slice::<W2, [u8; 4096]>();
	value_size_4096: spec::random_value::<W1, [u8; 4096]>();
	access_size_4096: spec::random_access::<A16, [u8; 4096]>();
	push_value_size_4097: spec::push_value::<W8, [u8; 4097]>();
	push_slice_size_4097: spec::push_slice::<W4, [u8; 4097]>();
	value_size_4097: spec::random_value::<W16, [u8; 4097]>();
	access_size_4097: spec::random_access::<W2, [u8; 4097]>();
	push_value_size_65535: spec::push_value::<W16, [u8; 65535]>();
	push_slice_size_65535: spec::push_slice::<W8, [u8; 65535]>();
	value_size_65535: spec::random_value::<W4, [u8; 65535]>();
	access_size_65535: spec::random_access::<W16, [u8; 65535]>();
	push_value_size_65536: spec::push_value::<A16, [u8; 65536]>();
	push_slice_size_65536: spec::push_slice::<W1, [u8; 65536]>();
	value_size_65536: spec::random_value::<W8, [u8; 65536]>();
	access_size_65536: spec::random_access::<W4, [u8; 65536]>();
	push_value_size_65537: spec::push_value::<W1, [u8; 65537]>();
	push_slice_size_65537: spec::push_slice::<A16, [u8; 65537]>();
	value_size_65537: spec::random_value::<W2, [u8; 65537]>();
	access_size_65537: spec::random_access::<W8, [u8; 65537]>();
	push_value_size_1048576: spec::push_value::<W2, [u8; 1048576]>();
	push_slice_size_1048576: spec::push_slice::<W16, [u8; 1048576]>();
	value_size_1048576: spec::random_value::<A16, [u8; 1048576]>();
	access_size_1048576: spec::random_access::<W1, [u8; 1048576]>();
	push_value_size_2147483649: spec::push_value::<W4, [u8; 2147483649]>();
	push_slice_size_2147483649: spec::push_slice::<W2, [u8; 2147483649]>();
	value_size_2147483649: spec::random_value::<W1, [u8; 2147483649]>();
	access_size_2147483649: spec::random_access::<A16, [u8; 2147483649]>();
	push_value_size_4294967297: spec::push_value::<W8, [u8; 4294967297]>();
	push_slice_size_4294967297: spec::push_slice::<W4, [u8; 4294967297]>();
	value_size_4294967297: spec::random_value::<W16, [u8; 4294967297]>();
	access_size_4294967297: spec::random_access::<W2, [u8; 4294967297]>();
}
fn main() {}
