//! Many pointers, many moves of storage's memory
use probe::{many::*, mk, probes, ser::*, st::*, types::*, val::*};
use ser_raw::CompleteSerializer;

mk!(CompleteSerializer);

type Three = (Box<u8>, Box<u64>, Box<u16>);

probes! {
	near_box: moved::<false, Box<u8>>();
	near_boxes: moved::<false, (Box<u8>, Box<u64>)>();
	near_vec: moved::<false, (u8, Vec<u32>)>();
	near_opt: moved::<false, Option<Box<String>>>();
	near_three: moved::<false, Three>();
	near_box_box: moved::<false, Box<Box<Box<u8>>>>();
	near_lent: moved_lent::<false, Box<u8>, Box<u64>>();
	near_lent_nested: moved_lent::<false, u8, Box<Box<u16>>>();
	near_four: moved::<false, [Box<u16>; 4]>();
	near_seven: moved::<false, [Box<u16>; 7]>();
	near_nested: moved::<false, (Box<(Box<u8>, Box<u64>)>, Box<Box<u16>>)>();
	near_vecs: moved::<false, (Vec<u8>, Vec<u64>)>();
	near_enum: moved::<false, Box<(u8, Choice)>>();
	near_generic: moved::<false, Holder<3>>();
	near_opts: moved::<false, (Option<Box<u8>>, Option<Vec<u16>>, Option<String>)>();
	near_lent_more: moved_lent::<false, (Box<u8>, Vec<u16>), (Box<u64>, Box<u8>)>();
	any_6: owned::<A16, Ser<A16>, [Box<u16>; 6]>(COMPLETE, Mk::own);
	from_nothing: from_new::<A16, Ser<A16>, [Box<u16>; 9]>(COMPLETE, Mk::own);
	from_nothing_nested: from_new::<A16, Ser<A16>, ([Box<u64>; 3], Box<(u8, [Box<[u8; 9]>; 4])>)>(COMPLETE, Mk::own);
	far_seven: moved::<true, [Box<u16>; 7]>();
	far_nested: moved::<true, (Box<(Box<u8>, Box<u64>)>, Box<Box<Box<u16>>>, Box<u8>)>();
	far_struct: moved::<true, (Plain, Box<u8>)>();
	far_lent: moved_lent::<true, (Box<u8>, Box<u16>, Box<u32>), [Box<u64>; 3]>();
	room_40: long::<A16, Ser<A16>, [Box<u8>; 40]>(COMPLETE, Mk::own, 0);
	room_vec_20: long::<A16, Ser<A16>, Vec<Box<u32>>>(COMPLETE, Mk::own, 20);
	room_vec_vec_5: long::<A16, Ser<A16>, Vec<Vec<Box<u8>>>>(COMPLETE, Mk::own, 5);
	room_300: long::<A16, Ser<A16>, [Box<u8>; 300]>(COMPLETE, Mk::own, 0);
	tight_150: squeezed::<A16, Ser<A16>, [Box<u8>; 150]>(COMPLETE, Mk::own, 150 * 8 + 140 * 8, 0);
	far_12: moved::<true, [Box<u8>; 12]>();
	far_vec_6: moved_long::<true, (Box<u8>, Vec<Box<u16>>)>(6);
	tight_40: squeezed::<A16, Ser<A16>, [Box<u8>; 40]>(COMPLETE, Mk::own, 320 + 39 * 8, 0);
	tight_40_early: squeezed::<A16, Ser<A16>, [Box<u8>; 40]>(COMPLETE, Mk::own, 320, 0);
	tight_vec_20: squeezed::<A16, Ser<A16>, Vec<Box<u32>>>(COMPLETE, Mk::own, 24 + 160 + 19 * 8, 20);
	tight_vec_33: squeezed::<A16, Ser<A16>, (Vec<Box<u32>>, Box<u8>)>(COMPLETE, Mk::own, 32 + 33 * 16, 33);
	row: in_a_row::<A16, Lent<A16>, Box<u8>, Box<u64>, (u8, Box<u16>)>(COMPLETE, Mk::lend);
	row_scalars: in_a_row::<A16, Lent<A16>, u8, [u16; 3], u64>(COMPLETE, Mk::lend);
	row_vec: in_a_row::<A16, Lent<A16>, u8, Vec<u32>, u8>(COMPLETE, Mk::lend);
	row_unit: in_a_row::<A16, Lent<A16>, Box<u8>, (), Box<u8>>(COMPLETE, Mk::lend);
	row_v1: in_a_row::<W1, Lent<W1>, u8, Box<u64>, Box<u8>>(COMPLETE, Mk::lend);
}
fn main() {}
