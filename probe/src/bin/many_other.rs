//! Many pointers and elements, by serializers other than complete
use probe::{many::*, probes, st::*, types::*, val::*};

mod off {
	use probe::mk;
	use ser_raw::PtrOffsetSerializer;
	mk!(PtrOffsetSerializer);
}
mod pure {
	use probe::mk;
	use ser_raw::PureCopySerializer;
	mk!(PureCopySerializer);
}
use off::Mk as _;
use pure::Mk as _;

type Off<S> = off::Ser<S>;
type OffLent<S> = off::Lent<S>;
type Pure<S> = pure::Ser<S>;
type PureLent<S> = pure::Lent<S>;

probes! {
	offset_40: long::<A16, Off<A16>, [Box<u8>; 40]>(OFFSET, off::Mk::own, 0);
	offset_vec_33: long::<A16, Off<A16>, (Vec<Box<u32>>, u8)>(OFFSET, off::Mk::own, 33);
	offset_vec_vec_5: long::<A16, Off<A16>, Vec<Vec<Box<u8>>>>(OFFSET, off::Mk::own, 5);
	offset_vec_tuple_9: long::<A16, Off<A16>, Vec<(u8, Box<u16>, [Box<u8>; 2])>>(OFFSET, off::Mk::own, 9);
	offset_tight_40: squeezed::<A16, Off<A16>, [Box<u8>; 40]>(OFFSET, off::Mk::own, 320 + 20 * 8, 0);
	offset_from_nothing: from_new::<A16, Off<A16>, [Box<u16>; 9]>(OFFSET, off::Mk::own);
	offset_from_nothing_nested: from_new::<A16, Off<A16>, ([Box<u64>; 3], Box<(u8, [Box<[u8; 9]>; 4])>)>(OFFSET, off::Mk::own);
	offset_generic: long::<A16, Off<A16>, Box<Holder<12>>>(OFFSET, off::Mk::own, 0);
	offset_row: in_a_row::<A16, OffLent<A16>, Box<u8>, Box<u64>, (u8, Box<u16>)>(OFFSET, off::Mk::lend);
	offset_row_vec: in_a_row::<A16, OffLent<A16>, u8, Vec<u32>, u8>(OFFSET, off::Mk::lend);
	offset_row_v16: in_a_row::<W16, OffLent<W16>, u8, Box<u64>, Box<u8>>(OFFSET, off::Mk::lend);
	pure_40: long::<A16, Pure<A16>, [Box<u8>; 40]>(PURE, pure::Mk::own, 0);
	pure_vec_33: long::<A16, Pure<A16>, (Vec<Box<u32>>, u8)>(PURE, pure::Mk::own, 33);
	pure_vec_vec_5: long::<A16, Pure<A16>, Vec<Vec<Box<u8>>>>(PURE, pure::Mk::own, 5);
	pure_from_nothing: from_new::<A16, Pure<A16>, [Box<u16>; 9]>(PURE, pure::Mk::own);
	pure_row: in_a_row::<A16, PureLent<A16>, Box<u8>, Vec<u64>, u8>(PURE, pure::Mk::lend);
	pure_row_v1: in_a_row::<W1, PureLent<W1>, u8, Box<u64>, Box<u8>>(PURE, pure::Mk::lend);
}
fn main() {}
