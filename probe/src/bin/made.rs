//! Ways to make serializers, and their operations which only push
use probe::{probes, raw_ops::*, st::*, val::*};
use ser_raw::{storage::AlignedVec, CompleteSerializer, PtrOffsetSerializer, PureCopySerializer};

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
use probe::either;

macro_rules! by_itself {
	($f:ident, $kind:expr, $v:ty, $ser:ident, $sa:expr, $mva:expr, $va:expr, $max:expr) => {
		fn $f() {
			type S = AlignedVec<{ $sa }, { $mva }, { $va }, { $max }>;
			type Ser = $ser<{ $sa }, { $mva }, { $va }, { $max }, S>;
			probe::prove("C18: constants of serializer are not its parameters", Ser::STORAGE_ALIGNMENT == $sa
				&& Ser::MAX_VALUE_ALIGNMENT == $mva && Ser::VALUE_ALIGNMENT == $va && Ser::MAX_CAPACITY == $max);
			made::<S, Ser, $v>($kind, Ser::new, Ser::with_capacity)
		}
	};
}
by_itself!(complete_u64, COMPLETE, u64, CompleteSerializer, 16, 16, 8, 1024);
by_itself!(complete_b33, COMPLETE, [u8; 33], CompleteSerializer, 64, 32, 4, 1120);
by_itself!(complete_box, COMPLETE, Box<u32>, CompleteSerializer, 16, 16, 16, ser_raw::util::aligned_max_capacity(16));
by_itself!(complete_box_v1, COMPLETE, Box<u16>, CompleteSerializer, 16, 8, 1, ser_raw::util::aligned_max_u32_capacity(8));
by_itself!(offset_u64, OFFSET, u64, PtrOffsetSerializer, 16, 16, 8, 1024);
by_itself!(offset_b33, OFFSET, [u8; 33], PtrOffsetSerializer, 64, 32, 4, 1120);
by_itself!(offset_box, OFFSET, Box<u32>, PtrOffsetSerializer, 16, 16, 16, ser_raw::util::aligned_max_capacity(16));
by_itself!(offset_box_v1, OFFSET, Box<u16>, PtrOffsetSerializer, 16, 8, 1, ser_raw::util::aligned_max_u32_capacity(8));
by_itself!(pure_u64, PURE, u64, PureCopySerializer, 16, 16, 8, 1024);
by_itself!(pure_b33, PURE, [u8; 33], PureCopySerializer, 64, 32, 4, 1120);
by_itself!(pure_box, PURE, Box<u32>, PureCopySerializer, 16, 16, 16, ser_raw::util::aligned_max_capacity(16));
by_itself!(pure_box_v1, PURE, Box<u16>, PureCopySerializer, 16, 8, 1, ser_raw::util::aligned_max_u32_capacity(8));

probes! {
	made_complete_u64: complete_u64();
	made_complete_b33: complete_b33();
	made_complete_box: complete_box();
	made_complete_box_v1: complete_box_v1();
	made_offset_u64: offset_u64();
	made_offset_b33: offset_b33();
	made_offset_box: offset_box();
	made_offset_box_v1: offset_box_v1();
	made_pure_u64: pure_u64();
	made_pure_b33: pure_b33();
	made_pure_box: pure_box();
	made_pure_box_v1: pure_box_v1();
	raw_complete_value: raw::<Small, complete::Lent<Small>, u64>(0, C::lend);
	raw_complete_slice: raw::<V1, complete::Lent<V1>, u32>(1, C::lend);
	raw_complete_empty: raw::<V2, complete::Lent<V2>, [u16; 3]>(2, C::lend);
	raw_complete_empty_slice: raw::<V4, complete::Lent<V4>, u128>(3, C::lend);
	raw_complete_bytes: raw_bytes::<V16, complete::Lent<V16>>(C::lend);
	raw_complete_zst: raw_zst::<A16, complete::Lent<A16>, ()>(C::lend);
	raw_offset_value: raw::<V1, offset::Lent<V1>, u64>(0, O::lend);
	raw_offset_slice: raw::<V2, offset::Lent<V2>, u32>(1, O::lend);
	raw_offset_empty: raw::<V4, offset::Lent<V4>, [u16; 3]>(2, O::lend);
	raw_offset_empty_slice: raw::<Small, offset::Lent<Small>, u128>(3, O::lend);
	raw_offset_bytes: raw_bytes::<V1, offset::Lent<V1>>(O::lend);
	raw_offset_zst: raw_zst::<V4, offset::Lent<V4>, [u64; 0]>(O::lend);
	raw_pure_value: raw::<V4, pure::Lent<V4>, u64>(0, P::lend);
	raw_pure_slice: raw::<Small, pure::Lent<Small>, u32>(1, P::lend);
	raw_pure_empty: raw::<V1, pure::Lent<V1>, [u16; 3]>(2, P::lend);
	raw_pure_empty_slice: raw::<V2, pure::Lent<V2>, u64>(3, P::lend);
	raw_pure_bytes: raw_bytes::<V4, pure::Lent<V4>>(P::lend);
	raw_pure_zst: raw_zst::<V16, pure::Lent<V16>, ()>(P::lend);
	arithmetic: probe::raw_ops::arithmetic();
}
fn main() {}
