use std::mem::ManuallyDrop;
use probe::{any, either, probes, ser::*, st::*, val::*, visits::*};
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize};

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
type S = A16;
type CS = complete::Ser<S>;
type OS = offset::Ser<S>;
type PS = pure::Ser<S>;
type L = Listed<u32>;

#[derive(Serialize)]
pub struct Zst;
#[derive(Serialize)]
#[repr(align(16))]
pub struct Zst16;
#[derive(Serialize)]
#[repr(align(64))]
pub struct Zst64;

#[repr(align(16))]
pub struct Wide([u8; 48]);

fn anyv<T>() -> T {
	unsafe { std::ptr::read(any_ref::<T>()) }
}

fn item() -> L {
	unsafe { std::ptr::read(any_ref::<L>()) }
}

probes! {
	tuple_1: fields::<S, CS, (L,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	tuple_2: fields::<S, OS, (L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); 2 });
	tuple_3: fields::<S, PS, (L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); 3 });
	tuple_4: fields::<S, CS, (L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); 4 });
	tuple_5: fields::<S, OS, (L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); 5 });
	tuple_6: fields::<S, PS, (L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); 6 });
	tuple_7: fields::<S, CS, (L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); 7 });
	tuple_8: fields::<S, OS, (L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); 8 });
	tuple_9: fields::<S, PS, (L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); 9 });
	tuple_10: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); 10 });
	tuple_11: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); 11 });
	tuple_12: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); 12 });
	tuple_13: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); 13 });
	tuple_14: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); 14 });
	tuple_15: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); 15 });
	tuple_16: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); 16 });
	tuple_17: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); 17 });
	tuple_18: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); 18 });
	tuple_19: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); 19 });
	tuple_20: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); 20 });
	tuple_21: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); 21 });
	tuple_22: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); 22 });
	tuple_23: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); 23 });
	tuple_24: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); 24 });
	tuple_25: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); 25 });
	tuple_26: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); 26 });
	tuple_27: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); 27 });
	tuple_28: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); expect(27, &v.27); 28 });
	tuple_29: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); expect(27, &v.27); expect(28, &v.28); 29 });
	tuple_30: fields::<S, PS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); expect(27, &v.27); expect(28, &v.28); expect(29, &v.29); 30 });
	tuple_31: fields::<S, CS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); expect(27, &v.27); expect(28, &v.28); expect(29, &v.29); expect(30, &v.30); 31 });
	tuple_32: fields::<S, OS, (L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,L,)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); expect(12, &v.12); expect(13, &v.13); expect(14, &v.14); expect(15, &v.15); expect(16, &v.16); expect(17, &v.17); expect(18, &v.18); expect(19, &v.19); expect(20, &v.20); expect(21, &v.21); expect(22, &v.22); expect(23, &v.23); expect(24, &v.24); expect(25, &v.25); expect(26, &v.26); expect(27, &v.27); expect(28, &v.28); expect(29, &v.29); expect(30, &v.30); expect(31, &v.31); 32 });
	nothing_u8: nothing::<S, CS, u8>(C::own, any_ref());
	nothing_u16: nothing::<S, OS, u16>(O::own, any_ref());
	nothing_u32: nothing::<S, PS, u32>(P::own, any_ref());
	nothing_u64: nothing::<S, CS, u64>(C::own, any_ref());
	nothing_u128: nothing::<S, OS, u128>(O::own, any_ref());
	nothing_usize: nothing::<S, PS, usize>(P::own, any_ref());
	nothing_i8: nothing::<S, CS, i8>(C::own, any_ref());
	nothing_i16: nothing::<S, OS, i16>(O::own, any_ref());
	nothing_i32: nothing::<S, PS, i32>(P::own, any_ref());
	nothing_i64: nothing::<S, CS, i64>(C::own, any_ref());
	nothing_i128: nothing::<S, OS, i128>(O::own, any_ref());
	nothing_isize: nothing::<S, PS, isize>(P::own, any_ref());
	nothing_f32: nothing::<S, CS, f32>(C::own, any_ref());
	nothing_f64: nothing::<S, OS, f64>(O::own, any_ref());
	nothing_nz_u8: nothing::<S, PS, std::num::NonZeroU8>(P::own, &Val::any());
	nothing_nz_u16: nothing::<S, CS, std::num::NonZeroU16>(C::own, &Val::any());
	nothing_nz_u32: nothing::<S, OS, std::num::NonZeroU32>(O::own, &Val::any());
	nothing_nz_u64: nothing::<S, PS, std::num::NonZeroU64>(P::own, &Val::any());
	nothing_nz_u128: nothing::<S, CS, std::num::NonZeroU128>(C::own, &Val::any());
	nothing_nz_usize: nothing::<S, OS, std::num::NonZeroUsize>(O::own, &Val::any());
	nothing_nz_i8: nothing::<S, PS, std::num::NonZeroI8>(P::own, &Val::any());
	nothing_nz_i16: nothing::<S, CS, std::num::NonZeroI16>(C::own, &Val::any());
	nothing_nz_i32: nothing::<S, OS, std::num::NonZeroI32>(O::own, &Val::any());
	nothing_nz_i64: nothing::<S, PS, std::num::NonZeroI64>(P::own, &Val::any());
	nothing_nz_i128: nothing::<S, CS, std::num::NonZeroI128>(C::own, &Val::any());
	nothing_nz_isize: nothing::<S, OS, std::num::NonZeroIsize>(O::own, &Val::any());
	nothing_bool: nothing::<S, PS, bool>(P::own, &Val::any());
	nothing_char: nothing::<S, CS, char>(C::own, &Val::any());
	complete_none: nothing::<S, CS, Option<L>>(C::own, &None);
	complete_none_box: nothing::<S, CS, Option<Box<L>>>(C::own, &None);
	complete_empty_vec: nothing::<S, CS, Vec<L>>(C::own, &Vec::new());
	complete_empty_string: nothing::<S, CS, String>(C::own, &String::new());
	complete_empty_array: nothing::<S, CS, [L; 0]>(C::own, &[]);
	complete_unit: nothing::<S, CS, ()>(C::own, &());
	complete_box_zst: nothing::<S, CS, Box<()>>(C::own, &Val::any());
	complete_vec_zst: nothing::<S, CS, Vec<Zst>>(C::own, &vec_of(any()));
	complete_vec_zst_aligned: nothing::<S, CS, Vec<Zst64>>(C::own, &vec_of(any()));
	complete_vec: vec::<S, CS, Lined<u32>>(C::own);
	complete_vec_odd: vec::<S, CS, Lined<[u16; 3]>>(C::own);
	complete_vec_big: vec::<S, CS, Lined<u128>>(C::own);
	complete_vec_zsts: vec::<S, CS, Lined<()>>(C::own);
	complete_vec_loud: vec_loud::<S, CS, Loud<u64>>(C::own);
	complete_array: inline::<S, CS, [Lined<u16>; 7], 7>(C::own, |v| v as *const _ as usize);
	complete_array_1: inline::<S, CS, [Lined<u64>; 1], 1>(C::own, |v| v as *const _ as usize);
	complete_array_1000: inline::<S, CS, [Lined<[u8; 3]>; 1000], 1000>(C::own, |v| v as *const _ as usize);
	complete_arrays: inline::<S, CS, [[Lined<u8>; 3]; 4], 12>(C::own, |v| v as *const _ as usize);
	complete_some: fields::<S, CS, Option<L>>(C::own, &Some(item()), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_nested: fields::<S, CS, (L, Option<(L, [L; 2])>, L)>(C::own, &(item(), Some((item(), [item(), item()])), item()), |v| { expect(0, &v.0); let x = match &v.1 { Some(x) => x, None => unreachable!() }; expect(1, &x.0); expect(2, &x.1[0]); expect(3, &x.1[1]); expect(4, &v.2); 5 });
	complete_mixed: fields::<S, CS, (Listed<u8>, Listed<u64>, Listed<u16>, Listed<u128>, Listed<[u8; 5]>)>(C::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); 5 });
	complete_box: boxed::<S, CS, Lined<u32>>(C::own);
	complete_box_big: boxed::<S, CS, Lined<[u64; 9]>>(C::own);
	complete_box_byte: boxed::<S, CS, Lined<u8>>(C::own);
	complete_zst: zst::<S, CS, ()>(C::own, &());
	complete_zst_array: zst::<S, CS, [u64; 0]>(C::own, &[]);
	complete_zst_aligned: zst::<S, CS, Zst16>(C::own, &Zst16);
	complete_zst_tuple: zst::<S, CS, ((), [u8; 0])>(C::own, &((), []));
	complete_zst_arrays: zst::<S, CS, [(); 5]>(C::own, &[(); 5]);
	complete_zst_box: zst_in::<S, CS, Box<()>>(C::own, &Val::any());
	complete_zst_box_aligned: zst_in::<S, CS, Box<Zst64>>(C::own, &Box::new(Zst64));
	complete_zst_vec: zst_in::<S, CS, Vec<()>>(C::own, &vec_of(any()));
	complete_zst_vec_aligned: zst_in::<S, CS, Vec<Zst64>>(C::own, &vec_of(any()));
	complete_zst_opt_vec: zst_in::<S, CS, (Vec<()>, Vec<Zst>)>(C::own, &(vec_of(any()), vec_of(any())));
	offset_none: nothing::<S, OS, Option<L>>(O::own, &None);
	offset_none_box: nothing::<S, OS, Option<Box<L>>>(O::own, &None);
	offset_empty_vec: nothing::<S, OS, Vec<L>>(O::own, &Vec::new());
	offset_empty_string: nothing::<S, OS, String>(O::own, &String::new());
	offset_empty_array: nothing::<S, OS, [L; 0]>(O::own, &[]);
	offset_unit: nothing::<S, OS, ()>(O::own, &());
	offset_box_zst: nothing::<S, OS, Box<()>>(O::own, &Val::any());
	offset_vec_zst: nothing::<S, OS, Vec<Zst>>(O::own, &vec_of(any()));
	offset_vec_zst_aligned: nothing::<S, OS, Vec<Zst64>>(O::own, &vec_of(any()));
	offset_vec: vec::<S, OS, Lined<u32>>(O::own);
	offset_vec_odd: vec::<S, OS, Lined<[u16; 3]>>(O::own);
	offset_vec_big: vec::<S, OS, Lined<u128>>(O::own);
	offset_vec_zsts: vec::<S, OS, Lined<()>>(O::own);
	offset_vec_loud: vec_loud::<S, OS, Loud<u64>>(O::own);
	offset_array: inline::<S, OS, [Lined<u16>; 7], 7>(O::own, |v| v as *const _ as usize);
	offset_array_1: inline::<S, OS, [Lined<u64>; 1], 1>(O::own, |v| v as *const _ as usize);
	offset_array_1000: inline::<S, OS, [Lined<[u8; 3]>; 1000], 1000>(O::own, |v| v as *const _ as usize);
	offset_arrays: inline::<S, OS, [[Lined<u8>; 3]; 4], 12>(O::own, |v| v as *const _ as usize);
	offset_some: fields::<S, OS, Option<L>>(O::own, &Some(item()), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_nested: fields::<S, OS, (L, Option<(L, [L; 2])>, L)>(O::own, &(item(), Some((item(), [item(), item()])), item()), |v| { expect(0, &v.0); let x = match &v.1 { Some(x) => x, None => unreachable!() }; expect(1, &x.0); expect(2, &x.1[0]); expect(3, &x.1[1]); expect(4, &v.2); 5 });
	offset_mixed: fields::<S, OS, (Listed<u8>, Listed<u64>, Listed<u16>, Listed<u128>, Listed<[u8; 5]>)>(O::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); 5 });
	offset_box: boxed::<S, OS, Lined<u32>>(O::own);
	offset_box_big: boxed::<S, OS, Lined<[u64; 9]>>(O::own);
	offset_box_byte: boxed::<S, OS, Lined<u8>>(O::own);
	offset_zst: zst::<S, OS, ()>(O::own, &());
	offset_zst_array: zst::<S, OS, [u64; 0]>(O::own, &[]);
	offset_zst_aligned: zst::<S, OS, Zst16>(O::own, &Zst16);
	offset_zst_tuple: zst::<S, OS, ((), [u8; 0])>(O::own, &((), []));
	offset_zst_arrays: zst::<S, OS, [(); 5]>(O::own, &[(); 5]);
	offset_zst_box: zst_in::<S, OS, Box<()>>(O::own, &Val::any());
	offset_zst_box_aligned: zst_in::<S, OS, Box<Zst64>>(O::own, &Box::new(Zst64));
	offset_zst_vec: zst_in::<S, OS, Vec<()>>(O::own, &vec_of(any()));
	offset_zst_vec_aligned: zst_in::<S, OS, Vec<Zst64>>(O::own, &vec_of(any()));
	offset_zst_opt_vec: zst_in::<S, OS, (Vec<()>, Vec<Zst>)>(O::own, &(vec_of(any()), vec_of(any())));
	pure_none: nothing::<S, PS, Option<L>>(P::own, &None);
	pure_none_box: nothing::<S, PS, Option<Box<L>>>(P::own, &None);
	pure_empty_vec: nothing::<S, PS, Vec<L>>(P::own, &Vec::new());
	pure_empty_string: nothing::<S, PS, String>(P::own, &String::new());
	pure_empty_array: nothing::<S, PS, [L; 0]>(P::own, &[]);
	pure_unit: nothing::<S, PS, ()>(P::own, &());
	pure_box_zst: nothing::<S, PS, Box<()>>(P::own, &Val::any());
	pure_vec_zst: nothing::<S, PS, Vec<Zst>>(P::own, &vec_of(any()));
	pure_vec_zst_aligned: nothing::<S, PS, Vec<Zst64>>(P::own, &vec_of(any()));
	pure_vec: vec::<S, PS, Lined<u32>>(P::own);
	pure_vec_odd: vec::<S, PS, Lined<[u16; 3]>>(P::own);
	pure_vec_big: vec::<S, PS, Lined<u128>>(P::own);
	pure_vec_zsts: vec::<S, PS, Lined<()>>(P::own);
	pure_vec_loud: vec_loud::<S, PS, Loud<u64>>(P::own);
	pure_array: inline::<S, PS, [Lined<u16>; 7], 7>(P::own, |v| v as *const _ as usize);
	pure_array_1: inline::<S, PS, [Lined<u64>; 1], 1>(P::own, |v| v as *const _ as usize);
	pure_array_1000: inline::<S, PS, [Lined<[u8; 3]>; 1000], 1000>(P::own, |v| v as *const _ as usize);
	pure_arrays: inline::<S, PS, [[Lined<u8>; 3]; 4], 12>(P::own, |v| v as *const _ as usize);
	pure_some: fields::<S, PS, Option<L>>(P::own, &Some(item()), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_nested: fields::<S, PS, (L, Option<(L, [L; 2])>, L)>(P::own, &(item(), Some((item(), [item(), item()])), item()), |v| { expect(0, &v.0); let x = match &v.1 { Some(x) => x, None => unreachable!() }; expect(1, &x.0); expect(2, &x.1[0]); expect(3, &x.1[1]); expect(4, &v.2); 5 });
	pure_mixed: fields::<S, PS, (Listed<u8>, Listed<u64>, Listed<u16>, Listed<u128>, Listed<[u8; 5]>)>(P::own, any_ref(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); 5 });
	pure_box: boxed::<S, PS, Lined<u32>>(P::own);
	pure_box_big: boxed::<S, PS, Lined<[u64; 9]>>(P::own);
	pure_box_byte: boxed::<S, PS, Lined<u8>>(P::own);
	pure_zst: zst::<S, PS, ()>(P::own, &());
	pure_zst_array: zst::<S, PS, [u64; 0]>(P::own, &[]);
	pure_zst_aligned: zst::<S, PS, Zst16>(P::own, &Zst16);
	pure_zst_tuple: zst::<S, PS, ((), [u8; 0])>(P::own, &((), []));
	pure_zst_arrays: zst::<S, PS, [(); 5]>(P::own, &[(); 5]);
	pure_zst_box: zst_in::<S, PS, Box<()>>(P::own, &Val::any());
	pure_zst_box_aligned: zst_in::<S, PS, Box<Zst64>>(P::own, &Box::new(Zst64));
	pure_zst_vec: zst_in::<S, PS, Vec<()>>(P::own, &vec_of(any()));
	pure_zst_vec_aligned: zst_in::<S, PS, Vec<Zst64>>(P::own, &vec_of(any()));
	pure_zst_opt_vec: zst_in::<S, PS, (Vec<()>, Vec<Zst>)>(P::own, &(vec_of(any()), vec_of(any())));
	complete_array_2: inline::<S, CS, [Lined<u16>; 2], 2>(C::own, |v| v as *const _ as usize);
	offset_array_3: inline::<S, OS, [Lined<[u8; 3]>; 3], 3>(O::own, |v| v as *const _ as usize);
	pure_array_4: inline::<S, PS, [Lined<u64>; 4], 4>(P::own, |v| v as *const _ as usize);
	complete_array_5: inline::<S, CS, [Lined<u8>; 5], 5>(C::own, |v| v as *const _ as usize);
	offset_array_6: inline::<S, OS, [Lined<u16>; 6], 6>(O::own, |v| v as *const _ as usize);
	pure_array_8: inline::<S, PS, [Lined<[u8; 3]>; 8], 8>(P::own, |v| v as *const _ as usize);
	complete_array_9: inline::<S, CS, [Lined<u64>; 9], 9>(C::own, |v| v as *const _ as usize);
	offset_array_10: inline::<S, OS, [Lined<u8>; 10], 10>(O::own, |v| v as *const _ as usize);
	pure_array_11: inline::<S, PS, [Lined<u16>; 11], 11>(P::own, |v| v as *const _ as usize);
	complete_array_12: inline::<S, CS, [Lined<[u8; 3]>; 12], 12>(C::own, |v| v as *const _ as usize);
	offset_array_13: inline::<S, OS, [Lined<u64>; 13], 13>(O::own, |v| v as *const _ as usize);
	pure_array_14: inline::<S, PS, [Lined<u8>; 14], 14>(P::own, |v| v as *const _ as usize);
	complete_array_15: inline::<S, CS, [Lined<u16>; 15], 15>(C::own, |v| v as *const _ as usize);
	offset_array_16: inline::<S, OS, [Lined<[u8; 3]>; 16], 16>(O::own, |v| v as *const _ as usize);
	pure_array_17: inline::<S, PS, [Lined<u64>; 17], 17>(P::own, |v| v as *const _ as usize);
	complete_array_18: inline::<S, CS, [Lined<u8>; 18], 18>(C::own, |v| v as *const _ as usize);
	offset_array_19: inline::<S, OS, [Lined<u16>; 19], 19>(O::own, |v| v as *const _ as usize);
	pure_array_20: inline::<S, PS, [Lined<[u8; 3]>; 20], 20>(P::own, |v| v as *const _ as usize);
	complete_array_21: inline::<S, CS, [Lined<u64>; 21], 21>(C::own, |v| v as *const _ as usize);
	offset_array_22: inline::<S, OS, [Lined<u8>; 22], 22>(O::own, |v| v as *const _ as usize);
	pure_array_23: inline::<S, PS, [Lined<u16>; 23], 23>(P::own, |v| v as *const _ as usize);
	complete_array_31: inline::<S, CS, [Lined<[u8; 3]>; 31], 31>(C::own, |v| v as *const _ as usize);
	offset_array_32: inline::<S, OS, [Lined<u64>; 32], 32>(O::own, |v| v as *const _ as usize);
	pure_array_33: inline::<S, PS, [Lined<u8>; 33], 33>(P::own, |v| v as *const _ as usize);
	complete_array_34: inline::<S, CS, [Lined<u16>; 34], 34>(C::own, |v| v as *const _ as usize);
	offset_array_35: inline::<S, OS, [Lined<[u8; 3]>; 35], 35>(O::own, |v| v as *const _ as usize);
	pure_array_47: inline::<S, PS, [Lined<u64>; 47], 47>(P::own, |v| v as *const _ as usize);
	complete_array_48: inline::<S, CS, [Lined<u8>; 48], 48>(C::own, |v| v as *const _ as usize);
	offset_array_49: inline::<S, OS, [Lined<u16>; 49], 49>(O::own, |v| v as *const _ as usize);
	pure_array_63: inline::<S, PS, [Lined<[u8; 3]>; 63], 63>(P::own, |v| v as *const _ as usize);
	complete_array_64: inline::<S, CS, [Lined<u64>; 64], 64>(C::own, |v| v as *const _ as usize);
	offset_array_65: inline::<S, OS, [Lined<u8>; 65], 65>(O::own, |v| v as *const _ as usize);
	pure_array_66: inline::<S, PS, [Lined<u16>; 66], 66>(P::own, |v| v as *const _ as usize);
	complete_array_67: inline::<S, CS, [Lined<[u8; 3]>; 67], 67>(C::own, |v| v as *const _ as usize);
	offset_array_100: inline::<S, OS, [Lined<u64>; 100], 100>(O::own, |v| v as *const _ as usize);
	pure_array_127: inline::<S, PS, [Lined<u8>; 127], 127>(P::own, |v| v as *const _ as usize);
	complete_array_128: inline::<S, CS, [Lined<u16>; 128], 128>(C::own, |v| v as *const _ as usize);
	offset_array_129: inline::<S, OS, [Lined<[u8; 3]>; 129], 129>(O::own, |v| v as *const _ as usize);
	pure_array_255: inline::<S, PS, [Lined<u64>; 255], 255>(P::own, |v| v as *const _ as usize);
	complete_array_256: inline::<S, CS, [Lined<u8>; 256], 256>(C::own, |v| v as *const _ as usize);
	offset_array_257: inline::<S, OS, [Lined<u16>; 257], 257>(O::own, |v| v as *const _ as usize);
	pure_array_511: inline::<S, PS, [Lined<[u8; 3]>; 511], 511>(P::own, |v| v as *const _ as usize);
	complete_array_512: inline::<S, CS, [Lined<u64>; 512], 512>(C::own, |v| v as *const _ as usize);
	offset_array_513: inline::<S, OS, [Lined<u8>; 513], 513>(O::own, |v| v as *const _ as usize);
	pure_array_1023: inline::<S, PS, [Lined<u16>; 1023], 1023>(P::own, |v| v as *const _ as usize);
	complete_array_1025: inline::<S, CS, [Lined<[u8; 3]>; 1025], 1025>(C::own, |v| v as *const _ as usize);
	offset_array_4099: inline::<S, OS, [Lined<u64>; 4099], 4099>(O::own, |v| v as *const _ as usize);
	complete_some_unit: fields::<S, CS, Option<Listed<()>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_unit: fields::<S, CS, Option<Option<Listed<()>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_unit: nothing::<S, CS, Option<Listed<()>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_unit: fields::<S, CS, (Listed<()>, L, Listed<()>, Option<Listed<()>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_unit: fields::<S, CS, (Listed<()>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_unit: inline::<S, CS, [Lined<()>; 5], 5>(C::own, |v| v as *const _ as usize);
	offset_some_unit: fields::<S, OS, Option<Listed<()>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_unit: fields::<S, OS, Option<Option<Listed<()>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_unit: nothing::<S, OS, Option<Listed<()>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_unit: fields::<S, OS, (Listed<()>, L, Listed<()>, Option<Listed<()>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_unit: fields::<S, OS, (Listed<()>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_unit: inline::<S, OS, [Lined<()>; 5], 5>(O::own, |v| v as *const _ as usize);
	pure_some_unit: fields::<S, PS, Option<Listed<()>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_unit: fields::<S, PS, Option<Option<Listed<()>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_unit: nothing::<S, PS, Option<Listed<()>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_unit: fields::<S, PS, (Listed<()>, L, Listed<()>, Option<Listed<()>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_unit: fields::<S, PS, (Listed<()>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_unit: inline::<S, PS, [Lined<()>; 5], 5>(P::own, |v| v as *const _ as usize);
	complete_some_z16: fields::<S, CS, Option<Listed<Zst16>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_z16: fields::<S, CS, Option<Option<Listed<Zst16>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_z16: nothing::<S, CS, Option<Listed<Zst16>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_z16: fields::<S, CS, (Listed<Zst16>, L, Listed<Zst16>, Option<Listed<Zst16>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_z16: fields::<S, CS, (Listed<Zst16>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_some_z16: fields::<S, OS, Option<Listed<Zst16>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_z16: fields::<S, OS, Option<Option<Listed<Zst16>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_z16: nothing::<S, OS, Option<Listed<Zst16>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_z16: fields::<S, OS, (Listed<Zst16>, L, Listed<Zst16>, Option<Listed<Zst16>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_z16: fields::<S, OS, (Listed<Zst16>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_some_z16: fields::<S, PS, Option<Listed<Zst16>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_z16: fields::<S, PS, Option<Option<Listed<Zst16>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_z16: nothing::<S, PS, Option<Listed<Zst16>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_z16: fields::<S, PS, (Listed<Zst16>, L, Listed<Zst16>, Option<Listed<Zst16>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_z16: fields::<S, PS, (Listed<Zst16>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_some_b1: fields::<S, CS, Option<Listed<u8>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_b1: fields::<S, CS, Option<Option<Listed<u8>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_b1: nothing::<S, CS, Option<Listed<u8>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_b1: fields::<S, CS, (Listed<u8>, L, Listed<u8>, Option<Listed<u8>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_b1: fields::<S, CS, (Listed<u8>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_b1: inline::<S, CS, [Lined<u8>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_b1: vec::<S, CS, Lined<u8>>(C::own);
	complete_box_of_b1: boxed::<S, CS, Lined<u8>>(C::own);
	offset_some_b1: fields::<S, OS, Option<Listed<u8>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_b1: fields::<S, OS, Option<Option<Listed<u8>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_b1: nothing::<S, OS, Option<Listed<u8>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_b1: fields::<S, OS, (Listed<u8>, L, Listed<u8>, Option<Listed<u8>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_b1: fields::<S, OS, (Listed<u8>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_b1: inline::<S, OS, [Lined<u8>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_b1: vec::<S, OS, Lined<u8>>(O::own);
	offset_box_of_b1: boxed::<S, OS, Lined<u8>>(O::own);
	pure_some_b1: fields::<S, PS, Option<Listed<u8>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_b1: fields::<S, PS, Option<Option<Listed<u8>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_b1: nothing::<S, PS, Option<Listed<u8>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_b1: fields::<S, PS, (Listed<u8>, L, Listed<u8>, Option<Listed<u8>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_b1: fields::<S, PS, (Listed<u8>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_b1: inline::<S, PS, [Lined<u8>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_b1: vec::<S, PS, Lined<u8>>(P::own);
	pure_box_of_b1: boxed::<S, PS, Lined<u8>>(P::own);
	complete_some_b3: fields::<S, CS, Option<Listed<[u8; 3]>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_b3: fields::<S, CS, Option<Option<Listed<[u8; 3]>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_b3: nothing::<S, CS, Option<Listed<[u8; 3]>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_b3: fields::<S, CS, (Listed<[u8; 3]>, L, Listed<[u8; 3]>, Option<Listed<[u8; 3]>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_b3: fields::<S, CS, (Listed<[u8; 3]>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_b3: inline::<S, CS, [Lined<[u8; 3]>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_b3: vec::<S, CS, Lined<[u8; 3]>>(C::own);
	complete_box_of_b3: boxed::<S, CS, Lined<[u8; 3]>>(C::own);
	offset_some_b3: fields::<S, OS, Option<Listed<[u8; 3]>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_b3: fields::<S, OS, Option<Option<Listed<[u8; 3]>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_b3: nothing::<S, OS, Option<Listed<[u8; 3]>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_b3: fields::<S, OS, (Listed<[u8; 3]>, L, Listed<[u8; 3]>, Option<Listed<[u8; 3]>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_b3: fields::<S, OS, (Listed<[u8; 3]>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_b3: inline::<S, OS, [Lined<[u8; 3]>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_b3: vec::<S, OS, Lined<[u8; 3]>>(O::own);
	offset_box_of_b3: boxed::<S, OS, Lined<[u8; 3]>>(O::own);
	pure_some_b3: fields::<S, PS, Option<Listed<[u8; 3]>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_b3: fields::<S, PS, Option<Option<Listed<[u8; 3]>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_b3: nothing::<S, PS, Option<Listed<[u8; 3]>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_b3: fields::<S, PS, (Listed<[u8; 3]>, L, Listed<[u8; 3]>, Option<Listed<[u8; 3]>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_b3: fields::<S, PS, (Listed<[u8; 3]>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_b3: inline::<S, PS, [Lined<[u8; 3]>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_b3: vec::<S, PS, Lined<[u8; 3]>>(P::own);
	pure_box_of_b3: boxed::<S, PS, Lined<[u8; 3]>>(P::own);
	complete_some_bool: fields::<S, CS, Option<Listed<bool>>>(C::own, &ManuallyDrop::new(Some(listed(either()))), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_bool: fields::<S, CS, Option<Option<Listed<bool>>>>(C::own, &ManuallyDrop::new(Some(Some(listed(either())))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_bool: nothing::<S, CS, Option<Listed<bool>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_bool: fields::<S, CS, (Listed<bool>, L, Listed<bool>, Option<Listed<bool>>)>(C::own, &ManuallyDrop::new((listed(either()), item(), listed(either()), Some(listed(either())))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_some_bool: fields::<S, OS, Option<Listed<bool>>>(O::own, &ManuallyDrop::new(Some(listed(either()))), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_bool: fields::<S, OS, Option<Option<Listed<bool>>>>(O::own, &ManuallyDrop::new(Some(Some(listed(either())))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_bool: nothing::<S, OS, Option<Listed<bool>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_bool: fields::<S, OS, (Listed<bool>, L, Listed<bool>, Option<Listed<bool>>)>(O::own, &ManuallyDrop::new((listed(either()), item(), listed(either()), Some(listed(either())))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_some_bool: fields::<S, PS, Option<Listed<bool>>>(P::own, &ManuallyDrop::new(Some(listed(either()))), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_bool: fields::<S, PS, Option<Option<Listed<bool>>>>(P::own, &ManuallyDrop::new(Some(Some(listed(either())))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_bool: nothing::<S, PS, Option<Listed<bool>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_bool: fields::<S, PS, (Listed<bool>, L, Listed<bool>, Option<Listed<bool>>)>(P::own, &ManuallyDrop::new((listed(either()), item(), listed(either()), Some(listed(either())))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_some_big: fields::<S, CS, Option<Listed<[u64; 40]>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_big: fields::<S, CS, Option<Option<Listed<[u64; 40]>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_big: nothing::<S, CS, Option<Listed<[u64; 40]>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_big: fields::<S, CS, (Listed<[u64; 40]>, L, Listed<[u64; 40]>, Option<Listed<[u64; 40]>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_big: fields::<S, CS, (Listed<[u64; 40]>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_big: inline::<S, CS, [Lined<[u64; 40]>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_big: vec::<S, CS, Lined<[u64; 40]>>(C::own);
	complete_box_of_big: boxed::<S, CS, Lined<[u64; 40]>>(C::own);
	offset_some_big: fields::<S, OS, Option<Listed<[u64; 40]>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_big: fields::<S, OS, Option<Option<Listed<[u64; 40]>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_big: nothing::<S, OS, Option<Listed<[u64; 40]>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_big: fields::<S, OS, (Listed<[u64; 40]>, L, Listed<[u64; 40]>, Option<Listed<[u64; 40]>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_big: fields::<S, OS, (Listed<[u64; 40]>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_big: inline::<S, OS, [Lined<[u64; 40]>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_big: vec::<S, OS, Lined<[u64; 40]>>(O::own);
	offset_box_of_big: boxed::<S, OS, Lined<[u64; 40]>>(O::own);
	pure_some_big: fields::<S, PS, Option<Listed<[u64; 40]>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_big: fields::<S, PS, Option<Option<Listed<[u64; 40]>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_big: nothing::<S, PS, Option<Listed<[u64; 40]>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_big: fields::<S, PS, (Listed<[u64; 40]>, L, Listed<[u64; 40]>, Option<Listed<[u64; 40]>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_big: fields::<S, PS, (Listed<[u64; 40]>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_big: inline::<S, PS, [Lined<[u64; 40]>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_big: vec::<S, PS, Lined<[u64; 40]>>(P::own);
	pure_box_of_big: boxed::<S, PS, Lined<[u64; 40]>>(P::own);
	complete_some_huge: fields::<S, CS, Option<Listed<[u8; 5000]>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_huge: fields::<S, CS, Option<Option<Listed<[u8; 5000]>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_huge: nothing::<S, CS, Option<Listed<[u8; 5000]>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_huge: fields::<S, CS, (Listed<[u8; 5000]>, L, Listed<[u8; 5000]>, Option<Listed<[u8; 5000]>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_huge: fields::<S, CS, (Listed<[u8; 5000]>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_huge: inline::<S, CS, [Lined<[u8; 5000]>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_huge: vec::<S, CS, Lined<[u8; 5000]>>(C::own);
	complete_box_of_huge: boxed::<S, CS, Lined<[u8; 5000]>>(C::own);
	offset_some_huge: fields::<S, OS, Option<Listed<[u8; 5000]>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_huge: fields::<S, OS, Option<Option<Listed<[u8; 5000]>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_huge: nothing::<S, OS, Option<Listed<[u8; 5000]>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_huge: fields::<S, OS, (Listed<[u8; 5000]>, L, Listed<[u8; 5000]>, Option<Listed<[u8; 5000]>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_huge: fields::<S, OS, (Listed<[u8; 5000]>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_huge: inline::<S, OS, [Lined<[u8; 5000]>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_huge: vec::<S, OS, Lined<[u8; 5000]>>(O::own);
	offset_box_of_huge: boxed::<S, OS, Lined<[u8; 5000]>>(O::own);
	pure_some_huge: fields::<S, PS, Option<Listed<[u8; 5000]>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_huge: fields::<S, PS, Option<Option<Listed<[u8; 5000]>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_huge: nothing::<S, PS, Option<Listed<[u8; 5000]>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_huge: fields::<S, PS, (Listed<[u8; 5000]>, L, Listed<[u8; 5000]>, Option<Listed<[u8; 5000]>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_huge: fields::<S, PS, (Listed<[u8; 5000]>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_huge: inline::<S, PS, [Lined<[u8; 5000]>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_huge: vec::<S, PS, Lined<[u8; 5000]>>(P::own);
	pure_box_of_huge: boxed::<S, PS, Lined<[u8; 5000]>>(P::own);
	complete_some_drop: fields::<S, CS, Option<Listed<Dropped<u16>>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_drop: fields::<S, CS, Option<Option<Listed<Dropped<u16>>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_drop: nothing::<S, CS, Option<Listed<Dropped<u16>>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_drop: fields::<S, CS, (Listed<Dropped<u16>>, L, Listed<Dropped<u16>>, Option<Listed<Dropped<u16>>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_drop: fields::<S, CS, (Listed<Dropped<u16>>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_drop: inline::<S, CS, [Lined<Dropped<u16>>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_drop: vec::<S, CS, Lined<Dropped<u16>>>(C::own);
	complete_box_of_drop: boxed::<S, CS, Lined<Dropped<u16>>>(C::own);
	offset_some_drop: fields::<S, OS, Option<Listed<Dropped<u16>>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_drop: fields::<S, OS, Option<Option<Listed<Dropped<u16>>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_drop: nothing::<S, OS, Option<Listed<Dropped<u16>>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_drop: fields::<S, OS, (Listed<Dropped<u16>>, L, Listed<Dropped<u16>>, Option<Listed<Dropped<u16>>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_drop: fields::<S, OS, (Listed<Dropped<u16>>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_drop: inline::<S, OS, [Lined<Dropped<u16>>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_drop: vec::<S, OS, Lined<Dropped<u16>>>(O::own);
	offset_box_of_drop: boxed::<S, OS, Lined<Dropped<u16>>>(O::own);
	pure_some_drop: fields::<S, PS, Option<Listed<Dropped<u16>>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_drop: fields::<S, PS, Option<Option<Listed<Dropped<u16>>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_drop: nothing::<S, PS, Option<Listed<Dropped<u16>>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_drop: fields::<S, PS, (Listed<Dropped<u16>>, L, Listed<Dropped<u16>>, Option<Listed<Dropped<u16>>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_drop: fields::<S, PS, (Listed<Dropped<u16>>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_drop: inline::<S, PS, [Lined<Dropped<u16>>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_drop: vec::<S, PS, Lined<Dropped<u16>>>(P::own);
	pure_box_of_drop: boxed::<S, PS, Lined<Dropped<u16>>>(P::own);
	complete_some_wide: fields::<S, CS, Option<Listed<Wide>>>(C::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	complete_some_some_wide: fields::<S, CS, Option<Option<Listed<Wide>>>>(C::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	complete_none_wide: nothing::<S, CS, Option<Listed<Wide>>>(C::own, &ManuallyDrop::new(None));
	complete_pair_wide: fields::<S, CS, (Listed<Wide>, L, Listed<Wide>, Option<Listed<Wide>>)>(C::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	complete_tuple_of_wide: fields::<S, CS, (Listed<Wide>,)>(C::own, any_ref(), |v| { expect(0, &v.0); 1 });
	complete_array_of_wide: inline::<S, CS, [Lined<Wide>; 5], 5>(C::own, |v| v as *const _ as usize);
	complete_vec_of_wide: vec::<S, CS, Lined<Wide>>(C::own);
	complete_box_of_wide: boxed::<S, CS, Lined<Wide>>(C::own);
	offset_some_wide: fields::<S, OS, Option<Listed<Wide>>>(O::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	offset_some_some_wide: fields::<S, OS, Option<Option<Listed<Wide>>>>(O::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	offset_none_wide: nothing::<S, OS, Option<Listed<Wide>>>(O::own, &ManuallyDrop::new(None));
	offset_pair_wide: fields::<S, OS, (Listed<Wide>, L, Listed<Wide>, Option<Listed<Wide>>)>(O::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	offset_tuple_of_wide: fields::<S, OS, (Listed<Wide>,)>(O::own, any_ref(), |v| { expect(0, &v.0); 1 });
	offset_array_of_wide: inline::<S, OS, [Lined<Wide>; 5], 5>(O::own, |v| v as *const _ as usize);
	offset_vec_of_wide: vec::<S, OS, Lined<Wide>>(O::own);
	offset_box_of_wide: boxed::<S, OS, Lined<Wide>>(O::own);
	pure_some_wide: fields::<S, PS, Option<Listed<Wide>>>(P::own, &ManuallyDrop::new(Some(anyv())), |v| { if let Some(x) = v { expect(0, x); } 1 });
	pure_some_some_wide: fields::<S, PS, Option<Option<Listed<Wide>>>>(P::own, &ManuallyDrop::new(Some(Some(anyv()))), |v| { if let Some(Some(x)) = v { expect(0, x); } 1 });
	pure_none_wide: nothing::<S, PS, Option<Listed<Wide>>>(P::own, &ManuallyDrop::new(None));
	pure_pair_wide: fields::<S, PS, (Listed<Wide>, L, Listed<Wide>, Option<Listed<Wide>>)>(P::own, &ManuallyDrop::new((anyv(), item(), anyv(), Some(anyv()))), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); if let Some(x) = &v.3 { expect(3, x); } 4 });
	pure_tuple_of_wide: fields::<S, PS, (Listed<Wide>,)>(P::own, any_ref(), |v| { expect(0, &v.0); 1 });
	pure_array_of_wide: inline::<S, PS, [Lined<Wide>; 5], 5>(P::own, |v| v as *const _ as usize);
	pure_vec_of_wide: vec::<S, PS, Lined<Wide>>(P::own);
	pure_box_of_wide: boxed::<S, PS, Lined<Wide>>(P::own);
}
fn main() {}
