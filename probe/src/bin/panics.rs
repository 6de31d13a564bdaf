use probe::{panics::*, probes, st::*, val::*};
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer};

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
type S = A16;
type CS = complete::Ser<S>;
type OS = offset::Ser<S>;
type PS = pure::Ser<S>;
type CL<T> = complete::Lent<T>;
type OL<T> = offset::Lent<T>;
type PL<T> = pure::Lent<T>;

type Plain = (u8, Bomb);
type InBox = (Box<Bomb>, u8);
type InVec = (Box<u8>, [Bomb; 2], Vec<u8>);
type Nested = (Box<u64>, Box<(Box<u16>, Bomb)>, Box<u8>);
type Vecs = (Vec<Bomb>, Vec<Box<Bomb>>);

probes! {
	complete_plain: lent::<S, CL<S>, Plain, Box<u64>>(COMPLETE, C::lend, start(), 2);
	complete_box: lent::<S, CL<S>, InBox, u8>(COMPLETE, C::lend, start(), 2);
	complete_array: lent::<S, CL<S>, InVec, Vec<u16>>(COMPLETE, C::lend, roomy(), 4);
	complete_nested: lent::<S, CL<S>, Nested, (u8, Box<u64>)>(COMPLETE, C::lend, roomy(), 2);
	complete_vecs: lent::<S, CL<S>, Vecs, (u8, Box<u64>)>(COMPLETE, C::lend, roomy(), 8);
	complete_small_vec: lent::<Small, CL<Small>, Vec<u8>, u8>(COMPLETE, C::lend, any_storage(), 1);
	complete_small_string: lent::<Small, CL<Small>, (u8, String), u64>(COMPLETE, C::lend, any_storage(), 1);
	complete_small_v1: lent::<V1, CL<V1>, Box<Vec<u32>>, u16>(COMPLETE, C::lend, any_storage(), 1);
	complete_resumed: resumed::<S, CL<S>, InBox, (u8, Box<u64>)>(COMPLETE, C::lend, roomy(), 2);
	complete_resumed_nested: resumed::<S, CL<S>, Nested, (u8, Box<u64>)>(COMPLETE, C::lend, roomy(), 2);
	complete_owned: owned::<S, CS, InBox>(C::own, start(), 2);
	complete_owned_nested: owned::<S, CS, Nested>(C::own, roomy(), 2);
	complete_owned_small: owned::<Small, complete::Ser<Small>, Vec<u8>>(C::own, any_storage(), 1);

	offset_plain: lent::<S, OL<S>, Plain, Box<u64>>(OFFSET, O::lend, start(), 2);
	offset_box: lent::<S, OL<S>, InBox, u8>(OFFSET, O::lend, start(), 2);
	offset_nested: lent::<S, OL<S>, Nested, (u8, Box<u64>)>(OFFSET, O::lend, roomy(), 2);
	offset_small_vec: lent::<Small, OL<Small>, Vec<u8>, u8>(OFFSET, O::lend, any_storage(), 1);
	offset_resumed: resumed::<S, OL<S>, InBox, (u8, Box<u64>)>(OFFSET, O::lend, roomy(), 2);
	offset_owned: owned::<S, OS, InBox>(O::own, start(), 2);

	pure_plain: lent::<S, PL<S>, Plain, Box<u64>>(PURE, P::lend, start(), 1);
	pure_box: lent::<S, PL<S>, InBox, u8>(PURE, P::lend, start(), 1);
	pure_nested: lent::<S, PL<S>, Nested, (u8, Box<u64>)>(PURE, P::lend, roomy(), 1);
	pure_small_vec: lent::<Small, PL<Small>, Vec<u8>, u8>(PURE, P::lend, any_storage(), 1);
	pure_owned: owned::<S, PS, InBox>(P::own, start(), 1);
}
fn main() {}
