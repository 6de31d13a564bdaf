use num_bigint::{BigInt, BigUint};
use probe::{probes, ser::*, st::*, val::*};
use ser_raw::{CompleteSerializer, PtrOffsetSerializer, PureCopySerializer};

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
type S = A16;

probes! {
	complete_biguint: owned::<S, complete::Ser<S>, BigUint>(COMPLETE, C::own);
	complete_bigint: owned::<S, complete::Ser<S>, BigInt>(COMPLETE, C::own);
	complete_bigint_v16: owned::<W16, complete::Ser<W16>, BigInt>(COMPLETE, C::own);
	complete_bigints: owned_roomy::<S, complete::Ser<S>, (u8, BigInt, BigUint)>(COMPLETE, C::own);
	complete_box_bigint: owned_roomy::<S, complete::Ser<S>, Box<BigInt>>(COMPLETE, C::own);
	complete_vec_bigint: owned_roomy::<S, complete::Ser<S>, Vec<BigInt>>(COMPLETE, C::own);
	complete_vec_biguint: owned_roomy::<S, complete::Ser<S>, Vec<BigUint>>(COMPLETE, C::own);
	complete_opt_bigint: owned_roomy::<S, complete::Ser<S>, Option<BigInt>>(COMPLETE, C::own);
	complete_lent: lent_roomy::<S, complete::Lent<S>, BigUint, BigInt>(COMPLETE, C::lend);
	offset_biguint: owned::<S, offset::Ser<S>, BigUint>(OFFSET, O::own);
	offset_bigint: owned::<S, offset::Ser<S>, BigInt>(OFFSET, O::own);
	offset_bigints: owned_roomy::<S, offset::Ser<S>, (u8, BigInt, BigUint)>(OFFSET, O::own);
	offset_vec_bigint: owned_roomy::<S, offset::Ser<S>, Vec<BigInt>>(OFFSET, O::own);
	pure_biguint: owned::<S, pure::Ser<S>, BigUint>(PURE, P::own);
	pure_bigint: owned::<S, pure::Ser<S>, BigInt>(PURE, P::own);
	pure_bigints: owned_roomy::<S, pure::Ser<S>, (u8, BigInt, BigUint)>(PURE, P::own);
	pure_vec_bigint: owned_roomy::<S, pure::Ser<S>, Vec<BigInt>>(PURE, P::own);
}
fn main() {}
