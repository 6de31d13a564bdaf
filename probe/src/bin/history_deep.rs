use probe::{probes, spec, st::*};

probes! {
	history_a16_u16: spec::history::<A16, u16>(2);
	history_v4_u128: spec::history::<V4, u128>(2);
	history3_tiny_u64_0: spec::history_from::<Tiny, u64>(0, 2);
	history3_tiny_u64_1: spec::history_from::<Tiny, u64>(1, 2);
	history3_tiny_u64_2: spec::history_from::<Tiny, u64>(2, 2);
	history3_tiny_u64_3: spec::history_from::<Tiny, u64>(3, 2);
	history3_tiny_u64_4: spec::history_from::<Tiny, u64>(4, 2);
	history3_tiny_u64_5: spec::history_from::<Tiny, u64>(5, 2);
	history3_v1_u32_0: spec::history_from::<V1, u32>(0, 2);
	history3_v1_u32_1: spec::history_from::<V1, u32>(1, 2);
	history3_v1_u32_4: spec::history_from::<V1, u32>(4, 2);
	history3_v1_u32_5: spec::history_from::<V1, u32>(5, 2);
}
fn main() {}
