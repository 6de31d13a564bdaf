use probe::{probes, spec, st::*};

probes! {
	history_small_u64: spec::history::<Small, u64>(2);
	history_v1_u32: spec::history::<V1, u32>(2);
	history_tiny_u64: spec::history::<Tiny, u64>(2);
	history_byte_u8: spec::history::<Byte, u8>(2);
}
fn main() {}
