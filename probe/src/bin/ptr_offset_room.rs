use probe::{content_roomy, mk, probes, ser::*, st::*, types::*, val::*};
use ser_raw::PtrOffsetSerializer;

mk!(PtrOffsetSerializer);
content_roomy!(OFFSET);
fn main() {}
