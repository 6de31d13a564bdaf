use probe::{content_any, mk, probes, ser::*, st::*, val::*};
use ser_raw::PtrOffsetSerializer;

mk!(PtrOffsetSerializer);
content_any!(OFFSET);
fn main() {}
