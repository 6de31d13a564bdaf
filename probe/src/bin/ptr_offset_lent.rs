use probe::{content_lent, mk, probes, ser::*, st::*, val::*};
use ser_raw::PtrOffsetSerializer;

mk!(PtrOffsetSerializer);
content_lent!(OFFSET);
fn main() {}
