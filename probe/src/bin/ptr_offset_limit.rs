use probe::{content_limited, mk, probes, ser::*, st::*, val::*};
use ser_raw::PtrOffsetSerializer;

mk!(PtrOffsetSerializer);
content_limited!(OFFSET);
fn main() {}
