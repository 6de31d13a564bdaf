use probe::{content_limited, mk, probes, ser::*, st::*, val::*};
use ser_raw::PureCopySerializer;

mk!(PureCopySerializer);
content_limited!(PURE);
fn main() {}
