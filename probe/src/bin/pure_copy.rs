use probe::{content_any, mk, probes, ser::*, st::*, val::*};
use ser_raw::PureCopySerializer;

mk!(PureCopySerializer);
content_any!(PURE);
fn main() {}
