use probe::{content_lent, mk, probes, ser::*, st::*, val::*};
use ser_raw::PureCopySerializer;

mk!(PureCopySerializer);
content_lent!(PURE);
fn main() {}
