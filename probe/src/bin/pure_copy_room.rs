use probe::{content_roomy, mk, probes, ser::*, st::*, types::*, val::*};
use ser_raw::PureCopySerializer;

mk!(PureCopySerializer);
content_roomy!(PURE);
fn main() {}
