use probe::{content_roomy, mk, probes, ser::*, st::*, types::*, val::*};
use ser_raw::CompleteSerializer;

mk!(CompleteSerializer);
content_roomy!(COMPLETE);
fn main() {}
