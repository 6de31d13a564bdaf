use probe::{content_any, mk, probes, ser::*, st::*, val::*};
use ser_raw::CompleteSerializer;

mk!(CompleteSerializer);
content_any!(COMPLETE);
fn main() {}
