use probe::{content_lent, mk, probes, ser::*, st::*, val::*};
use ser_raw::CompleteSerializer;

mk!(CompleteSerializer);
content_lent!(COMPLETE);
fn main() {}
