use probe::{content_limited, mk, probes, ser::*, st::*, val::*};
use ser_raw::CompleteSerializer;

mk!(CompleteSerializer);
content_limited!(COMPLETE);
fn main() {}
