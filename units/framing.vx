#title request framing: searching, splitting, the head of a request
#props C07
#opt eq_shim range_shim strip_async range_for
#method extend_from_slice=vx_append
#method find=vx_find
#method split_at=vx_split_at
#method read=vx_read
#method next=vx_next
#method to_string=vx_own
#method to_owned=vx_own
#call Default::default=vx_default
#call std::str::from_utf8=vx_str_from_utf8
#type ReadHalf<T>=VxStream<T>
#bound Eq=VxSame
#bound AsyncRead=VxAny
#bound Unpin=VxAny
use vstd::prelude::*;
verus! {
#include std.inc
@@enum expanded:octane_http StatusCode
#include split.inc
#include framing.inc
fn main() {}
}
