#title calendar date and IMF-fixdate text from seconds since 1970
#props C11
#rlimit 60
#opt eq_shim range_shim
#method iter=vx_iter
#method len=vx_blen
#method try_into=vx_try_into
#method to_string=vx_to_string
#method to_owned=vx_own
#call SystemTime::now=VxSystemTime::now
#call DAYS_IN_MONTH=DAYS_IN_MONTH
#include types.inc
use vstd::prelude::*;
verus! {
#include std.inc
#include fmt.inc
@@const src/constants.rs SP
#include time.inc
} // verus!
fn main() {}
