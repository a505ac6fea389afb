#title settings: defaults, setters, replacing and applying configurations
#props C19
#opt eq_shim range_shim
#call Duration::from_secs=VxDuration::from_secs
#call Duration::from_millis=VxDuration::from_millis
#call Duration::new=VxDuration::new
#call PathBuf::new=VxPathBuf::new
#call PathBuf::from=VxPathBuf::from
#type src/config.rs:PathBuf=VxPathBuf
#include types.inc
use vstd::prelude::*;
verus! {
#include std.inc
#include duration.inc
#include config.inc
}
fn main() {}
