#title one connection: reading the request, running the handlers, writing the answer
#props C15 C16
#opt eq_shim range_shim strip_async range_for hoist_try
#method clone=vx_clone
#call ::core::clone::Clone::clone=vx_clone_of
#call ::core::intrinsics::discriminant_value=vx_discr
#method as_bytes=vx_as_bytes
#call Default::default=vx_default
#call split=vx_split_conn
#call copy=vx_copy
#call HashMap::new=VxMap::new
#type Paths=VxMap<RequestMethod, PathNode<Closures>>
#type Closure=VxClosure
#type RouterResult=Result<(), InvalidPathError>
#type Box<dynStdError>=VxErr
#type Box<dynerror::Error>=VxErr
#type src/config.rs:PathBuf=VxPathBuf
#include types.inc
use vstd::prelude::*;
use std::marker::PhantomData;
use std::sync::Arc;
verus! {
#include std.inc
#include fmt.inc
#include duration.inc
@@enum expanded:octane_http StatusCode #[derive(Clone,Copy)]
@@enum expanded:octane_http HttpVersion #[derive(Clone, Copy)]
@@const src/constants.rs SP
@@const src/constants.rs HT
@@const src/constants.rs CRLF
@@const src/constants.rs B_CRLF
@@const src/constants.rs NOT_FOUND
#assume split.inc framing
#assume path.inc routes
#assume tree.inc routes
#assume treeiter.inc routes
#assume framing.inc framing
#assume cookie.inc request
#assume request.inc request
#assume time.inc time
#assume response.inc response
#assume router.inc router
#assume history.inc router
#assume config.inc config
#include server.inc
}
fn main() {}
