#title the router: registration and the order in which handlers run
#props C01 C03
#opt eq_shim range_shim range_for hoist_try
#method iter=vx_iter
#method into_iter=vx_into_
#method clone=vx_clone
#call ::core::clone::Clone::clone=vx_clone_of
#call ::core::intrinsics::discriminant_value=vx_discr
#method extend=vx_extend
#method next=vx_next
#method sort_by_key=vx_sort_by_key
#field index=vx_index
#field closure=vx_closure
#call HashMap::new=VxMap::new
#call Vec::len=vx_len
#type Paths=VxMap<RequestMethod, PathNode<Closures>>
#type Closure=VxClosure
#type RouterResult=Result<(), InvalidPathError>
#include types.inc
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
#include std.inc
#include fmt.inc
#include duration.inc
@@enum expanded:octane_http StatusCode #[derive(Clone,Copy)]
@@enum expanded:octane_http HttpVersion #[derive(Clone, Copy)]
@@const src/constants.rs SP
@@const src/constants.rs HT
@@const src/constants.rs CRLF
@@const src/constants.rs B_CRLF
#assume split.inc framing
#assume path.inc routes
#assume tree.inc routes
#assume treeiter.inc routes
#assume framing.inc framing
#assume cookie.inc request
#assume request.inc request
#assume time.inc time
#assume response.inc response
#include router.inc
#include history.inc
}
fn main() {}
