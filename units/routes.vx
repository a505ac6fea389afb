#title paths and the route tree: normalisation, matching, insertion and lookup
#props C01 C02 C03
#opt eq_shim range_shim
#method iter=vx_iter
#method as_ref=vx_self_ref
#method split=vx_split
#method to_vec=vx_to_vec
#method as_bytes=vx_as_bytes
#method into_iter=vx_into_
#method clone=vx_clone
#call ::core::clone::Clone::clone=vx_clone_of
#call ::core::intrinsics::discriminant_value=vx_discr
#method next=vx_next
#method extend=vx_extend
#method unwrap_or_default=vx_unwrap_or_default
#call HashMap::new=VxMap::new
#type HashMap<PathChunk,PathNode<T>>=VxMap<PathChunk, PathNode<T>>
#type HashMap<&'astr,&'bstr>=VxMap<&'a str, &'b str>
#type HashMap<&'astr,&'astr>=VxMap<&'a str, &'a str>
use vstd::prelude::*;
verus! {
#include std.inc
#include path.inc
#include tree.inc
#include treeiter.inc
} // verus!
fn main() {}
