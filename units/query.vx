#title query strings: percent-decoding, plain and extended queries
#props C08 C09 C10
#opt eq_shim range_shim
#method iter=vx_iter
#method split=vx_split
#method splitn=vx_splitn
#method to_vec=vx_to_vec
#method as_bytes=vx_as_bytes
#method clone=vx_clone
#method chars=vx_chars
#method find=vx_find
#method split_at=vx_split_at
#method is_empty=vx_is_empty
#method next=vx_next
#call HashMap::new=VxMap::new
#call Default::default=vx_default
#call std::mem::take=vx_take
#call std::mem::replace=vx_replace
#call String::from_utf8=vx_string_from_utf8
#type HashMap<String,String>=VxMap<String, String>
use vstd::prelude::*;
verus! {
#include std.inc
pub fn vx_default<T>() -> (r: T) { vx_any() }
#[verifier::external_body] pub fn vx_any<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
#include query.inc
}
fn main() {}
