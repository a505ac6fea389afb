#title requests: request line, headers, body, cookies, validation
#props C05 C06
#opt eq_shim range_shim strip_async range_for
#method extend_from_slice=vx_append
#method find=vx_find
#method split=vx_split
#method splitn=vx_splitn
#method split_at=vx_split_at
#method next=vx_next
#method is_empty=vx_is_empty
#method chars=vx_chars
#method as_bytes=vx_as_bytes
#method is_char_boundary=vx_is_char_boundary
#method trim_start_matches=vx_trim_start_matches
#method to_ascii_lowercase=vx_to_ascii_lowercase
#method to_string=vx_to_string
#method to_owned=vx_own
#method parse=vx_parse
#method trim=vx_trim
#method take=vx_take
#method read_to_end=vx_read_to_end
#call Duration::from_secs=VxDuration::from_secs
#type Duration=VxDuration
#method clone=vx_clone
#call ::core::clone::Clone::clone=vx_clone_of
#call ::core::intrinsics::discriminant_value=vx_discr
#call Default::default=vx_default
#call HashMap::new=VxMap::new
#call std::str::from_utf8=vx_str_from_utf8
#call str::from_utf8=vx_str_from_utf8
#call CookieRs::parse=VxCookieRs::parse
#call CookieRs::new=VxCookieRs::new
#type HashMap<String,String>=VxMap<String, String>
#type HashMap<&'astr,&'bstr>=VxMap<&'a str, &'b str>
#type CookieRs<'a>=VxCookieRs<'a>
#type CookieRs<'b>=VxCookieRs<'b>
#type ReadHalf<T>=VxStream<T>
#bound Eq=VxSame
#bound AsyncRead=VxAny
#bound Unpin=VxAny
use vstd::prelude::*;
verus! {
#include std.inc
#include fmt.inc
#include duration.inc
@@enum expanded:octane_http StatusCode #[derive(Clone,Copy)]
@@enum expanded:octane_http HttpVersion #[derive(Clone, Copy)]
@@const src/constants.rs SP
@@const src/constants.rs HT
@@const src/constants.rs B_CRLF
#assume split.inc framing
#assume path.inc routes
#assume framing.inc framing
#include cookie.inc
#assume query.inc query
#include request.inc
#include reqquery.inc
fn main() {}
}
