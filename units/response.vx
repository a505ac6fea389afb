#title responses: status table, headers, bodies and their serialisation, files and media types
#props C12 C13
#opt eq_shim range_shim drop_lifetimes_no
#method iter=vx_iter
#method to_string=vx_to_string
#method to_owned=vx_owned
#method to_vec=vx_to_vec
#method as_ref=vx_as_ref
#method as_bytes=vx_as_bytes
#method to_lowercase=vx_lower
#method to_uppercase=vx_upper
#method is_empty=vx_is_empty
#method as_str=vx_full
#call HashMap::new=VxMap::new
#call Box::new=vx_box
#call Cursor::new=VxReader::of
#call File::open=VxFile::open
#call PathBuf::from=VxPath::from
#call OsStr::to_str=VxOs::to_str
#call String::from=vx_s
#cast VxReader=vx_boxed
#type BoxReader=VxReader
#type HashMap<String,String>=VxMap<String, String>
#type CookieRs<'a>=VxCookieRs<'a>
#type CookieRs<'b>=VxCookieRs<'b>
#type PathBuf=VxPath
#type Metadata=VxMeta
#type Poll<Result<()>>=Result<(), VxErr>
#type Context=VxCtx
#type ReadBuf=VxBuf
#call Poll::Ready=vx_ready
#type AsyncReader<File>=AsyncReader<VxFile>
#type Box<dynError>=VxErr
#type fmt::Formatter<'_>=VxFmt
#type Formatter<'_>=VxFmt
#type fmt::Result=Result<(), VxFmtError>
#type std::string::String=String
#call ::core::clone::Clone::clone=vx_clone_of
#call ::core::intrinsics::discriminant_value=vx_discr
#bound Read=VxSrc
#bound AsRef<[u8]>=VxBytes
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
#include std.inc
#include fmt.inc
@@enum expanded:octane_http StatusCode #[derive(Clone,Copy)]
@@enum expanded:octane_http HttpVersion #[derive(Clone, Copy)]
@@const src/constants.rs SP
@@const src/constants.rs CRLF
#assume cookie.inc request
#assume time.inc time
#include response.inc
#include files.inc
}
fn main() {}
