// ================= files and media types (src/util.rs AsyncReader, src/file_handler.rs) =================
/// std::io::Read
pub trait VxSrc {
    /// the bytes not read yet
    spec fn rest(&self) -> Seq<u8>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxErr>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).rest().len() && final(buf)@.take(n as int) == old(self).rest().take(n as int)
                    && final(self).rest() == old(self).rest().skip(n as int) && (n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0),
                Err(_) => final(self).rest() == old(self).rest(),
            };
}
impl VxSrc for VxFile {
    uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxErr>) { unimplemented!() }
}
pub struct VxCtx;
/// tokio's ReadBuf: the filled part and the unfilled rest of a buffer
#[verifier::external_body]
pub struct VxBuf { v: Vec<u8> }
impl VxBuf {
    pub uninterp spec fn filled(&self) -> Seq<u8>;
    pub uninterp spec fn tail(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn initialize_unfilled(&mut self) -> (r: &mut [u8])
        ensures r@.len() == old(self).tail().len(), final(self).filled() == old(self).filled(), final(self).tail() == final(r)@
    { unimplemented!() }
    #[verifier::external_body] pub fn advance(&mut self, n: usize)
        requires n <= old(self).tail().len()
        ensures final(self).filled() == old(self).filled() + old(self).tail().take(n as int), final(self).tail() == old(self).tail().skip(n as int)
    { unimplemented!() }
}
pub fn vx_ready<T>(t: T) -> (r: T) ensures r == t { t }
/// one read: some of the remaining bytes, in order, are appended to the buffer and gone from the source;
/// none only at the end of the source or when the buffer is full
pub open spec fn one_read(a: Seq<u8>, b: Seq<u8>, fa: VxBuf, fb: VxBuf) -> bool {
    let n = a.len() - b.len();
    &&& 0 <= n <= a.len() && n <= fa.tail().len()
    &&& b == a.skip(n) && fb.filled() == fa.filled() + a.take(n) && fb.tail().len() == fa.tail().len() - n
    &&& n == 0 ==> fa.tail().len() == 0 || a.len() == 0
}
/// the file system: what a path names at the moment it is opened
#[verifier::external_body]
pub struct VxPath { s: String }
impl View for VxPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn fs_opens(p: Seq<char>) -> bool;
pub uninterp spec fn fs_regular(p: Seq<char>) -> bool;
pub uninterp spec fn fs_content(p: Seq<char>) -> Seq<u8>;
/// std::path's extension and file name of a path
pub uninterp spec fn path_ext(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_name(p: Seq<char>) -> Option<Seq<char>>;
pub open spec fn ext_of(p: Seq<char>) -> Seq<char> { match path_ext(p) { Some(e) => e, None => Seq::empty() } }
#[verifier::external_body]
pub struct VxOs { s: String }
impl View for VxOs { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub open spec fn os_is(r: Option<&VxOs>, s: Option<Seq<char>>) -> bool { match r { Some(o) => s == Some(o@), None => s is None } }
impl VxOs { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r matches Some(s) && s@ == self@ { unimplemented!() } }
impl VxPath {
    #[verifier::external_body] pub fn from(s: &str) -> (r: VxPath) ensures r@ == s@ { unimplemented!() }
    pub fn as_path(&self) -> (r: &VxPath) ensures r@ == self@ { self }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&VxOs>) ensures os_is(r, path_ext(self@)) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&VxOs>) ensures os_is(r, path_name(self@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxFile { s: u8 }
impl VxFile {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn open(p: &VxPath) -> (r: Result<VxFile, VxErr>) ensures r is Ok == fs_opens(p@), r matches Ok(f) ==> f.path() == p@ && f.rest() == fs_content(p@) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<VxMeta, VxErr>) ensures r matches Ok(m) && m.path() == self.path() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxMeta { s: u8 }
impl VxMeta {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == fs_regular(self.path()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures fs_regular(self.path()) ==> r == fs_content(self.path()).len() && r <= usize::MAX { unimplemented!() }
}
/// a regular file that could be opened has a name
pub broadcast axiom fn axiom_file_name(p: Seq<char>) requires fs_opens(p), #[trigger] fs_regular(p) ensures path_name(p) is Some;
// ================= files =================
#include media.inc
@@struct src/util.rs AsyncReader
impl VxRead for AsyncReader<VxFile> { open spec fn rd(&self) -> Seq<u8> { self.reader.rest() } }
impl VxBox for AsyncReader<VxFile> { type Out = VxReader; open spec fn boxed(self, o: VxReader) -> bool { o@ == self.rd() } #[verifier::external_body] fn vx_box_(self) -> VxReader { unimplemented!() } }
impl<T: VxSrc> AsyncReader<T> {
@@fn src/util.rs AsyncReader::new
@props C14 C13
@ret r
@params reader
@spec
    ensures r.reader == reader,
@@end
@@fn src/util.rs AsyncReader::poll_read
@props C14
@ret r
@params cx buf
@spec
    ensures
        r is Ok ==> one_read(old(self).reader.rest(), final(self).reader.rest(), *old(buf), *final(buf)),
        r is Err ==> final(self).reader.rest() == old(self).reader.rest() && final(buf).filled() == old(buf).filled(),
@@end
}
@@struct src/file_handler.rs FileHandler
@@struct src/file_handler.rs FileHandlerError
impl VxBox for FileHandlerError { type Out = VxErr; open spec fn boxed(self, o: VxErr) -> bool { true } fn vx_box_(self) -> VxErr { VxErr } }
impl FileHandlerError {
@@fn src/file_handler.rs FileHandlerError::new
@props C14
@ret r
@params err_type
@@end
}
impl FileHandler {
@@fn src/file_handler.rs FileHandler::handle_file
@props C14 C13
@ret r
@params path
@spec
    ensures
        r is Ok == (fs_opens(path@) && fs_regular(path@)),
        r matches Ok(f) ==> f.file.rd() == fs_content(path@) && f.extension@ == ext_of(path@) && f.meta.path() == path@,
@start
    broadcast use axiom_file_name;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@end
@@fn src/file_handler.rs FileHandler::mime_type
@props C14
@ret r
@params extension
@spec
    ensures r@ == media(lower(extension@)),
@start
    proof { // the extensions are pairwise different: the order of the arms does not matter
        reveal_strlit("css"); assert("css"@ =~= seq!['c', 's', 's']);
        reveal_strlit("csv"); assert("csv"@ =~= seq!['c', 's', 'v']);
        reveal_strlit("html"); assert("html"@ =~= seq!['h', 't', 'm', 'l']);
        reveal_strlit("htm"); assert("htm"@ =~= seq!['h', 't', 'm']);
        reveal_strlit("ics"); assert("ics"@ =~= seq!['i', 'c', 's']);
        reveal_strlit("js"); assert("js"@ =~= seq!['j', 's']);
        reveal_strlit("mjs"); assert("mjs"@ =~= seq!['m', 'j', 's']);
        reveal_strlit("txt"); assert("txt"@ =~= seq!['t', 'x', 't']);
        reveal_strlit("abw"); assert("abw"@ =~= seq!['a', 'b', 'w']);
        reveal_strlit("arc"); assert("arc"@ =~= seq!['a', 'r', 'c']);
        reveal_strlit("azw"); assert("azw"@ =~= seq!['a', 'z', 'w']);
        reveal_strlit("bin"); assert("bin"@ =~= seq!['b', 'i', 'n']);
        reveal_strlit("bz"); assert("bz"@ =~= seq!['b', 'z']);
        reveal_strlit("bz2"); assert("bz2"@ =~= seq!['b', 'z', '2']);
        reveal_strlit("csh"); assert("csh"@ =~= seq!['c', 's', 'h']);
        reveal_strlit("doc"); assert("doc"@ =~= seq!['d', 'o', 'c']);
        reveal_strlit("docx"); assert("docx"@ =~= seq!['d', 'o', 'c', 'x']);
        reveal_strlit("eot"); assert("eot"@ =~= seq!['e', 'o', 't']);
        reveal_strlit("epub"); assert("epub"@ =~= seq!['e', 'p', 'u', 'b']);
        reveal_strlit("gz"); assert("gz"@ =~= seq!['g', 'z']);
        reveal_strlit("java"); assert("java"@ =~= seq!['j', 'a', 'v', 'a']);
        reveal_strlit("json"); assert("json"@ =~= seq!['j', 's', 'o', 'n']);
        reveal_strlit("jsonld"); assert("jsonld"@ =~= seq!['j', 's', 'o', 'n', 'l', 'd']);
        reveal_strlit("mpkg"); assert("mpkg"@ =~= seq!['m', 'p', 'k', 'g']);
        reveal_strlit("odp"); assert("odp"@ =~= seq!['o', 'd', 'p']);
        reveal_strlit("ods"); assert("ods"@ =~= seq!['o', 'd', 's']);
        reveal_strlit("odt"); assert("odt"@ =~= seq!['o', 'd', 't']);
        reveal_strlit("ogx"); assert("ogx"@ =~= seq!['o', 'g', 'x']);
        reveal_strlit("pdf"); assert("pdf"@ =~= seq!['p', 'd', 'f']);
        reveal_strlit("php"); assert("php"@ =~= seq!['p', 'h', 'p']);
        reveal_strlit("ppt"); assert("ppt"@ =~= seq!['p', 'p', 't']);
        reveal_strlit("pptx"); assert("pptx"@ =~= seq!['p', 'p', 't', 'x']);
        reveal_strlit("rar"); assert("rar"@ =~= seq!['r', 'a', 'r']);
        reveal_strlit("rtf"); assert("rtf"@ =~= seq!['r', 't', 'f']);
        reveal_strlit("sh"); assert("sh"@ =~= seq!['s', 'h']);
        reveal_strlit("swf"); assert("swf"@ =~= seq!['s', 'w', 'f']);
        reveal_strlit("tar"); assert("tar"@ =~= seq!['t', 'a', 'r']);
        reveal_strlit("vsd"); assert("vsd"@ =~= seq!['v', 's', 'd']);
        reveal_strlit("xhtml"); assert("xhtml"@ =~= seq!['x', 'h', 't', 'm', 'l']);
        reveal_strlit("xls"); assert("xls"@ =~= seq!['x', 'l', 's']);
        reveal_strlit("xlsx"); assert("xlsx"@ =~= seq!['x', 'l', 's', 'x']);
        reveal_strlit("xml"); assert("xml"@ =~= seq!['x', 'm', 'l']);
        reveal_strlit("xul"); assert("xul"@ =~= seq!['x', 'u', 'l']);
        reveal_strlit("zip"); assert("zip"@ =~= seq!['z', 'i', 'p']);
        reveal_strlit("7z"); assert("7z"@ =~= seq!['7', 'z']);
        reveal_strlit("bmp"); assert("bmp"@ =~= seq!['b', 'm', 'p']);
        reveal_strlit("gif"); assert("gif"@ =~= seq!['g', 'i', 'f']);
        reveal_strlit("ico"); assert("ico"@ =~= seq!['i', 'c', 'o']);
        reveal_strlit("jpeg"); assert("jpeg"@ =~= seq!['j', 'p', 'e', 'g']);
        reveal_strlit("jpg"); assert("jpg"@ =~= seq!['j', 'p', 'g']);
        reveal_strlit("png"); assert("png"@ =~= seq!['p', 'n', 'g']);
        reveal_strlit("svg"); assert("svg"@ =~= seq!['s', 'v', 'g']);
        reveal_strlit("tif"); assert("tif"@ =~= seq!['t', 'i', 'f']);
        reveal_strlit("tiff"); assert("tiff"@ =~= seq!['t', 'i', 'f', 'f']);
        reveal_strlit("webp"); assert("webp"@ =~= seq!['w', 'e', 'b', 'p']);
        reveal_strlit("aac"); assert("aac"@ =~= seq!['a', 'a', 'c']);
        reveal_strlit("mid"); assert("mid"@ =~= seq!['m', 'i', 'd']);
        reveal_strlit("midi"); assert("midi"@ =~= seq!['m', 'i', 'd', 'i']);
        reveal_strlit("mp3"); assert("mp3"@ =~= seq!['m', 'p', '3']);
        reveal_strlit("oga"); assert("oga"@ =~= seq!['o', 'g', 'a']);
        reveal_strlit("opus"); assert("opus"@ =~= seq!['o', 'p', 'u', 's']);
        reveal_strlit("wav"); assert("wav"@ =~= seq!['w', 'a', 'v']);
        reveal_strlit("weba"); assert("weba"@ =~= seq!['w', 'e', 'b', 'a']);
        reveal_strlit("avi"); assert("avi"@ =~= seq!['a', 'v', 'i']);
        reveal_strlit("mpeg"); assert("mpeg"@ =~= seq!['m', 'p', 'e', 'g']);
        reveal_strlit("ogv"); assert("ogv"@ =~= seq!['o', 'g', 'v']);
        reveal_strlit("ts"); assert("ts"@ =~= seq!['t', 's']);
        reveal_strlit("webm"); assert("webm"@ =~= seq!['w', 'e', 'b', 'm']);
        reveal_strlit("otf"); assert("otf"@ =~= seq!['o', 't', 'f']);
        reveal_strlit("ttf"); assert("ttf"@ =~= seq!['t', 't', 'f']);
        reveal_strlit("woff"); assert("woff"@ =~= seq!['w', 'o', 'f', 'f']);
        reveal_strlit("woff2"); assert("woff2"@ =~= seq!['w', 'o', 'f', 'f', '2']);
    }
@@end
@@fn src/file_handler.rs FileHandler::get_extension
@props C14
@ret r
@params path
@spec
    ensures r@ == media(lower(ext_of(path@))),
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@end
}
impl<'a> Response<'a> {
@@fn src/responder.rs Response::attachment_with_filename
@props C12 C14
@ret r
@params file_name
@spec
    ensures
        same_rest(*old(self), *r), *final(self) == *final(r),
        has(r.headers@, "Content-Type"@, media(lower(ext_of(file_name@)))),
        has(r.headers@, "Content-Disposition"@, "attachment; filename = "@ + quoted(file_name@)),
        only_changes(old(self).headers@, r.headers@, set!["Content-Type"@, "Content-Disposition"@]),
@start
    proof { names(); }
@@end
@@fn src/responder.rs Response::send_file
@props C14 C13 C12
@ret r
@params file
@spec
    ensures
        r is Ok == (fs_opens(file@) && fs_regular(file@)),
        r is Ok ==> bytes_of(final(self).body) == fs_content(file@) && final(self).body is Sized && framed(*final(self))
            && has(final(self).headers@, "Content-Type"@, media(lower(ext_of(file@))))
            && final(self).status_code == old(self).status_code && final(self).http_version == old(self).http_version && final(self).cookies == old(self).cookies
            && only_changes(old(self).headers@, final(self).headers@, set!["Content-Length"@, "Date"@, "Content-Type"@]),
        r is Err ==> *final(self) == *old(self),
@start
    proof { names(); }
@@end
}
