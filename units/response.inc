// ================= shims of this unit: readers, files, time, cookies =================
pub struct VxErr;
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
impl VxBytes for &str { open spec fn bv(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } fn vx_as_ref(&self) -> &[u8] { self.vx_as_bytes() } }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> &[u8] { self.as_slice() } }
impl VxBytes for &[u8] { open spec fn bv(&self) -> Seq<u8> { self@ } fn vx_as_ref(&self) -> &[u8] { *self } }
/// something that can be read to its end: the bytes it will yield
pub trait VxRead { spec fn rd(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct VxReader { v: Vec<u8> }
impl View for VxReader { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VxRead for VxReader { open spec fn rd(&self) -> Seq<u8> { self@ } }
impl VxReader {
    #[verifier::external_body] pub fn of(v: Vec<u8>) -> (r: VxReader) ensures r@ == v@ { unimplemented!() }
}
/// Box::new followed by the coercion to the trait object it is used as
pub trait VxBox: Sized { type Out; spec fn boxed(self, o: Self::Out) -> bool; fn vx_box_(self) -> (r: Self::Out) ensures self.boxed(r); }
impl VxBox for VxReader { type Out = VxReader; open spec fn boxed(self, o: VxReader) -> bool { self@ == o@ } fn vx_box_(self) -> VxReader { self } }
pub fn vx_box<T: VxBox>(t: T) -> (r: T::Out) ensures t.boxed(r) { t.vx_box_() }
pub fn vx_boxed(b: VxReader) -> (r: VxReader) ensures r@ == b@ { b }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VxText { spec fn tv(&self) -> Seq<char>; fn vx_lower(&self) -> (r: String) ensures r@ == lower(self.tv()); fn vx_upper(&self) -> (r: String) ensures r@ == upper(self.tv()); fn vx_owned(&self) -> (r: String) ensures r@ == self.tv(); }
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_lower(&self) -> String { self.to_lowercase() }
    #[verifier::external_body] fn vx_upper(&self) -> String { self.to_uppercase() }
    #[verifier::external_body] fn vx_owned(&self) -> String { self.to_owned() }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_lower(&self) -> String { self.to_lowercase() }
    #[verifier::external_body] fn vx_upper(&self) -> String { self.to_uppercase() }
    #[verifier::external_body] fn vx_owned(&self) -> String { self.to_owned() }
}
// ================= status codes =================
#include status.inc
impl StatusCode {
@@fn expanded:octane_http StatusCode::fetch
@props C18 C12
@ret r
@spec
    ensures r.0 == code_of(*self), r.1@ == phrase_of(*self),
@@end
@@fn octane_http/src/lib.rs StatusCode@Into::into
@props C18 C12
@ret r
@spec
    ensures r == code_of(self),
@@end
@@fn octane_http/src/lib.rs StatusCode@Display::fmt
@props C18 C12
@ret r
@params f
@spec
    ensures r is Ok, final(f).s@ == old(f).s@ + phrase_of(*self),
@@end
}
impl VxDisplay for StatusCode {
    open spec fn disp(&self) -> Seq<char> { phrase_of(*self) }
    fn vx_to_string(&self) -> String { let mut f = VxFmt { s: vx_s("") }; let _ = self.fmt(&mut f); proof { reveal_strlit(""); assert(f.s@ =~= phrase_of(*self)); } f.s }
}
/// distinct named statuses have distinct numbers
proof fn codes_distinct(a: StatusCode, b: StatusCode)
    requires named(a), named(b), code_of(a) == code_of(b),
    ensures a == b,
{}
pub open spec fn version_text(v: HttpVersion) -> Seq<char> {
    match v { HttpVersion::Http11 => "1.1"@, HttpVersion::Http10 => "1.0"@, HttpVersion::Http09 => "0.9"@, HttpVersion::Http02 => "2.0"@, HttpVersion::HttpInvalid => ""@ }
}
impl VxDisplay for HttpVersion {
open spec fn disp(&self) -> Seq<char> { version_text(*self) }
@@fn octane_http/src/lib.rs HttpVersion@ToString::to_string rename=vx_to_string vis=none
@props C12
@@end
}
// ================= the response =================
@@enum src/responder.rs ResBody
pub open spec fn bytes_of(b: ResBody) -> Seq<u8> { match b { ResBody::None => Seq::empty(), ResBody::Sized(_, r) => r@, ResBody::Unsized(r) => r@ } }
impl ResBody {
@@fn src/responder.rs ResBody::get_reader
@props C12 C13
@ret r
@spec
    ensures r@ == bytes_of(self),
@@end
@@fn src/responder.rs ResBody::is_some
@props C16
@ret r
@spec
    ensures r == !(self is None),
@@end
}
@@struct src/responder.rs Response
/// header lines of the first n entries
#[verifier::opaque]
pub open spec fn header_lines(s: Seq<(String, String)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { header_lines(s, n - 1) + (s[n - 1].0@ + seq![':', ' '] + s[n - 1].1@ + crlf()) }
}
#[verifier::opaque]
pub open spec fn cookie_lines(s: Seq<Cookie>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { cookie_lines(s, n - 1) + (set_cookie(s[n - 1]@) + crlf()) }
}
pub open spec fn status_text(r: Response) -> Seq<char> {
    seq!['H', 'T', 'T', 'P', '/'] + r.http_version@ + seq![' '] + dec_int(code_of(r.status_code)) + seq![' '] + upper(phrase_of(r.status_code)) + crlf()
}
/// t is a serialisation of the headers and cookies: every header once, in some order, then the cookies in theirs
pub open spec fn headers_text(r: Response, t: Seq<char>) -> bool {
    exists|s: Seq<(String, String)>| #[trigger] items_exact(r.headers@, s) && t == header_lines(s, s.len() as int) + cookie_lines(r.cookies@, r.cookies@.len() as int)
}
pub open spec fn head_text(r: Response, t: Seq<char>) -> bool { exists|h: Seq<char>| #[trigger] headers_text(r, h) && t == status_text(r) + h + crlf() }

/// the entries for one name
pub open spec fn same_at(a: Map<Seq<char>, String>, b: Map<Seq<char>, String>, k: Seq<char>) -> bool { a.dom().contains(k) == b.dom().contains(k) && (a.dom().contains(k) ==> a[k]@ == b[k]@) }
pub open spec fn has(m: Map<Seq<char>, String>, k: Seq<char>, v: Seq<char>) -> bool { m.dom().contains(k) && m[k]@ == v }
pub open spec fn only_changes(a: Map<Seq<char>, String>, b: Map<Seq<char>, String>, ks: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #![trigger a.dom().contains(k)] #![trigger b.dom().contains(k)] !ks.contains(k) ==> a.dom().contains(k) == b.dom().contains(k) && (a.dom().contains(k) ==> a[k]@ == b[k]@)
}
/// everything but the headers is the same
pub open spec fn same_rest(a: Response, b: Response) -> bool {
    a.body == b.body && a.status_code == b.status_code && a.content_len == b.content_len && a.http_version == b.http_version && a.charset == b.charset && a.cookies == b.cookies
}
pub open spec fn set_one(a: Response, b: Response, k: Seq<char>, v: Seq<char>) -> bool { same_rest(a, b) && b.headers@[k]@ == v && b.headers@ == a.headers@.insert(k, b.headers@[k]) }
pub open spec fn default_type(charset: Option<String>) -> Seq<char> {
    match charset { None => "text/html"@, Some(c) => "text/html"@ + (" ;charset="@ + quoted(c@)) }
}
pub open spec fn defaults(a: Response, b: Response) -> bool {
    &&& same_rest(a, b)
    &&& only_changes(a.headers@, b.headers@, set!["Content-Length"@, "Date"@, "Content-Type"@])
    &&& match a.content_len { Some(n) => has(b.headers@, "Content-Length"@, dec_int(n as int)), None => same_at(a.headers@, b.headers@, "Content-Length"@) }
    &&& if a.headers@.dom().contains("Content-Type"@) { same_at(a.headers@, b.headers@, "Content-Type"@) } else { has(b.headers@, "Content-Type"@, default_type(a.charset)) }
    &&& b.headers@.dom().contains("Date"@) && date_now(b.headers@["Date"@]@)
}
proof fn names()
    ensures
        "Content-Length"@ != "Date"@, "Content-Length"@ != "Content-Type"@, "Date"@ != "Content-Type"@,
        "Content-Length"@ != "Location"@, "Content-Length"@ != "Content-Disposition"@, "Location"@ != "Content-Type"@,
        "Content-Disposition"@ != "Content-Type"@,
{
    reveal_strlit("Content-Length"); reveal_strlit("Date"); reveal_strlit("Content-Type"); reveal_strlit("Location"); reveal_strlit("Content-Disposition");
    assert("Content-Length"@.len() == 14 && "Date"@.len() == 4 && "Content-Type"@.len() == 12 && "Location"@.len() == 8 && "Content-Disposition"@.len() == 19);
}
/// C13: the announced length is the number of body bytes
pub open spec fn framed(r: Response) -> bool {
    r.content_len matches Some(n) && n == bytes_of(r.body).len() && has(r.headers@, "Content-Length"@, dec_int(n as int))
}
/// ... and none of the operations that leave body and length alone disturbs it
proof fn framed_kept(a: Response, b: Response, k: Seq<char>, v: Seq<char>)
    requires framed(a), set_one(a, b, k, v), k != "Content-Length"@,
    ensures framed(b),
{}
proof fn framed_defaults(a: Response, b: Response)
    requires a.content_len matches Some(n) && n == bytes_of(a.body).len(), defaults(a, b),
    ensures framed(b),
{}
impl<'a> Response<'a> {
@@fn src/responder.rs Response::get
@ret r
@params field
@spec
    ensures
        *final(self) == *old(self),
        r is Some == old(self).headers@.dom().contains(field@),
        r matches Some(v) ==> *v == old(self).headers@[field@],
@@end
@@fn src/responder.rs Response::headers_sent
@ret r
@spec
    ensures r == !(self.headers@ =~= Map::<Seq<char>, String>::empty()),
@@end
@@fn src/responder.rs Response::set
@ret r
@params key value
@spec
    ensures set_one(*old(self), *r, key@, value@), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::default_headers
@props C11 C12 C13
@ret r
@spec
    ensures defaults(*old(self), *r), *final(self) == *final(r),
@start
    proof { names(); assert forall|t: Time, n: int| #[trigger] is_date(t, n) && n >= 0 implies in_range(t) by { date_in_range(t, n); } }
@@end
@@fn src/responder.rs Response::send
@ret r
@params body
@spec
    ensures
        final(self).content_len == Some(body.bv().len() as usize), bytes_of(final(self).body) == body.bv(), final(self).body is Sized,
        framed(*final(self)),
        defaults(Response { body: final(self).body, content_len: final(self).content_len, ..*old(self) }, *final(self)),
@@end
@@fn src/responder.rs Response::with_type
@ret r
@params t
@spec
    ensures set_one(*old(self), *r, "Content-Type"@, t@), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::status
@ret r
@params code
@spec
    ensures *r == (Response { status_code: code, ..*old(self) }), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::http_version
@ret r
@params version
@spec
    ensures r.http_version@ == version_text(version), *r == (Response { http_version: r.http_version, ..*old(self) }), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::attachment
@ret r
@spec
    ensures set_one(*old(self), *r, "Content-Disposition"@, "attachment"@), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::redirect
@ret r
@params location
@spec
    ensures set_one(Response { status_code: StatusCode::Found, ..*old(self) }, *r, "Location"@, location@), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::cookie
@props C12 C17
@ret r
@params cookie
@spec
    ensures r.cookies@ == old(self).cookies@.push(cookie), *r == (Response { cookies: r.cookies, ..*old(self) }), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::charset
@ret r
@params charset
@spec
    ensures r.charset matches Some(c) && c@ == charset@, *r == (Response { charset: r.charset, ..*old(self) }), *final(self) == *final(r),
@@end
@@fn src/responder.rs Response::has_body
@props C16
@ret r
@spec
    ensures r == !(self.body is None),
@@end
@@fn src/responder.rs Response::new
@ret r
@params body content_len
@spec
    ensures
        bytes_of(r.body) == body@, !(r.body is None), r.content_len == content_len, r.http_version@ == "1.1"@, r.headers@ == Map::<Seq<char>, String>::empty(),
        r.charset is None, r.cookies@.len() == 0, r.status_code == StatusCode::Ok,
@@end
@@fn src/responder.rs Response::new_from_slice
@ret r
@params body
@spec
    ensures
        bytes_of(r.body) == body.bv(), !(r.body is None), r.content_len == Some(body.bv().len() as usize), body.bv().len() <= usize::MAX, r.http_version@ == "1.1"@, r.headers@ == Map::<Seq<char>, String>::empty(),
        r.charset is None, r.cookies@.len() == 0, r.status_code == StatusCode::Ok,
@@end
@@fn src/responder.rs Response::new_empty
@props C12 C16
@ret r
@spec
    ensures
        r.body is None, r.content_len is None, r.http_version@ == "1.1"@, r.headers@ == Map::<Seq<char>, String>::empty(),
        r.charset is None, r.cookies@.len() == 0, r.status_code == StatusCode::Ok,
@@end
@@fn src/responder.rs Response::reason_phrase
@props C12 C18
@ret r
@spec
    ensures r@ == upper(phrase_of(self.status_code)),
@@end
@@fn src/responder.rs Response::status_code
@props C12 C18
@ret r
@spec
    ensures r == code_of(self.status_code),
@@end
@@fn src/responder.rs Response::status_line
@props C12 C18
@ret r
@spec
    ensures r@ =~= status_text(*self),
@start
    proof { reveal_strlit("\r\n"); reveal_strlit("HTTP"); reveal_strlit("/"); }
@@end
@@fn src/responder.rs Response::headers
@props C12 C13 C17
@ret r
@spec
    ensures headers_text(*self, r@),
@start
    broadcast use axiom_map_items_exact;
    proof { reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf()); reveal_strlit(":"); assert(":"@ =~= seq![':']); reveal_with_fuel(header_lines, 2); reveal_with_fuel(cookie_lines, 2); }
    let ghost s = map_items(self.headers);
@loopbefore 0
    let ghost z = vx_it0@;
@loop 0
    invariant
        z == ref_pairs(s), "\r\n"@ == crlf(), ":"@ == seq![':'],
        vx_it0@.len() <= z.len(),
        vx_it0@ == z.skip(z.len() - vx_it0@.len()),
        headers_str@ == header_lines(s, z.len() - vx_it0@.len()),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = z.len() - vx_it0@.len();
    proof {
        reveal_with_fuel(header_lines, 2);
        assert(vx_it0@ =~= z.skip(n));
    }
    let ghost h0 = headers_str@;
@loopend 0
    proof { assert(headers_str@ =~= header_lines(s, n)); }
@loopbefore 1
    let ghost z1 = vx_it1@;
    let ghost h1 = headers_str@;
    proof { assert(h1 + cookie_lines(self.cookies@, 0) =~= h1); }
@loop 1
    invariant
        z1 == refs(self.cookies@), "\r\n"@ == crlf(),
        vx_it1@.len() <= z1.len(),
        vx_it1@ == z1.skip(z1.len() - vx_it1@.len()),
        headers_str@ == h1 + cookie_lines(self.cookies@, z1.len() - vx_it1@.len()),
    ensures
        vx_it1@.len() == 0,
    decreases vx_it1@.len(),
@loopbody 1
    let ghost n = z1.len() - vx_it1@.len();
    proof {
        reveal_with_fuel(cookie_lines, 2);
        assert(vx_it1@ =~= z1.skip(n));
    }
@loopend 1
    proof { assert(headers_str@ =~= h1 + cookie_lines(self.cookies@, n)); }
@loopafter 1
    proof { assert(items_exact(self.headers@, s)); }
@@end
@@fn src/responder.rs Response::get_data
@props C12 C13
@ret r
@spec
    ensures head_text(self, r.0@), r.1@ == bytes_of(self.body),
@start
    proof { reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf()); }
@@end
}
