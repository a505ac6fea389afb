// ================= the head of a request (octane_http::http1x) =================
/// A byte stream: what it still delivers, and whether it never fails.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxStream<T> { t: T }
impl<T> VxStream<T> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn healthy(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_read<B: VxByteBuf + ?Sized>(&mut self, buf: &mut B) -> (r: Result<usize, VxIoError>)
        ensures
            final(buf).bv().len() == old(buf).bv().len(),
            final(self).healthy() == old(self).healthy(),
            old(self).healthy() ==> r is Ok,
            r matches Ok(n) ==> {
                &&& n <= old(buf).bv().len() && n <= old(self).rest().len()
                &&& (n == 0 ==> old(self).rest().len() == 0 || old(buf).bv().len() == 0)
                &&& final(buf).bv().take(n as int) == old(self).rest().take(n as int)
                &&& final(self).rest() == old(self).rest().skip(n as int)
            },
    { unimplemented!() }
}
pub struct VxIoError;
pub trait VxByteBuf { spec fn bv(&self) -> Seq<u8>; }
impl<const N: usize> VxByteBuf for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxByteBuf for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxByteBuf for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
pub trait VxDef: Sized { spec fn isdef(self) -> bool; fn vx_def() -> (r: Self) ensures r.isdef(); }
impl VxDef for String { open spec fn isdef(self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_def() -> String { String::new() } }
impl<'a> VxDef for &'a str { open spec fn isdef(self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_def() -> &'a str { "" } }
impl<'a> VxDef for &'a [u8] { open spec fn isdef(self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_def() -> &'a [u8] { &[] } }
impl<T> VxDef for Vec<T> { open spec fn isdef(self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_def() -> Vec<T> { Vec::new() } }
pub fn vx_default<T: VxDef>() -> (r: T) ensures r.isdef() { T::vx_def() }
pub open spec fn crlf2() -> Seq<u8> { seq![13u8, 10u8, 13u8, 10u8] }
/// the head of a stream: the characters before the first empty line; None: there is no (readable) head
pub open spec fn head_of(s: Seq<u8>) -> Option<Seq<char>> {
    match find_seq(s, crlf2()) { Some(i) => if vstd::utf8::valid_utf8(s.take(i)) { Some(vstd::utf8::decode_utf8(s.take(i))) } else { None }, None => None }
}
/// the request line of a head, and the header lines after it
pub open spec fn line_of(h: Seq<char>) -> Seq<char> { match find_seq(h, crlf()) { Some(i) => h.take(i), None => h } }
pub open spec fn lines_of(h: Seq<char>) -> Seq<char> { match find_seq(h, crlf()) { Some(i) => h.skip(i + 2), None => seq![] } }
/// an occurrence within a prefix is one in the whole, and the other way round
pub proof fn occ_prefix<T>(d: Seq<T>, r: Seq<T>, n: Seq<T>)
    ensures forall|j: int| #![trigger occurs(d, n, j)] #![trigger occurs(d + r, n, j)] j + n.len() <= d.len() ==> (occurs(d, n, j) <==> occurs(d + r, n, j)),
{
    assert forall|j: int| #![trigger occurs(d, n, j)] #![trigger occurs(d + r, n, j)] j + n.len() <= d.len() implies ( occurs(d, n, j) <==> occurs(d + r, n, j)) by {
        if 0 <= j { assert(d.subrange(j, j + n.len()) =~= (d + r).subrange(j, j + n.len())); }
    }
}
/// once the terminator is among the bytes received, more bytes do not move it
pub proof fn found_stays(d: Seq<u8>, r: Seq<u8>)
    ensures find_seq(d, crlf2()) matches Some(i) ==> find_seq(d + r, crlf2()) == Some(i) && 0 <= i && i + 4 <= d.len() && (d + r).take(i) == d.take(i),
{
    find_seq_is(d, crlf2()); find_seq_is(d + r, crlf2()); occ_prefix(d, r, crlf2());
    if let Some(i) = find_seq(d, crlf2()) {
        assert(first_occ(d + r, crlf2(), i));
        assert((d + r).take(i) =~= d.take(i));
    }
}
@@struct octane_http/src/http1x/raw_request.rs RawRequest1x #[verifier::reject_recursive_types(T)]
@@struct octane_http/src/http1x/mod.rs Http1xReader #[verifier::reject_recursive_types(T)]
impl<'a, T> RawRequest1x<'a, T> {
@@fn octane_http/src/http1x/raw_request.rs RawRequest1x::new
@props C07
@ret r
@params reader
@spec
    ensures r.reader == reader,
@@end
}
@@fn octane_http/src/http1x/mod.rs parse_without_body
@props C05 C06 C07 C15
@ret r
@params data
@spec
    ensures r matches Some(p) && p.0@ == line_of(data@) && p.1@ == lines_of(data@),
@start
    proof {
        reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf());
        reveal_strlit("");
        find_seq_is(data@, crlf());
        if let Some(i) = find_seq(data@, crlf()) {
            let rest = data@.skip(i);
            assert(data@.subrange(i, i + 2) == crlf());
            assert(data@[i] == data@.subrange(i, i + 2)[0] && data@[i + 1] == data@.subrange(i, i + 2)[1]);
            assert(rest[0] == '\r' && rest[1] == '\n');
            utf8_at(rest, 0); utf8_at(rest, 1);
            assert(rest.take(0) =~= seq![]); assert(blen(seq![]) == 0) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
            assert(boundary(rest, 2, 2));
            assert(data@.skip(i + 2) =~= rest.skip(2));
            utf8_at(data@, i); utf8_at(data@, i + 1);
            assert(data@.take(i + 1 + 1) == data@.take(i + 2));
            assert forall|m: int| #[trigger] boundary(data@, i, m) implies is_boundary(data@, m) && boundary(data@, i + 2, m + 2) && is_boundary(data@, m + 2) by { assert(boundary(data@, i + 2, m + 2)); }
        }
    }
@@end
impl<'a, T> Http1xReader<'a, T> {
@@fn octane_http/src/http1x/mod.rs Http1xReader::new
@props C05 C06 C07 C15
@ret r
@params request data
@spec
    requires old(data)@.len() == 0,
    ensures
        r matches Ok(p) ==> head_of(request.reader.rest()) is Some,
        request.reader.healthy() ==> (r is Ok <==> head_of(request.reader.rest()) is Some),
        r matches Ok(p) ==> {
            let s = request.reader.rest();
            let h = head_of(s)->0;
            &&& p.0@ == lines_of(h)
            &&& p.1@ == line_of(h)
            &&& p.2@ + p.3.rest() =~= s.skip(find_seq(s, crlf2())->0 + 4)
            &&& p.3.healthy() == request.reader.healthy()
        },
        r matches Err(e) ==> e is BadRequest,
@start
    let ghost s = request.reader.rest();
    proof { find_seq_is(s, crlf2()); assert([13u8, 10u8, 13u8, 10u8]@ =~= crlf2()); }
@loop 0
    invariant_except_break
        data@ + instance.raw_request.reader.rest() =~= s,
        absent(data@, crlf2()),
    invariant
        instance.raw_request.reader.healthy() == request.reader.healthy(),
        s == request.reader.rest(),
    ensures
        head_of(s) is Some,
        instance.raw_request.headers@ == lines_of(head_of(s)->0),
        instance.raw_request.request_line@ == line_of(head_of(s)->0),
        instance.raw_request.body_remainder@ + instance.raw_request.reader.rest() =~= s.skip(find_seq(s, crlf2())->0 + 4),
    decreases instance.raw_request.reader.rest().len(),
@loopstart 0
    proof { assert(instance.raw_request.reader.rest().len() == 0 ==> data@ =~= s); }
@after vx_append
    proof {
        broadcast use vstd::utf8::group_utf8_lib;
        found_stays(data@, instance.raw_request.reader.rest());
        assert(data@ + instance.raw_request.reader.rest() =~= s);
        find_seq_is(data@, crlf2());
        if let Some(i) = find_seq(data@, crlf2()) {
            if vstd::utf8::valid_utf8(data@.take(i)) { vstd::utf8::decode_utf8_encode_utf8(data@.take(i)); }
        }
    }
@@end
}
