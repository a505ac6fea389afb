// ================= requests (src/request.rs, src/http) =================
// ---- specification
pub open spec fn version_of(v: Seq<char>) -> HttpVersion {
    if v == "1.1"@ { HttpVersion::Http11 } else if v == "1.0"@ { HttpVersion::Http10 } else if v == "2.0"@ { HttpVersion::Http02 }
    else if v == "0.9"@ { HttpVersion::Http09 } else { HttpVersion::HttpInvalid }
}
pub open spec fn method_of(m: Seq<char>) -> RequestMethod {
    if m == "POST"@ { RequestMethod::Post } else if m == "GET"@ { RequestMethod::Get } else if m == "DELETE"@ { RequestMethod::Delete }
    else if m == "PUT"@ { RequestMethod::Put } else if m == "OPTIONS"@ { RequestMethod::Options } else if m == "HEAD"@ { RequestMethod::Head }
    else if m == "TRACE"@ { RequestMethod::Trace } else if m == "CONNECT"@ { RequestMethod::Connect } else if m == "PATCH"@ { RequestMethod::Patch }
    else { RequestMethod::None }
}
pub open spec fn target_path(t: Seq<char>) -> Seq<char> { match find_char(t, '?') { Some(k) => t.take(k), None => t } }
pub open spec fn target_query(t: Seq<char>) -> Seq<char> { match find_char(t, '?') { Some(k) => t.skip(k + 1), None => seq![] } }
pub open spec fn http_slash() -> Seq<char> { seq!['H', 'T', 'T', 'P', '/'] }
/// a well-formed request line: three parts separated by single blanks, HTTP/..., a path inside its root
pub open spec fn line_ok(l: Seq<char>) -> bool {
    let t = split_on(l, ' ');
    t.len() == 3 && t[2].len() >= 5 && t[2].take(5) == http_slash() && normalise(target_path(t[1])) is Some
}
@@enum src/request.rs RequestMethod #[derive(Clone, Copy)]
@@struct src/request.rs RequestLine
impl RequestLine {
    pub open spec fn says(&self, l: Seq<char>) -> bool {
        let t = split_on(l, ' ');
        &&& self.method == method_of(t[0])
        &&& Some(self.path@) == normalise(target_path(t[1])) && wf(self.path@)
        &&& self.query@ == target_query(t[1])
        &&& self.version == version_of(t[2].skip(5))
    }
@@fn src/request.rs RequestLine::parse
@props C05 C04 C08 C15 C16
@ret r
@params request_line
@spec
    ensures
        r is Some <==> line_ok(request_line@),
        r matches Some(l) ==> l.says(request_line@),
@start
    broadcast use strs_group, find_cut;
    proof {
        split_no_sep(request_line@, ' ');
        reveal_strlit("HTTP/"); assert("HTTP/"@ =~= http_slash()); reveal_strlit(""); assert(""@ =~= seq![]);
        let t = split_on(request_line@, ' ');
        if t.len() >= 3 { let v = t[2]; five(v); }
        reveal_with_fuel(split_n, 3);
    }
@@end
}
impl RequestMethod {
@@fn src/request.rs RequestMethod::is_some
@props C05 C16
@ret r
@spec
    ensures r == !(*self is None),
@@end
}
/// the five characters "HTTP/" are five bytes
pub proof fn five(v: Seq<char>)
    ensures
        v.len() >= 5 && v.take(5) == http_slash() ==> boundary(v, 5, 5),
        forall|k: int| #[trigger] boundary(v, k, 5) && v.take(k) == http_slash() ==> k == 5,
{
    if v.len() >= 5 && v.take(5) == http_slash() {
        assert(v[0] == v.take(5)[0] && v[1] == v.take(5)[1] && v[2] == v.take(5)[2] && v[3] == v.take(5)[3] && v[4] == v.take(5)[4]);
        utf8_at(v, 0); utf8_at(v, 1); utf8_at(v, 2); utf8_at(v, 3); utf8_at(v, 4);
        assert(v.take(0) =~= seq![]); assert(blen(seq![]) == 0) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
    }
}
// ---- header lines
/// RFC 7230 token characters
pub open spec fn tchar(c: char) -> bool {
    let u = c as u32;
    48 <= u <= 57 || 65 <= u <= 90 || 97 <= u <= 122 || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\'' || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~'
}
pub open spec fn ctl(c: char) -> bool { (c as u32) < 0x20 || c as u32 == 0x7f }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' }
#[verifier::opaque]
pub open spec fn skip_blank(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { skip_blank(s.skip(1)) } else { s } }
pub open spec fn token(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> tchar(#[trigger] s[i]) }
pub open spec fn no_ctl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !ctl(#[trigger] s[i]) }
/// name and value of a header line; None: the line is refused
#[verifier::opaque]
pub open spec fn header_of(l: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match find_char(l, ':') {
        None => None,
        Some(k) => { let v = skip_blank(l.skip(k + 1)); if token(l.take(k)) && no_ctl(v) { Some((l.take(k), v)) } else { None } },
    }
}
pub proof fn skip_blank_is(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> blank(s[i]), k < s.len() ==> !blank(s[k]),
    ensures skip_blank(s) == s.skip(k),
    decreases k,
{
    reveal_with_fuel(skip_blank, 2);
    if k > 0 { assert(forall|i: int| 0 <= i < k - 1 ==> s.skip(1)[i] == s[i + 1]); skip_blank_is(s.skip(1), k - 1); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); }
    else { assert(s.skip(0) =~= s); }
}
@@macro_str src/constants.rs TOKEN_CHARS token_text
pub struct VxTokens;
pub const TOKEN_CHARS: VxTokens = VxTokens;
impl VxTokens { // the HashSet<char> built from the string's characters
    #[verifier::external_body] pub fn get(&self, c: &char) -> (r: Option<&char>) ensures r is Some <==> token_text().contains(*c) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, c: &char) -> (r: bool) ensures r <==> token_text().contains(*c) { unimplemented!() }
}
pub proof fn tokens_are()
    ensures forall|c: char| #[trigger] token_text().contains(c) <==> tchar(c),
{
    assert forall|c: char| #[trigger] token_text().contains(c) <==> tchar(c) by { token_text_set(c); }
}
@@struct src/request.rs Header
impl View for Header { type V = (Seq<char>, Seq<char>); open spec fn view(&self) -> (Seq<char>, Seq<char>) { (self.name@, self.value@) } }
impl Header {
@@fn src/request.rs Header::parse
@props C06 C15
@ret r
@params header
@spec
    ensures match header_of(header@) { Some(h) => r matches Some(x) && x@ == h, None => r is None },
@start
    broadcast use strs_group;
    proof {
        reveal(header_of); tokens_are(); reveal_with_fuel(split_n, 3); find_char_first(header@, ':');
        assert forall|s: Seq<char>, k: int| #![trigger s.skip(k)] 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> blank(#[trigger] s[i])) && (k < s.len() ==> !blank(s[k])) implies skip_blank(s) == s.skip(k) by { skip_blank_is(s, k); }
    }
@loopbefore 0
    let ghost all0 = vx_it0@;
@loop 0
    invariant
        all0 == name@,
        vx_it0@.len() <= all0.len(),
        vx_it0@ == all0.skip(all0.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < all0.len() - vx_it0@.len() ==> tchar(#[trigger] name@[i]),
        forall|c: char| #[trigger] token_text().contains(c) <==> tchar(c),
        strs(toks@).len() >= 0, find_char(header@, ':') is Some ==> name@ == header@.take(find_char(header@, ':')->0),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    proof {
        reveal(header_of);
        let n = all0.len() - vx_it0@.len();
        assert(vx_it0@ =~= all0.skip(n));
        assert(c == name@[n - 1]);
    }
@closure 0
    -> (z: bool)
    ensures z == blank(vx_c0_0),
@@end
@@fn src/request.rs Header::name
@props C06
@ret r
@spec
    ensures r@ == self.name@,
@@end
@@fn src/request.rs Header::value
@props C06
@ret r
@spec
    ensures r@ == self.value@,
@@end
}
// ---- header blocks
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn bcrlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn encs(l: Seq<Seq<char>>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| enc(l[i])) }
/// CR LF in the text is CR LF in the bytes
pub proof fn crlf_to_bytes(s: Seq<char>, k: int)
    requires occurs(s, crlf(), k),
    ensures occurs(enc(s), bcrlf(), blen(s.take(k)) as int), blen(s.take(k + 2)) == blen(s.take(k)) + 2,
{
    assert(s.subrange(k, k + 2)[0] == '\r' && s.subrange(k, k + 2)[1] == '\n');
    assert(s[k] == '\r' && s[k + 1] == '\n');
    utf8_at(s, k); utf8_at(s, k + 1);
    assert(enc(s).subrange(blen(s.take(k)) as int, blen(s.take(k)) as int + 2) =~= bcrlf());
}
pub proof fn crlf_to_chars(s: Seq<char>, i: int) -> (k: int)
    requires occurs(enc(s), bcrlf(), i),
    ensures boundary(s, k, i), occurs(s, crlf(), k),
{
    assert(enc(s).subrange(i, i + 2)[0] == 13u8 && enc(s).subrange(i, i + 2)[1] == 10u8);
    assert(enc(s)[i] == 13u8 && enc(s)[i + 1] == 10u8);
    utf8_ascii(s, i); utf8_ascii(s, i + 1);
    let k = choose|k: int| #[trigger] boundary(s, k, i) && k < s.len() && s[k] as u32 == enc(s)[i] as u32;
    let l = choose|l: int| #[trigger] boundary(s, l, i + 1) && l < s.len() && s[l] as u32 == enc(s)[i + 1] as u32;
    utf8_at(s, k);
    if l < k + 1 { boundary_order(s, l, k + 1); } else if l > k + 1 { boundary_order(s, k + 1, l); }
    assert(s[k] == '\r' && s[k + 1] == '\n');
    assert(s.subrange(k, k + 2) =~= crlf());
    k
}
pub proof fn crlf_first(s: Seq<char>)
    ensures match find_seq(s, crlf()) { Some(k) => find_seq(enc(s), bcrlf()) == Some(blen(s.take(k)) as int), None => find_seq(enc(s), bcrlf()) is None },
{
    find_seq_is(s, crlf()); find_seq_is(enc(s), bcrlf());
    match find_seq(s, crlf()) {
        Some(k) => {
            crlf_to_bytes(s, k);
            let b = blen(s.take(k)) as int;
            assert forall|j: int| 0 <= j < b implies !#[trigger] occurs(enc(s), bcrlf(), j) by {
                if occurs(enc(s), bcrlf(), j) {
                    let l = crlf_to_chars(s, j);
                    if l > k { boundary_order(s, k, l); }
                    assert(l < k);
                }
            }
            assert(first_occ(enc(s), bcrlf(), b));
        },
        None => {
            assert forall|j: int| !#[trigger] occurs(enc(s), bcrlf(), j) by { if occurs(enc(s), bcrlf(), j) { let l = crlf_to_chars(s, j); assert(occurs(s, crlf(), l)); } }
        },
    }
}
/// splitting the bytes at CR LF is splitting the text
pub proof fn split_bytes(s: Seq<char>)
    ensures split_seq(enc(s), bcrlf()) == encs(split_seq(s, crlf())),
    decreases s.len(),
{
    reveal_with_fuel(split_seq, 2);
    crlf_first(s);
    find_seq_is(s, crlf());
    match find_seq(s, crlf()) {
        Some(k) => {
            crlf_to_bytes(s, k);
            let b = blen(s.take(k)) as int;
            utf8_sub(s, 0, k); utf8_sub(s, k + 2, s.len() as int);
            assert(s.take(0) =~= seq![]); assert(blen(seq![]) == 0) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
            assert(s.subrange(0, k) =~= s.take(k)); assert(s.subrange(k + 2, s.len() as int) =~= s.skip(k + 2)); assert(s.take(s.len() as int) =~= s);
            assert(enc(s).take(b) =~= enc(s).subrange(0, b));
            assert(enc(s).skip(b + 2) =~= enc(s).subrange(b + 2, blen(s) as int));
            split_bytes(s.skip(k + 2));
            assert(split_seq(enc(s), bcrlf()) =~= encs(split_seq(s, crlf())));
        },
        None => { assert(split_seq(enc(s), bcrlf()) =~= encs(split_seq(s, crlf()))); },
    }
}
pub type HeaderV = (Seq<char>, Seq<char>);
pub open spec fn block_lines(b: Seq<char>) -> Seq<Seq<char>> { if b.len() == 0 { seq![] } else { split_seq(b, crlf()) } }
pub open spec fn block_ok(l: Seq<Seq<char>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> header_of(#[trigger] l[i]) is Some }
/// the headers of the first n lines, in order
#[verifier::opaque]
pub open spec fn raw_of(l: Seq<Seq<char>>, n: int) -> Seq<HeaderV> { Seq::new(n as nat, |i: int| header_of(l[i])->0) }
/// values by lower-cased name; values of equal names joined by ", " in order
pub open spec fn merge(m: Map<Seq<char>, Seq<char>>, h: HeaderV) -> Map<Seq<char>, Seq<char>> {
    let k = lower_ascii(h.0);
    if m.dom().contains(k) { m.insert(k, m[k] + ", "@ + h.1) } else { m.insert(k, h.1) }
}
#[verifier::opaque]
pub open spec fn merged(r: Seq<HeaderV>, n: int) -> Map<Seq<char>, Seq<char>> decreases n {
    if n <= 0 { Map::empty() } else { merge(merged(r, n - 1), r[n - 1]) }
}
pub open spec fn hviews(s: Seq<Header>) -> Seq<HeaderV> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn msv(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
@@struct src/request.rs Headers
impl Headers {
    pub open spec fn says(&self, block: Seq<char>) -> bool {
        let l = block_lines(block);
        hviews(self.raw@) == raw_of(l, l.len() as int) && self.map() == merged(raw_of(l, l.len() as int), l.len() as int)
    }
    pub open spec fn map(&self) -> Map<Seq<char>, Seq<char>> { msv(self.parsed@) }
    pub open spec fn val(&self, k: Seq<char>) -> Option<Seq<char>> { if self.map().dom().contains(k) { Some(self.map()[k]) } else { None } }
@@fn expanded:octane Headers::deref vis=none rettype=&VxMap<String,String>
@props C06 C07 C16
@ret r
@spec
    ensures *r == self.parsed,
@@end
    // method calls on Headers reach the map through deref
    pub fn get(&self, k: &str) -> (r: Option<&String>)
        ensures match self.val(k@) { Some(v) => r matches Some(x) && x@ == v, None => r is None },
    { self.deref().get(k) }
@@fn src/request.rs Headers::parse
@props C06 C15
@ret r
@params request
@spec
    ensures
        r is Some <==> block_ok(block_lines(request@), block_lines(request@).len() as int),
        r matches Some(h) ==> h.says(request@),
@start
    hide(vstd::utf8::encode_utf8); hide(vstd::utf8::decode_utf8); hide(vstd::utf8::valid_utf8);
    let ghost lines = block_lines(request@);
    proof {
        reveal_with_fuel(merged, 1); reveal(raw_of); split_bytes(request@); reveal_strlit(", "); assert([13u8, 10u8]@ =~= bcrlf());
        assert forall|m: Map<Seq<char>, String>, k: Seq<char>, v: String| #[trigger] msv(m.insert(k, v)) == msv(m).insert(k, v@) by { assert(msv(m.insert(k, v)) =~= msv(m).insert(k, v@)); }
        assert forall|a: Seq<Header>, v: Header| #[trigger] hviews(a.push(v)) == hviews(a).push(v@) by { assert(hviews(a.push(v)) =~= hviews(a).push(v@)); }
    }
@loopbefore 0
    proof {
        assert(vx_it0.pieces() =~= encs(lines));
        assert(msv(headers@) =~= Map::empty());
        assert(hviews(raw_headers@) =~= raw_of(lines, 0));
    }
@loop 0
    invariant
        vx_it0.seq@ == bcrlf(),
        lines == block_lines(request@),
        vx_it0.pieces().len() <= lines.len(),
        vx_it0.pieces() == encs(lines).skip(lines.len() - vx_it0.pieces().len()),
        block_ok(lines, lines.len() - vx_it0.pieces().len()),
        hviews(raw_headers@) == raw_of(lines, lines.len() - vx_it0.pieces().len()),
        msv(headers@) == merged(raw_of(lines, lines.len() as int), lines.len() - vx_it0.pieces().len()),
        forall|m: Map<Seq<char>, String>, k: Seq<char>, v: String| #[trigger] msv(m.insert(k, v)) == msv(m).insert(k, v@),
        forall|a: Seq<Header>, v: Header| #[trigger] hviews(a.push(v)) == hviews(a).push(v@),
    ensures
        vx_it0.pieces().len() == 0,
    decreases vx_it0.pieces().len(),
@loopbody 0
    let ghost n = lines.len() - vx_it0.pieces().len();
    let ghost (m0, r0) = (headers@, raw_headers@);
    proof {
        reveal_with_fuel(merged, 2); reveal(raw_of);
        assert(vx_it0.pieces() =~= encs(lines).skip(n));
        assert(tok@ == enc(lines[n - 1]));
        vstd::utf8::encode_utf8_valid_utf8(lines[n - 1]);
        vstd::utf8::encode_utf8_decode_utf8(lines[n - 1]);
        assert(raw_of(lines, n) =~= raw_of(lines, n - 1).push(header_of(lines[n - 1])->0));
        assert(raw_of(lines, lines.len() as int)[n - 1] == header_of(lines[n - 1])->0);
    }
@@end
}
// ---- numbers in header values: std's FromStr for unsigned integers
pub open spec fn is_digit(c: char) -> bool { 48 <= c as u32 <= 57 }
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn dval(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as u32 - 48) as nat } }
pub open spec fn number(s: Seq<char>) -> Option<nat> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if all_digits(t) { Some(dval(t)) } else { None }
}
pub struct VxParseError;
pub trait VxNum: Sized { spec fn fits(n: nat) -> Option<Self>; }
impl VxNum for usize { open spec fn fits(n: nat) -> Option<usize> { if n <= usize::MAX { Some(n as usize) } else { None } } }
impl VxNum for u64 { open spec fn fits(n: nat) -> Option<u64> { if n <= u64::MAX { Some(n as u64) } else { None } } }
pub open spec fn parsed<N: VxNum>(s: Seq<char>) -> Option<N> { match number(s) { Some(n) => N::fits(n), None => None } }
pub trait VxParse { spec fn pv(&self) -> Seq<char>; fn vx_parse<N: VxNum>(&self) -> (r: Result<N, VxParseError>) ensures match parsed::<N>(self.pv()) { Some(n) => r == Ok::<N, VxParseError>(n), None => r is Err }; }
impl VxParse for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<N: VxNum>(&self) -> Result<N, VxParseError> { unimplemented!() } }
impl VxParse for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<N: VxNum>(&self) -> Result<N, VxParseError> { unimplemented!() } }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub trait VxTrim { fn vx_trim(&self) -> (r: &str); }
impl VxTrim for str { #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() } }
// ---- the body
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxTake<T> { t: T }
impl<T> VxTake<T> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn healthy(&self) -> bool;
    #[verifier::external_body]
    pub fn vx_read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        ensures
            old(self).healthy() ==> r is Ok,
            r matches Ok(n) ==> n == old(self).rest().len() && final(v)@ == old(v)@ + old(self).rest(),
    { unimplemented!() }
}
impl<T> VxStream<T> {
    #[verifier::external_body]
    pub fn vx_take(self, n: u64) -> (r: VxTake<T>)
        ensures r.healthy() == self.healthy(), r.rest() == (if n <= self.rest().len() { self.rest().take(n as int) } else { self.rest() }),
    { unimplemented!() }
}
impl Headers {
    pub open spec fn content_len(&self) -> nat {
        match self.val("content-length"@) { Some(v) => match parsed::<usize>(v) { Some(n) => n as nat, None => 0 }, None => 0 }
    }
    pub open spec fn same(&self, o: &Headers) -> bool { self.map() == o.map() && hviews(self.raw@) == hviews(o.raw@) }
}
impl VxDiscr for RequestMethod { open spec fn discr(&self) -> int { method_no(*self) } }
pub open spec fn method_no(m: RequestMethod) -> int {
    match m { RequestMethod::Post => 0, RequestMethod::Get => 1, RequestMethod::Delete => 2, RequestMethod::Put => 3, RequestMethod::Options => 4, RequestMethod::Head => 5,
        RequestMethod::Trace => 6, RequestMethod::Connect => 7, RequestMethod::Patch => 8, RequestMethod::All => 9, RequestMethod::None => 10 }
}
impl RequestMethod {
// what the map of trees compares methods by
@@fn expanded:octane RequestMethod@PartialEq::eq vis=none rename=vx_same_key
@props C01 C05
@ret r
@params other
@spec
    ensures r == (*self == *other),
@@end
}
impl VxClone for RequestMethod {
    open spec fn cloned_from(self, o: RequestMethod) -> bool { self == o }
@@fn expanded:octane RequestMethod@Clone::clone rename=vx_clone vis=none
@props C01 C05
@ret r
@@end
}
impl VxEq<HttpVersion> for HttpVersion { open spec fn eqv(&self, o: &HttpVersion) -> bool { self == o } #[verifier::external_body] fn vx_eq(&self, o: &HttpVersion) -> bool { unimplemented!() } } // derive(PartialEq)
impl VxClone for HttpVersion { open spec fn cloned_from(self, o: HttpVersion) -> bool { self == o } fn vx_clone(&self) -> (r: HttpVersion) { *self } } // derive(Clone, Copy)
impl VxClone for RequestLine {
    open spec fn cloned_from(self, o: RequestLine) -> bool { self.method == o.method && self.path@ == o.path@ && self.query@ == o.query@ && self.version == o.version }
@@fn expanded:octane RequestLine@Clone::clone rename=vx_clone vis=none
@props C01 C05
@ret r
@@end
}
impl VxClone for Header {
    open spec fn cloned_from(self, o: Header) -> bool { self@ == o@ }
@@fn expanded:octane Header@Clone::clone rename=vx_clone vis=none
@props C06
@ret r
@@end
}
impl VxClone for VxMap<String, String> { open spec fn cloned_from(self, o: VxMap<String, String>) -> bool { msv(self@) == msv(o@) } #[verifier::external_body] fn vx_clone(&self) -> VxMap<String, String> { unimplemented!() } }
impl VxClone for Headers {
    open spec fn cloned_from(self, o: Headers) -> bool { self.same(&o) }
@@fn expanded:octane Headers@Clone::clone rename=vx_clone vis=none
@props C06
@ret r
@start
    proof {
        assert forall|a: Seq<Header>, b: Seq<Header>| #[trigger] all_cloned(a, b) implies hviews(a) == hviews(b) by { assert(hviews(a) =~= hviews(b)) by { assert forall|i: int| 0 <= i < a.len() implies hviews(a)[i] == hviews(b)[i] by { assert(a[i].cloned_from(b[i])); } } }
    }
@@end
}
@@struct src/request.rs Request
impl<'a> Request<'a> {
    pub open spec fn says(&self, l: RequestLine, h: Headers, body: Seq<u8>) -> bool {
        &&& self.request_line == l && self.headers.same(&h) && self.body@ == body
        &&& cviews(self.cookies@) == (match h.val("cookie"@) { Some(v) => request_cookies(v), None => seq![] })
    }
@@fn src/request.rs Request::parse
@props C07 C17 C06
@ret r
@params request_line headers body
@spec
    ensures r matches Some(q) && q.says(request_line, *headers, body@),
@start
    proof { assert forall|s: Seq<Cookie<'a>>| s.len() == 0 implies #[trigger] cviews(s) == Seq::<CookieV>::empty() by { assert(cviews(s) =~= Seq::empty()); } }
@@end
@@fn src/request.rs Request::from_raw
@props C07 C15 C17
@ret r
@params headers request_line body body_vec body_remainder reader
@spec
    requires old(body_vec)@.len() == 0,
    ensures
        ({
            let s = body_remainder@ + reader.rest();
            let n = headers.content_len();
            &&& r matches Some(q) ==> n <= s.len() && q.says(request_line, *headers, s.take(n as int))
            &&& reader.healthy() ==> (r is Some <==> n <= s.len())
        }),
@start
    let ghost s = body_remainder@ + reader.rest();
    let ghost n = headers.content_len() as int;
    proof {
        assert(n <= body_remainder@.len() ==> body_remainder@.take(n) =~= s.take(n));
        assert forall|m: int| m == n - body_remainder@.len() && 0 <= m && n <= s.len() implies body_remainder@ + #[trigger] reader.rest().take(m) == s.take(n) by { assert(body_remainder@ + reader.rest().take(m) =~= s.take(n)); }
        assert(s.take(0) =~= Seq::<u8>::empty()); assert(n == 0 ==> s.take(n) =~= Seq::<u8>::empty());
        assert(body_vec@ + body_remainder@ =~= body_remainder@);
    }
@closure 0
    -> (z: Option<usize>)
    ensures z == parsed::<usize>(vx_c0_0@),
@@end
}
@@struct src/request.rs KeepAlive
impl KeepAlive {
@@fn src/request.rs KeepAlive::parse
@props C15
@ret r
@params header
@start
    broadcast use strs_group;
@loop 0
    invariant true,
    ensures vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    proof {
        assert forall|t: Seq<char>, i: int, r: Seq<char>| found_at(t, find_char(t, '='), Some(i as usize)) && #[trigger] is_suffix(t, i, r) && 0 <= i <= usize::MAX implies boundary(r, 1, 1) by { eq_suffix(t, i, r); }
    }
@@end
@@fn src/request.rs KeepAlive::timeout
@props C15
@ret r
@spec
    ensures r == self.timeout,
@@end
}
/// the rest from the first '=' on starts with that one byte
pub proof fn eq_suffix(t: Seq<char>, i: int, r: Seq<char>)
    requires found_at(t, find_char(t, '='), Some(i as usize)), is_suffix(t, i, r), 0 <= i <= usize::MAX,
    ensures boundary(r, 1, 1),
{
    find_char_first(t, '=');
    let k = find_char(t, '=')->0;
    assert(boundary(t, k, i));
    assert(r == t.skip(k) && r[0] == '=');
    utf8_first(r);
}
// ---- validation (src/http)
@@enum src/http/mod.rs KeepAliveState
@@struct src/http/mod.rs Http
impl<'a> Http<'a> {
@@fn src/http/mod.rs Http::set
@props C16
@params err_code
@spec
    ensures *final(self) == (Http { err_code: Some(err_code), ..*old(self) }),
@@end
@@fn src/http/mod.rs Http::set_keepalive
@props C16
@params keep_alive
@spec
    ensures *final(self) == (Http { keep_alive: keep_alive, ..*old(self) }),
@@end
@@fn src/http/mod.rs Http::is_malformed
@props C16
@ret r
@spec
    ensures r == (self.err_code is Some),
@@end
@@fn src/http/mod.rs Http::validate
@props C16 C15
@ret r
@params request
@spec
    ensures r.err_code == (if request.request_line.version is Http11 && request.headers.val("host"@) is None { Some(StatusCode::BadRequest) } else { None }),
@@end
}
@@fn src/http/http11.rs http11_check
@props C16 C15
@params validator
@spec
    ensures final(validator).err_code == (if old(validator).request.headers.val("host"@) is None { Some(StatusCode::BadRequest) } else { old(validator).err_code }),
@@end
@@fn src/http/http10.rs http10_check
@props C16 C15
@params validator
@spec
    ensures final(validator).err_code == old(validator).err_code,
@@end
