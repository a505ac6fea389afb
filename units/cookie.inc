// ================= cookies (src/cookie.rs over the cookie crate) =================
/// cookie::Cookie, by what it holds; parsing and printing of one cookie are the crate's (assumed, uninterpreted)
#[verifier::external_body]
pub struct VxCookieRs<'a> { s: &'a u8 }
pub struct CookieV { pub name: Seq<char>, pub value: Seq<char>, pub rest: int }
pub uninterp spec fn cookie_of(item: Seq<char>) -> Option<CookieV>;
pub uninterp spec fn cookie_text(c: CookieV) -> Seq<char>;
pub struct VxCookieError;
impl<'a> View for VxCookieRs<'a> { type V = CookieV; uninterp spec fn view(&self) -> CookieV; }
impl<'a> VxCookieRs<'a> {
    #[verifier::external_body] pub fn parse(s: &'a str) -> (r: Result<VxCookieRs<'a>, VxCookieError>)
        ensures match cookie_of(s@) { Some(c) => r matches Ok(k) && k@ == c, None => r is Err },
    { unimplemented!() }
    #[verifier::external_body] pub fn new(name: &'a str, value: &'a str) -> (r: VxCookieRs<'a>)
        ensures r@ == (CookieV { name: name@, value: value@, rest: 0 }),
    { unimplemented!() }
}
impl<'a> VxDisplay for VxCookieRs<'a> { open spec fn disp(&self) -> Seq<char> { cookie_text(self@) } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
/// the cookies of the first n items
pub open spec fn cookies_of(items: Seq<Seq<char>>, n: int) -> Seq<CookieV> decreases n {
    if n <= 0 { Seq::empty() } else { match cookie_of(items[n - 1]) { Some(c) => cookies_of(items, n - 1).push(c), None => cookies_of(items, n - 1) } }
}
pub open spec fn cookie_sep() -> Seq<char> { seq![';', ' '] }
pub open spec fn request_cookies(header: Seq<char>) -> Seq<CookieV> { cookies_of(split_seq(header, cookie_sep()), split_seq(header, cookie_sep()).len() as int) }
@@struct src/cookie.rs Cookie
impl<'a> View for Cookie<'a> { type V = CookieV; open spec fn view(&self) -> CookieV { self.cookie@ } }
impl<'a> VxClone for VxCookieRs<'a> { open spec fn cloned_from(self, o: VxCookieRs<'a>) -> bool { self@ == o@ } #[verifier::external_body] fn vx_clone(&self) -> VxCookieRs<'a> { unimplemented!() } }
impl<'a> VxClone for Cookie<'a> {
    open spec fn cloned_from(self, o: Cookie<'a>) -> bool { self@ == o@ }
@@fn expanded:octane Cookie@Clone::clone rename=vx_clone vis=none
@props C17
@ret r
@@end
}
pub open spec fn cviews(s: Seq<Cookie>) -> Seq<CookieV> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn set_cookie(c: CookieV) -> Seq<char> { "Set-Cookie: "@ + cookie_text(c) }
impl<'a> Cookie<'a> {
@@fn src/cookie.rs Cookie::new
@props C17
@ret r
@params name value
@spec
    ensures r@ == (CookieV { name: name@, value: value@, rest: 0 }),
@@end
@@fn src/cookie.rs Cookie::from
@props C17
@ret r
@params cookie
@spec
    ensures r@ == cookie@,
@@end
@@fn src/cookie.rs Cookie::parse
@props C17 C15
@ret r
@params header
@spec
    ensures cviews(r@) == request_cookies(header@),
@start
    proof { reveal_strlit("; "); assert("; "@ =~= cookie_sep()); }
@loopbefore 0
    let ghost items = vx_it0@;
    proof { assert(cviews(cookies_vec@) =~= seq![]); }
@loop 0
    invariant
        strs(items) == split_seq(header@, cookie_sep()),
        vx_it0@.len() <= items.len(),
        vx_it0@ == items.skip(items.len() - vx_it0@.len()),
        cviews(cookies_vec@) == cookies_of(strs(items), items.len() - vx_it0@.len()),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = items.len() - vx_it0@.len();
    let ghost v0 = cviews(cookies_vec@);
    proof {
        assert(vx_it0@ =~= items.skip(n));
        assert(tok == items[n - 1]);
        assert(strs(items)[n - 1] == tok@);
    }
@loopend 0
    proof { match cookie_of(tok@) { Some(c) => { assert(cviews(cookies_vec@) =~= v0.push(c)); }, None => {} } }
@@end
@@fn src/cookie.rs Cookie::serialise
@props C12 C17
@ret r
@spec
    ensures r@ == set_cookie(self@),
@start
    proof { reveal_strlit("Set-Cookie:"); reveal_strlit("Set-Cookie: "); assert("Set-Cookie: "@ =~= "Set-Cookie:"@.push(' ')); assert forall|a: Seq<char>, c: char, b: Seq<char>| #[trigger] (a + (seq![c] + b)) == a.push(c) + b by { assert(a + (seq![c] + b) =~= a.push(c) + b); } assert forall|a: Seq<char>, c: char, b: Seq<char>| #[trigger] ((a + seq![c]) + b) == a.push(c) + b by { assert((a + seq![c]) + b =~= a.push(c) + b); } }
@@end
}
