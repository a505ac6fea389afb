// ================= one connection (src/server.rs, src/error.rs) =================
/// the writing side of a connection: what has been written, and whether it never fails
#[verifier::external_body]
pub struct VxSink { s: u8 }
pub type VxOut<'a> = &'a mut VxSink;
impl VxSink {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn healthy(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VxErr>)
        ensures
            final(self).healthy() == old(self).healthy(), old(self).healthy() ==> r is Ok,
            r is Ok ==> final(self).out() == old(self).out() + b@,
    { unimplemented!() }
}
/// tokio::io::copy: everything the reader yields
#[verifier::external_body]
pub fn vx_copy(a: &mut VxReader, w: &mut VxSink) -> (r: Result<u64, VxErr>)
    ensures
        final(w).healthy() == old(w).healthy(), old(w).healthy() ==> r is Ok,
        r is Ok ==> final(w).out() == old(w).out() + old(a)@,
{ unimplemented!() }
/// a connection: the bytes that arrive and the side that is written to
pub struct VxConn<'a> { pub inp: VxStream<()>, pub out: &'a mut VxSink }
pub fn vx_split_conn<'a>(s: VxConn<'a>) -> (r: (VxStream<()>, &'a mut VxSink))
    ensures r.0 == s.inp, *r.1 == *old(s.out), *final(s.out) == *final(r.1),
{ (s.inp, s.out) }
@@struct src/server.rs Octane
@@struct src/error.rs Error
/// b is the serialisation of r: its head, then its body
pub open spec fn serialised(r: Response, b: Seq<u8>) -> bool { exists|t: Seq<char>| #[trigger] head_text(r, t) && b == enc(t) + bytes_of(r.body) }
/// what `a` holds followed by one response
pub open spec fn one_more(a: Seq<u8>, b: Seq<u8>, r: Response) -> bool { exists|x: Seq<u8>| #[trigger] serialised(r, x) && b == a + x }
/// the server's own page for a status
pub open spec fn error_page(r: Response, c: StatusCode) -> bool {
    &&& r.status_code == c && r.http_version@ == "1.1"@ && r.cookies@.len() == 0
    &&& framed(r) && !(r.body is None) && bytes_of(r.body) == enc(NOT_FOUND@) && has(r.headers@, "Content-Type"@, "text/html"@)
    &&& forall|k: Seq<char>| #[trigger] r.headers@.dom().contains(k) ==> k == "Content-Length"@ || k == "Date"@ || k == "Content-Type"@
}
pub open spec fn page_sent(a: Seq<u8>, b: Seq<u8>, c: StatusCode) -> bool { exists|r: Response| #[trigger] error_page(r, c) && one_more(a, b, r) }
/// a request without handlers' answers
pub open spec fn fresh(r: Response) -> bool {
    r.body is None && r.content_len is None && r.http_version@ == "1.1"@ && r.headers@ == Map::<Seq<char>, String>::empty() && r.charset is None && r.cookies@.len() == 0 && r.status_code == StatusCode::Ok
}
/// the head, the header block and the body that the bytes of a connection spell; None: refused
pub open spec fn content_len_of(m: Map<Seq<char>, Seq<char>>) -> nat {
    if m.dom().contains("content-length"@) { match parsed::<usize>(m["content-length"@]) { Some(n) => n as nat, None => 0 } } else { 0 }
}
pub open spec fn spelled(s: Seq<u8>) -> Option<ReqV> {
    match head_of(s) {
        None => None,
        Some(h) => {
            let l = block_lines(lines_of(h));
            let t = split_on(line_of(h), ' ');
            let raw = raw_of(l, l.len() as int);
            let m = merged(raw, l.len() as int);
            let rest = s.skip(find_seq(s, crlf2())->0 + 4);
            let n = content_len_of(m);
            if !line_ok(line_of(h)) || !block_ok(l, l.len() as int) || n > rest.len() { None } else {
                Some(ReqV {
                    line: RequestLineV { method: method_of(t[0]), path: normalise(target_path(t[1]))->0, query: target_query(t[1]), version: version_of(t[2].skip(5)) },
                    headers: m, raw: raw, body: rest.take(n as int),
                    cookies: if m.dom().contains("cookie"@) { request_cookies(m["cookie"@]) } else { seq![] },
                })
            }
        },
    }
}
pub open spec fn answered(router: Router, s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool {
    match spelled(s) {
        None => page_sent(a, b, StatusCode::BadRequest),
        Some(q) => {
            if q.line.version is Http11 && !q.headers.dom().contains("host"@) { page_sent(a, b, StatusCode::BadRequest) }
            else if q.line.method is None { page_sent(a, b, StatusCode::NotImplemented) }
            else { from_handlers(router.pool(q.line.method, q.line.path), q, a, b) }
        },
    }
}
/// the handlers' response, or 404 if they gave none
pub open spec fn from_handlers(pool: Seq<Cand>, q: ReqV, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|r0: Response, r: Response| fresh(r0) && #[trigger] handled(pool, q, r0, r) && (if r.body is None { page_sent(a, b, StatusCode::NotFound) } else { one_more(a, b, r) })
}
/// the same, told by the registrations alone: which handlers there are and in which order they were registered
pub open spec fn told(h: Seq<Ev>, s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool {
    match spelled(s) {
        None => page_sent(a, b, StatusCode::BadRequest),
        Some(q) => {
            if q.line.version is Http11 && !q.headers.dom().contains("host"@) { page_sent(a, b, StatusCode::BadRequest) }
            else if q.line.method is None { page_sent(a, b, StatusCode::NotImplemented) }
            else { from_history(h, q, a, b) }
        },
    }
}
pub open spec fn from_history(h: Seq<Ev>, q: ReqV, a: Seq<u8>, b: Seq<u8>) -> bool {
    exists|r0: Response, r: Response| fresh(r0) && #[trigger] run_history(h, 0, q, r0, r) && (if r.body is None { page_sent(a, b, StatusCode::NotFound) } else { one_more(a, b, r) })
}
/// C01, C03: what a connection is answered follows from what it sent and from the registrations, in their order
pub proof fn answered_told(router: Router, h: Seq<Ev>, s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires router.logged(h), answered(router, s, a, b),
    ensures told(h, s, a, b),
{
    if let Some(q) = spelled(s) {
        let hd = head_of(s)->0;
        assert(!(q.line.method is All));
        if !(q.line.version is Http11 && !q.headers.dom().contains("host"@)) && !(q.line.method is None) {
            let pool = router.pool(q.line.method, q.line.path);
            let (r0, r) = choose|r0: Response, r: Response| fresh(r0) && #[trigger] handled(pool, q, r0, r) && (if r.body is None { page_sent(a, b, StatusCode::NotFound) } else { one_more(a, b, r) });
            history_pool(router, h, q);
            handled_history(pool, h, q, r0, r);
            assert(run_history(h, 0, q, r0, r));
        }
    }
}
/// writing head and body is sending the response
proof fn sent_hints()
    ensures
        forall|r: Response, t: Seq<char>, a: Seq<u8>, b: Seq<u8>| #![trigger head_text(r, t), one_more(a, b, r)] head_text(r, t) && b == a + (enc(t) + bytes_of(r.body)) ==> one_more(a, b, r),
        forall|r: Response, t: Seq<char>, a: Seq<u8>, b: Seq<u8>, c: StatusCode| #![trigger head_text(r, t), page_sent(a, b, c)] head_text(r, t) && error_page(r, c) && b == a + (enc(t) + bytes_of(r.body)) ==> page_sent(a, b, c),
{
    assert forall|r: Response, t: Seq<char>, a: Seq<u8>, b: Seq<u8>| #![trigger head_text(r, t), one_more(a, b, r)] head_text(r, t) && b == a + (enc(t) + bytes_of(r.body)) implies one_more(a, b, r) by { assert(serialised(r, enc(t) + bytes_of(r.body))); }
    assert forall|r: Response, t: Seq<char>, a: Seq<u8>, b: Seq<u8>, c: StatusCode| #![trigger head_text(r, t), page_sent(a, b, c)] head_text(r, t) && error_page(r, c) && b == a + (enc(t) + bytes_of(r.body)) implies page_sent(a, b, c) by { assert(one_more(a, b, r)); }
}
/// what parsing the head and the body gives is what the bytes spell
proof fn spelled_is(s: Seq<u8>, q: Request, l: RequestLine, h: Headers, b: Seq<u8>)
    requires
        head_of(s) is Some, l.says(line_of(head_of(s)->0)), line_ok(line_of(head_of(s)->0)), h.says(lines_of(head_of(s)->0)),
        ({ let k = block_lines(lines_of(head_of(s)->0)); block_ok(k, k.len() as int) }),
        q.says(l, h, b), h.content_len() <= s.skip(find_seq(s, crlf2())->0 + 4).len(), b == s.skip(find_seq(s, crlf2())->0 + 4).take(h.content_len() as int),
    ensures spelled(s) == Some(reqv(q)),
{
    assert(h.content_len() == content_len_of(h.map()));
    assert(reqv(q) == spelled(s)->0);
}
impl Octane {
@@fn src/server.rs Octane::send inst=S=VxOut
@props C12 C13 C15 C16
@ret r
@params response stream_async
@spec
    ensures
        final(stream_async).healthy() == old(stream_async).healthy(), old(stream_async).healthy() ==> r is Ok,
        r is Ok ==> final(stream_async).out() == old(stream_async).out() + (enc(response.0@) + response.1@),
@start
    proof { assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] (a + b + c) == a + (b + c) by { assert(a + b + c =~= a + (b + c)); } }
@@end
}
impl Error {
@@fn src/error.rs Error::send inst=S=VxOut
@props C12 C13 C15 C16
@ret r
@params stream
@spec
    ensures
        final(stream).healthy() == old(stream).healthy(), old(stream).healthy() ==> r is Ok,
        r is Ok ==> page_sent(old(stream).out(), final(stream).out(), self.kind),
@start
    proof { sent_hints(); names(); }
@@end
@@fn src/error.rs Error::err inst=S=VxOut
@props C12 C13 C15 C16
@ret r
@params status_code stream
@spec
    ensures
        final(stream).healthy() == old(stream).healthy(), old(stream).healthy() ==> r is Ok,
        r is Ok ==> page_sent(old(stream).out(), final(stream).out(), status_code),
@@end
}
impl Octane {
@@fn src/server.rs Octane::serve inst=S=VxConn<'_>
@props C01 C05 C06 C07 C12 C13 C15 C16 C17
@ret r
@params stream_async server
@spec
    requires
        server.router.inv(), forall|m: RequestMethod, p: Seq<Seq<char>>| (#[trigger] server.router.pool(m, p)).len() <= usize::MAX,
    ensures
        old(stream_async.out).healthy() ==> r is Ok,
        r is Ok && stream_async.inp.healthy() ==> answered(server.router, stream_async.inp.rest(), old(stream_async.out).out(), final(stream_async.out).out()),
        r is Ok && !stream_async.inp.healthy() ==> page_sent(old(stream_async.out).out(), final(stream_async.out).out(), StatusCode::BadRequest)
            || answered(server.router, stream_async.inp.rest(), old(stream_async.out).out(), final(stream_async.out).out()),
        forall|h: Seq<Ev>| #[trigger] server.router.logged(h) && r is Ok && stream_async.inp.healthy() ==> told(h, stream_async.inp.rest(), old(stream_async.out).out(), final(stream_async.out).out()),
@start
    proof { assert forall|h: Seq<Ev>, b: Seq<u8>| #![trigger server.router.logged(h), told(h, stream_async.inp.rest(), old(stream_async.out).out(), b)] server.router.logged(h) && answered(server.router, stream_async.inp.rest(), old(stream_async.out).out(), b) implies told(h, stream_async.inp.rest(), old(stream_async.out).out(), b) by { answered_told(server.router, h, stream_async.inp.rest(), old(stream_async.out).out(), b); } }
    let ghost s = stream_async.inp.rest();
    proof {
        sent_hints();
        assert forall|q: Request, l: RequestLine, h: Headers, b: Seq<u8>| #[trigger] q.says(l, h, b)
            && head_of(s) is Some && l.says(line_of(head_of(s)->0)) && line_ok(line_of(head_of(s)->0)) && h.says(lines_of(head_of(s)->0))
            && block_ok(block_lines(lines_of(head_of(s)->0)), block_lines(lines_of(head_of(s)->0)).len() as int)
            && h.content_len() <= s.skip(find_seq(s, crlf2())->0 + 4).len() && b == s.skip(find_seq(s, crlf2())->0 + 4).take(h.content_len() as int)
            implies spelled(s) == Some(reqv(q)) by { spelled_is(s, q, l, h, b); }
    }
@@end
}
// ---- building the server
impl Octane {
@@fn src/server.rs Octane::new
@props C01 C03 C19
@ret r
@spec
    ensures r.router.inv(), r.router.route_counter == 0, r.router.middlewares@.len() == 0, forall|m: RequestMethod, ks: Seq<Key>| (#[trigger] r.router.filed_at(m, ks)).len() == 0, default_config(r.settings),
@@end
@@fn expanded:octane Octane@Default::default vis=none
@props C01 C03 C19
@ret r
@spec
    ensures r.router.inv(), r.router.route_counter == 0, r.router.middlewares@.len() == 0, forall|m: RequestMethod, ks: Seq<Key>| (#[trigger] r.router.filed_at(m, ks)).len() == 0, default_config(r.settings),
@@end
@@fn src/server.rs Octane::with_config
@props C19
@params config
@spec
    ensures final(self).router == old(self).router, final(self).settings.ssl == config.ssl, final(self).settings.keep_alive == config.keep_alive,
@@end
@@fn src/server.rs Octane::with_router
@props C03
@params router
@spec
    requires old(self).router.inv(), router.inv(), old(self).router.route_counter + router.route_counter <= usize::MAX,
    ensures Router::appended(old(self).router, router, final(self).router), final(self).settings == old(self).settings,
@@end
@@fn src/server.rs Octane@Config::set_keepalive
@props C19
@params duration
@spec
    ensures *final(self) == (Octane { settings: OctaneConfig { keep_alive: Some(duration), ..old(self).settings }, ..*old(self) }),
@@end
@@fn src/server.rs Octane@Config::with_ssl_config
@props C19
@params ssl_conf
@spec
    ensures *final(self) == (Octane { settings: OctaneConfig { ssl: ssl_conf, ..old(self).settings }, ..*old(self) }),
@@end
@@fn src/server.rs Octane@Config::ssl
@props C19
@ret r
@params port
@spec
    ensures *r == (Ssl { port: port, ..old(self).settings.ssl }), *final(self) == (Octane { settings: OctaneConfig { ssl: *final(r), ..old(self).settings }, ..*old(self) }),
@@end
@@fn src/server.rs Octane@Route::head
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Head, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::put
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Put, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::get
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Get, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::delete
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Delete, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::post
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Post, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::patch
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::Patch, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::add_route
@props C01 C03
@ret r
@params path closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(old(self).router, final(self).router, RequestMethod::All, normalise(path@)->0, closure),
        r is Err ==> Router::refused(old(self).router, final(self).router),
@@end
@@fn src/server.rs Octane@Route::add
@props C01 C03
@ret r
@params closure
@spec
    requires old(self).router.inv(), old(self).router.route_counter < usize::MAX,
    ensures
        final(self).settings == old(self).settings,
        r is Ok, final(self).router.inv(), final(self).router.route_counter == old(self).router.route_counter + 1, final(self).router.paths == old(self).router.paths,
        final(self).router.middlewares@ == old(self).router.middlewares@.push(Closures { closure: closure, index: old(self).router.route_counter }),
@@end
}
