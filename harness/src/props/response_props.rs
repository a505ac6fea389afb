use super::*;
use octane::responder::Response;
use octane::StatusCode;
use octane_http::HttpVersion;
use tokio::io::AsyncReadExt;

// ---- the clock --------------------------------------------------------------------
thread_local! {
    static FAKE: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
}
/// The program's own clock_gettime: the real one, unless this thread set a fake wall clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let f = FAKE.try_with(|f| f.get()).unwrap_or(-1);
        if f >= 0 {
            (*ts).tv_sec = f;
            (*ts).tv_nsec = 123456789;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}

fn data(res: Response) -> (Vec<u8>, Vec<u8>) {
    let (head, mut rd) = res.get_data();
    let mut b = vec![];
    block(async {
        rd.read_to_end(&mut b).await.unwrap();
    });
    (head.into_bytes(), b)
}

// ---------------------------------------------------------------- C11
fn date_at(t: i64) -> Option<String> {
    FAKE.with(|f| f.set(t));
    let d = fresh_date();
    FAKE.with(|f| f.set(-1));
    d
}
#[cfg(feature = "full")]
fn fresh_date() -> Option<String> {
    let mut r = Response::default();
    r.send("");
    r.get("Date").cloned()
}
#[cfg(not(feature = "full"))]
fn fresh_date() -> Option<String> {
    None
}
pub fn c11(run: &mut Run) {
    if !FULL {
        return;
    }
    let check = |t: i64| -> Option<Out> {
        let want = spec::imf(t);
        let got = date_at(t).unwrap_or_default();
        if got != want {
            return Some(Out::Fail { input: format!("clock at {} s after the epoch", t), expected: want, got });
        }
        None
    };
    let days = 2932897i64; // 1970-01-01 .. 9999-12-31
    let chunk = 1000i64;
    run.section("every-day", ((days + chunk - 1) / chunk) as u64, true, "every day from 1970-01-01 to 9999-12-31 at a random second of the day, in blocks of 1000 days", |_, i, r| {
        let i = i as i64;
        for d in i * chunk..((i + 1) * chunk).min(days) {
            let s = match r.below(6) {
                0 => 0,
                1 => 86399,
                _ => r.below(86400) as i64,
            };
            if let Some(f) = check(d * 86400 + s) {
                return f;
            }
        }
        Out::Ok(i as u64, true, format!("days {}..{}", i * chunk, (i + 1) * chunk))
    });
    run.section("every-second", 87, true, "every second of 2024-02-29, in blocks of 1000", |_, i, _| {
        let base = 19782i64 * 86400;
        for s in i as i64 * 1000..(i as i64 * 1000 + 1000).min(86400) {
            if let Some(f) = check(base + s) {
                return f;
            }
        }
        Out::Ok(i, true, format!("seconds {}..", i * 1000))
    });
    run.section("month-ends", 8030, true, "first and last second of every month of every year, 1970..9999, in blocks of one year", |_, i, _| {
        let y = 1970 + i as i64;
        // day number of y-01-01
        let mut d = (y - 1) * 365 + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 - 719162;
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        for l in [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
            for t in [d * 86400, (d + l) * 86400 - 1] {
                if let Some(f) = check(t) {
                    return f;
                }
            }
            d += l;
        }
        Out::Ok(i, true, format!("year {}", y))
    });
    // the header that reaches the client
    run.section("re-sent", 16, false, "a handler sends, waits 1.1 to 2.1 seconds and sends again, with or without a Date header of its own before it: the date is that of the last send", |w, i, _| {
        let s = w.server("slow", &|_: &Log| {
            let mut app = Octane::new();
            app.add(Box::new(move |req, res| {
                let p = req.request.request_line.path.chunks.join("/");
                if p.contains('a') {
                    res.set("Date", "Mon, 01 Jan 1990 00:00:00 GMT");
                } else {
                    res.send("one");
                }
                std::thread::sleep(std::time::Duration::from_millis(if p.contains('b') { 1100 } else { 2100 }));
                res.send("two");
                Flow::Stop
            }))
            .unwrap();
            app
        });
        let b = format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", ["", "a", "b", "ab"][i as usize % 4]).into_bytes();
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let t0 = now() + 1;
        let rep = exchange(&s, &[(&b, 0)], false);
        let t1 = now();
        match status_of(&rep) {
            Ok(x) => {
                let d = x.get("date").first().map(|s| s.to_string()).unwrap_or_default();
                if (t0..=t1).any(|t| spec::imf(t) == d) {
                    Out::Ok(i, true, d)
                } else {
                    fail(&b, spec::imf(t1), d)
                }
            }
            Err(_) if undecidable(&rep) => Out::Skip("reset".into()),
            Err(e) => fail(&b, "a response".into(), e),
        }
    });
    run.section("on-the-wire", 40, false, "the Date header of real responses (handler and built-in error pages) names the current time, over some seconds", |w, i, _| {
        let s = sink(w);
        std::thread::sleep(std::time::Duration::from_millis(if i % 16 < 8 { 130 } else { 1010 }));
        let b: &[u8] = match i % 3 { 0 => b"GET / HTTP/1.1\r\nHost: h\r\n\r\n", 1 => b"GET / HTTP/1.1\r\n\r\n", _ => b"FOO / HTTP/1.1\r\nHost: h\r\n\r\n" };
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let t0 = now();
        let rep = exchange(&s, &[(b, 0)], false);
        let t1 = now();
        match status_of(&rep) {
            Ok(x) => {
                let d = x.get("date").first().map(|s| s.to_string()).unwrap_or_default();
                if (t0..=t1).any(|t| spec::imf(t) == d) {
                    Out::Ok(i, true, d)
                } else {
                    fail(b, spec::imf(t0), d)
                }
            }
            Err(_) if undecidable(&rep) => Out::Skip("reset".into()),
            Err(e) => fail(b, "a response".into(), e),
        }
    });
}

// ---------------------------------------------------------------- C12 / C13 / C14: what a handler does to a response
#[derive(Debug, Clone)]
pub enum ROp {
    Set(String, String),
    Status(usize),
    Version(usize),
    Type(&'static str),
    Attach,
    Redirect(String),
    Send(Vec<u8>),
    File(String),
    Cookie(String, String, usize),
}

fn all_status() -> Vec<(StatusCode, u32)> {
    use StatusCode::*;
    vec![
        (Continue, 100), (SwitchingProtocol, 101), (Processing, 102), (EarlyHints, 103), (Ok, 200), (Created, 201), (Accepted, 202),
        (NonauthoritativeInformation, 203), (NoContent, 204), (ResetContent, 205), (PartialContent, 206), (Multistatus, 207),
        (AlreadyReported, 208), (ImUsed, 226), (MultipleChoice, 300), (MovedPermanently, 301), (Found, 302), (SeeOther, 303),
        (NotModified, 304), (TemporaryRedirect, 307), (PermanentRedirect, 308), (BadRequest, 400), (Unauthorized, 401),
        (PaymentRequired, 402), (Forbidden, 403), (NotFound, 404), (MethodNotAllowed, 405), (NotAcceptable, 406),
        (ProxyAuthenticationRequired, 407), (RequestTimeout, 408), (Conflict, 409), (Gone, 410), (LengthRequired, 411),
        (PreconditionFailed, 412), (PayloadTooLarge, 413), (UriTooLong, 414), (UnsupportedMediaType, 415), (RangeNotSatisfiable, 416),
        (ExpectationFailed, 417), (ImATeapot, 418), (MisdirectedRequest, 421), (UnprocessableEntity, 422), (Locked, 423),
        (FailedDependency, 424), (TooEarly, 425), (UpgradeRequired, 426), (PreconditionRequired, 428), (TooManyRequests, 429),
        (RequestHeaderFieldsTooLarge, 431), (UnavailableForLegalReasons, 451), (InternalServerError, 500), (NotImplemented, 501),
        (BadGateway, 502), (ServiceUnavailable, 503), (GatewayTimeout, 504), (HttpVersionNotSupported, 505),
        (VariantAlsoNegotiates, 506), (InsufficientStorage, 507), (LoopDetected, 508), (NotExtended, 510),
        (NetworkAuthenticationRequired, 511),
    ]
}

const VERS: [(&str, fn() -> HttpVersion); 4] = [
    ("1.1", || HttpVersion::Http11),
    ("1.0", || HttpVersion::Http10),
    ("2.0", || HttpVersion::Http02),
    ("0.9", || HttpVersion::Http09),
];
const TYPES: &[&str] = &["application/json", "text/plain", "image/png", "x/y; charset=utf-8"];

#[cfg(feature = "full")]
fn cookie_of(n: &str, v: &str, k: usize) -> cookie::Cookie<'static> {
    let mut b = cookie::Cookie::build(n.to_string(), v.to_string());
    if k & 1 != 0 {
        b = b.http_only(true);
    }
    if k & 2 != 0 {
        b = b.secure(true);
    }
    if k & 4 != 0 {
        b = b.path("/p");
    }
    if k & 8 != 0 {
        b = b.domain("ex.org");
    }
    if k & 16 != 0 {
        b = b.same_site(*[cookie::SameSite::Strict, cookie::SameSite::Lax, cookie::SameSite::None].get(k / 32 % 3).unwrap());
    }
    let mut c = b.finish();
    if k & 64 != 0 {
        // lifetimes, as the cookie crate reads them
        let t = cookie::Cookie::parse(["x=y; Max-Age=0", "x=y; Max-Age=86401; Expires=Wed, 21 Oct 2015 07:28:00 GMT", "x=y; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "x=y; Max-Age=5"][k / 128 % 4]).unwrap();
        if let Some(m) = t.max_age() {
            c.set_max_age(m);
        }
        if let Some(e) = t.expires() {
            c.set_expires(e);
        }
    }
    c
}

fn apply(res: &mut Response, ops: &[ROp]) {
    for o in ops {
        match o {
            ROp::Set(k, v) => {
                res.set(k, v);
            }
            ROp::Status(i) => {
                res.status(all_status()[*i].0);
            }
            ROp::Version(i) => {
                res.http_version(VERS[*i].1());
            }
            ROp::Type(t) => {
                res.with_type(t);
            }
            ROp::Attach => {
                res.attachment();
            }
            ROp::Redirect(l) => {
                res.redirect(l);
            }
            ROp::Send(b) => res.send(b),
            ROp::File(p) => {
                res.send_file(p).unwrap();
            }
            ROp::Cookie(n, v, k) => {
                #[cfg(feature = "full")]
                res.cookie(octane::cookie::Cookie::from(cookie_of(n, v, *k)));
                let _ = (n, v, k);
            }
        }
    }
}

#[derive(Debug, Clone)]
struct Want {
    version: String,
    code: u32,
    headers: BTreeMap<String, String>,
    cookies: Vec<String>,
    body: Option<Vec<u8>>,
    dated: bool,
}

fn model(ops: &[ROp]) -> Want {
    let mut w = Want { version: "1.1".into(), code: 200, headers: BTreeMap::new(), cookies: vec![], body: None, dated: false };
    for o in ops {
        match o {
            ROp::Set(k, v) => {
                w.headers.insert(k.clone(), v.clone());
            }
            ROp::Status(i) => w.code = all_status()[*i].1,
            ROp::Version(i) => w.version = VERS[*i].0.into(),
            ROp::Type(t) => {
                w.headers.insert("Content-Type".into(), t.to_string());
            }
            ROp::Attach => {
                w.headers.insert("Content-Disposition".into(), "attachment".into());
            }
            ROp::Redirect(l) => {
                w.code = 302;
                w.headers.insert("Location".into(), l.clone());
            }
            ROp::Send(b) => {
                w.headers.insert("Content-Length".into(), b.len().to_string());
                w.headers.entry("Content-Type".into()).or_insert("text/html".into());
                w.dated = true;
                w.headers.remove("Date");
                w.body = Some(b.clone());
            }
            ROp::File(p) => {
                let b = std::fs::read(p).unwrap();
                w.headers.insert("Content-Length".into(), b.len().to_string());
                let ext = std::path::Path::new(p).extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
                w.headers.insert("Content-Type".into(), spec::mime(&ext).into());
                w.dated = true;
                w.headers.remove("Date");
                w.body = Some(b);
            }
            ROp::Cookie(n, v, k) => {
                #[cfg(feature = "full")]
                w.cookies.push(cookie_of(n, v, *k).to_string());
                let _ = (n, v, k);
            }
        }
    }
    w
}

/// Strict comparison of response bytes with the model.
fn compare(b: &[u8], w: &Want) -> Result<(), (String, String)> {
    let r = parse_resp(b).map_err(|e| (format!("{:?}", w.clone().short()), format!("{}: {}", e, show(b))))?;
    let bad = |e: String, g: String| Err((e, g));
    if r.version != w.version || r.code != w.code || Some(r.phrase.clone()) != spec::phrase(w.code) {
        return bad(format!("HTTP/{} {} {:?}", w.version, w.code, spec::phrase(w.code)), format!("HTTP/{} {} {}", r.version, r.code, r.phrase));
    }
    let mut hs: BTreeMap<String, String> = BTreeMap::new();
    let mut cs = vec![];
    for (k, v) in &r.headers {
        if k == "Set-Cookie" {
            cs.push(v.clone());
        } else if hs.insert(k.clone(), v.clone()).is_some() {
            return bad(format!("header {} once", k), format!("{:?}", r.headers));
        }
    }
    if w.dated && !w.headers.contains_key("Date") {
        let d = hs.remove("Date").ok_or(("a Date header".to_string(), format!("{:?}", r.headers)))?;
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        if !(now - 60..=now).rev().any(|t| spec::imf(t) == d) {
            return bad(format!("Date: {}", spec::imf(now)), format!("Date: {}", d));
        }
    }
    if hs != w.headers {
        return bad(format!("headers {:?}", w.headers), format!("headers {:?}", hs));
    }
    if cs != w.cookies {
        return bad(format!("Set-Cookie {:?}", w.cookies), format!("Set-Cookie {:?}", cs));
    }
    let body = w.body.clone().unwrap_or_default();
    if r.body != body {
        return bad(format!("body of {} bytes {}", body.len(), show(&body)), format!("body of {} bytes {}", r.body.len(), show(&r.body)));
    }
    Ok(())
}
impl Want {
    fn short(mut self) -> Want {
        if let Some(b) = &mut self.body {
            b.truncate(60);
        }
        self
    }
}

type Script = std::sync::Arc<std::sync::Mutex<Vec<ROp>>>;
thread_local! {
    static SCRIPT: Script = Default::default();
}
/// Run `ops` in a handler and return what the client receives.
fn wire(w: &mut Worker, ops: &[ROp]) -> Reply {
    let sc = SCRIPT.with(|s| s.clone());
    *sc.lock().unwrap() = ops.to_vec();
    let s = w.server("script", &move |_: &Log| {
        let sc = sc.clone();
        let mut app = Octane::new();
        app.add_route("/", Box::new(move |_req, res| {
            apply(res, &sc.lock().unwrap());
            Flow::Stop
        }))
        .unwrap();
        app
    });
    exchange(&s, &[(&any_request(hash_of(&brief(ops)) as usize), 0)], false)
}
/// what is asked must not matter to how the handler's response is sent: one of many requests for "/"
fn any_request(k: usize) -> Vec<u8> {
    let m = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT", "GET", "GET"][k % 11];
    let v = ["1.1", "1.0", "1.1", "2.0", "0.9", "1.1"][k / 11 % 6];
    let h = if k / 66 % 3 == 0 { "" } else { REQ_HEADERS[k / 198 % REQ_HEADERS.len()] };
    format!("{} / HTTP/{}\r\nHost: h\r\n{}\r\n", m, v, h).into_bytes()
}
pub const REQ_HEADERS: &[&str] = &[
    "Accept: nothing/at-all\r\n", "Accept-Encoding: gzip, deflate, br\r\n", "Accept-Encoding: identity;q=0\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "Connection: Keep-Alive\r\nKeep-Alive: timeout=5, max=2\r\n", "Connection: Upgrade\r\nUpgrade: h2c\r\n", "Expect: 100-continue\r\n", "If-None-Match: *\r\n", "If-Modified-Since: Fri, 31 Dec 9999 23:59:59 GMT\r\n", "If-Match: \"x\"\r\n", "Range: bytes=0-1\r\n", "TE: trailers\r\n", "Transfer-Encoding: identity\r\n", "Max-Forwards: 0\r\n", "X-HTTP-Method-Override: DELETE\r\n", "Authorization: Basic eDp5\r\n", "Cookie: a=b\r\n", "Origin: http://other\r\n", "Content-Type: application/json\r\n", "Content-Encoding: gzip\r\n", "User-Agent: curl/7\r\n", "User-Agent:\r\n", "Host: other\r\n", "Forwarded: for=1\r\n", "X-Forwarded-Host: z\r\n", "Referer: /..\r\n", "Cache-Control: no-cache\r\n", "Pragma: no-cache\r\n", "Date: x\r\n", "Via: 1.0 x\r\n", "Content-Length: 0\r\n", "Accept-Charset: latin1\r\n", "Sec-WebSocket-Key: x\r\n", "Trailer: x\r\n", "Last-Modified: x\r\n",
];
/// contents that something might want to interpret
fn odd_contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for s in [&b"\xef\xbb\xbftext"[..], b"\xff\xfet\0", b"\r\n", b"a\r\nb\r\n", b"a\nb\n", b"a\rb", b"\n", b"\0", b"\0\0\0\0", b" x ", b"\tx\t\n", b"<html></html>\n", b"{\"a\": 1}", b"\x1f\x8b\x08\0", b"\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n", b"0\r\n\r\n", b"\xc3\xa9", b"\xc3", b"\x80\xff", b"\xf0\x9f\x98\x80", b"%41", b"\x1a", b"\x04", b"x\0y", b"{}", b"{0}", b"&lt;", b"\x7f", b"\xe2\x80\xa8", b"\xed\xa0\x80"] {
        v.push(s.to_vec());
        v.push([s, b"tail"].concat());
        v.push([b"head", s].concat());
        v.push(s.repeat(900));
    }
    v
}
/// C16: whatever the handlers do to the response, a response with a body arrives with its status and body, one without as 404
pub fn responses(run: &mut Run) {
    run.section("responses", 700 * run.scale, false, "handlers doing up to 12 random things to the response (headers, status, version, cookies, bodies), each asked for by one of many requests", |w, _, r| {
        let ops: Vec<ROp> = (0..r.range(0, 12)).map(|_| rop(r, &[])).collect();
        let rep = wire(w, &ops);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        let input = format!("handler: {}; request {}", brief(&ops), show(&any_request(hash_of(&brief(&ops)) as usize)));
        let want = model(&ops);
        let (code, body) = match &want.body {
            Some(b) => (want.code, Some(b.clone())),
            None => (404, None),
        };
        let expected = format!("status {}{}", code, body.as_ref().map(|b| format!(" and a body of {} bytes", b.len())).unwrap_or_default());
        match status_of(&rep) {
            Err(e) => Out::Fail { input, expected, got: e },
            Ok(p) => {
                if p.code != code || body.as_ref().map_or(false, |b| *b != p.body) {
                    Out::Fail { input, expected, got: format!("status {} and a body of {} bytes", p.code, p.body.len()) }
                } else {
                    Out::Ok(hash_of(&input), true, input)
                }
            }
        }
    });
}
fn on_wire(w: &mut Worker, ops: &[ROp]) -> Out {
    let rep = wire(w, ops);
    if undecidable(&rep) {
        return Out::Skip("reset".into());
    }
    let input = format!("handler: {}; request {}", brief(ops), show(&any_request(hash_of(&brief(ops)) as usize)));
    let want = model(ops);
    let want = if want.body.is_none() { return Out::Ok(0, false, String::new()) } else { want };
    match status_of(&rep) {
        Err(e) => Out::Fail { input, expected: format!("{:?}", want.short()), got: e },
        Ok(_) => match compare(&rep.bytes, &want) {
            Ok(()) => Out::Ok(hash_of(&input), true, input),
            Err((e, g)) => Out::Fail { input, expected: e, got: g },
        },
    }
}
fn brief(ops: &[ROp]) -> String {
    let v: Vec<String> = ops
        .iter()
        .map(|o| match o {
            ROp::Send(b) if b.len() > 60 => format!("Send({} bytes {}...)", b.len(), show(&b[..40])),
            ROp::Set(k, v) if v.len() > 200 => format!("Set({}, {} bytes)", k, v.len()),
            o => format!("{:?}", o),
        })
        .take(80)
        .collect();
    v.join("; ")
}
#[cfg(feature = "full")]
fn in_process(ops: &[ROp]) -> Out {
    let mut res = Response::default();
    apply(&mut res, ops);
    let (mut h, b) = data(res);
    h.extend(b);
    let input = format!("Response::default(); {}", brief(ops));
    match compare(&h, &model(ops)) {
        Ok(()) => Out::Ok(hash_of(&input), !ops.is_empty(), input),
        Err((e, g)) => Out::Fail { input, expected: e, got: g },
    }
}
#[cfg(not(feature = "full"))]
fn in_process(_: &[ROp]) -> Out {
    let _ = data;
    Out::Ok(0, false, String::new())
}

fn rop(r: &mut Rng, files: &[String]) -> ROp {
    const K: &[&str] = &["X-A", "X-B", "Cache-Control", "ETag", "x-a", "Server", "Vary", "Allow", "Date"];
    match r.below(12) {
        0..=3 => {
            let k = match r.below(20) {
                0..=11 => r.pick(K).to_string(),
                12..=14 => r.pick(crate::gen::HNAMES).to_string(),
                15 | 16 => r.dstr(100).map(|d| d.chars().filter(|c| is_token(*c)).collect::<String>()).unwrap_or_else(|| r.pick(K).to_string()),
                _ => word(r, TOK, 1, 4),
            };
            let odd = k.is_empty() || ["set-cookie", "content-length", "content-type"].contains(&k.to_ascii_lowercase().as_str());
            ROp::Set(if odd { "X-C".into() } else { k }, word(r, VAL, 0, 6))
        }
        4 => ROp::Status(r.below(all_status().len())),
        5 => ROp::Version(r.below(4)),
        6 => ROp::Type(TYPES[r.below(TYPES.len())]),
        7 => {
            if r.chance(50) {
                ROp::Attach
            } else {
                ROp::Redirect(path(r))
            }
        }
        8 | 9 => {
            let n = match r.dnum(20, 3_000_000) { Some(n) => n, None => *r.pick(&[0, 1, 5, 100, 2047, 2048, 2049, 9000]) };
            ROp::Send(bytes(r, n))
        }
        10 if !files.is_empty() => ROp::File(r.pick(files).clone()),
        _ => ROp::Cookie(word(r, &["a", "b", "c", "S", "_"], 1, 4), word(r, &["v", "0", "-", "=", ".", "é", " ", ",", "%", ";", "\"", "\\"], 0, 6), r.below(512)),
    }
}

pub fn c12(run: &mut Run) {
    run.section("in-process", 4000 * run.scale, false, "random sequences of up to 10 response operations on a fresh response; the serialised head and body are parsed strictly and compared with a model", |_, _, r| {
        let n = r.range(0, 10);
        let ops: Vec<ROp> = (0..n).map(|_| rop(r, &[])).collect();
        in_process(&ops)
    });
    run.section("on-the-wire", 3000 * run.scale, false, "the same operations performed by a handler; the bytes the client receives are compared", |w, _, r| {
        let n = r.range(0, 8);
        let mut ops: Vec<ROp> = (0..n).map(|_| rop(r, &[])).collect();
        let nb = r.below(300);
        ops.push(ROp::Send(bytes(r, nb)));
        let m = r.below(3);
        ops.extend((0..m).map(|_| rop(r, &[])));
        on_wire(w, &ops)
    });
    run.section("large-heads", 6, false, "heads of several megabytes (one long value, or thousands of headers): all of it arrives, then the body", |w, i, r| {
        let n = r.range(6, 14) << 20;
        let mut ops = if i % 2 == 0 { vec![ROp::Set("X-Big".into(), "v".repeat(n))] } else { (0..4000).map(|k| ROp::Set(format!("X-{}", k), "w".repeat(n / 4000))).collect() };
        ops.push(ROp::Send(b"tail".to_vec()));
        on_wire(w, &ops)
    });
    let mut v: Vec<(usize, usize)> = vec![];
    for (k, max) in [1500usize, 70000, 70000, 1500, 70000, 1500, 1500].iter().enumerate() {
        v.extend(sizes(*max).into_iter().map(|n| (k, n)));
    }
    run.section("extremes", v.len() as u64, true, "n headers, a name or value of n characters, n cookies, a cookie value of n characters, n times the same header, n sends; n = 1..34, around round numbers and powers of two, and sizes the source names", |w, i, _| {
        let (k, n) = v[i as usize];
        let long: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
        let mut ops: Vec<ROp> = match k {
            0 => (0..n).map(|k| ROp::Set(format!("X-{}", k), format!("v{}", k))).collect(),
            1 => vec![ROp::Set(long, "v".into()), ROp::Set("A".into(), "b".into())],
            2 => vec![ROp::Set("X-Long".into(), long), ROp::Set("A".into(), "b".into())],
            3 => (0..n).map(|k| ROp::Cookie(format!("c{}", k), format!("v{}", k), k % 512)).collect(),
            4 => vec![ROp::Cookie("c".into(), long, 0), ROp::Cookie("d".into(), "e".into(), 3)],
            5 => (0..n).map(|k| ROp::Set("X-Same".into(), format!("v{}", k))).collect(),
            _ => (0..n).map(|k| ROp::Send(format!("body {}", k).into_bytes())).collect(),
        };
        if k != 6 {
            ops.push(ROp::Send(b"x".to_vec()));
        }
        if n % 2 == 0 && n > 34 { in_process(&ops) } else { on_wire(w, &ops) }
    });
    run.section("many-headers", 150, false, "1..60 distinct headers and 0..20 cookies: each exactly once, cookies in order", |w, i, r| {
        let n = size(r, 1, 60, 5000);
        let c = size(r, 0, 20, 2000);
        let mut ops: Vec<ROp> = (0..n).map(|k| ROp::Set(format!("X-{}", k), format!("v{}", k))).collect();
        ops.extend((0..c).map(|k| ROp::Cookie(format!("c{}", k % 15), format!("{}", k), 0)));
        ops.push(ROp::Send(b"x".to_vec()));
        if i % 2 == 0 {
            in_process(&ops)
        } else {
            on_wire(w, &ops)
        }
    });
}

fn scratch(tag: &str) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("vh-{}-{}", tag, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn c13(run: &mut Run) {
    let dir = Scratch(scratch("c13"));
    let mut files = vec![];
    for n in [0usize, 1, 3, 2048, 5000] {
        let p = dir.0.join(format!("f{}.txt", n));
        std::fs::write(&p, vec![b'f'; n]).unwrap();
        files.push(p.to_string_lossy().to_string());
    }
    fn len_ok(bytes: &[u8], body: &[u8], input: String) -> Out {
        match parse_resp(bytes) {
            Err(e) => Out::Fail { input, expected: "a well-formed response".into(), got: format!("{}: {}", e, show(bytes)) },
            Ok(r) => {
                let cl = r.get("content-length");
                if cl.len() != 1 || cl[0] != r.body.len().to_string() || r.body != body {
                    return Out::Fail {
                        input,
                        expected: format!("Content-Length {} and exactly that body", body.len()),
                        got: format!("Content-Length {:?}, {} body bytes{}", cl, r.body.len(), if r.body != body { ", different content" } else { "" }),
                    };
                }
                Out::Ok(hash_of(&input), true, input)
            }
        }
    }
    let odd = odd_contents();
    run.section("odd-contents", odd.len() as u64 * 2, true, "bodies that something might interpret (byte order marks, line ends, NUL, markup, partial UTF-8, ...) at the start, the end and repeated", |w, i, _| {
        let b = odd[i as usize / 2].clone();
        let mut ops = vec![ROp::Send(b.clone())];
        if i % 2 == 1 {
            ops.insert(0, ROp::Type("application/json"));
        }
        let rep = wire(w, &ops);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        len_ok(&rep.bytes, &b, brief(&ops))
    });
    run.section("every-length", 3000, true, "handler sends a body of every length from 0 to 2999", |w, i, r| {
        let b = bytes(r, i as usize);
        let ops = vec![ROp::Send(b.clone())];
        let rep = wire(w, &ops);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        len_ok(&rep.bytes, &b, format!("send({} bytes)", i))
    });
    let fl = &files;
    run.section("resends", 2500 * run.scale, false, "several sends and files, the last one counts; other operations in between", |w, _, r| {
        let n = r.range(1, 7);
        let ops: Vec<ROp> = (0..n)
            .map(|_| if r.chance(60) { if r.chance(60) { let k = r.below(70); ROp::Send(bytes(r, k)) } else { ROp::File(r.pick(fl).clone()) } } else { rop(r, fl) })
            .filter(|o| !matches!(o, ROp::Set(k, _) if k.eq_ignore_ascii_case("content-length")))
            .collect();
        let want = model(&ops);
        let body = match want.body {
            Some(b) => b,
            None => return Out::Ok(0, false, String::new()),
        };
        let rep = wire(w, &ops);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        len_ok(&rep.bytes, &body, brief(&ops))
    });
    let mut ns = crate::gen::sizes(2_000_000);
    for s in 16..=22 {
        ns.extend([(1usize << s) - 1, 1 << s, (1 << s) + 1]);
    }
    ns.extend([999_999, 1_000_000, 1_000_001]);
    let ns = &ns;
    let dd = &dir.0;
    run.section("round-lengths", ns.len() as u64 * 2, true, "bodies and files of lengths around round numbers and powers of two up to 4 MB, and lengths the source names", |w, i, r| {
        let n = ns[i as usize / 2];
        let b = bytes(r, n);
        let ops = if i % 2 == 0 {
            vec![ROp::Send(b.clone())]
        } else {
            let p = dd.join(format!("r{}.txt", i));
            std::fs::write(&p, &b).unwrap();
            vec![ROp::File(p.to_string_lossy().to_string())]
        };
        let rep = wire(w, &ops);
        if let ROp::File(p) = &ops[0] {
            let _ = std::fs::remove_file(p);
        }
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        len_ok(&rep.bytes, &b, format!("{}({} bytes)", if i % 2 == 0 { "send" } else { "send_file" }, n))
    });
    run.section("large", 12 * run.scale, false, "bodies up to 4 MB", |w, _, r| {
        let n = size(r, 10_000, 4_000_000, 8_000_000);
        let b = bytes(r, n);
        let rep = wire(w, &[ROp::Send(b.clone())]);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        len_ok(&rep.bytes, &b, format!("send({} bytes)", n))
    });
    run.section("error-pages", 60, false, "the server's own 400, 404 and 501 responses", |w, i, _| {
        let s = sink(w);
        let empty = w.server("empty", &|_: &Log| Octane::new());
        let (s, b): (Srv, &[u8]) = match i % 4 {
            0 => (s, b"GET / HTTP/1.1\r\n\r\n"),
            1 => (s, b"FOO / HTTP/1.1\r\nHost: h\r\n\r\n"),
            2 => (empty, b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n"),
            _ => (s, b"garbage\r\n\r\n"),
        };
        let rep = exchange(&s, &[(b, 0)], true);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        match status_of(&rep) {
            Err(e) => fail(b, "an error response".into(), e),
            Ok(x) => len_ok(&rep.bytes, &x.body.clone(), show(b)),
        }
    });
}

pub fn c14(run: &mut Run) {
    let dir = Scratch(scratch("c14"));
    let d = dir.0.clone();
    let d = &d;
    let sizes: Vec<usize> = std::iter::once(0).chain(crate::gen::sizes(1 << 24))
        .chain([255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 100_000, 1_000_003])
        .collect();
    let szs = &sizes;
    run.section("contents", sizes.len() as u64 * 2, true, "files of sizes 0..34, around round numbers and powers of two, 1 MB, and sizes the source names, with random contents: served whole and unaltered, on the wire and in process", |w, i, r| {
        let n = szs[i as usize / 2];
        let p = d.join(format!("f{}-{}.txt", n, i));
        std::fs::write(&p, bytes(r, n)).unwrap();
        let ops = vec![ROp::File(p.to_string_lossy().to_string())];
        let o = if i % 2 == 0 { on_wire(w, &ops) } else { in_process(&ops) };
        let _ = std::fs::remove_file(&p);
        o
    });
    let odd = odd_contents();
    run.section("odd-contents", odd.len() as u64 * 4, true, "contents that something might interpret (byte order marks, line ends, NUL, markup, partial UTF-8, ...) at the start, the end and repeated, in files of four types", |w, i, _| {
        let p = d.join(format!("o{}.{}", i, ["txt", "html", "json", "bin"][i as usize % 4]));
        std::fs::write(&p, &odd[i as usize / 4]).unwrap();
        let ops = vec![ROp::File(p.to_string_lossy().to_string())];
        let o = if i % 3 == 0 { on_wire(w, &ops) } else { in_process(&ops) };
        let _ = std::fs::remove_file(&p);
        o
    });
    run.section("repeat-and-small-reads", 40, false, "the body reader delivers the whole file also when it is read in tiny pieces", |_, i, r| {
        small_reads(d, i, r)
    });
    let mut exts: Vec<String> = spec::MIME.iter().map(|m| m.0.to_string()).collect();
    for e in ["", "unknown", "tx", "htmlx", "cs", "jso", "xhtm", "mp4", "docxx", "7", "woff3"] {
        exts.push(e.into());
    }
    let ex = &exts;
    run.section("media-types", exts.len() as u64 * 4, true, "every known extension and 11 unknown ones, in lower, upper and mixed case and with dots in the stem", |w, i, _| {
        let e = &ex[i as usize / 4];
        let (e, stem) = match i % 4 {
            0 => (e.clone(), "file"),
            1 => (e.to_uppercase(), "file"),
            2 => (e.chars().enumerate().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(), "fi"),
            _ => (e.clone(), "a.html.b"),
        };
        let p = d.join(format!("{}{}-{}{}{}", stem, i, "x", if e.is_empty() { "" } else { "." }, e));
        std::fs::write(&p, b"data").unwrap();
        // a type set before is replaced by the file's own
        let ops = vec![ROp::Type("x/y; charset=utf-8"), ROp::File(p.to_string_lossy().to_string())];
        let o = if i % 2 == 0 { on_wire(w, &ops) } else { in_process(&ops) };
        let _ = std::fs::remove_file(&p);
        o
    });
    // names that look like an extension, hidden files, several dots, extensions of the directory
    run.section("file-names", (exts.len() * 8) as u64, true, "for every extension E: files called 'E', '.E', 'a.', 'a..E', 'a.E.', 'a.E.zz', 'zz.html.E' and 'E' in a directory 'd.E'", |w, i, _| {
        let e = if ex[i as usize / 8].is_empty() { "html" } else { ex[i as usize / 8].as_str() };
        let sub = d.join(format!("n{}{}", i, if i % 8 == 7 { format!(".{}", e) } else { String::new() }));
        std::fs::create_dir_all(&sub).unwrap();
        let n = match i % 8 {
            0 | 7 => e.to_string(),
            1 => format!(".{}", e),
            2 => "a.".to_string(),
            3 => format!("a..{}", e),
            4 => format!("a.{}.", e),
            5 => format!("a.{}.zz", e),
            _ => format!("zz.html.{}", e),
        };
        let p = sub.join(n);
        std::fs::write(&p, b"data").unwrap();
        let ops = vec![ROp::File(p.to_string_lossy().to_string())];
        let o = if i % 2 == 0 { on_wire(w, &ops) } else { in_process(&ops) };
        let _ = std::fs::remove_dir_all(&sub);
        o
    });
    run.section("file-random", 300 * run.scale, false, "random names and extensions, random contents, after other operations on the response; links to files", |w, i, r| {
        let sub = d.join(format!("r{}", i));
        std::fs::create_dir_all(&sub).unwrap();
        let mut n = word(r, &["a", "B", ".", "é", "-", "html", " "], 1, 4).replace('/', "_");
        n.push('.');
        n.push_str(&match r.dstr(30) { Some(x) => x.trim_start_matches('.').replace('/', "_").replace(|c: char| c.is_control(), ""), None => r.pick(ex).clone() });
        if n.trim_matches('.').is_empty() || n.len() > 200 {
            n = "x.css".into();
        }
        let p = sub.join(&n);
        let k = size(r, 0, 5000, 3_000_000);
        std::fs::write(&p, bytes(r, k)).unwrap();
        let mut t = p.clone();
        if r.chance(20) {
            t = sub.join("link.png");
            let _ = std::os::unix::fs::symlink(&p, &t);
        }
        let mut ops: Vec<ROp> = (0..r.below(4)).map(|_| rop(r, &[])).collect();
        ops.push(ROp::File(t.to_string_lossy().to_string()));
        let o = if i % 2 == 0 { on_wire(w, &ops) } else { in_process(&ops) };
        let _ = std::fs::remove_dir_all(&sub);
        o
    });
    run.section("not-a-file", 20, false, "missing files and directories are refused with an error and leave the response without that body", |_, i, _| not_a_file(d, i));
}
#[cfg(feature = "full")]
fn not_a_file(d: &std::path::Path, i: u64) -> Out {
    let p = match i % 4 {
        0 => d.join("missing.txt"),
        1 => d.to_path_buf(),
        2 => d.join("x").join("y"),
        _ => std::path::PathBuf::from(""),
    };
    let mut res = Response::default();
    res.send("before");
    let r = res.send_file(&p.to_string_lossy());
    let ok = r.is_ok();
    let (h, b) = data(res);
    if ok || b != b"before" || !String::from_utf8_lossy(&h).contains("Content-Length: 6\r\n") {
        return Out::Fail { input: format!("send(\"before\"); send_file({:?})", p), expected: "an error, body still \"before\"".into(), got: format!("ok={} head {} body {}", ok, show(&h), show(&b)) };
    }
    Out::Ok(i, true, format!("send_file({:?})", p))
}
#[cfg(not(feature = "full"))]
fn not_a_file(_: &std::path::Path, _: u64) -> Out {
    Out::Ok(0, false, String::new())
}
#[cfg(feature = "full")]
fn small_reads(d: &std::path::Path, i: u64, r: &mut Rng) -> Out {
    let n = r.range(0, 3000);
    let want = bytes(r, n);
    let p = d.join(format!("s{}.bin", i));
    std::fs::write(&p, &want).unwrap();
    let mut res = Response::default();
    res.send_file(&p.to_string_lossy()).unwrap();
    let (_, mut rd) = res.get_data();
    let mut got = vec![];
    let sizes: Vec<usize> = (0..7).map(|_| r.range(1, 90)).collect();
    block(async {
        let mut k = 0;
        loop {
            let mut b = vec![0xEEu8; sizes[k % 7]];
            let m = rd.read(&mut b).await.unwrap();
            if m == 0 {
                break;
            }
            got.extend_from_slice(&b[..m]);
            if got.len() > 10000 {
                break;
            }
            k += 1;
        }
    });
    let _ = std::fs::remove_file(&p);
    if got != want {
        return Out::Fail { input: format!("file of {} bytes read in pieces of {:?}", n, sizes), expected: format!("{} bytes", n), got: format!("{} bytes, equal prefix {}", got.len(), got.iter().zip(&want).take_while(|(a, b)| a == b).count()) };
    }
    Out::Ok(hash_of(&(n, sizes.clone())), n > 0, format!("{} bytes in pieces of {:?}", n, sizes))
}
#[cfg(not(feature = "full"))]
fn small_reads(_: &std::path::Path, _: u64, _: &mut Rng) -> Out {
    Out::Ok(0, false, String::new())
}

// ---------------------------------------------------------------- C17 (response side)
pub fn set_cookies(run: &mut Run) {
    run.section("set-cookie", 2500 * run.scale, false, "0..12 cookies with random attributes set by a handler: one Set-Cookie line each, in order, value as given", |w, i, r| {
        let c = r.range(0, 12);
        let mut ops: Vec<ROp> = vec![];
        for _ in 0..c {
            ops.push(ROp::Cookie(word(r, &["a", "b", "c", "S", "_"], 1, 4), word(r, &["v", "0", "-", "=", ".", "é", " ", ",", "%", ";", "\"", "\\"], 0, 6), r.below(512)));
            if r.chance(20) {
                ops.push(ROp::Set("X-A".into(), "1".into()));
            }
        }
        let k = r.below(ops.len() + 1);
        ops.insert(k, ROp::Send(b"x".to_vec()));
        if i % 3 == 0 {
            in_process(&ops)
        } else {
            on_wire(w, &ops)
        }
    });
}

// ---------------------------------------------------------------- C18 status table
pub fn c18(run: &mut Run) {
    let n = all_status().len() as u64;
    run.section("table", n * 3, true, "every status: its number and reason phrase by conversion, in process and on the wire", |w, i, _| {
        let k = (i / 3) as usize;
        let (s, code) = all_status()[k];
        let name = spec::STATUS.iter().find(|x| x.0 == code).unwrap().1;
        match i % 3 {
            0 => {
                let n: i32 = s.into();
                let f = s.fetch();
                if n != code as i32 || s.to_string() != name || f != (code as i32, name) {
                    return Out::Fail { input: format!("{:?}", s), expected: format!("{} {}", code, name), got: format!("{} {} {:?}", n, s, f) };
                }
                Out::Ok(i, true, format!("{:?}", s))
            }
            1 => in_process(&[ROp::Status(k), ROp::Send(b"x".to_vec())]),
            _ => on_wire(w, &[ROp::Status(k), ROp::Send(b"x".to_vec())]),
        }
    });
    run.section("other", 4000, true, "application-defined status codes -10..1200, around powers of two and the extremes keep their number and phrase, also in the status line", |_, i, r| {
        let n = match i {
            0..=1210 => i as i32 - 10,
            1211..=1306 => (1i64 << ((i - 1211) / 3)).wrapping_add((i - 1211) as i64 % 3 - 1) as i32,
            1307 => i32::MAX,
            1308 => i32::MIN,
            _ => match r.dnum(30, 1 << 30) { Some(n) => n as i32, None => r.next() as i32 },
        };
        let ph: &'static str = match r.dstr(15).filter(|d| !d.contains(|c: char| c.is_control())) { Some(d) => d, None => *r.pick(&["Some Phrase", "OK", "", "not found", "X"]) };
        let s = StatusCode::Other(n, ph);
        let v: i32 = s.into();
        if v != n || s.to_string() != ph || s.fetch() != (n, ph) {
            return Out::Fail { input: format!("{:?}", s), expected: format!("{} {}", n, ph), got: format!("{} {}", v, s) };
        }
        if let Some(o) = status_line(s, n, ph) {
            return o;
        }
        Out::Ok(n as u64, true, format!("{:?}", s))
    });
}

#[cfg(feature = "full")]
fn status_line(s: StatusCode, n: i32, ph: &str) -> Option<Out> {
    let mut r = Response::default();
    r.status(s);
    r.send("x");
    let (h, _) = data(r);
    let want = format!("HTTP/1.1 {} {}\r\n", n, ph.to_uppercase());
    if !h.starts_with(want.as_bytes()) {
        return Some(Out::Fail { input: format!("status({:?})", s), expected: want, got: show(&h) });
    }
    None
}
#[cfg(not(feature = "full"))]
fn status_line(_: StatusCode, _: i32, _: &str) -> Option<Out> {
    None
}

// ---------------------------------------------------------------- C19 configuration
pub fn c19(run: &mut Run) {
    use octane::config::{OctaneConfig, Ssl};
    use std::path::PathBuf;
    use std::time::Duration;
    #[derive(Clone, Debug, PartialEq)]
    struct M {
        ka: Option<Duration>,
        key: PathBuf,
        cert: PathBuf,
        port: u16,
    }
    fn m0() -> M {
        M { ka: Some(Duration::from_secs(5)), key: PathBuf::new(), cert: PathBuf::new(), port: 443 }
    }
    fn name(r: &mut Rng) -> String {
        word(r, &["a", "b", "/", ".pem", "é"], 0, 4)
    }
    fn mk_ssl(r: &mut Rng) -> (Ssl, PathBuf, PathBuf, u16, String) {
        let mut s = Ssl::new();
        let (mut k, mut c, mut p) = (PathBuf::new(), PathBuf::new(), 443u16);
        if r.chance(70) {
            let n = name(r);
            s.key(&n);
            k = n.into();
        }
        if r.chance(70) {
            let n = name(r);
            s.cert(&n);
            c = n.into();
        }
        if r.chance(70) {
            p = r.next() as u16;
            s.port = p;
        }
        let d = format!("Ssl({:?},{:?},{})", k, c, p);
        (s, k, c, p, d)
    }
    fn step<C: Config>(c: &mut C, m: &mut M, r: &mut Rng, log: &mut Vec<String>) {
        match r.below(4) {
            0 => {
                let d = Duration::from_millis(r.below(100000) as u64);
                c.set_keepalive(d);
                m.ka = Some(d);
                log.push(format!("set_keepalive({:?})", d));
            }
            1 => {
                let (s, k, ce, p, d) = mk_ssl(r);
                c.with_ssl_config(s);
                m.key = k;
                m.cert = ce;
                m.port = p;
                log.push(format!("with_ssl_config({})", d));
            }
            2 => {
                let p = r.next() as u16;
                c.ssl(p);
                m.port = p;
                log.push(format!("ssl({})", p));
            }
            _ => {
                let (p, a, b) = (r.next() as u16, name(r), name(r));
                let s = c.ssl(p);
                m.port = p;
                if r.chance(60) {
                    s.key(&a);
                    m.key = a.clone().into();
                    log.push(format!("ssl({}).key({:?})", p, a));
                }
                if r.chance(60) {
                    s.cert(&b);
                    m.cert = b.clone().into();
                    log.push(format!("ssl({}).cert({:?})", p, b));
                }
            }
        }
    }
    run.section("sequences", 20000 * run.scale, false, "random sequences of up to 12 configuration calls on a server and on a configuration that is then applied; the effective settings are compared with a model", |_, _, r| {
        let mut app = Octane::new();
        let mut m = m0();
        let mut log = vec![];
        for _ in 0..r.range(0, 8) {
            if r.chance(30) {
                let mut c = OctaneConfig::new();
                let mut cm = m0();
                log.push("config {".into());
                for _ in 0..r.range(0, 4) {
                    if r.chance(10) {
                        c.keep_alive = None;
                        cm.ka = None;
                        log.push("keep_alive = None".into());
                    } else {
                        step(&mut c, &mut cm, r, &mut log);
                    }
                }
                let got = M { ka: c.keep_alive, key: c.ssl.key.clone(), cert: c.ssl.cert.clone(), port: c.ssl.port };
                if got != cm {
                    return Out::Fail { input: log.join("; "), expected: format!("{:?}", cm), got: format!("{:?}", got) };
                }
                log.push("} with_config".into());
                app.with_config(c);
                m = cm;
            } else {
                step(&mut app, &mut m, r, &mut log);
            }
        }
        let s = &app.settings;
        let got = M { ka: s.keep_alive, key: s.ssl.key.clone(), cert: s.ssl.cert.clone(), port: s.ssl.port };
        let input = log.join("; ");
        if got != m {
            return Out::Fail { input, expected: format!("{:?}", m), got: format!("{:?}", got) };
        }
        Out::Ok(hash_of(&input), !input.is_empty(), input)
    });
}
