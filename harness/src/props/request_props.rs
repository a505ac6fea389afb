use super::*;

fn one(w: &mut Worker, bytes: &[u8], eof: bool) -> Reply {
    let s = sink(w);
    exchange(&s, &[(bytes, 0)], eof)
}

/// Send `bytes`, compare status and the fields chosen by `view`.
fn judge(
    w: &mut Worker,
    bytes: &[u8],
    pieces: Option<&[(&[u8], u64)]>,
    eof: bool,
    view: &dyn Fn(&spec::Req, &Ev) -> Result<(), (String, String)>,
) -> Out {
    let exp = spec::stream(bytes, eof);
    if exp == Outcome::Waiting {
        return Out::Skip("vh-skip: generator made an incomplete request".into());
    }
    let s = sink(w);
    let whole = [(bytes, 0u64)];
    let r = exchange(&s, pieces.unwrap_or(&whole), eof);
    if undecidable(&r) && r.events.is_empty() {
        return Out::Skip("reset".into());
    }
    let resp = match status_of(&r) {
        Ok(x) => x,
        Err(e) => {
            if undecidable(&r) {
                return Out::Skip("reset".into());
            }
            return fail(bytes, format!("{:?}", exp), e);
        }
    };
    match &exp {
        Outcome::Status(c) => {
            if resp.code != *c || !r.events.is_empty() {
                return fail(bytes, format!("status {} and no handler called", c), format!("status {}, handlers called: {}", resp.code, r.events.len()));
            }
        }
        Outcome::Handled(q) => {
            if resp.code != 200 || r.events.len() != 1 {
                return fail(bytes, format!("handler called once with {:?}", q), format!("status {}, handlers called: {}", resp.code, r.events.len()));
            }
            if let Err((e, g)) = view(q, &r.events[0]) {
                return fail(bytes, e, g);
            }
        }
        Outcome::Waiting => unreachable!(),
    }
    Out::Ok(hash_of(&bytes), true, show(bytes))
}

fn same<T: std::fmt::Debug + PartialEq>(what: &str, a: &T, b: &T) -> Result<(), (String, String)> {
    if a == b {
        Ok(())
    } else {
        Err((format!("{} {:?}", what, a), format!("{} {:?}", what, b)))
    }
}
/// Requests that are extreme in one respect: kinds `lo`..`hi` of gen::XKINDS.
fn extreme_requests(run: &mut Run, lo: &str, hi: &str, view: &(dyn Fn(&spec::Req, &Ev) -> Result<(), (String, String)> + Sync)) {
    let v = extremes(lo, hi);
    run.section("extremes", v.len() as u64, true, &format!("requests extreme in one respect, from '{}' to '{}' (see gen.rs XKINDS), n = 1..34, around round numbers and powers of two up to 100000 where the kind allows, and sizes the source names", lo, hi), |w, i, _| {
        let (k, n) = v[i as usize];
        judge(w, &extreme(k, n), None, false, view)
    });
}
fn get(target: &str) -> Vec<u8> {
    format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", target).into_bytes()
}

// ---------------------------------------------------------------- C04 paths
pub fn c04(run: &mut Run) {
    let chunks = |q: &spec::Req, e: &Ev| same("path segments", &q.chunks, &e.chunks);
    extreme_requests(run, "n segments", "n slashes", &chunks);
    let n = count_upto(3, if run.scale > 1 { 9 } else { 7 });
    run.section("path-exhaustive", n, true, "every string over {'a', '.', '/'} up to the length bound, as request target after a leading '/'; non-trivial: distinct", |w, i, _| {
        judge(w, &get(&format!("/{}", nth_string(&["a", ".", "/"], i))), None, false, &chunks)
    });
    let n = count_upto(5, if run.scale > 1 { 6 } else { 4 });
    run.section("path-noslash", n, true, "every string over {'a', '..', '.', '/', ':'} up to the length bound as request target, no slash added", |w, i, _| {
        let p = nth_string(&["a", "..", ".", "/", ":"], i);
        judge(w, &get(&p), None, false, &chunks)
    });
    run.section("path-characters", 8 * CHARS * 3, true, "every printable ASCII character and six others in eight places of a segment, as first, middle and last segment", |w, i, _| {
        let t = char_seg(i / 3);
        let p = match i % 3 {
            0 => format!("/{}/b/c", t),
            1 => format!("/a/{}/c/", t),
            _ => format!("/a/./{}", t),
        };
        judge(w, &get(&p), None, false, &chunks)
    });
    run.section("path-random", 4000 * run.scale, false, "random segments (dot segments, percent escapes, unicode, empty) joined by '/'", |w, _, r| {
        judge(w, &get(&path(r)), None, false, &chunks)
    });
    // routes registered under unnormalised paths answer at the normalised path, and escaping paths are refused
    run.section("path-register", 300 * run.scale, false, "a route is registered under a random path and requested under another spelling of the same path; paths that climb above the root must be refused at registration", |_, _, r| {
        let p = path(r);
        let want = spec::norm_path(&p);
        let q = p.clone();
        let mk = move |log: &Log| {
            let mut app = Octane::new();
            let log2 = log.clone();
            let ok = app
                .get(&q, Box::new(move |req, res| {
                    log2.lock().unwrap().push(ev_of(1, req));
                    res.send("x");
                    Flow::Stop
                }))
                .is_ok();
            let log3 = log.clone();
            app.add(Box::new(move |req, res| {
                log3.lock().unwrap().push(ev_of(if ok { 2 } else { 3 }, req));
                res.send("y");
                Flow::Stop
            }))
            .unwrap();
            app
        };
        let s = start(&mk);
        let target = match &want {
            None => "/".to_string(),
            Some(v) => {
                let mut t = String::from("/");
                for c in v {
                    if r.chance(30) {
                        t.push_str("./");
                    }
                    if r.chance(30) {
                        t.push_str("zz/../");
                    }
                    if r.chance(20) {
                        t.push('/');
                    }
                    t.push_str(if FULL && c.starts_with(':') { "val" } else { c });
                    t.push('/');
                }
                t
            }
        };
        let rep = exchange(&s, &[(&get(&target), 0)], false);
        let got = rep.events.first().map(|e| e.id).unwrap_or(0);
        let exp = if want.is_some() { 1 } else { 3 };
        if got != exp {
            return fail(format!("get({:?}) then GET {}", p, target).as_bytes(), format!("{}", if exp == 1 { "registered; the route answers" } else { "registration refused" }), format!("event {} (1: route answered, 2: registered but not matched, 3: refused)", got));
        }
        Out::Ok(hash_of(&p), true, format!("get({:?}) ; GET {}", p, target))
    });
}

// ---------------------------------------------------------------- C05 request line
pub fn c05(run: &mut Run) {
    let view = |q: &spec::Req, e: &Ev| {
        same("method", &q.method, &e.method)?;
        same("version", &q.version, &e.version)?;
        same("query", &spec::query(&q.query), &e.query)?;
        same("path segments", &q.chunks, &e.chunks)
    };
    extreme_requests(run, "n segments", "target with n question marks", &view);
    const M: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "Get", "GETT", "GE", "", "PROPFIND", "ALL", "NONE", "*", "P\u{e9}", "OPTION", "CONNECTS", "PATC", "TRAC", "DELET", "HEA", "PU", "POS"];
    const T: &[&str] = &["/", "/a/b", "", "*", "/a?x=1", "http://h/a", "/..", "/a/../..", "?", "/a??b", "/?/../..", "/a/..?x/../../.."];
    const V: &[&str] = &["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.2", "HTTP/", "HTTP", "", "http/1.1", "HTTP/1.1x", "HTTP/11", "HTTPS/1.1", "HTTP/1.", "\u{e9}\u{e9}\u{e9}", "HTT\u{e9}/1.1", "HTTP\u{e9}1.1", "XXXXX1.1", "HTTP-1.1", "HTTP/2", "HTTP/3.0", "1.1", "HTTP/01.1", "HTTP/ 1.1"];
    let n = (M.len() * T.len() * V.len()) as u64;
    run.section("line-product", n, true, "every combination of 27 method tokens, 12 targets and 23 version tokens", |w, i, _| {
        let i = i as usize;
        let l = format!("{} {} {}\r\nHost: h\r\n\r\n", M[i % M.len()], T[i / M.len() % T.len()], V[i / M.len() / T.len()]);
        judge(w, l.as_bytes(), None, true, &view)
    });
    let n = count_upto(5, if run.scale > 1 { 7 } else { 5 });
    run.section("line-tokens", n, true, "every sequence of at most 5 (7) of {'GET', ' ', '/', 'HTTP/1.1', '\\t'} as request line", |w, i, _| {
        let l = nth_string(&["GET", " ", "/", "HTTP/1.1", "\t"], i);
        if l.is_empty() {
            // leading CRLF: nothing precedes the first line
            return Out::Ok(0, false, String::new());
        }
        judge(w, format!("{}\r\nHost: h\r\n\r\n", l).as_bytes(), None, true, &view)
    });
    run.section("line-random", 4000 * run.scale, false, "well-formed request lines with one random edit (insert, delete, replace a character)", |w, _, r| {
        let (m, v): (&str, &str) = (match r.dstr(15) { Some(d) => d, None => *r.pick(M) }, match r.dstr(15) { Some(d) => d, None => *r.pick(V) });
        let mut l: Vec<char> = format!("{} {}{} {}", m, path(r), if r.chance(20) { format!("?{}", word(r, QALPHA, 0, 5)) } else { String::new() }, v).chars().collect();
        for _ in 0..r.below(3) {
            let k = r.below(l.len() + 1);
            let c = *r.pick(&[' ', '/', '.', 'H', '1', 'T', '\t', 'é', '?', '\u{0}', '\u{7f}', '日', 'x']);
            match r.below(3) {
                0 => l.insert(k, c),
                1 if k < l.len() => {
                    l.remove(k);
                }
                _ if k < l.len() => l[k] = c,
                _ => {}
            }
        }
        let l: String = l.into_iter().collect();
        judge(w, format!("{}\r\nHost: h\r\n\r\n", l).as_bytes(), None, true, &view)
    });
}

// ---------------------------------------------------------------- C06 headers
pub fn c06(run: &mut Run) {
    let view = |q: &spec::Req, e: &Ev| {
        same("headers", &q.headers, &e.headers)?;
        if let Some(raw) = &e.raw {
            same("raw headers", &q.raw, raw)?;
        }
        Ok(())
    };
    extreme_requests(run, "n headers", "n blanks after a value", &view);
    run.section("name-chars", 0x250, true, "every code point below U+0250 as a one-character name, in the middle of a name, and at its end", |w, i, _| {
        if i == 13 || i == 10 {
            return Out::Ok(i, false, String::new());
        }
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Out::Ok(0, false, String::new()),
        };
        for t in [format!("{}", c), format!("x{}y", c), format!("xy{}", c)] {
            match judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\n{}: v\r\n\r\n", t).as_bytes(), None, true, &view) {
                Out::Ok(..) => {}
                o => return o,
            }
        }
        Out::Ok(i + 1, true, format!("name character U+{:04X}", i))
    });
    run.section("value-chars", 0x250, true, "every code point below U+0250 as a value, inside, at the start and at the end of one", |w, i, _| {
        if i == 13 || i == 10 {
            return Out::Ok(i, false, String::new());
        }
        let c = match char::from_u32(i as u32) {
            Some(c) => c,
            None => return Out::Ok(0, false, String::new()),
        };
        for t in [format!("{}", c), format!("x{}y", c), format!("{}y", c), format!("y{}", c)] {
            match judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\nK: {}\r\n\r\n", t).as_bytes(), None, true, &view) {
                Out::Ok(..) => {}
                o => return o,
            }
        }
        Out::Ok(i + 1, true, format!("value character U+{:04X}", i))
    });
    let n = count_upto(6, if run.scale > 1 { 6 } else { 4 });
    run.section("line-exhaustive", n, true, "every sequence of at most 4 (6) of {'a', 'A', ':', ' ', '\\t', ','} as a header line", |w, i, _| {
        let l = nth_string(&["a", "A", ":", " ", "\t", ","], i);
        if l.is_empty() {
            return Out::Ok(0, false, String::new());
        }
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n\r\n", l).as_bytes(), None, true, &view)
    });
    run.section("known-names", (HNAMES.len() * 9) as u64, true, "58 header names in use, each once, twice, three times, in different case, with empty, equal and list values", |w, i, _| {
        let n = HNAMES[i as usize / 9];
        let (l, u) = (n.to_lowercase(), n.to_uppercase());
        let h = match i % 9 {
            0 => format!("{}: a\r\n", n),
            1 => format!("{}: a\r\n{}: b\r\n", n, n),
            2 => format!("{}: a\r\n{}: b\r\n{}: c\r\n", n, l, u),
            3 => format!("{}:\r\n{}: b\r\n", u, n),
            4 => format!("{}: a, b\r\n{}: c; d=e\r\n", l, l),
            5 => format!("{}: a\r\nX: y\r\n{}: a\r\n", n, n),
            6 => format!("{}: \"q, r\" \r\n{}: \r\n", n, u),
            7 => format!("X-{}: a\r\n{}-X: b\r\n{}: MiXeD Case\r\n", n, n, n),
            _ => format!("{}: 0\r\n", n),
        };
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", h).as_bytes(), None, true, &view)
    });
    run.section("blocks", 5000 * run.scale, false, "random header blocks: repeated names in different case, empty values, leading blanks, up to 40 lines, some lines malformed", |w, _, r| {
        let names: Vec<String> = (0..r.range(1, 4)).map(|_| if r.chance(12) { r.pick(HNAMES).to_string() } else { word(r, TOK, 1, 6) }).collect();
        let n = if r.chance(10) { size(r, 10, 40, 2000) } else { r.range(0, 7) };
        let mut b = String::from("GET / HTTP/1.1\r\n");
        let hostpos = r.below(n + 1);
        let mut last = String::new();
        for k in 0..=n {
            if k == hostpos && !r.chance(5) {
                b.push_str(*r.pick(&["Host: h\r\n", "host:h\r\n", "HOST: a\r\n"]));
            }
            if k == n {
                break;
            }
            let mut nm = r.pick(&names).clone();
            if nm.eq_ignore_ascii_case("content-length") {
                nm.push('x');
            }
            if r.chance(30) {
                nm = nm.to_uppercase();
            }
            if r.chance(30) {
                nm = nm.to_lowercase();
            }
            if r.chance(2) {
                nm.push_str(*r.pick(&[" ", "(", "é", "\t", ""]));
            }
            let sep = *r.pick(&[": ", ":", ":  ", ":\t", ": \t "]);
            let mut v = if r.chance(15) { String::new() } else { word(r, VAL, 0, 6) };
            if r.chance(25) {
                v = last.clone();
            } else if r.chance(4) {
                v = word(r, VAL, 8, 60);
            }
            last = v.clone();
            if r.chance(3) {
                v.push_str(*r.pick(&["\u{1}", "\u{1f}", "\u{7f}", "\n", "\r"]));
            }
            if r.chance(1) {
                b.push_str("nocolon\r\n");
            }
            b.push_str(&format!("{}{}{}\r\n", nm, sep, v));
        }
        b.push_str("\r\n");
        judge(w, b.as_bytes(), None, true, &view)
    });
    let lens = sizes(20000);
    run.section("long-lines", (lens.len() * 14) as u64, true, "fourteen kinds of well-formed and malformed header lines made n bytes long, for every size of the list", |w, i, _| {
        let x = "x".repeat(lens[i as usize / 14]);
        let h = match i % 14 {
            0 => format!("\tA: {}\r\n", x),
            1 => format!(" A: {}\r\n", x),
            2 => format!("A: b\r\n\t{}\r\n", x),
            3 => format!("A: b\r\n {}:c\r\n", x),
            4 => format!("{}\r\n", x),
            5 => format!("{} : a\r\n", x),
            6 => format!("A: {}\u{1}\r\n", x),
            7 => format!(": {}\r\n", x),
            8 => format!("A: \u{7f}{}\r\n", x),
            9 => format!("{}\u{e9}: a\r\n", x),
            10 => format!("A: {}\u{e9}{}\r\n", x, x),
            11 => format!("{}: {}\r\n{}: {}\r\n", x, x, x.to_uppercase(), x),
            12 => format!("A: {}\r\na: {}\r\n", x, x),
            _ => format!("A:{}a\r\nB: {}\r\n", " ".repeat(x.len()), x),
        };
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", h).as_bytes(), None, true, &view)
    });
    run.section("no-headers", 30, false, "HTTP/1.0, 0.9, 2.0 requests without any header line, and with exactly one", |w, i, _| {
        let v = ["1.0", "0.9", "2.0"][(i % 3) as usize];
        let h = ["", "A: b\r\n", "A:\r\n", ":\r\n", "A\r\n", "A:b:c\r\n", " A: b\r\n", "A : b\r\n", "A: b \r\n", "a: b\r\nA: c\r\n"][(i / 3) as usize];
        judge(w, format!("GET / HTTP/{}\r\n{}\r\n", v, h).as_bytes(), None, true, &view)
    });
}

// ---------------------------------------------------------------- C07 framing
pub fn c07(run: &mut Run) {
    let view = |q: &spec::Req, e: &Ev| {
        if q.body != e.body {
            return Err((format!("body of {} bytes {}", q.body.len(), show(&q.body)), format!("body of {} bytes {}", e.body.len(), show(&e.body))));
        }
        same("headers", &q.headers, &e.headers)?;
        same("method", &q.method, &e.method)
    };
    fn mk(pad: usize, body: &[u8], extra: &[u8]) -> Vec<u8> {
        let mut b = format!("POST /x HTTP/1.1\r\nHost: h\r\nX-Pad: {}\r\nContent-Length: {}\r\n\r\n", "p".repeat(pad), body.len()).into_bytes();
        b.extend_from_slice(body);
        b.extend_from_slice(extra);
        b
    }
    extreme_requests(run, "body of n bytes", "content-length of n digits", &view);
    // every split of one small request into two writes
    let small = mk(3, b"he\r\n\r\nllo\0\xff", b"");
    let n = small.len() as u64;
    run.section("two-segments", n, true, "one request with a binary body split into two TCP segments at every byte", |w, i, _| {
        let (a, b) = small.split_at(i as usize);
        judge(w, &small.clone(), Some(&[(a, 0), (b, 3000)]), false, &view)
    });
    run.section("three-segments", 150 * run.scale, false, "the same request split at two random bytes around the blank line", |w, _, r| {
        let head = small.windows(4).position(|w| w == b"\r\n\r\n").unwrap();
        let (mut x, mut y) = (r.range(head - 1, head + 6), r.range(head - 1, small.len()));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        judge(w, &small.clone(), Some(&[(&small[..x], 0), (&small[x..y], 2500), (&small[y..], 2500)]), false, &view)
    });
    // head sizes around the reader's block boundary
    let span = if run.scale > 1 { 1100 } else { 560 };
    run.section("head-size", span, true, "head padded to every size up to the bound (crossing 512-byte reads), 7-byte body in the same write", |w, i, _| {
        judge(w, &mk(i as usize, b"1234567", b""), None, false, &view)
    });
    run.section("body-size", 700, true, "every body length from 0 to 699 in one write", |w, i, r| {
        let b = bytes(r, i as usize);
        judge(w, &mk(5, &b, b""), None, false, &view)
    });
    run.section("over-long", 200 * run.scale, false, "more bytes follow than Content-Length says: the body ends at Content-Length", |w, _, r| {
        let nb = r.range(0, 40);
        let ne = r.range(1, 60);
        let b = bytes(r, nb);
        let e = bytes(r, ne);
        judge(w, &mk(r.below(30), &b, &e), None, false, &view)
    });
    run.section("short", 120 * run.scale, false, "the stream ends before the head or the body is complete: 400, handler not called, no panic", |w, _, r| {
        let nb = r.range(1, 900);
        let b = bytes(r, nb);
        let m = mk(r.below(600), &b, b"");
        let k = r.below(m.len());
        if k == 0 {
            return Out::Ok(0, false, String::new());
        }
        judge(w, &m[..k], None, true, &view)
    });
    run.section("random-segments", 500 * run.scale, false, "random bodies (up to 20 kB) delivered in up to 6 random segments", |w, _, r| {
        let nb = match r.below(4) {
            0 => size(r, 0, 20, 4_000_000),
            1 => r.range(0, 600),
            2 => r.range(400, 1600),
            _ => r.range(0, 20000),
        };
        let b = bytes(r, nb);
        let m = mk(size(r, 0, 699, 500_000), &b, b"");
        let c = cuts(r, m.len(), 5);
        let p: Vec<(&[u8], u64)> = c.iter().map(|(a, b)| (&m[*a..*b], *r.pick(&[0u64, 300, 1500]))).collect();
        judge(w, &m, Some(&p), false, &view)
    });
    let forms = ["", "Content-Length: 0\r\n", "Content-Length: 9\r\n", "Content-Length: 009\r\n", "Content-Length: 5\r\n", "content-length: 5\r\n", "CONTENT-LENGTH:5\r\n", "Content-Length:   5\r\n", "Content-Length: x\r\n", "Content-Length: -1\r\n", "Content-Length: 5x\r\n", "Content-Length: 99999999999999999999999999\r\n", "Content-Length:\r\n", "Content-Length: 10\r\n", "Content-Length: 18446744073709551615\r\n", "Content-Length: 9223372036854775807\r\n", "Content-Length: 4294967296\r\n", "Content-Length: 1\r\n", "Content-Length: 8\r\n", "Content-Lengt: 4\r\n",
        "Content-Length: 5 \r\n", "Content-Length: 0x5\r\n", "Content-Length: 5.0\r\n", "Content-Length: 5\r\nContent-Length: 5\r\n", "Content-Length: 5\r\ncontent-length: 3\r\n", "Content-Length: 5, 5\r\n", "Content-Length: 5;x\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: chunked\r\nContent-Length: 4\r\n", "Content-Length: 4\r\nTransfer-Encoding: identity\r\n", "Content-Length: 4294967301\r\n", "Content-Length: 65541\r\n", "Content-Length: 261\r\n", "Content-Length: 18446744073709551621\r\n", "Content-Length: \u{ff15}\r\n", "Content-Length: 4_0\r\n", "Content-Length: 1e1\r\n", "X-Content-Length: 4\r\n", "Content-Length: 7\r\nExpect: 100-continue\r\n", "Content-Encoding: gzip\r\nContent-Length: 7\r\n", "Content-Length: 7\r\nConnection: close\r\n", "Content-Length: 2\r\nUpgrade: x\r\nConnection: Upgrade\r\n"];
    const MT: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT"];
    run.section("content-length-form", forms.len() as u64 * 18, true, "42 forms of Content-Length (absent, zero, leading zeros, not a number, huge, repeated, with other framing headers) in requests of every method and two versions with 9 following bytes", |w, i, _| {
        let i = i as usize;
        let f = forms[i / 18];
        judge(w, format!("{} / HTTP/1.{}\r\nHost: h\r\n{}\r\n123456789", MT[i % 9], i / 9 % 2, f).as_bytes(), None, true, &view)
    });
}

// ---------------------------------------------------------------- C08 / C09 / C10 queries
fn q_ok(s: &str) -> bool {
    !s.contains(' ') && !s.contains('\r') && !s.contains('\n')
}
pub fn c08(run: &mut Run) {
    let view = |q: &spec::Req, e: &Ev| {
        same("query", &spec::query(&q.query), &e.query)?;
        same("path segments", &q.chunks, &e.chunks)
    };
    extreme_requests(run, "n query parts", "n ampersands", &view);
    let n = count_upto(4, if run.scale > 1 { 8 } else { 6 });
    run.section("query-exhaustive", n, true, "every string over {'a', 'b', '=', '&'} up to the length bound as query string", |w, i, _| {
        judge(w, &get(&format!("/p?{}", nth_string(&["a", "b", "=", "&"], i))), None, false, &view)
    });
    let n = count_upto(6, if run.scale > 1 { 6 } else { 4 });
    run.section("query-escaped", n, true, "every string over {'a', '%61', '=', '&', '%3D', '%26'} up to the length bound: equal names spelled differently, escaped separators", |w, i, _| {
        judge(w, &get(&format!("/p?{}", nth_string(&["a", "%61", "=", "&", "%3D", "%26"], i))), None, false, &view)
    });
    const PARTS: &[&str] = &["a=1", "a=2", "%61=3", "a", "%61", "a=", "=4", "", "=", "b=5", "a=6=7", "a%3D=8", "%3D", "%", "%%61=9", "a=%61", "A=1", "a[]=1", "a[x]=2", "+=+", "\u{e9}=1", "%C3%A9=2", "%e9=3", "a=?", "?a=1", "/../=1", "%00=x", "a;b=1"];
    run.section("query-pairs", (PARTS.len() * PARTS.len()) as u64, true, "every ordered pair of 28 parts", |w, i, _| {
        let i = i as usize;
        judge(w, &get(&format!("/p?{}&{}", PARTS[i % PARTS.len()], PARTS[i / PARTS.len()])), None, false, &view)
    });
    run.section("query-many", 300 * run.scale, false, "up to 200 parts out of 28, with repeated names", |w, _, r| {
        let n = size(r, 1, 200, 5000);
        let q: Vec<&str> = (0..n).map(|_| *r.pick(PARTS)).collect();
        judge(w, &get(&format!("/p?{}", q.join("&"))), None, false, &view)
    });
    run.section("query-random", 4000 * run.scale, false, "random query strings with escapes, repeated keys, empty names and values, extra '?'", |w, _, r| {
        let mut q: Vec<String> = vec![];
        for k in 0..r.range(0, 6) {
            if k > 0 && r.chance(20) {
                // a part, a name or a value again
                let t = q[r.below(q.len())].clone();
                let (n, v) = t.split_once('=').unwrap_or((&t, ""));
                q.push(match r.below(4) {
                    0 => t.clone(),
                    1 => format!("{}={}", n, word(r, QALPHA, 0, 5)),
                    2 => format!("{}={}", word(r, QALPHA, 0, 5), v),
                    _ => format!("{}={}", v, n),
                });
                continue;
            }
            let mut t = word(r, QALPHA, 0, 5);
            if r.chance(70) {
                t.push('=');
                t.push_str(&word(r, QALPHA, 0, 5));
            }
            q.push(t);
        }
        let q = q.join("&");
        let p = if r.chance(50) { "/p".into() } else { path(r) };
        let sep = if r.chance(95) { "?" } else { "" };
        judge(w, &get(&format!("{}{}{}", p, sep, q)), None, false, &view)
    });
}
pub fn c09(run: &mut Run) {
    let view = |q: &spec::Req, e: &Ev| same("decoded query", &spec::query(&q.query), &e.query);
    extreme_requests(run, "n escapes", "n percent signs", &view);
    let hexd: Vec<char> = "0123456789abcdefABCDEFgG:@`/%é".chars().collect();
    let n = (hexd.len() * hexd.len() * 3) as u64;
    run.section("escape-pairs", n, true, "%XY for every X, Y of the 22 hex digits and 8 neighbours, alone, followed by text, and as a name", |w, i, _| {
        let i = i as usize;
        let (x, y) = (hexd[i % hexd.len()], hexd[i / hexd.len() % hexd.len()]);
        let t = match i / hexd.len() / hexd.len() {
            0 => format!("/?k=%{}{}", x, y),
            1 => format!("/?k=a%{}{}0z", x, y),
            _ => format!("/?%{}{}=v", x, y),
        };
        judge(w, &get(&t), None, false, &view)
    });
    let n = count_upto(5, if run.scale > 1 { 8 } else { 5 });
    run.section("escape-exhaustive", n, true, "every string over {'%', '4', '1', 'g', 'é'} up to the length bound as value", |w, i, _| {
        judge(w, &get(&format!("/?k={}", nth_string(&["%", "4", "1", "g", "é"], i))), None, false, &view)
    });
    run.section("escape-chars", 1400, false, "the two characters after '%' range over every code point below U+0200 and samples above (a hex digit must be ASCII)", |w, i, r| {
        let c = if i < 0x200 { char::from_u32(i as u32) } else if i < 900 { char::from_u32(0x200 * (i as u32 - 0x1ff) + 0x30 + r.below(0x40) as u32) } else { char::from_u32(0x100 * (i as u32 - 900 + 1) + *r.pick(&[0x30u32, 0x39, 0x41, 0x46, 0x61, 0x66])) };
        let c = match c {
            Some(c) if q_ok(&c.to_string()) && c != '&' && c != '=' => c,
            _ => return Out::Ok(0, false, String::new()),
        };
        for t in [format!("/?k=%{}4", c), format!("/?k=%4{}", c), format!("/?k=%{}{}", c, c)] {
            match judge(w, &get(&t), None, false, &view) {
                Out::Ok(..) => {}
                o => return o,
            }
        }
        Out::Ok(hash_of(&c), true, format!("escape digit {:?}", c))
    });
    const E: &[&str] = &["%00", "%0A", "%0d", "%20", "%22", "%25", "%26", "%2B", "%2e", "%2F", "%3A", "%3D", "%3d", "%41", "%5B", "%5D", "%7F", "%80", "%C3", "%A9", "%ff", "%", "+", "a", "é", "4", "41"];
    run.section("escape-triples", (E.len() * E.len() * E.len()) as u64, true, "every sequence of three out of 27 escapes and characters, in a name and in a value", |w, i, _| {
        let (n, i) = (E.len(), i as usize);
        let t = format!("{}{}{}", E[i % n], E[i / n % n], E[i / n / n]);
        judge(w, &get(&format!("/?k={}&{}=v", t, t)), None, false, &view)
    });
    run.section("escape-random", 3000 * run.scale, false, "random strings dense in '%' and hex digits, up to 40 characters", |w, _, r| {
        let v = word(r, &["%", "%", "%", "0", "9", "a", "F", "f", "A", "g", "é", "x", "%41", "%25", "%26", "%3D", "+", "%2b", "%00", "%ff", "%zz", "%e", "日"], 0, 40);
        judge(w, &get(&format!("/?k={}", v)), None, false, &view)
    });
}
pub fn c10(run: &mut Run) {
    if !FULL {
        return;
    }
    let view = |q: &spec::Req, e: &Ev| same("extended query", &Some(spec::ext_query(&q.query)), &e.ext);
    extreme_requests(run, "n elements of an array", "object key of n characters", &view);
    let n = count_upto(6, if run.scale > 1 { 6 } else { 5 });
    run.section("ext-exhaustive", n, true, "every string over {'a', 'b', '[', ']', '=', '&'} up to the length bound", |w, i, _| {
        judge(w, &get(&format!("/?{}", nth_string(&["a", "b", "[", "]", "=", "&"], i))), None, false, &view)
    });
    const PARTS: &[&str] = &["a[]=1", "a[x]=2", "a=3", "b[]=4", "b[y]=5", "a[]=6", "a[x]=7", "a[y]=8", "b=9", "a[", "a]=1", "[]=0", "[x]=1", "a[[]]=2", "a[b]c=3", "a[b][c]=4", "=5", "", "a", "a[]", "%61[]=6", "a[%62]=7", "a%5B%5D=8", "a[]=%41", "é[ü]=9", "a[]x", "a[é]=%C3%A9", "a[]b]=1"];
    run.section("ext-sequences", 6000 * run.scale, false, "random sequences of up to 7 parts mixing scalars, arrays, objects, escapes and unbalanced brackets", |w, _, r| {
        let k = size(r, 1, 7, 3000);
        let q: Vec<&str> = (0..k).map(|_| *r.pick(PARTS)).collect();
        judge(w, &get(&format!("/?{}", q.join("&"))), None, false, &view)
    });
    run.section("ext-random", 3000 * run.scale, false, "random parts over brackets, escapes, multi-byte characters", |w, _, r| {
        let mut q: Vec<String> = vec![];
        for k in 0..r.range(1, 6) {
            if k > 0 && r.chance(25) {
                let t = q[r.below(q.len())].clone();
                let (n, v) = t.split_once('=').unwrap_or((&t, ""));
                let base = n.split('[').next().unwrap_or("");
                q.push(match r.below(5) {
                    0 => t.clone(),
                    1 => format!("{}={}", n, word(r, QALPHA, 0, 4)),
                    2 => format!("{}[]={}", base, v),
                    3 => format!("{}[{}]={}", base, word(r, &["a", "b", "0", "1", "é", "%61"], 0, 2), v),
                    _ => format!("{}={}", base, v),
                });
                continue;
            }
            let mut t = word(r, &["a", "b", "[", "]", "[]", "[x]", "é", "日", "%5B", "%5D", "%61", "%"], 0, 5);
            if r.chance(85) {
                t.push('=');
                t.push_str(&word(r, QALPHA, 0, 4));
            }
            q.push(t);
        }
        let q = q.join("&");
        judge(w, &get(&format!("/?{}", q)), None, false, &view)
    });
    run.section("ext-pairs", (PARTS.len() * PARTS.len()) as u64, true, "every ordered pair of 28 parts", |w, i, _| {
        let i = i as usize;
        judge(w, &get(&format!("/?{}&{}", PARTS[i % PARTS.len()], PARTS[i / PARTS.len()])), None, false, &view)
    });
}

// ---------------------------------------------------------------- C15 robustness
pub fn c15(run: &mut Run) {
    fn alive(w: &mut Worker, input: &[u8], pieces: &[(&[u8], u64)]) -> Out {
        let s = sink(w);
        let r = exchange(&s, pieces, true);
        let pan = take_panics();
        if undecidable(&r) && pan.is_empty() {
            return Out::Skip("reset".into());
        }
        match status_of(&r) {
            Ok(p) => {
                if !pan.is_empty() {
                    return fail(input, "no panic".into(), format!("{:?}", pan));
                }
                // complete response: Content-Length bytes of body
                if p.get("content-length").first().and_then(|v| v.parse::<usize>().ok()) != Some(p.body.len()) {
                    return fail(input, "a complete response".into(), show(&r.bytes));
                }
                Out::Ok(hash_of(&input), true, show(input))
            }
            Err(e) => fail(input, "a complete HTTP response and no panic".into(), format!("{} panics {:?}", e, pan)),
        }
    }
    let al: &[&str] = &["/", "?", "%", "[", "]", "=", ".", ":", "&", "é"];
    run.section("targets", count_upto(10, if run.scale > 1 { 4 } else { 3 }), true, "every request target over {'/', '?', '%', '[', ']', '=', '.', ':', '&', 'é'} up to the length bound", |w, i, _| {
        let b = get(&nth_string(al, i));
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("queries", count_upto(7, if run.scale > 1 { 4 } else { 3 }), true, "every query over {'%', '[', ']', '=', '&', 'é', '4'} up to the length bound", |w, i, _| {
        let b = get(&format!("/?{}", nth_string(&["%", "[", "]", "=", "&", "é", "4"], i)));
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("header-values", 5 * count_upto(8, if run.scale > 1 { 3 } else { 2 }), true, "every value over {';', '=', ',', ' ', '1', 'é', 'timeout', 'max'} up to the length bound for Cookie, Connection with Keep-Alive, Keep-Alive, Content-Length and Host", |w, i, _| {
        let v = nth_string(&[";", "=", ",", " ", "1", "é", "timeout", "max"], i / 5);
        let b = match i % 5 {
            0 => format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", v),
            1 => format!("GET / HTTP/1.1\r\nHost: h\r\nConnection: {}\r\nKeep-Alive: {}\r\n\r\n", v, v),
            2 => format!("GET / HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nKeep-Alive: {}\r\n\r\n", v),
            3 => format!("GET / HTTP/1.0\r\nContent-Length: {}\r\n\r\n1", v),
            _ => format!("GET / HTTP/1.1\r\nHost: {}\r\n\r\n", v),
        }
        .into_bytes();
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("lines", count_upto(8, if run.scale > 1 { 4 } else { 3 }), true, "every head of up to 4 tokens out of {'GET', ' ', '/', 'HTTP/1.1', CRLF, ':', 'é', 'HTTP'}, then an empty line", |w, i, _| {
        let b = format!("{}\r\n\r\n", nth_string(&["GET", " ", "/", "HTTP/1.1", "\r\n", ":", "é", "HTTP"], i)).into_bytes();
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("random-bytes", 4000 * run.scale, false, "arbitrary bytes (then end of stream), with and without a terminating blank line", |w, _, r| {
        let n = r.range(1, 80);
        let mut b = bytes(r, n);
        if r.chance(70) {
            b.extend_from_slice(b"\r\n\r\n");
        }
        if r.chance(30) {
            let n = r.below(30);
            b.extend(bytes(r, n));
        }
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("mutated", 6000 * run.scale, false, "well-formed requests with up to 4 random byte edits", |w, _, r| {
        const B: &[&str] = &[
            "GET /a/b?x=%41&y[]=2 HTTP/1.1\r\nHost: h\r\nCookie: a=b; c=d\r\nContent-Length: 3\r\n\r\nabc",
            "POST / HTTP/1.0\r\nConnection: keep-alive\r\nKeep-Alive: timeout=5, max=100\r\nContent-Length: 5\r\n\r\nhello",
            "PUT /é/../x HTTP/1.1\r\nHost: h\r\nX: \u{e9}\r\n\r\n",
            "HEAD / HTTP/0.9\r\n\r\n",
            "GET /?%4 HTTP/1.1\r\nhost: h\r\nconnection: close\r\ncookie: =; x; y=\r\n\r\n",
        ];
        let mut b = r.pick(B).as_bytes().to_vec();
        for _ in 0..r.range(1, 4) {
            if b.is_empty() {
                break;
            }
            let k = r.below(b.len());
            match r.below(5) {
                0 => b[k] = r.next() as u8,
                1 => {
                    b.remove(k);
                }
                2 => b.insert(k, *r.pick(&[b' ', b'\r', b'\n', b':', b'%', b'/', b'.', b'=', b'?', b';', b'[', 0, 0xff, 0xc3, b'9'])),
                3 => {
                    let n = r.below(b.len() - k).min(12);
                    b.drain(k..k + n);
                }
                _ => {
                    let n = r.below(b.len() - k).min(12);
                    let t = b[k..k + n].to_vec();
                    for (j, x) in t.into_iter().enumerate() {
                        b.insert(k + j, x);
                    }
                }
            }
        }
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("keep-alive-and-cookie", 1500 * run.scale, false, "random Connection, Keep-Alive, Cookie and Content-Length values", |w, _, r| {
        let ka = word(r, &["timeout", "max", "=", ",", " ", "5", "-", "99999999999999999999", "é", "18446744073709551615"], 0, 8);
        let ck = word(r, &["a", "=", ";", "; ", " ", ",", "\"", "é", "%", "Expires=x", "Max-Age=", "Path="], 0, 8);
        let cl = word(r, &["1", "0", "9", "-", "+", " ", "x", "99999999999", ","], 0, 5);
        let v = r.pick(&["1.0", "1.1", "2.0"]);
        let b = format!("GET /p HTTP/{}\r\nHost: h\r\nConnection: {}\r\nKeep-Alive: {}\r\nCookie: {}\r\nContent-Length: {}\r\n\r\n12345", v, r.pick(&["keep-alive", "close", "x"]), ka, ck, cl).into_bytes();
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("truncated", 400, false, "prefixes of a well-formed request followed by end of stream, and abrupt splits", |w, _, r| {
        let full = b"POST /a/b?x=1 HTTP/1.1\r\nHost: h\r\nCookie: a=b\r\nContent-Length: 20\r\n\r\n01234567890123456789";
        let k = r.range(1, full.len());
        let b = full[..k].to_vec();
        let c = cuts(r, k, 3);
        let p: Vec<(&[u8], u64)> = c.iter().map(|(x, y)| (&b[*x..*y], 500u64)).collect();
        alive(w, &b, &p)
    });
    let v = extremes("n segments", "n cookie headers");
    run.section("extremes", v.len() as u64, true, "requests extreme in one respect (see gen.rs XKINDS), n = 1..34, around round numbers and powers of two up to 100000 where the kind allows, and sizes the source names", |w, i, _| {
        let (k, n) = v[i as usize];
        let b = extreme(k, n);
        alive(w, &b.clone(), &[(&b, 0)])
    });
    run.section("large", 24 * run.scale, false, "long request lines, many headers, very long values, deep paths, long queries (up to 300 kB)", |w, i, r| {
        let n = r.range(1, 300);
        let b = match i % 6 {
            0 => format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", "a/".repeat(n * 20)),
            1 => format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", "K: v\r\n".repeat(n * 4)),
            2 => format!("GET / HTTP/1.1\r\nHost: h\r\nX: {}\r\n\r\n", "v".repeat(n * 300)),
            3 => format!("GET /?{} HTTP/1.1\r\nHost: h\r\n\r\n", "a[x]=%41&".repeat(n * 10)),
            4 => format!("GET /{} HTTP/1.1\r\nHost: h\r\n\r\n", "a/../".repeat(n * 20)),
            _ => format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", "a=b; ".repeat(n * 10)),
        }
        .into_bytes();
        alive(w, &b.clone(), &[(&b, 0)])
    });
    // routed requests on a server with variable routes
    run.section("routed", 1500 * run.scale, false, "random paths and methods against a fixed route table with variables", |w, _, r| {
        let s = w.server("routes", &|_| {
            let mut app = Octane::new();
            for p in ["/", "/a", "/a/:x", "/:x/b", "/:x/:y/c", "/a/:x/c/:z"] {
                app.get(p, route_next!(|req, res| res.send("r"))).unwrap();
                app.post(p, route_next!(|req, res| res.send("r"))).unwrap();
                app.add_route(p, route_next!(|req, res| res.send("r"))).unwrap();
            }
            app
        });
        let b = format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", r.pick(&spec::METHODS), path(r)).into_bytes();
        let rep = exchange(&s, &[(&b, 0)], true);
        let pan = take_panics();
        if undecidable(&rep) && pan.is_empty() {
            return Out::Skip("reset".into());
        }
        match status_of(&rep) {
            Ok(_) if pan.is_empty() => Out::Ok(hash_of(&b), true, show(&b)),
            Ok(_) => fail(&b, "no panic".into(), format!("{:?}", pan)),
            Err(e) => fail(&b, "a response".into(), format!("{} {:?}", e, pan)),
        }
    });
}

// ---------------------------------------------------------------- C16 validation and status
#[allow(non_snake_case)]
pub fn c16(run: &mut Run) {
    let mut M: Vec<&str> = vec!["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT", "get", "FOO", "", "ALL", "None", "All", "all", "NONE", "*", "Get", "GETS", "GE", "-", "PROPFIND", "QUERY", "LINK", "\u{e9}"];
    M.extend(dict().strs.iter().map(|s| s.as_str()).filter(|s| s.len() < 20).take(12));
    let M = &M;
    const V: &[&str] = &["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.5", "HTTP/x"];
    const H: &[&str] = &["", "Host: h\r\n", "host:\r\n", "HOST: x\r\nHost: y\r\n", "Hosts: h\r\n", "Connection: close\r\n", "Connection: keep-alive\r\nKeep-Alive: timeout=5\r\n", "Host: h\r\nConnection: close\r\n", "Host: h\r\nConnection: keep-alive\r\nKeep-Alive: max=1,timeout=x\r\n", "X-Host: h\r\nConnection: host\r\n"];
    const P: &[&str] = &["/body", "/nobody", "/unknown", "/empty", "/status"];
    let n = (M.len() * V.len() * H.len() * P.len()) as u64;
    run.section("validation-product", n, true, "every combination of 26 methods (and short texts the source names), 6 versions, 10 header sets and 5 targets (a route that sends a body, one that sends none, no route, an empty body, a custom status)", |w, i, _| {
        let s = w.server("status", &|log: &Log| {
            let mut app = Octane::new();
            let mk = |log: &Log, id: usize| {
                let log = log.clone();
                let c: octane::router::Closure = Box::new(move |req, res| {
                    log.lock().unwrap().push(ev_of(id, req));
                    match id {
                        1 => res.send("hello"),
                        2 => {
                            res.set("X-A", "b");
                        }
                        3 => res.send(""),
                        _ => res.status(octane::StatusCode::Gone).send("t"),
                    }
                    Flow::Next
                });
                c
            };
            app.add_route("/body", mk(log, 1)).unwrap();
            app.add_route("/nobody", mk(log, 2)).unwrap();
            app.add_route("/empty", mk(log, 3)).unwrap();
            app.add_route("/status", mk(log, 4)).unwrap();
            app
        });
        let i = i as usize;
        let (m, v, h, p) = (M[i % M.len()], V[i / M.len() % V.len()], H[i / M.len() / V.len() % H.len()], P[i / M.len() / V.len() / H.len()]);
        let b = format!("{} {} {}\r\n{}\r\n", m, p, v, h).into_bytes();
        let (code, ids): (u32, Vec<usize>) = match spec::stream(&b, true) {
            Outcome::Status(c) => (c, vec![]),
            Outcome::Handled(_) => match p {
                "/body" => (200, vec![1]),
                "/nobody" => (404, vec![2]),
                "/empty" => (200, vec![3]),
                "/status" => (410, vec![4]),
                _ => (404, vec![]),
            },
            Outcome::Waiting => unreachable!(),
        };
        let rep = exchange(&s, &[(&b, 0)], true);
        if undecidable(&rep) {
            return Out::Skip("reset".into());
        }
        match status_of(&rep) {
            Ok(x) => {
                let g: Vec<usize> = rep.events.iter().map(|e| e.id).collect();
                let want_phrase = spec::phrase(code).unwrap();
                if x.code != code || g != ids || x.phrase != want_phrase {
                    return fail(&b, format!("{} {} and handlers {:?}", code, want_phrase, ids), format!("{} {} and handlers {:?}", x.code, x.phrase, g));
                }
                // every status the server makes up itself carries its own page and no handler output
                if code == 404 || code == 400 || code == 501 {
                    if !x.get("x-a").is_empty() || x.get("content-type") != vec!["text/html"] || x.body.is_empty() {
                        return fail(&b, "the built-in error page as text/html".into(), show(&rep.bytes));
                    }
                }
                Out::Ok(hash_of(&b), true, show(&b))
            }
            Err(e) => fail(&b, format!("status {}", code), e),
        }
    });
    let mut hs: Vec<String> = super::response_props::REQ_HEADERS.iter().map(|s| s.to_string()).collect();
    for n in HNAMES {
        if *n != "Content-Length" {
            hs.extend(["a", "", "0", "1", "close", "*", "a, b"].iter().map(|v| format!("{}: {}\r\n", n, v)));
        }
    }
    for d in dict().strs.iter().take(30) {
        hs.push(format!("X: {}\r\n", d));
        if !d.is_empty() && d.chars().all(|c| TOK.contains(&c.to_string().as_str()) || c.is_ascii_alphanumeric()) && !d.eq_ignore_ascii_case("content-length") {
            hs.extend(["a", "", "0", "1"].iter().map(|v| format!("{}: {}\r\n", d, v)));
        }
        for n in ["Connection", "Accept", "Expect", "Host", "Upgrade", "Content-Type", "User-Agent"] {
            hs.push(format!("{}: {}\r\n", n, d));
        }
    }
    let hs = &hs;
    run.section("request-headers", hs.len() as u64 * 4, true, "58 header names in use with seven values each, 36 typical header lines, and texts the source names as header names and values: none of them changes the status", |w, i, _| {
        let h = &hs[i as usize / 4];
        let (m, v) = [("GET", "1.1"), ("POST", "1.0"), ("DELETE", "1.1"), ("FOO", "1.1")][i as usize % 4];
        judge(w, format!("{} /p HTTP/{}\r\nHost: h\r\n{}\r\n", m, v, h).as_bytes(), None, true, &|_, _| Ok(()))
    });
    extreme_requests(run, "n segments", "n cookie headers", &|_, _| Ok(()));
    super::response_props::responses(run);
    run.section("malformed", 2500 * run.scale, false, "random edits of well-formed requests: the status is the one the rules give (400 malformed, 501 unknown method, 200 otherwise)", |w, _, r| {
        const B: &[&str] = &["GET /body HTTP/1.1\r\nHost: h\r\n\r\n", "PUT /body HTTP/1.0\r\nA: b\r\n\r\n", "POST /body HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nabcd"];
        let mut b = r.pick(B).as_bytes().to_vec();
        for _ in 0..r.range(1, 3) {
            if b.is_empty() {
                break;
            }
            let k = r.below(b.len());
            match r.below(3) {
                0 => b[k] = *r.pick(&[b' ', b'\r', b'\n', b':', b'/', b'.', b'H', b'h', 0, 0xff, 1, b'\t', b'(']),
                1 => {
                    b.remove(k);
                }
                _ => b.insert(k, *r.pick(&[b' ', b'\r', b'\n', b':', b'/', b'.', b'H', 0x7f, 0xc3, b'\t', b'('])),
            }
        }
        judge(w, &b, None, true, &|_, _| Ok(()))
    });
}

// ---------------------------------------------------------------- C17 cookies
pub fn c17(run: &mut Run) {
    if !FULL {
        return;
    }
    let view = |q: &spec::Req, e: &Ev| {
        let want = q.headers.get("cookie").map(|v| spec::cookies(v)).unwrap_or_default();
        same("cookies", &Some(want), &e.cookies)
    };
    extreme_requests(run, "n cookies", "n cookie headers", &view);
    run.section("request-exhaustive", count_upto(4, if run.scale > 1 { 7 } else { 6 }), true, "every sequence over {'a', '=', '; ', 'b'} up to the length bound as Cookie value", |w, i, _| {
        let c = nth_string(&["a", "=", "; ", "b"], i);
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", c).as_bytes(), None, false, &view)
    });
    run.section("request-separators", count_upto(6, if run.scale > 1 { 6 } else { 4 }), true, "every sequence over {'a', '=', '; ', ';', ' ', 'b=1'} up to the length bound as Cookie value", |w, i, _| {
        let c = nth_string(&["a", "=", "; ", ";", " ", "b=1"], i);
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", c).as_bytes(), None, false, &view)
    });
    run.section("request-lines", 600, false, "several Cookie header lines: their values are joined by ', ' like those of any header", |w, _, r| {
        let l: Vec<String> = (0..r.range(1, 4)).map(|_| format!("{}: {}\r\n", r.pick(&["Cookie", "cookie", "COOKIE"]), word(r, &["a=1", "b=2", "; ", "c", "=", ","], 0, 4))).collect();
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", l.concat()).as_bytes(), None, false, &view)
    });
    run.section("request-random", 3000 * run.scale, false, "random lists of up to 12 cookies, some malformed, with '=' and other punctuation in values", |w, _, r| {
        let n = size(r, 0, 12, 3000);
        let l: Vec<String> = (0..n)
            .map(|_| {
                if r.chance(10) {
                    return r.pick(&["", "=", "novalue", "=x", "==", "a=b=c", "a=", "a=1", "a=2", "b=1"]).to_string();
                }
                format!("{}={}", word(r, TOK, 1, 5), word(r, &["a", "Z", "0", "=", "%", "!", "/", ":", "é", "-", ".", ";", " ", ",", "[", "日"], 0, 6))
            })
            .collect();
        judge(w, format!("GET / HTTP/1.1\r\nHost: h\r\ncookie: {}\r\n\r\n", l.join("; ")).as_bytes(), None, false, &view)
    });
    super::response_props::set_cookies(run);
}
