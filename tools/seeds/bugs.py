BUGS = []
def bug(id, property, needs, breaks, edits, main):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main))

# ------------------------------------------------------------------ C01
bug("c01-unsorted", "C01", "a variable route registered before a literal one that matches the same path, both continuing",
    "the routes of the request's own method run in tree order (literal first), not in order of registration",
    [("src/router.rs", """        if let Some(functions) = self.paths.get(&req.method) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);""", """        if let Some(functions) = self.paths.get(&req.method) {
            let routes = functions.get(&req.path);
            matches.push(routes);""")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        app.get("/a/:x", mark(&l2, "var")).unwrap();
        app.get("/a/b", mark(&l2, "lit")).unwrap();
        app
    });
    get(p, "/a/b");
    ask(take(&l) == ["var", "lit"], "order of registration");
}
""")
bug("c01-shadow", "C01", "a literal and a variable route matching the same request path",
    "a variable route is skipped when a literal route matches",
    [("src/path.rs", "            if let Some(v) = cur.get(&PathChunk::CatchAll) {", "            if let Some(v) = cur.get(&PathChunk::CatchAll).filter(|_| ret.is_empty()) {")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        app.get("/a/b/c", mark(&l2, "lit")).unwrap();
        app.get("/a/:x/c", mark(&l2, "var")).unwrap();
        app
    });
    get(p, "/a/b/c");
    ask(take(&l) == ["lit", "var"], "every matching route runs");
    get(p, "/a/z/c");
    ask(take(&l) == ["var"], "variable route alone");
}
""")
bug("c01-counter", "C01", "a middleware added directly on the server and a route registered right after it",
    "the middleware shares its index with the next route and runs after it",
    [("src/server.rs", """            index: self.router.route_counter,
        });
        self.router.route_counter += 1;
        Ok(())""", """            index: self.router.route_counter,
        });
        Ok(())""")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        app.add(mark(&l2, "mw")).unwrap();
        app.get("/a", mark(&l2, "route")).unwrap();
        app
    });
    get(p, "/a");
    ask(take(&l) == ["mw", "route"], "order of registration");
}
""")
# ------------------------------------------------------------------ C02
bug("c02-repeated", "C02", "a pattern that uses the same variable name twice and different segments at the two positions",
    "the first position wins instead of the last",
    [("src/path.rs", "                vars.insert(&a[1..], &b[..]);", "                vars.entry(&a[1..]).or_insert(&b[..]);")],
    """
fn main() {
    let p = serve(|| {
        let mut app = Octane::new();
        app.get("/:x/and/:x", Box::new(|req, res| { res.send(req.vars["x"]); Flow::Stop })).unwrap();
        app
    });
    ask(body(&get(p, "/one/and/two")) == "two", "last position");
}
""")
bug("c02-leak", "C02", "a route with variables that continues into a middleware or a route without variables",
    "variables of an earlier handler stay visible in handlers without variables",
    [("src/router.rs", """                matched.vars = matches[minind][indices[minind]].vars.clone();""", """                let vars = &matches[minind][indices[minind]].vars;
                if !vars.is_empty() {
                    matched.vars = vars.clone();
                }""")],
    """
fn main() {
    let p = serve(|| {
        let mut app = Octane::new();
        app.get("/u/:id", Box::new(|_req, _res| Flow::Next)).unwrap();
        app.add(Box::new(|req, res| { res.send(format!("{}", req.vars.len())); Flow::Stop })).unwrap();
        app
    });
    ask(body(&get(p, "/u/7")) == "0", "middlewares see no variables");
}
""")
# ------------------------------------------------------------------ C03
bug("c03-noshift", "C03", "appending a router whose method the server does not use yet, after other registrations, plus a middleware before",
    "the indices of the appended routes are not shifted when the method is new to the server",
    [("src/router.rs", """        for (methods, paths) in router.paths.into_iter() {
            let updated_paths = paths.into_iter().map(|mut v| {
                v.data.index += self_count;
                v
            });
            if let Some(x) = self.paths.get_mut(&methods) {
                x.extend(updated_paths);
            } else {
                self.paths.insert(methods, updated_paths.collect());
            }
        }""", """        for (methods, paths) in router.paths.into_iter() {
            if let Some(x) = self.paths.get_mut(&methods) {
                x.extend(paths.into_iter().map(|mut v| {
                    v.data.index += self_count;
                    v
                }));
            } else {
                self.paths.insert(methods, paths);
            }
        }""")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        app.add(mark(&l2, "m1")).unwrap();
        app.add(mark(&l2, "m2")).unwrap();
        let mut r = Router::new();
        r.get("/a", mark(&l2, "r")).unwrap();
        app.with_router(r);
        app
    });
    get(p, "/a");
    ask(take(&l) == ["m1", "m2", "r"], "order of registration");
}
""")
bug("c03-lost", "C03", "an appended router with two handlers registered on the same path and method",
    "only one of several handlers on the same path survives appending",
    [("src/path.rs", """            if let Some(v) = &mut self.curvec {
                if !v.is_empty() {
                    return v.pop();
                }
            }
            self.curvec = None;""", """            if let Some(mut v) = self.curvec.take() {
                if !v.is_empty() {
                    return v.pop();
                }
            }""")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        let mut r = Router::new();
        r.get("/a", mark(&l2, "1")).unwrap();
        r.get("/a", mark(&l2, "2")).unwrap();
        app.with_router(r);
        app
    });
    get(p, "/a");
    ask(take(&l) == ["1", "2"], "both handlers run");
}
""")
# ------------------------------------------------------------------ C04
bug("c04-dots", "C04", "a path with a segment of three or more dots",
    "segments consisting only of dots are dropped as if they were '.'",
    [("src/path.rs", """            if chunk.is_empty() || chunk == "." {
                continue;
            }
            if chunk == ".." {""", """            if chunk != ".." && chunk.bytes().all(|b| b == b'.') {
                continue;
            }
            if chunk == ".." {""")],
    """
fn main() {
    let p = echo(|r| r.request_line.path.chunks.join("|"));
    ask(body(&get(p, "/a/.../b")) == "a|...|b", "'...' is an ordinary segment");
    ask(body(&get(p, "/a/./b//c")) == "a|b|c", "normalisation");
}
""")
bug("c04-climb", "C04", "a request target that climbs above the root and comes back, e.g. /../a",
    "'..' at the root is ignored instead of refused",
    [("src/path.rs", """                if chunks.pop().is_none() {
                    return Err(InvalidPathError);
                }
                continue;""", """                if chunks.pop().is_none() && !path.starts_with("/../") {
                    return Err(InvalidPathError);
                }
                continue;""")],
    """
fn main() {
    let p = echo(|r| r.request_line.path.chunks.join("|"));
    ask(status(&get(p, "/../a")) == 400, "climbing above the root is refused");
    ask(status(&get(p, "/a/../../a")) == 400, "climbing above the root is refused");
    ask(status(&get(p, "/a/../b")) == 200, "staying inside is fine");
}
""")
# ------------------------------------------------------------------ C05
bug("c05-prefix", "C05", "a version token with four right letters and a wrong fifth character, e.g. HTTPS1.1",
    "such a request line is accepted",
    [("src/request.rs", """(first != "HTTP/" || toks""", """(!first.starts_with("HTTP") || toks""")],
    """
fn main() {
    let p = echo(|_| "ok".to_string());
    ask(status(&req(p, "GET / HTTPS1.1\\r\\nHost: h\\r\\n\\r\\n")) == 400, "version must start with HTTP/");
    ask(status(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n")) == 200, "good request");
}
""")
bug("c05-case", "C05", "a method name in lower or mixed case",
    "methods are compared without regard to case",
    [("src/request.rs", "        let request_method = match method {", "        let request_method = match method.to_ascii_uppercase().as_str() {")],
    """
fn main() {
    let p = echo(|_| "ok".to_string());
    ask(status(&req(p, "get / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n")) == 501, "get is an unknown method");
    ask(status(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n")) == 200, "good request");
}
""")
# ------------------------------------------------------------------ C06
bug("c06-dedupe", "C06", "two header lines with the same name and the same value",
    "the second of two equal values is dropped from the merged header",
    [("src/request.rs", """                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))""", """                .and_modify(|v| {
                    if *v != parsed.value {
                        *v = format!("{}, {}", v, parsed.value)
                    }
                })""")],
    """
fn main() {
    let p = echo(|r| r.headers.get("x").cloned().unwrap_or_default());
    ask(body(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\nX: 1\\r\\nx: 1\\r\\n\\r\\n")) == "1, 1", "values are joined");
}
""")
bug("c06-trail", "C06", "a header value that ends in blanks",
    "trailing blanks of values are lost",
    [("src/request.rs", "toks.next()?.trim_start_matches(|c| c == SP || c == HT)", "toks.next()?.trim_matches(|c| c == SP || c == HT)")],
    """
fn main() {
    let p = echo(|r| format!("[{}]", r.headers.get("x").cloned().unwrap_or_default()));
    ask(body(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\nX:  a b \\r\\n\\r\\n")) == "[a b ]", "value unaltered");
}
""")
# ------------------------------------------------------------------ C07
bug("c07-window", "C07", "the CRLF CRLF that ends the head arrives with its first three bytes in one read and the last in the next",
    "the end of the head is not found when the terminator is split 3 + 1",
    [("octane_http/src/http1x/mod.rs", """            if let Some(i) = find_in_slice(&data[..], b"\\r\\n\\r\\n") {""", """            // what was read before cannot contain the end of the head
            let from = (data.len() - read).saturating_sub(2);
            if let Some(i) = find_in_slice(&data[from..], b"\\r\\n\\r\\n").map(|i| i + from) {""")],
    """
fn main() {
    let p = echo(|r| String::from_utf8_lossy(r.body).into_owned());
    let s = |v: Vec<&[u8]>| String::from_utf8_lossy(&raw(p, &v)).into_owned();
    let a = s(vec![b"GET / HTTP/1.1\\r\\nHost: h\\r\\nContent-Length: 2\\r\\n\\r", b"\\nhi"]);
    ask(status(&a) == 200 && body(&a) == "hi", "split 3 + 1");
    let a = s(vec![b"GET / HTTP/1.1\\r\\nHost: h\\r\\nContent-Length: 2\\r\\n", b"\\r\\nhi"]);
    ask(status(&a) == 200 && body(&a) == "hi", "split 2 + 2");
}
""")
bug("c07-partial", "C07", "the head of the request arrives in two reads after at least 256 bytes",
    "a long first read without the end of the head is taken for a malformed request",
    [("octane_http/src/http1x/mod.rs", """            if read == 0 {
                return Err(StatusCode::BadRequest);
            }
            data.extend_from_slice(&buf[..read]);""", """            if read == 0 {
                return Err(StatusCode::BadRequest);
            }
            data.extend_from_slice(&buf[..read]);
            if read > 300 && read < buf.len() && find_in_slice(&data[..], b"\\r\\n\\r\\n").is_none() {
                return Err(StatusCode::BadRequest);
            }""")],
    """
fn main() {
    let p = echo(|r| r.headers.get("x").cloned().unwrap_or_default());
    let x = "y".repeat(400);
    let h = format!("GET / HTTP/1.1\\r\\nHost: h\\r\\nX: {}\\r\\n\\r\\n", x);
    let (a, b) = h.as_bytes().split_at(h.len() - 10);
    ask(body(&String::from_utf8_lossy(&raw(p, &[a, b]))) == x, "split head");
}
""")
# ------------------------------------------------------------------ C08
bug("c08-last-eq", "C08", "a query value that contains '='",
    "a part is split at its last '=' instead of the first",
    [("src/query.rs", """    let mut ret: HashMap<String, String> = HashMap::new();
    for tok in toks {
        if cfg!(feature = "faithful") && tok.is_empty() {
            continue;
        }
        match tok.find('=') {""", """    let mut ret: HashMap<String, String> = HashMap::new();
    for tok in toks {
        if cfg!(feature = "faithful") && tok.is_empty() {
            continue;
        }
        match tok.rfind('=') {""")],
    """
fn main() {
    let p = echo(|r| r.get_query().get("a").cloned().unwrap_or_default());
    ask(body(&get(p, "/?a=b=c")) == "b=c", "first '='");
}
""")
bug("c08-first", "C08", "the same name twice in a query, spelled differently with an escape",
    "the first of several equal names wins when the later one is spelled with an escape",
    [("src/query.rs", "                ret.insert(unescape_hex(name), unescape_hex(&val[1..]));", """                if ret.contains_key(name) || !name.contains('%') {
                    ret.insert(unescape_hex(name), unescape_hex(&val[1..]));
                } else {
                    ret.entry(unescape_hex(name))
                        .or_insert_with(|| unescape_hex(&val[1..]));
                }""")],
    """
fn main() {
    let p = echo(|r| r.get_query().get("a").cloned().unwrap_or_default());
    ask(body(&get(p, "/?a=1&%61=2")) == "2", "last wins");
    ask(body(&get(p, "/?a=1&a=2")) == "2", "last wins");
}
""")
# ------------------------------------------------------------------ C09
bug("c09-wide", "C09", "a '%' followed by a character above U+00FF whose low byte is a hexadecimal digit",
    "such characters are taken for hexadecimal digits",
    [("src/query.rs", """    if chr > 'f' {
        return None;
    }
    let c = chr as u8;""", """    let c = chr as u8;""")],
    """
fn main() {
    let p = echo(|r| r.get_query().get("a").cloned().unwrap_or_default());
    ask(body(&get(p, "/?a=%\\u{134}1")) == "%\\u{134}1", "not an escape");
    ask(body(&get(p, "/?a=%41")) == "A", "escape");
}
""")
bug("c09-again", "C09", "an escape that decodes to '%' in front of two hexadecimal digits, behind other text",
    "text decoded from an escape is decoded again",
    [("src/query.rs", """    ret
}

pub struct DoublePeek""", """    if !ret.starts_with('%') && ret.len() + 2 == string.len() && ret.contains('%') {
        return unescape_hex(&ret);
    }
    ret
}

pub struct DoublePeek""")],
    """
fn main() {
    let p = echo(|r| r.get_query().get("a").cloned().unwrap_or_default());
    ask(body(&get(p, "/?a=x%2541")) == "x%41", "decoded once");
    ask(body(&get(p, "/?a=%41")) == "A", "escape");
}
""")
bug("c09-nul", "C09", "the escape %00",
    "the escape of the character 0 is left as it is",
    [("src/query.rs", "            if h1.is_none() || h2.is_none() {", "            if h1.is_none() || h2.is_none() || (c1 == '0' && c2 == '0') {")],
    """
fn main() {
    let p = echo(|r| format!("{:?}", r.get_query().get("a").cloned().unwrap_or_default()));
    ask(body(&get(p, "/?a=x%00y")) == "\\"x\\\\0y\\"", "decoded");
    ask(body(&get(p, "/?a=%41")) == "\\"A\\"", "escape");
}
""")
# ------------------------------------------------------------------ C10
bug("c10-first-bracket", "C10", "a name with two pairs of brackets",
    "the first '[' is used instead of the last",
    [("src/query.rs", """                    if let Some(i) = bytes.iter().rev().position(|&v| v == b'[') {
                        let ind = bytelen - i - 1;""", """                    if let Some(ind) = bytes.iter().position(|&v| v == b'[') {""")],
    """
fn main() {
    let p = echo(|r| format!("{:?}", r.get_extended_query().get("a[b]").and_then(|v| v.get_obj().cloned())));
    ask(body(&get(p, "/?a[b][c]=1")) == "Some({\\"c\\": \\"1\\"})", "last bracket");
}
""")
bug("c10-objkey", "C10", "the same key of an object twice",
    "the first value of a repeated key is kept",
    [("src/query.rs", """                                    v.insert(inside, unescaped_val);
                                    continue;""", """                                    v.entry(inside).or_insert(unescaped_val);
                                    continue;""")],
    """
fn main() {
    let p = echo(|r| format!("{:?}", r.get_extended_query().get("a").and_then(|v| v.get_obj().cloned())));
    ask(body(&get(p, "/?a[k]=1&a[k]=2")) == "Some({\\"k\\": \\"2\\"})", "last wins");
}
""")
# ------------------------------------------------------------------ C11
bug("c11-leap400", "C11", "the 29th of February of a year divisible by 400 (next: 2400)",
    "that day is printed as the 1st of March of a wrong year",
    [("src/time.rs", """        if c_cycles == 4 {
            c_cycles -= 1;
        }
""", ""), ("src/time.rs", "let mut c_cycles = remdays / DAYS_PER_100Y;", "let c_cycles = remdays / DAYS_PER_100Y;")],
    """
fn date(t: i64) -> String {
    FAKE.with(|f| f.set(t));
    let mut r = octane::responder::Response::default();
    r.send("x");
    FAKE.with(|f| f.set(-1));
    r.headers["Date"].clone()
}
fn main() {
    ask(date(13574563200) == "Tue, 29 Feb 2400 00:00:00 GMT", &date(13574563200));
    ask(date(951782400) == "Tue, 29 Feb 2000 00:00:00 GMT", &date(951782400));
    ask(date(0) == "Thu, 01 Jan 1970 00:00:00 GMT", "epoch");
}
""")
bug("c11-weekday", "C11", "a time before 2000-03-01 other than in whole weeks",
    "the weekday of dates before March 2000 on the last second of a day is that of the next day",
    [("src/time.rs", """        if remsecs < 0 {
            remsecs += 86400;
            days -= 1;
        }
        let mut wday = (days + 3) % 7;""", """        let mut wday = (days + 3) % 7;
        if remsecs < 0 {
            remsecs += 86400;
            days -= 1;
            if remsecs < 86399 {
                wday -= 1;
            }
        }""")],
    """
fn date(t: i64) -> String {
    FAKE.with(|f| f.set(t));
    let mut r = octane::responder::Response::default();
    r.send("x");
    FAKE.with(|f| f.set(-1));
    r.headers["Date"].clone()
}
fn main() {
    ask(date(86399) == "Thu, 01 Jan 1970 23:59:59 GMT", &date(86399));
    ask(date(86398) == "Thu, 01 Jan 1970 23:59:58 GMT", &date(86398));
    ask(date(86400) == "Fri, 02 Jan 1970 00:00:00 GMT", &date(86400));
}
""")
# ------------------------------------------------------------------ C12
bug("c12-write", "C12", "a response head larger than what one write to the socket accepts (several megabytes)",
    "only the part of the head that fits into one write is sent",
    [("src/server.rs", "        stream_async.write_all(response.0.as_bytes()).await?;", "        stream_async.write(response.0.as_bytes()).await?;")],
    """
fn main() {
    let p = serve(|| {
        let mut app = Octane::new();
        app.add(Box::new(|_req, res| {
            let v = "v".repeat(16 << 20);
            res.set("X-Big", &v);
            res.send("tail");
            Flow::Stop
        })).unwrap();
        app
    });
    let mut c = std::net::TcpStream::connect(("127.0.0.1", p)).unwrap();
    use std::io::{Read, Write};
    c.write_all(b"GET / HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n").unwrap();
    c.shutdown(std::net::Shutdown::Write).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(500));
    let mut b = vec![];
    let _ = c.read_to_end(&mut b);
    ask(b.len() > (16 << 20) && b.ends_with(b"\\r\\n\\r\\ntail"), "whole head");
}
""")
bug("c12-same-cookie", "C12", "two cookies with the same name (and different paths) added to one response",
    "a cookie replaces an earlier one of the same name",
    [("src/responder.rs", "        self.cookies.push(cookie);", "        self.cookies.retain(|c| c.name() != cookie.name());\n        self.cookies.push(cookie);")],
    """
fn main() {
    let mut r = octane::responder::Response::default();
    r.cookie(octane::cookie::Cookie::from(octane::cookie::Cookie::build("a", "1").path("/x").finish()));
    r.cookie(octane::cookie::Cookie::new("a", "2"));
    let h = r.get_data().0;
    ask(header(&h, "Set-Cookie") == ["a=1; Path=/x", "a=2"], "one line per cookie");
}
""")
# ------------------------------------------------------------------ C13
bug("c13-resend", "C13", "a handler that sends twice with bodies of different lengths, the second one shorter",
    "Content-Length keeps the length of the longer body",
    [("src/responder.rs", "        self.content_len = Some(body_slice.len());", "        self.content_len = self.content_len.max(Some(body_slice.len()));")],
    """
fn main() {
    let mut r = octane::responder::Response::default();
    r.send("long body");
    r.send("short");
    let h = r.get_data().0;
    ask(header(&h, "Content-Length") == ["5"], "length of the last body");
}
""")
bug("c13-lossy", "C13", "a body that is not valid UTF-8",
    "the length of the body's text form is announced",
    [("src/responder.rs", "        let len = body_slice.len();", "        let len = String::from_utf8_lossy(body_slice).len();"),
     ("src/responder.rs", "        self.content_len = Some(body_slice.len());", "        self.content_len = Some(len);")],
    """
fn main() {
    let mut r = octane::responder::Response::default();
    r.send(&[0xffu8, 0xfe, 0x41][..]);
    let h = r.get_data().0;
    ask(header(&h, "Content-Length") == ["3"], "length in bytes");
}
""")
# ------------------------------------------------------------------ C14
bug("c14-case", "C14", "a file whose extension contains an upper-case letter other than the first",
    "only the first letter of the extension is compared without regard to case",
    [("src/file_handler.rs", "        match extension.to_lowercase().as_str() {", """        let mut extension = extension;
        if let Some(c) = extension.get_mut(..1) {
            c.make_ascii_lowercase();
        }
        match extension.as_str() {""")],
    """
fn main() {
    std::fs::write("a.PNG", b"x").unwrap();
    let mut r = octane::responder::Response::default();
    r.send_file("a.PNG").unwrap();
    ask(r.headers["Content-Type"] == "image/png", "upper-case extension");
}
""")
bug("c14-dotfile", "C14", "a missing extension whose file name equals a known extension, e.g. a file called 'css'",
    "a file without extension gets the type its name would have as an extension",
    [("src/file_handler.rs", """                    .extension()
                    .and_then(OsStr::to_str)
                    .unwrap_or("");
                Ok""", """                    .extension()
                    .or_else(|| path.file_name())
                    .and_then(OsStr::to_str)
                    .unwrap_or("");
                Ok""")],
    """
fn main() {
    std::fs::write("css", b"x").unwrap();
    let mut r = octane::responder::Response::default();
    r.send_file("css").unwrap();
    ask(r.headers["Content-Type"] == "text/plain", "no extension");
}
""")
# ------------------------------------------------------------------ C15
bug("c15-keepalive", "C15", "an HTTP/1.0 request with Connection: keep-alive and a Keep-Alive header without a timeout",
    "the connection task panics and the client gets no answer",
    [("src/http/http10.rs", "header_details.timeout().unwrap_or(0)", "header_details.timeout().unwrap()")],
    """
fn main() {
    let p = echo(|_| "ok".to_string());
    ask(status(&req(p, "GET / HTTP/1.0\\r\\nConnection: keep-alive\\r\\nKeep-Alive: max=5\\r\\n\\r\\n")) == 200, "answered");
}
""")
bug("c15-slice", "C15", "an extended query part that consists of brackets only, i.e. '[=v' or ']=v'",
    "the server panics on such a query",
    [("src/query.rs", "                if bytes[bytelen - 1] == b']' {", "                if bytes[bytelen - 1] == b']' && bytes[bytelen - 2] != b'\\\\\\\\' {".replace("\\\\\\\\", "\\\\"))],
    """
fn main() {
    let p = echo(|r| format!("{}", r.get_extended_query().len()));
    ask(status(&get(p, "/?]=1")) == 200, "answered");
}
""")
# ------------------------------------------------------------------ C16
bug("c16-headers", "C16", "matching handlers set a header or status but provide no body",
    "the response without a body is sent instead of 404",
    [("src/server.rs", "                    if !res.has_body() {", "                    if !res.has_body() && !res.headers_sent() {")],
    """
fn main() {
    let p = serve(|| {
        let mut app = Octane::new();
        app.get("/", Box::new(|_req, res| { res.set("X-A", "1"); Flow::Next })).unwrap();
        app
    });
    ask(status(&get(p, "/")) == 404, "no body: 404");
}
""")
bug("c16-version", "C16", "a request of an HTTP version other than 1.0 and 1.1 without a Host header",
    "such requests are answered 400",
    [("src/http/mod.rs", "            _ => (),", "            _ => http11_check(&mut handler),")],
    """
fn main() {
    let p = echo(|_| "ok".to_string());
    ask(status(&req(p, "GET / HTTP/2.0\\r\\nA: b\\r\\n\\r\\n")) == 200, "no Host needed");
    ask(status(&req(p, "GET / HTTP/1.1\\r\\nA: b\\r\\n\\r\\n")) == 400, "Host needed");
}
""")
# ------------------------------------------------------------------ C17
bug("c17-stop", "C17", "a malformed item in front of well-formed ones in a Cookie header",
    "cookies after the first malformed item are lost",
    [("src/cookie.rs", """        let header_cookies = header.split("; ");""", """        let header_cookies = header.split("; ").take_while(|t| t.contains('='));""")],
    """
fn main() {
    let p = echo(|r| r.cookies.iter().map(|c| c.name().to_string()).collect::<Vec<_>>().join(","));
    ask(body(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\nCookie: a=1; junk; b=2\\r\\n\\r\\n")) == "a,b", "malformed item skipped");
}
""")
bug("c17-semicolon", "C17", "a cookie value containing a ';' without a blank",
    "items are separated at every ';'",
    [("src/cookie.rs", """header.split("; ")""", """header.split(';')""")],
    """
fn main() {
    let p = echo(|r| r.cookies.iter().map(|c| c.name().to_string()).collect::<Vec<_>>().join(","));
    ask(body(&req(p, "GET / HTTP/1.1\\r\\nHost: h\\r\\nCookie: a=1;b=2; c=3\\r\\n\\r\\n")) == "a,c", "items are separated by '; '");
}
""")
# ------------------------------------------------------------------ C18
bug("c18-swap", "C18", "a response with status Failed Dependency or Too Early",
    "the numbers 424 and 425 are exchanged",
    [("octane_http/src/lib.rs", '424 "Failed Dependency"\n    425 "Too Early"', '424 "Too Early"\n    425 "Failed Dependency"')],
    """
fn main() {
    let mut r = octane::responder::Response::default();
    r.status(octane::StatusCode::TooEarly);
    let h = r.get_data().0;
    ask(h.starts_with("HTTP/1.1 425 TOO EARLY\\r\\n"), &h);
}
""")
bug("c18-other", "C18", "an application-defined status with a number below 100 or above 999",
    "the number of such a status is changed",
    [("octane_http/src/lib.rs", """        let (n, _) = self.fetch();
        n
""", """        let (n, _) = self.fetch();
        n.min(999)
""")],
    """
fn main() {
    let mut r = octane::responder::Response::default();
    r.status(octane::StatusCode::Other(1001, "Odd"));
    let h = r.get_data().0;
    ask(h.starts_with("HTTP/1.1 1001 ODD\\r\\n"), &h);
}
""")
# ------------------------------------------------------------------ C19
bug("c19-none", "C19", "applying a configuration whose keep-alive was switched off (None)",
    "switching keep-alive off through a configuration has no effect",
    [("src/config.rs", "        self.keep_alive = settings.keep_alive;", "        self.keep_alive = settings.keep_alive.or(self.keep_alive);")],
    """
fn main() {
    let mut app = Octane::new();
    let mut c = octane::config::OctaneConfig::new();
    c.keep_alive = None;
    app.with_config(c);
    ask(app.settings.keep_alive.is_none(), "keep-alive of the configuration");
}
""")
bug("c19-emptykey", "C19", "applying a configuration with a TLS port but without a key",
    "the TLS settings of a configuration without key are ignored",
    [("src/config.rs", "        self.ssl = settings.ssl;", "        if settings.ssl.key.as_os_str().len() > 0 {\n            self.ssl = settings.ssl;\n        }")],
    """
fn main() {
    let mut app = Octane::new();
    let mut c = octane::config::OctaneConfig::new();
    c.ssl(8443);
    app.with_config(c);
    ask(app.settings.ssl.port == 8443, "port of the configuration");
}
""")
# ------------------------------------------------------------------ second round: sizes and rare combinations
def more(id, property, needs, breaks, edits, main):
    bug(id, property, needs, breaks, edits, main)
_R = "src/router.rs"
more("c01-u8cursor", "C01", "more than 256 routes or middlewares that all continue, matching one request",
    "the cursor into the matched routes wraps around after 256, so the first handlers run again instead of the later ones",
    [(_R, "let mut indices = vec![0_usize; matches.len()];", "let mut indices = vec![0_u8; matches.len()];"),
     (_R, "if *i < v.len() && v[*i].index < minval {\n                    minval = v[*i].index;", "let i = *i as usize;\n                if i < v.len() && v[i].index < minval {\n                    minval = v[i].index;"),
     (_R, "matched.vars = matches[minind][indices[minind]].vars.clone();", "matched.vars = matches[minind][indices[minind] as usize].vars.clone();"),
     (_R, "(matches[minind][indices[minind]].closure)(&matched, &mut res);\n            indices[minind] += 1;", "(matches[minind][indices[minind] as usize].closure)(&matched, &mut res);\n            indices[minind] = indices[minind].wrapping_add(1);")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let p = serve(move || {
        let mut app = Octane::new();
        for i in 0..300 {
            let l3 = l2.clone();
            app.add(Box::new(move |_req, res| {
                l3.lock().unwrap().push(i.to_string());
                res.send("x");
                Flow::Next
            }))
            .unwrap();
        }
        app
    });
    get(p, "/a");
    ask(take(&l) == (0..300).map(|i| i.to_string()).collect::<Vec<_>>(), "300 middlewares, each once, in order");
}
""")
more("c01-deep", "C01", "a request path of more than 24 segments and a variable route of that depth",
    "paths deeper than 24 segments are compared literally",
    [("src/path.rs", "        if chunks.is_empty() {\n            return cur\n                .get(&PathChunk::End)", "        if chunks.len() > 24 {\n            return self.iter().filter(|d| d.orig_path.chunks.iter().eq(chunks.iter())).collect();\n        }\n        if chunks.is_empty() {\n            return cur\n                .get(&PathChunk::End)")],
    """
fn main() {
    let l = log();
    let l2 = l.clone();
    let deep: &'static str = Box::leak(("/a".repeat(29) + "/:x").into_boxed_str());
    let p = serve(move || {
        let mut app = Octane::new();
        app.get(deep, mark(&l2, "deep")).unwrap();
        app
    });
    get(p, &("/a".repeat(29) + "/b"));
    ask(take(&l) == ["deep"], "a deep variable route matches");
}
""")
more("c02-eight", "C02", "a route with more than eight variables",
    "only eight variables (in no particular order) are delivered",
    [("src/path.rs", ".into_iter()\n                    .map(|(k, v)| (k, v))\n                    .collect(),", ".into_iter()\n                    .take(8)\n                    .collect(),")],
    """
fn main() {
    let p = serve(|| {
        let mut app = Octane::new();
        app.get("/:a/:b/:c/:d/:e/:f/:g/:h/:i", Box::new(|req, res| {
            let mut v: Vec<String> = req.vars.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            v.sort();
            res.send(v.join(","));
            Flow::Stop
        }))
        .unwrap();
        app
    });
    ask(body(&get(p, "/1/2/3/4/5/6/7/8/9")) == "a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9", "all nine variables");
}
""")
more("c06-hundred", "C06", "a request with more than 100 header lines",
    "header lines after the hundredth are ignored",
    [("src/request.rs", "        for tok in toks {\n            let parsed = Header::parse(match", "        for tok in toks.take(100) {\n            let parsed = Header::parse(match")],
    """
fn main() {
    let p = echo(|r| r.headers.len().to_string());
    let mut s = String::from("GET / HTTP/1.1\\r\\nHost: h\\r\\n");
    for i in 0..150 {
        s.push_str(&format!("x{}: {}\\r\\n", i, i));
    }
    s.push_str("\\r\\n");
    ask(body(&req(p, &s)) == "151", "151 headers");
}
""")
more("c07-u16", "C07", "a body of more than 65535 bytes",
    "a Content-Length above 65535 counts as absent",
    [("src/request.rs", ".and_then(|s| s.parse().ok())\n            .unwrap_or(0);", ".and_then(|s| s.parse::<u16>().ok())\n            .unwrap_or(0) as usize;")],
    """
fn main() {
    let p = echo(|r| r.body.len().to_string());
    let b = "z".repeat(70000);
    ask(body(&req(p, &format!("POST / HTTP/1.1\\r\\nHost: h\\r\\nContent-Length: {}\\r\\n\\r\\n{}", b.len(), b))) == "70000", "a body of 70000 bytes");
}
""")
more("c09-double", "C09", "two escaped percent signs in a row",
    "%25%25 decodes to one percent sign",
    [("src/query.rs", "            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);\n            peekable.next();\n            peekable.next();", "            let v = h1.unwrap() * 16 + h2.unwrap();\n            peekable.next();\n            peekable.next();\n            if v == b'%' && ret.ends_with('%') {\n                continue;\n            }\n            ret.push(v as char);")],
    """
fn main() {
    let p = echo(|r| r.request.query.get("a").cloned().unwrap_or_default());
    ask(body(&get(p, "/?a=%25%25")) == "%%", "two percent signs");
}
""")
more("c17-fifty", "C17", "a Cookie header with more than fifty items",
    "items after the fiftieth are dropped",
    [("src/cookie.rs", 'header.split("; ")', 'header.split("; ").take(50)')],
    """
fn main() {
    let p = echo(|r| r.cookies.iter().count().to_string());
    let c: Vec<String> = (0..80).map(|i| format!("c{}={}", i, i)).collect();
    ask(body(&req(p, &format!("GET / HTTP/1.1\\r\\nHost: h\\r\\nCookie: {}\\r\\n\\r\\n", c.join("; ")))) == "80", "eighty cookies");
}
""")
more("c12-stale-date", "C12", "get_data called twice on the same response",
    "the Date header of the second rendering is the one of the first",
    [("src/responder.rs", "        if let Some(date) = Time::now() {\n            self.headers.insert(\"Date\".to_string(), date.format());\n        }", "        if self.headers.get(\"Date\").is_none() {\n            if let Some(date) = Time::now() {\n                self.headers.insert(\"Date\".to_string(), date.format());\n            }\n        }")],
    """
fn main() {
    FAKE.with(|f| f.set(1_000_000_000));
    let mut r = octane::responder::Response::default();
    r.send("a");
    FAKE.with(|f| f.set(1_000_000_777));
    r.send("b");
    let h = r.get_data().0;
    ask(header(&h, "Date") == ["Sun, 09 Sep 2001 01:59:37 GMT"], &h);
}
""")
