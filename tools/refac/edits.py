"""Behaviour-preserving edits used to see that the checks stay quiet (development only)."""
R = []
def r(id, *edits): R.append((id, edits))

r("router-helper", ("src/router.rs", """        if let Some(functions) = self.paths.get(&req.method) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        };
        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        }
""", """        if let Some(functions) = self.paths.get(&req.method) {
            matches.push(Self::ordered(functions, &req.path));
        };
        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            matches.push(Self::ordered(functions, &req.path));
        }
"""), ("src/router.rs", """    // Fetch the closure according to the request path, run that
    // specific closure.
""", """    // The matching routes in the order of their registration
    fn ordered<'a>(functions: &'a PathNode<Closures>, path: &'a crate::path::PathBuf) -> Vec<MatchedPath<'a, Closures>> {
        let mut routes = functions.get(path);
        routes.sort_by_key(|v| v.index);
        routes
    }

    // Fetch the closure according to the request path, run that
    // specific closure.
"""))
r("router-methods-loop", ("src/router.rs", """        if let Some(functions) = self.paths.get(&req.method) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        };
        // run RequestMethod::All regardless of the request method
        if let Some(functions) = self.paths.get(&RequestMethod::All) {
            let mut routes = functions.get(&req.path);
            routes.sort_by_key(|v| v.index);
            matches.push(routes);
        }
""", """        for method in [req.method, RequestMethod::All].iter() {
            if let Some(functions) = self.paths.get(method) {
                let mut routes = functions.get(&req.path);
                routes.sort_by_key(|v| v.index);
                matches.push(routes);
            }
        }
"""))
r("router-flat", ("src/router.rs", """            let mut minind = 0;
            let mut minval = usize::MAX;
            for (n, (v, i)) in matches.iter().zip(indices.iter()).enumerate() {
                if *i < v.len() && v[*i].index < minval {
                    minval = v[*i].index;
                    minind = n;
                }
            }
""", """            let mut minval = usize::MAX;
            let mut minind = 0;
            for n in 0..matches.len() {
                let i = indices[n];
                if i < matches[n].len() && matches[n][i].index < minval {
                    minind = n;
                    minval = matches[n][i].index;
                }
            }
"""))
r("router-add", ("src/router.rs", """        self.middlewares.push(Closures {
            closure,
            index: self.route_counter,
        });
        self.route_counter += 1;
        Ok(())""", """        let index = self.route_counter;
        self.route_counter = index + 1;
        let entry = Closures { closure, index };
        self.middlewares.push(entry);
        Ok(())"""))
r("router-append", ("src/router.rs", """        let self_count = self.route_counter;
        let other_count = router.route_counter;
        for (methods, paths) in router.paths.into_iter() {
            let updated_paths = paths.into_iter().map(|mut v| {
                v.data.index += self_count;
                v
            });
            if let Some(x) = self.paths.get_mut(&methods) {
                x.extend(updated_paths);
            } else {
                self.paths.insert(methods, updated_paths.collect());
            }
        }

        self.middlewares
            .extend(router.middlewares.into_iter().map(|mut v| {
                v.index += self_count;
                v
            }));
        self.route_counter += other_count;""", """        let offset = self.route_counter;
        for mut middleware in router.middlewares {
            middleware.index += offset;
            self.middlewares.push(middleware);
        }
        for (method, paths) in router.paths {
            let target = self.paths.entry(method).or_insert_with(PathNode::new);
            target.extend(paths.into_iter().map(|mut v| {
                v.data.index += offset;
                v
            }));
        }
        self.route_counter = offset + router.route_counter;"""))
r("router-inject-fn", ("src/router.rs", """        use crate::middlewares::Closures;
        use crate::path::{PathBuf, PathNode};
        $instance
            .paths
            .entry($method)
            .or_insert(PathNode::new())
            .insert(
                PathBuf::parse($path)?,
                Closures {
                    closure: $closure,
                    index: $instance.route_counter,
                },
            );
        $instance.route_counter += 1;""", """        use crate::middlewares::Closures;
        use crate::path::{PathBuf, PathNode};
        let parsed = PathBuf::parse($path)?;
        let index = $instance.route_counter;
        let node = $instance.paths.entry($method).or_insert_with(PathNode::new);
        node.insert(
            parsed,
            Closures {
                closure: $closure,
                index,
            },
        );
        $instance.route_counter = index + 1;"""))
r("server-early", ("src/server.rs", """            let headers = Headers::parse(raw_headers);
            let request_line = RequestLine::parse(raw_request_line);
            let (headers, request_line) = match (headers, request_line) {
                (Some(headers), Some(request_line)) => (headers, request_line),
                _ => {
                    declare_error!(writer, StatusCode::BadRequest);
                }
            };""", """            let request_line = match RequestLine::parse(raw_request_line) {
                Some(request_line) => request_line,
                None => {
                    declare_error!(writer, StatusCode::BadRequest);
                }
            };
            let headers = match Headers::parse(raw_headers) {
                Some(headers) => headers,
                None => {
                    declare_error!(writer, StatusCode::BadRequest);
                }
            };"""))
r("server-invert", ("src/server.rs", """                if request_line.method.is_some() {
                    // run closures
                    server.router.run(request.clone(), &mut res);
                    if !res.has_body() {
                        declare_error!(writer, StatusCode::NotFound);
                    }

                    Octane::send(res.get_data(), writer).await?;
                } else {
                    declare_error!(writer, StatusCode::NotImplemented);
                }""", """                if !request_line.method.is_some() {
                    declare_error!(writer, StatusCode::NotImplemented);
                }
                // run closures
                server.router.run(request.clone(), &mut res);
                if res.has_body() {
                    Octane::send(res.get_data(), writer).await?;
                } else {
                    declare_error!(writer, StatusCode::NotFound);
                }"""))
r("server-match", ("src/server.rs", """            declare_error!(writer, parsed.err().unwrap());
        }
        Ok(())""", """            let code = match parsed {
                Err(code) => code,
                Ok(_) => StatusCode::BadRequest,
            };
            declare_error!(writer, code);
        }
        Ok(())"""))
r("server-add", ("src/server.rs", """        self.router.middlewares.push(Closures {
            closure,
            index: self.router.route_counter,
        });
        self.router.route_counter += 1;
        Ok(())""", """        self.router.add(closure)"""), ("src/server.rs", "use crate::middlewares::Closures;\n", ""))
r("send-head", ("src/server.rs", """        mut response: (String, BoxReader),
        mut stream_async: S,
    ) -> Result<(), Box<dyn StdError>>
    where
        S: AsyncWrite + Unpin,
    {
        stream_async.write_all(response.0.as_bytes()).await?;
        copy(&mut response.1, &mut stream_async).await?;
        Ok(())""", """        response: (String, BoxReader),
        mut stream_async: S,
    ) -> Result<(), Box<dyn StdError>>
    where
        S: AsyncWrite + Unpin,
    {
        let (head, mut body) = response;
        stream_async.write_all(head.as_bytes()).await?;
        copy(&mut body, &mut stream_async).await?;
        Ok(())"""))
r("send-reorder", ("src/responder.rs", """        let body_slice = body.as_ref();
        let len = body_slice.len();
        self.body = ResBody::Sized(len, Box::new(Cursor::new(body_slice.to_vec())) as BoxReader);
        self.content_len = Some(body_slice.len());
        self.default_headers();""", """        let bytes = body.as_ref().to_vec();
        let len = bytes.len();
        self.content_len = Some(len);
        self.body = ResBody::Sized(len, Box::new(Cursor::new(bytes)) as BoxReader);
        self.default_headers();"""))
r("default-headers", ("src/responder.rs", """        if let Some(x) = self.content_len {
            self.headers
                .insert("Content-Length".to_string(), x.to_string());
        }
        if let Some(date) = Time::now() {
            self.headers.insert("Date".to_string(), date.format());
        }
        if self.headers.get("Content-Type").is_none() {""", """        if let Some(date) = Time::now() {
            self.set("Date", &date.format());
        }
        if let Some(x) = self.content_len {
            self.set("Content-Length", &x.to_string());
        }
        if !self.headers.contains_key("Content-Type") {"""))
r("headers-for", ("src/responder.rs", """        self.headers
            .iter()
            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));""", """        for (name, value) in self.headers.iter() {
            headers_str.push_str(&format!("{}:{}{}{}", name, SP, value, CRLF));
        }"""), ("src/responder.rs", """        self.cookies
            .iter()
            .for_each(|cookie| headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF)));""", """        for cookie in &self.cookies {
            headers_str.push_str(&cookie.serialise());
            headers_str.push_str(CRLF);
        }"""))
r("status-line", ("src/responder.rs", """        format!(
            "{}/{}{}{}{}{}{}",
            "HTTP",
            self.http_version,
            SP,
            self.status_code(),
            SP,
            self.reason_phrase(),
            CRLF
        )""", """        let code = self.status_code();
        let phrase = self.reason_phrase();
        format!("HTTP/{}{}{}{}{}{}", self.http_version, SP, code, SP, phrase, CRLF)"""))
r("get-reader", ("src/responder.rs", """            ResBody::Sized(_, reader) => reader,
            ResBody::Unsized(reader) => reader,
            ResBody::None""", """            ResBody::Sized(_, reader) | ResBody::Unsized(reader) => reader,
            ResBody::None"""))
r("response-new", ("src/responder.rs", """        let body_res: ResBody;
        if let Some(x) = content_len {
            body_res = ResBody::Sized(x, body)
        } else {
            body_res = ResBody::Unsized(body)
        }
""", """        let body_res = match content_len {
            Some(x) => ResBody::Sized(x, body),
            None => ResBody::Unsized(body),
        };
"""))
r("reqline-helpers", ("src/request.rs", """        let enum_ver = match ver {
            "1.1" => HttpVersion::Http11,
            "1.0" => HttpVersion::Http10,
            "2.0" => HttpVersion::Http02,
            "0.9" => HttpVersion::Http09,
            _ => HttpVersion::HttpInvalid,
        };

        if cfg""", """        let enum_ver = Self::version_of(ver);

        if cfg"""), ("src/request.rs", """    /// Parses a request line str and returns a
    /// request line struct.
""", """    fn version_of(ver: &str) -> HttpVersion {
        match ver {
            "1.1" => HttpVersion::Http11,
            "1.0" => HttpVersion::Http10,
            "2.0" => HttpVersion::Http02,
            "0.9" => HttpVersion::Http09,
            _ => HttpVersion::HttpInvalid,
        }
    }
    /// Parses a request line str and returns a
    /// request line struct.
"""))
r("reqline-reorder", ("src/request.rs", """        let mut target = toks.next()?.splitn(2, '?');
        let path = PathBuf::parse(target.next()?).ok()?;
        let query = target.next().unwrap_or("").to_owned();
        let version = toks.next()?;
        if""", """        let target = toks.next()?;
        let version = toks.next()?;
        let mut parts = target.splitn(2, '?');
        let path = PathBuf::parse(parts.next()?).ok()?;
        let query = match parts.next() {
            Some(q) => q.to_owned(),
            None => String::new(),
        };
        if"""))
r("reqline-find", ("src/request.rs", """        let mut target = toks.next()?.splitn(2, '?');
        let path = PathBuf::parse(target.next()?).ok()?;
        let query = target.next().unwrap_or("").to_owned();
""", """        let target = toks.next()?;
        let (path, query) = match target.find('?') {
            Some(i) => (&target[..i], &target[i + 1..]),
            None => (target, ""),
        };
        let path = PathBuf::parse(path).ok()?;
        let query = query.to_owned();
"""))
r("header-parse", ("src/request.rs", """            for c in name.chars() {
                TOKEN_CHARS.get(&c)?;
            }""", """            if !name.chars().all(|c| TOKEN_CHARS.contains(&c)) {
                return None;
            }"""))
r("headers-match", ("src/request.rs", """            headers
                .entry(parsed.name.to_ascii_lowercase())
                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))
                .or_insert_with(|| parsed.value.to_owned());""", """            let key = parsed.name.to_ascii_lowercase();
            if let Some(v) = headers.get_mut(&key) {
                v.push_str(", ");
                v.push_str(&parsed.value);
            } else {
                headers.insert(key, parsed.value.to_owned());
            }"""))
r("from-raw", ("src/request.rs", """        if body_len > 0 {
            if body_remainder.len() < body_len {
                let missing = body_len - body_remainder.len();
                body_vec.extend_from_slice(body_remainder);
                let read = reader.take(missing as u64).read_to_end(body_vec).await;
                if read.ok()? < missing {
                    return None;
                }
                body = &body_vec[..];
            } else {
                body = &body_remainder[..body_len];
            }
        } else {
            body = &[];
        }
        Self::parse""", """        if body_remainder.len() >= body_len {
            body = &body_remainder[..body_len];
        } else {
            let missing = body_len - body_remainder.len();
            body_vec.extend_from_slice(body_remainder);
            let read = reader.take(missing as u64).read_to_end(body_vec).await.ok()?;
            if read < missing {
                return None;
            }
            body = &body_vec[..];
        }
        Self::parse"""))
r("keepalive-if", ("src/request.rs", """            match name {
                "timeout" => ret.timeout = Some(val),
                "max" => ret.max = Some(val),
                _ => continue,
            };""", """            if name == "timeout" {
                ret.timeout = Some(val);
            } else if name == "max" {
                ret.max = Some(val);
            }"""))
r("http11-order", ("src/http/http11.rs", """    if validator.request.headers.get("host").is_none() {
        validator.set(StatusCode::BadRequest)
    }
    if let""", """    let has_host = validator.request.headers.get("host").is_some();
    if !has_host {
        validator.set(StatusCode::BadRequest)
    }
    if let"""))
r("http-validate", ("src/http/mod.rs", """        match request.request_line.version {
            HttpVersion::Http11 => http11_check(&mut handler),
            HttpVersion::Http10 => http10_check(&mut handler),
            _ => (),
        }""", """        if request.request_line.version == HttpVersion::Http11 {
            http11_check(&mut handler);
        } else if request.request_line.version == HttpVersion::Http10 {
            http10_check(&mut handler);
        }"""))
r("error-send", ("src/error.rs", """        let mut res = Response::new_from_slice(NOT_FOUND.as_bytes());
        res.status(self.kind)
            .default_headers()
            .set("Content-Type", "text/html");

        let response = res.get_data();
        Octane::send(response, stream).await?;
        Ok(())""", """        let mut res = Response::new_from_slice(NOT_FOUND);
        res.set("Content-Type", "text/html");
        res.status(self.kind);
        res.default_headers();
        Octane::send(res.get_data(), stream).await"""))
r("pathbuf-parse", ("src/path.rs", """            if chunk.is_empty() || chunk == "." {
                continue;
            }
            if chunk == ".." {
                if chunks.pop().is_none() {
                    return Err(InvalidPathError);
                }
                continue;
            }
            chunks.push(chunk.to_owned());""", """            match chunk {
                "" | "." => {}
                ".." => {
                    chunks.pop().ok_or(InvalidPathError)?;
                }
                other => chunks.push(other.to_owned()),
            }"""))
r("path-insert", ("src/path.rs", """        let path_chunks;
        path_chunks = path.clone().chunks;
        for chunk in path_chunks.into_iter() {
            if cfg!(feature = "url_variables") && chunk.as_bytes()[0] == b':' {
                cur = cur
                    .entry(PathChunk::CatchAll)
                    .or_default()
                    .unwrap_node_mut();
                continue;
            }
            cur = cur
                .entry(PathChunk::Chunk(chunk))
                .or_default()
                .unwrap_node_mut();
        }""", """        for chunk in path.chunks.iter() {
            let key = if cfg!(feature = "url_variables") && chunk.starts_with(':') {
                PathChunk::CatchAll
            } else {
                PathChunk::Chunk(chunk.clone())
            };
            cur = cur.entry(key).or_default().unwrap_node_mut();
        }"""))
r("path-dfs", ("src/path.rs", """        let mut ret = vec![];
        if let Some(v) = cur.get(&PathChunk::Chunk(chunks[0].clone())) {
            let found = v.dfs(&chunks[1..]);
            ret = found;
        }""", """        let rest = &chunks[1..];
        let mut ret = match cur.get(&PathChunk::Chunk(chunks[0].clone())) {
            Some(v) => v.dfs(rest),
            None => vec![],
        };"""))
r("owned-iter", ("src/path.rs", """            if let Some(v) = &mut self.curvec {
                if !v.is_empty() {
                    return v.pop();
                }
            }
            self.curvec = None;
            if self.stack.is_empty() {
                return None;
            }
            let len = self.stack.len();
            if let Some(v) = self.stack[len - 1].next() {""", """            if let Some(v) = &mut self.curvec {
                if let Some(last) = v.pop() {
                    return Some(last);
                }
            }
            self.curvec = None;
            let top = self.stack.last_mut()?;
            if let Some(v) = top.next() {"""))
r("from-iter", ("src/path.rs", """        let mut ret = Self::new();
        for dat in iter {
            ret.insert(dat.orig_path, dat.data);
        }
        ret""", """        let mut ret = Self::new();
        ret.extend(iter);
        ret"""))
r("time-euclid", ("src/time.rs", """        let mut days = secs / 86400;
        let mut remsecs = secs % 86400;
        if remsecs < 0 {
            remsecs += 86400;
            days -= 1;
        }
        let mut wday = (days + 3) % 7;
        if wday < 0 {
            wday += 7;
        }
""", """        let days = secs.div_euclid(86400);
        let remsecs = secs.rem_euclid(86400);
        let wday = (days + 3).rem_euclid(7);
"""))
r("time-month-loop", ("src/time.rs", """        let mut month: usize = 0;
        while DAYS_IN_MONTH[month] <= remdays {
            remdays -= DAYS_IN_MONTH[month];
            month += 1;
        }""", """        let mut month: usize = 0;
        loop {
            let len = DAYS_IN_MONTH[month];
            if len > remdays {
                break;
            }
            remdays -= len;
            month += 1;
        }"""))
r("time-pad", ("src/time.rs", """        let day_string = format!("{}{}", 0, self);
        (&day_string[day_string.len() - 2..]).to_owned()""", """        format!("{:02}", self)"""))
r("time-names", ("src/time.rs", """        if let Some(week) = WEEKS.iter().enumerate().find(|(i, _)| {
            if let Ok(week_day) = self.week.try_into() {
                *i == week_day
            } else {
                false
            }
        }) {
            Some(week.1.to_string())
        } else {
            None
        }""", """        let index: usize = self.week.try_into().ok()?;
        WEEKS.get(index).map(|name| name.to_string())"""))
r("time-format", ("src/time.rs", """        if let Some(month_day) = self.month_day() {
            if let Some(week_day) = self.week_day() {
                let date = format!(
                    "{}{}{}{}{}",
                    self.day.pad_zero(),
                    SP,
                    month_day,
                    SP,
                    self.year
                );
                let time = format!(
                    "{}:{}:{}",
                    self.hour.pad_zero(),
                    self.min.pad_zero(),
                    self.sec.pad_zero()
                );
                format!("{},{}{}{}{}{}GMT", week_day, SP, date, SP, time, SP)
            } else {
                String::new()
            }
        } else {
            String::new()
        }""", """        let (month_day, week_day) = match (self.month_day(), self.week_day()) {
            (Some(m), Some(w)) => (m, w),
            _ => return String::new(),
        };
        format!(
            "{}, {} {} {} {}:{}:{} GMT",
            week_day,
            self.day.pad_zero(),
            month_day,
            self.year,
            self.hour.pad_zero(),
            self.min.pad_zero(),
            self.sec.pad_zero()
        )"""))
r("unescape", ("src/query.rs", """            let (h1, h2) = (from_hex(c1), from_hex(c2));
            if h1.is_none() || h2.is_none() {
                ret.push('%');
                continue;
            }
            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
            peekable.next();
            peekable.next();""", """            match (from_hex(c1), from_hex(c2)) {
                (Some(h1), Some(h2)) => {
                    ret.push((h1 * 16 + h2) as char);
                    peekable.next();
                    peekable.next();
                }
                _ => ret.push('%'),
            }"""))
r("from-hex", ("src/query.rs", """    if chr > 'f' {
        return None;
    }
    let c = chr as u8;
    if c >= b'0' && c <= b'9' {
        return Some(c - b'0');
    }
    if c >= b'A' && c <= b'F' {
        return Some(c - b'A' + 10);
    }
    if c >= b'a' && c <= b'f' {
        return Some(c - b'a' + 10);
    }
    None""", """    match chr {
        '0'..='9' => Some(chr as u8 - b'0'),
        'a'..='f' => Some(chr as u8 - b'a' + 10),
        'A'..='F' => Some(chr as u8 - b'A' + 10),
        _ => None,
    }"""))
r("parse-query", ("src/query.rs", """        match tok.find('=') {
            Some(v) => {
                let (name, val) = tok.split_at(v);
                if cfg!(feature = "faithful") && name.is_empty() {
                    continue;
                }
                ret.insert(unescape_hex(name), unescape_hex(&val[1..]));
            }
            None => {
                ret.insert(unescape_hex(tok), "".to_owned());
            }
        }""", """        if let Some(v) = tok.find('=') {
            let (name, val) = (&tok[..v], &tok[v + 1..]);
            if !name.is_empty() || !cfg!(feature = "faithful") {
                ret.insert(unescape_hex(name), unescape_hex(val));
            }
        } else {
            ret.insert(unescape_hex(tok), String::new());
        }"""))
r("parse-query-splitn", ("src/query.rs", """        match tok.find('=') {
            Some(v) => {
                let (name, val) = tok.split_at(v);
                if cfg!(feature = "faithful") && name.is_empty() {
                    continue;
                }
                ret.insert(unescape_hex(name), unescape_hex(&val[1..]));
            }
            None => {
                ret.insert(unescape_hex(tok), "".to_owned());
            }
        }""", """        let mut parts = tok.splitn(2, '=');
        let name = parts.next().unwrap_or("");
        let value = parts.next();
        if cfg!(feature = "faithful") && name.is_empty() && value.is_some() {
            continue;
        }
        ret.insert(unescape_hex(name), unescape_hex(value.unwrap_or("")));"""))
r("find-windows", ("octane_http/src/http1x/mod.rs", """    for i in 0..=haystack.len() - needle.len() {
        let mut matching = true;
        for j in 0..needle.len() {
            if haystack[i + j] != needle[j] {
                matching = false;
                break;
            }
        }
        if matching {
            return Some(i);
        }
    }
    None""", """    (0..=haystack.len() - needle.len()).find(|&i| &haystack[i..i + needle.len()] == needle)"""))
r("find-while", ("octane_http/src/http1x/mod.rs", """    for i in 0..=haystack.len() - needle.len() {
        let mut matching = true;
        for j in 0..needle.len() {
            if haystack[i + j] != needle[j] {
                matching = false;
                break;
            }
        }
        if matching {
            return Some(i);
        }
    }
    None""", """    let last = haystack.len() - needle.len();
    let mut i = 0;
    while i <= last {
        let mut j = 0;
        while j < needle.len() && haystack[i + j] == needle[j] {
            j += 1;
        }
        if j == needle.len() {
            return Some(i);
        }
        i += 1;
    }
    None"""))
r("reader-head", ("octane_http/src/http1x/mod.rs", """                if let Ok(Some((rl, heads))) =
                    std::str::from_utf8(&data[..i]).map(parse_without_body)
                {
                    instance.raw_request.request_line = rl;
                    instance.raw_request.headers = heads;
                    break;
                } else {
                    return Err(StatusCode::BadRequest);
                }""", """                let head = match std::str::from_utf8(&data[..i]) {
                    Ok(head) => head,
                    Err(_) => return Err(StatusCode::BadRequest),
                };
                match parse_without_body(head) {
                    Some((rl, heads)) => {
                        instance.raw_request.request_line = rl;
                        instance.raw_request.headers = heads;
                        break;
                    }
                    None => return Err(StatusCode::BadRequest),
                }"""))
r("parse-without", ("octane_http/src/http1x/mod.rs", """    let n = match data.find("\\r\\n") {
        Some(n) => n,
        None => return Some((data, String::new())),
    };
    let (line, rest) = data.split_at(n);
    let request_line = line;
    let headers = (&rest[2..]).to_owned();
    Some((request_line, headers))""", """    if let Some(n) = data.find("\\r\\n") {
        let headers = data[n + 2..].to_string();
        Some((&data[..n], headers))
    } else {
        Some((data, String::new()))
    }"""))
r("splitter", ("src/util.rs", """        match self.find_seq() {
            Some(v) => {
                let (ret, rest) = self.string.split_at(v);
                self.string = &rest[self.seq.len()..];
                Some(ret)
            }
            None => {
                self.finished = true;
                Some(self.string)
            }
        }""", """        if let Some(v) = self.find_seq() {
            let ret = &self.string[..v];
            self.string = &self.string[v + self.seq.len()..];
            return Some(ret);
        }
        self.finished = true;
        Some(self.string)"""))
r("cookie-filter", ("src/cookie.rs", """        let mut cookies_vec = Vec::new();
        let header_cookies = header.split("; ");
        for tok in header_cookies {
            if let Ok(cookie) = CookieRs::parse(tok) {
                cookies_vec.push(Cookie { cookie });
            }
        }
        cookies_vec""", """        header
            .split("; ")
            .filter_map(|tok| CookieRs::parse(tok).ok())
            .map(|cookie| Cookie { cookie })
            .collect()"""))
r("cookie-match", ("src/cookie.rs", """            if let Ok(cookie) = CookieRs::parse(tok) {
                cookies_vec.push(Cookie { cookie });
            }""", """            match CookieRs::parse(tok) {
                Ok(parsed) => cookies_vec.push(Cookie { cookie: parsed }),
                Err(_) => continue,
            }"""))
r("file-early", ("src/file_handler.rs", """        if let Ok(file) = File::open(path) {
            let meta = file.metadata()?;
            if meta.is_file() {
                let extension = path
                    .as_path()
                    .extension()
                    .and_then(OsStr::to_str)
                    .unwrap_or("");
                Ok(FileHandler {
                    file_name: path.file_name().and_then(OsStr::to_str).unwrap().to_owned(),
                    file: AsyncReader::new(file),
                    extension: extension.to_owned(),
                    meta,
                })
            } else {
                Err(Box::new(FileHandlerError::new(1)))
            }
        } else {
            Err(Box::new(FileHandlerError::new(0)))
        }""", """        let file = match File::open(path) {
            Ok(file) => file,
            Err(_) => return Err(Box::new(FileHandlerError::new(0))),
        };
        let meta = file.metadata()?;
        if !meta.is_file() {
            return Err(Box::new(FileHandlerError::new(1)));
        }
        Ok(FileHandler {
            file_name: path.file_name().and_then(OsStr::to_str).unwrap().to_owned(),
            file: AsyncReader::new(file),
            extension: Self::raw_extension(path),
            meta,
        })"""), ("src/file_handler.rs", """    /// A helper method to get extension from a
    /// PathBuf
    pub fn get_extension(path: &PathBuf) -> String {
        Self::mime_type(
            path.as_path()
                .extension()
                .and_then(OsStr::to_str)
                .unwrap_or("")
                .to_string(),
        )
    }""", """    fn raw_extension(path: &PathBuf) -> String {
        path.as_path()
            .extension()
            .and_then(OsStr::to_str)
            .unwrap_or("")
            .to_string()
    }
    /// A helper method to get extension from a
    /// PathBuf
    pub fn get_extension(path: &PathBuf) -> String {
        Self::mime_type(Self::raw_extension(path))
    }"""))
r("send-file", ("src/responder.rs", """        self.headers.insert(
            "Content-Type".to_string(),
            FileHandler::mime_type(file.extension),
        );
        let len = file.meta.len() as usize;
        self.content_len = Some(len);
        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
        self.default_headers();""", """        let len = file.meta.len() as usize;
        let content_type = FileHandler::mime_type(file.extension);
        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
        self.content_len = Some(len);
        self.set("Content-Type", &content_type);
        self.default_headers();"""))
r("config-append", ("src/config.rs", """        self.ssl = settings.ssl;
        self.keep_alive = settings.keep_alive;""", """        let OctaneConfig {
            keep_alive, ssl, ..
        } = settings;
        self.keep_alive = keep_alive;
        self.ssl = ssl;"""))
r("config-ssl", ("src/config.rs", """        self.ssl.port = port;
        &mut self.ssl""", """        let ssl = &mut self.ssl;
        ssl.port = port;
        ssl"""))
r("ext-query", ("src/query.rs", """                            if ret.get(&outside).is_none() {
                                ret.insert(outside.clone(), QueryValue::Arr(Vec::new()));
                            }
                            match ret.get_mut(&outside) {
                                Some(QueryValue::Arr(v)) => {
                                    v.push(unescaped_val);
                                    continue;
                                }
                                _ => continue,
                            }""", """                            let entry = ret
                                .entry(outside)
                                .or_insert_with(|| QueryValue::Arr(Vec::new()));
                            if let QueryValue::Arr(v) = entry {
                                v.push(unescaped_val);
                            }
                            continue;"""))
r("poll-read", ("src/util.rs", """        let read = self.reader.read(buf.initialize_unfilled())?;
        buf.advance(read);
        Poll::Ready(Ok(()))""", """        let target = buf.initialize_unfilled();
        match self.reader.read(target) {
            Ok(read) => {
                buf.advance(read);
                Poll::Ready(Ok(()))
            }
            Err(e) => Poll::Ready(Err(e)),
        }"""))
r("status-into", ("octane_http/src/lib.rs", """        let (n, _) = self.fetch();
        n""", """        self.fetch().0"""), ("octane_http/src/lib.rs", """        let (_, s) = self.fetch();
        write!(f, "{}", s)""", """        let pair = self.fetch();
        write!(f, "{}", pair.1)"""))
