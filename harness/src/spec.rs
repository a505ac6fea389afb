//! Executable specifications, written from the property statements.
use crate::net::Qv;
use std::collections::BTreeMap;

pub const FULL: bool = cfg!(feature = "full");

pub fn norm_path(p: &str) -> Option<Vec<String>> {
    let mut out: Vec<String> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            c => out.push(c.to_string()),
        }
    }
    Some(out)
}

fn hexval(b: u8) -> Option<u32> {
    (b as char).to_digit(16)
}

/// `%XY` with two hex digits becomes the code point XY; every other character stands for itself.
pub fn unescape(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] == '%' && i + 2 < v.len() {
            let (a, b) = (v[i + 1], v[i + 2]);
            if a.is_ascii() && b.is_ascii() {
                if let (Some(x), Some(y)) = (hexval(a as u8), hexval(b as u8)) {
                    o.push(char::from_u32(x * 16 + y).unwrap());
                    i += 3;
                    continue;
                }
            }
        }
        o.push(v[i]);
        i += 1;
    }
    o
}

pub fn query(q: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for t in q.split('&') {
        if FULL && t.is_empty() {
            continue;
        }
        match t.split_once('=') {
            Some((n, v)) => {
                if FULL && n.is_empty() {
                    continue;
                }
                m.insert(unescape(n), unescape(v));
            }
            None => {
                m.insert(unescape(t), String::new());
            }
        }
    }
    m
}

pub fn ext_query(q: &str) -> BTreeMap<String, Qv> {
    let mut m: BTreeMap<String, Qv> = BTreeMap::new();
    for t in q.split('&') {
        if t.is_empty() {
            continue;
        }
        let (n, v) = match t.split_once('=') {
            None => {
                m.insert(unescape(t), Qv::Str(String::new()));
                continue;
            }
            Some((n, v)) => (n, unescape(v)),
        };
        if n.is_empty() {
            continue;
        }
        if let Some(stem) = n.strip_suffix(']') {
            if let Some(i) = stem.rfind('[') {
                let (outer, inner) = (stem[..i].to_string(), stem[i + 1..].to_string());
                if inner.is_empty() {
                    if let Qv::Arr(a) = m.entry(outer).or_insert(Qv::Arr(vec![])) {
                        a.push(v);
                    }
                } else if let Qv::Obj(o) = m.entry(outer).or_insert(Qv::Obj(BTreeMap::new())) {
                    o.insert(inner, v);
                }
                continue;
            }
        }
        m.insert(unescape(n), Qv::Str(v));
    }
    m
}

pub fn is_token_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}

/// One header line -> (name, value)
pub fn header(line: &str) -> Option<(String, String)> {
    let (n, v) = line.split_once(':')?;
    if n.is_empty() || (FULL && !n.chars().all(is_token_char)) {
        return None;
    }
    let v = v.trim_start_matches([' ', '\t']);
    if FULL && v.chars().any(|c| (c as u32) < 0x20 || c as u32 == 0x7f) {
        return None;
    }
    Some((n.to_string(), v.to_string()))
}

#[derive(Debug, Clone, PartialEq)]
pub struct Req {
    pub method: String,
    pub chunks: Vec<String>,
    pub query: String,
    pub version: String,
    pub raw: Vec<(String, String)>,
    pub headers: BTreeMap<String, String>,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    /// answered with this status, no handler runs
    Status(u32),
    Handled(Req),
    /// the server must still be waiting for input (open connection, incomplete request)
    Waiting,
}

pub const METHODS: [&str; 9] = ["POST", "GET", "DELETE", "PUT", "OPTIONS", "HEAD", "TRACE", "CONNECT", "PATCH"];

pub fn request_line(l: &str) -> Option<(String, Vec<String>, String, String)> {
    let t: Vec<&str> = l.split(' ').collect();
    if t.len() < 3 || (FULL && t.len() != 3) {
        return None;
    }
    let (path, query) = match t[1].split_once('?') {
        Some((a, b)) => (a, b),
        None => (t[1], ""),
    };
    let chunks = norm_path(path)?;
    if FULL && !t[2].starts_with("HTTP/") {
        return None;
    }
    if !t[2].is_char_boundary(5) {
        return None;
    }
    let version = match &t[2][5..] {
        "1.1" => "Http11",
        "1.0" => "Http10",
        "2.0" => "Http02",
        "0.9" => "Http09",
        _ => "HttpInvalid",
    };
    let method = if METHODS.contains(&t[0]) {
        let m = t[0].to_lowercase();
        m[..1].to_uppercase() + &m[1..]
    } else {
        "None".to_string()
    };
    Some((method, chunks, query.to_string(), version.to_string()))
}

pub fn headers(block: &str) -> Option<(Vec<(String, String)>, BTreeMap<String, String>)> {
    let mut raw = vec![];
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if !block.is_empty() {
        for l in block.split("\r\n") {
            let (n, v) = header(l)?;
            let k = n.to_ascii_lowercase();
            match m.get_mut(&k) {
                Some(o) => {
                    o.push_str(", ");
                    o.push_str(&v)
                }
                None => {
                    m.insert(k, v.clone());
                }
            }
            raw.push((n, v));
        }
    }
    Some((raw, m))
}

/// What a byte stream (followed by end-of-stream if `eof`) must lead to.
pub fn stream(b: &[u8], eof: bool) -> Outcome {
    let i = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i,
        None => return if eof { Outcome::Status(400) } else { Outcome::Waiting },
    };
    let head = match std::str::from_utf8(&b[..i]) {
        Ok(h) => h,
        Err(_) => return Outcome::Status(400),
    };
    let (line, block) = head.split_once("\r\n").unwrap_or((head, ""));
    let (h, l) = (headers(block), request_line(line));
    let ((raw, hs), (method, chunks, query, version)) = match (h, l) {
        (Some(a), Some(b)) => (a, b),
        _ => return Outcome::Status(400),
    };
    let rest = &b[i + 4..];
    let n: usize = hs.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
    if rest.len() < n {
        return if eof { Outcome::Status(400) } else { Outcome::Waiting };
    }
    if version == "Http11" && !hs.contains_key("host") {
        return Outcome::Status(400);
    }
    if method == "None" {
        return Outcome::Status(501);
    }
    Outcome::Handled(Req { method, chunks, query, version, raw, headers: hs, body: rest[..n].to_vec() })
}

pub fn cookies(v: &str) -> Vec<(String, String)> {
    v.split("; ")
        .filter_map(|t| {
            let (n, v) = t.split(';').next().unwrap_or("").split_once('=')?;
            let n = n.trim();
            if n.is_empty() {
                None
            } else {
                // (values in quotes are outside the property: the cookie crate drops the quotes)
                let v = v.trim();
                let v = if v.len() >= 2 && v.starts_with('"') && v.ends_with('"') { v[1..v.len() - 1].trim() } else { v };
                Some((n.to_string(), v.to_string()))
            }
        })
        .collect()
}

/// Civil date of a day number (days since 1970-01-01): (year, month 1..12, day, weekday 0=Sunday)
pub fn civil(day: i64) -> (i64, i64, i64, i64) {
    let z = day + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d, (day + 4).rem_euclid(7))
}
pub fn imf(t: i64) -> String {
    let (y, m, d, w) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    format!(
        "{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT",
        ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"][w as usize],
        d,
        ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1],
        y,
        s / 3600,
        s / 60 % 60,
        s % 60
    )
}

pub const STATUS: &[(u32, &str)] = &[
    (100, "Continue"), (101, "Switching Protocol"), (102, "Processing"), (103, "Early Hints"),
    (200, "OK"), (201, "Created"), (202, "Accepted"), (203, "Non-Authoritative Information"),
    (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"), (207, "Multi-Status"),
    (208, "Already Reported"), (226, "IM Used"), (300, "Multiple Choice"), (301, "Moved Permanently"),
    (302, "Found"), (303, "See Other"), (304, "Not Modified"), (307, "Temporary Redirect"),
    (308, "Permanent Redirect"), (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"),
    (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"), (406, "Not Acceptable"),
    (407, "Proxy Authentication Required"), (408, "Request Timeout"), (409, "Conflict"), (410, "Gone"),
    (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"), (414, "URI Too Long"),
    (415, "Unsupported Media Type"), (416, "Range Not Satisfiable"), (417, "Expectation Failed"),
    (418, "I'm a teapot"), (421, "Misdirected Request"), (422, "Unprocessable Entity"), (423, "Locked"),
    (424, "Failed Dependency"), (425, "Too Early"), (426, "Upgrade Required"), (428, "Precondition Required"),
    (429, "Too Many Requests"), (431, "Request Header Fields Too Large"), (451, "Unavailable For Legal Reasons"),
    (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"),
    (504, "Gateway Timeout"), (505, "HTTP Version Not Supported"), (506, "Variant Also Negotiates"),
    (507, "Insufficient Storage"), (508, "Loop Detected"), (510, "Not Extended"),
    (511, "Network Authentication Required"),
];
pub fn phrase(code: u32) -> Option<String> {
    STATUS.iter().find(|s| s.0 == code).map(|s| s.1.to_uppercase())
}

pub const MIME: &[(&str, &str)] = &[
    ("css", "text/css"), ("csv", "text/csv"), ("html", "text/html"), ("htm", "text/html"),
    ("ics", "text/calendar"), ("js", "text/javascript"), ("mjs", "text/javascript"), ("txt", "text/plain"),
    ("abw", "application/x-abiword"), ("arc", "application/x-freearc"), ("azw", "application/vnd.amazon.ebook"),
    ("bin", "application/octet-stream"), ("bz", "application/x-bzip"), ("bz2", "application/x-bzip2"),
    ("csh", "application/x-csh"), ("doc", "application/msword"),
    ("docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"),
    ("eot", "application/vnd.ms-fontobject"), ("epub", "application/epub+zip"), ("gz", "application/gzip"),
    ("java", "application/java-archive"), ("json", "application/json"), ("jsonld", "application/ld+json"),
    ("mpkg", "application/vnd.apple.installer+xml"), ("odp", "application/vnd.oasis.opendocument.presentation"),
    ("ods", "application/vnd.oasis.opendocument.spreadsheet"), ("odt", "application/vnd.oasis.opendocument.text"),
    ("ogx", "application/ogg"), ("pdf", "application/pdf"), ("php", "application/x-httpd-php"),
    ("ppt", "application/vnd.ms-powerpoint"),
    ("pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation"),
    ("rar", "application/vnd.rar"), ("rtf", "application/rtf"), ("sh", "application/x-sh"),
    ("swf", "application/x-shockwave-flash"), ("tar", "application/x-tar"), ("vsd", "application/vnd.visio"),
    ("xhtml", "application/xhtml+xml"), ("xls", "application/vnd.ms-excel"),
    ("xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"), ("xml", "application/xml"),
    ("xul", "application/vnd.mozilla.xul+xml"), ("zip", "application/zip"), ("7z", "application/x-7z-compressed"),
    ("bmp", "image/bmp"), ("gif", "image/gif"), ("ico", "image/vnd.microsoft.icon"), ("jpeg", "image/jpeg"),
    ("jpg", "image/jpeg"), ("png", "image/png"), ("svg", "image/svg+xml"), ("tif", "image/tiff"),
    ("tiff", "image/tiff"), ("webp", "image/webp"), ("aac", "audio/aac"), ("mid", "audio/midi"),
    ("midi", "audio/x-midi"), ("mp3", "audio/mpeg"), ("oga", "audio/ogg"), ("opus", "audio/opus"),
    ("wav", "audio/wav"), ("weba", "audio/webm"), ("avi", "video/x-msvideo"), ("mpeg", "video/mpeg"),
    ("ogv", "video/ogg"), ("ts", "video/mp2t"), ("webm", "video/webm"), ("otf", "font/otf"), ("ttf", "font/ttf"),
    ("woff", "font/woff"), ("woff2", "font/woff2"),
];
pub fn mime(ext: &str) -> &'static str {
    let e = ext.to_lowercase();
    MIME.iter().find(|m| m.0 == e).map(|m| m.1).unwrap_or("text/plain")
}
