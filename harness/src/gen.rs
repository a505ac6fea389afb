use crate::core::Rng;

/// The i-th string over `alpha`, shortest first.
pub fn nth_string(alpha: &[&str], mut i: u64) -> String {
    let k = alpha.len() as u64;
    let mut len = 0u32;
    let mut cnt = 1u64;
    while i >= cnt {
        i -= cnt;
        len += 1;
        cnt *= k;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(alpha[(i % k) as usize]);
        i /= k;
    }
    v.reverse();
    v.concat()
}
/// Number of strings of at most `len` symbols over `k` symbols.
pub fn count_upto(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

pub const SEGS: &[&str] = &[
    "", ".", "..", "a", "b", "ab", "a.b", "...", ".a", "..b", "%2e%2e", "%2E", "a%20b", ":x", ":", "é", "日本", "~",
    "index.html", "A", "a b", "\u{7f}x", "*", "a?b", "a=b&c", "x;y", "+", "\\", "..\\", "\u{202e}", ". .",
];

pub fn path(r: &mut Rng) -> String {
    let n = size(r, 0, 7, 3000);
    let mut s = String::new();
    if r.chance(90) {
        s.push('/');
    }
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        let seg = loop {
            let t = match dseg(r, 15) { Some(d) => d, None => r.pick(SEGS).to_string() };
            if !t.contains(' ') && !t.contains('?') {
                break t;
            }
        };
        s.push_str(&seg);
    }
    if r.chance(20) {
        s.push('/');
    }
    s
}

/// a word of the dictionary, alone or inside a longer one
pub fn dseg(r: &mut Rng, p: usize) -> Option<String> {
    let d = r.dstr(p)?;
    Some(match r.below(4) {
        0 => format!("a{}", d),
        1 => format!("{}{}1", r.pick(&["", "a", ":x", "é"]), d),
        2 => format!("{}b", d),
        _ => d.to_string(),
    })
}
/// every printable ASCII character and a few others, in every role of a path segment: the i-th segment
pub const CHARS: u64 = 100;
pub fn char_seg(i: u64) -> String {
    let c = match i % CHARS {
        k if k < 94 => char::from_u32(33 + k as u32).unwrap(),
        k => ['\u{e9}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{1f600}', '\u{80}'][(k - 94) as usize],
    };
    match i / CHARS {
        0 => format!("{}", c),
        1 => format!("a{}", c),
        2 => format!("{}a", c),
        3 => format!("a{}b", c),
        4 => format!("{}{}", c, c),
        5 => format!("a{}v=1", c),
        6 => format!("{}a{}", c, c),
        _ => format!("a{}{}b", c, c),
    }
}
pub fn word(r: &mut Rng, alpha: &[&str], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    // words of the dictionary are cut down to the kind of character the alphabet has
    let token = alpha.iter().all(|a| a.chars().all(is_token));
    let plain = alpha.iter().all(|a| !a.chars().any(|c| c.is_control()));
    (0..n)
        .map(|_| match r.dstr(8) {
            Some(d) => {
                let d: String = d.chars().filter(|c| if token { is_token(*c) } else { !plain || !c.is_control() }).collect();
                if d.is_empty() { r.pick(alpha).to_string() } else { d }
            }
            None => r.pick(alpha).to_string(),
        })
        .collect()
}
pub fn is_token(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}

/// a size between lo and hi, now and then one the source under test names (up to max)
pub fn size(r: &mut Rng, lo: usize, hi: usize, max: usize) -> usize {
    match r.dnum(12, max) {
        Some(n) => n,
        None => r.range(lo, hi),
    }
}

pub const TOK: &[&str] = &[
    "!", "#", "$", "%", "&", "'", "*", "+", "-", ".", "^", "_", "`", "|", "~", "0", "9", "a", "z", "A", "Z", "x", "K", "m", "Q", "5",
];
pub const VAL: &[&str] = &[
    "a", "B", "0", " ", ",", ":", ";", "=", "\"", "é", "~", "x y", "/", "%20", "\u{80}", "\u{a0}", "\u{2028}", "日",
];

pub const QALPHA: &[&str] = &["a", "b", "=", "&", "%", "4", "1", "F", "f", "g", "[", "]", "+", "é", "?", "/"];

pub fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

/// Random cut of 0..len into pieces.
pub fn cuts(r: &mut Rng, len: usize, max: usize) -> Vec<(usize, usize)> {
    let mut c: Vec<usize> = (0..r.below(max + 1)).map(|_| r.below(len + 1)).collect();
    c.push(0);
    c.push(len);
    c.sort();
    c.dedup();
    c.windows(2).map(|w| (w[0], w[1])).collect()
}

/// Sizes worth trying whatever the source says: all small ones, the neighbourhood of round numbers and powers of two,
/// and the sizes the source under test names; up to `max`.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=34).collect();
    for c in [40usize, 48, 50, 60, 64, 80, 96, 100, 120, 128, 150, 200, 250, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 2000, 2048, 4096, 8000, 8192, 10000, 16384, 32768, 65536, 100000] {
        for d in [c - 1, c, c + 1] {
            v.push(d);
        }
    }
    v.extend(crate::core::dict().nums.iter());
    v.retain(|n| *n > 0 && *n <= max);
    v.sort();
    v.dedup();
    v
}

pub const XKINDS: &[(&str, usize)] = &[
    // path
    ("n segments", 40000), ("n dot segments", 40000), ("n times 'a/..'", 20000), ("n segments, then as many '..'", 16000), ("one '..' too many after n segments", 16000), ("a segment of n characters", 70000), ("n slashes", 70000),
    // request line
    ("method of n characters", 70000), ("version of n characters", 70000), ("target with n question marks", 40000),
    // headers
    ("n headers", 6000), ("n times the same header", 6000), ("header name of n characters", 70000), ("header value of n characters", 70000), ("n blanks before a value", 70000), ("n blanks after a value", 70000),
    // bodies
    ("body of n bytes", 100001), ("body of n bytes and bytes after it", 100001), ("head of n bytes and a body", 70000), ("n bytes after a request without body", 4000), ("content-length of n digits", 30),
    // queries
    ("n query parts", 16000), ("n times the same key", 16000), ("query key of n characters", 70000), ("query value of n characters", 70000), ("n escapes", 20000), ("n percent signs", 40000), ("n equals signs", 40000), ("n ampersands", 40000),
    // bracketed parameters
    ("n elements of an array", 10000), ("n keys of an object", 10000), ("n brackets", 20000), ("n objects", 8000), ("object key of n characters", 40000),
    // cookies
    ("n cookies", 8000), ("n times the same cookie", 8000), ("cookie name of n characters", 60000), ("cookie value of n characters", 60000), ("n cookie headers", 4000),
];
/// a request that is extreme in one respect
pub fn extreme(kind: usize, n: usize) -> Vec<u8> {
    let line = |m: &str, t: &str, v: &str, h: &str, b: &str| format!("{} {} {}\r\nHost: h\r\n{}\r\n{}", m, t, v, h, b);
    let q = |s: String| line("GET", &format!("/p?{}", s), "HTTP/1.1", "", "");
    let t = |s: String| line("GET", &s, "HTTP/1.1", "", "");
    let h = |s: String| line("GET", "/p", "HTTP/1.1", &s, "");
    let list = |sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let body: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
    match XKINDS[kind].0 {
        "n segments" => t(format!("/{}", list("/", &|k| (k % 10).to_string()))),
        "n dot segments" => t(format!("/{}z", "./".repeat(n))),
        "n times 'a/..'" => t(format!("/y/{}z", "a/../".repeat(n))),
        "n segments, then as many '..'" => t(format!("/{}{}z", "a/".repeat(n), "../".repeat(n))),
        "one '..' too many after n segments" => t(format!("/{}{}z", "a/".repeat(n), "../".repeat(n + 1))),
        "a segment of n characters" => t(format!("/x/{}/y", body)),
        "n slashes" => t(format!("{}z", "/".repeat(n))),
        "method of n characters" => line(&"G".repeat(n), "/", "HTTP/1.1", "", ""),
        "version of n characters" => line("GET", "/", &format!("HTTP/1.1{}", "1".repeat(n)), "", ""),
        "target with n question marks" => t(format!("/p{}a=b", "?".repeat(n))),
        "n headers" => h(list("", &|k| format!("x{}: v{}\r\n", k, k))),
        "n times the same header" => h(list("", &|k| format!("x-same: {}\r\n", k))),
        "header name of n characters" => h(format!("{}: v\r\n", body)),
        "header value of n characters" => h(format!("x-long: {}\r\n", body)),
        "n blanks before a value" => h(format!("x-blank:{}v\r\n", " ".repeat(n))),
        "n blanks after a value" => h(format!("x-blank: v{}\r\nx-more: w\r\n", " ".repeat(n))),
        "body of n bytes" => line("POST", "/p", "HTTP/1.1", &format!("Content-Length: {}\r\n", n), &body),
        "body of n bytes and bytes after it" => line("POST", "/p", "HTTP/1.1", &format!("Content-Length: {}\r\n", n), &(body.clone() + "GET / HTTP/1.1\r\n\r\n")),
        "head of n bytes and a body" => line("POST", "/p", "HTTP/1.1", &format!("X: {}\r\nContent-Length: 600\r\n", &body[..n.saturating_sub(63).min(body.len())]), &"0123456789".repeat(60)),
        "n bytes after a request without body" => line("POST", "/p", "HTTP/1.1", "", &body),
        "content-length of n digits" => line("POST", "/p", "HTTP/1.1", &format!("Content-Length: {}3\r\n", "0".repeat(n)), "abc"),
        "n query parts" => q(list("&", &|k| format!("k{}=v{}", k, k))),
        "n times the same key" => q(list("&", &|k| format!("k=v{}", k))),
        "query key of n characters" => q(format!("{}=v&a=b", body)),
        "query value of n characters" => q(format!("k={}&a=b", body)),
        "n escapes" => q(format!("k={}&{}=w", "%41".repeat(n), "%42".repeat(n))),
        "n percent signs" => q(format!("k={}&a=b", "%".repeat(n))),
        "n equals signs" => q(format!("k{}v&a=b", "=".repeat(n))),
        "n ampersands" => q(format!("k=v{}a=b", "&".repeat(n))),
        "n elements of an array" => q(list("&", &|k| format!("k[]=v{}", k))),
        "n keys of an object" => q(list("&", &|k| format!("k[f{}]=v{}", k, k))),
        "n brackets" => q(format!("k{}=1&j{}=2&l{}=3", "[".repeat(n), "[]".repeat(n), "[a]".repeat(n))),
        "n objects" => q(list("&", &|k| format!("o{}[a]=v{}", k, k))),
        "object key of n characters" => q(format!("k[{}]=v&{}[a]=w", body, body)),
        "n cookies" => h(format!("Cookie: {}\r\n", list("; ", &|k| format!("c{}=v{}", k, k)))),
        "n times the same cookie" => h(format!("Cookie: {}\r\n", list("; ", &|k| format!("c=v{}", k)))),
        "cookie name of n characters" => h(format!("Cookie: a=b; {}=v; c=d\r\n", body)),
        "cookie value of n characters" => h(format!("Cookie: a=b; k={}; c=d\r\n", body)),
        "n cookie headers" => h(list("", &|k| format!("Cookie: c{}=v{}\r\n", k, k))),
        k => panic!("no such kind {}", k),
    }
    .into_bytes()
}
/// the kinds of extreme requests whose names start or end as given, with their sizes
pub fn extremes(lo: &str, hi: &str) -> Vec<(usize, usize)> {
    let a = XKINDS.iter().position(|k| k.0 == lo).unwrap();
    let b = XKINDS.iter().position(|k| k.0 == hi).unwrap();
    let mut v = vec![];
    for k in a..=b {
        for n in sizes(XKINDS[k].1) {
            v.push((k, n));
        }
    }
    v
}

pub const HNAMES: &[&str] = &[
    "Accept", "Accept-Encoding", "Accept-Language", "Age", "Allow", "Authorization", "Cache-Control", "Connection", "Content-Encoding", "Content-Language", "Content-Length", "Content-Location", "Content-Type", "Cookie", "Date", "DNT", "ETag", "Expect", "Expires", "Forwarded", "From", "Host", "If-Match", "If-Modified-Since", "If-None-Match", "If-Range", "Keep-Alive", "Last-Modified", "Link", "Location", "Max-Forwards", "Origin", "Pragma", "Proxy-Authorization", "Range", "Referer", "Retry-After", "Server", "Set-Cookie", "TE", "Trailer", "Transfer-Encoding", "Upgrade", "User-Agent", "Vary", "Via", "Warning", "WWW-Authenticate", "X-Forwarded-For", "X-Forwarded-Proto", "X-HTTP-Method-Override", "X-Real-IP", "X-Requested-With", "X-Request-Id", "X-Method-Override", "X-Original-URL", "X-Rewrite-URL", "Sec-Fetch-Mode",
];
