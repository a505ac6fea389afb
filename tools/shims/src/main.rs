//! Bounded conformance test of the contracts assumed for std in units/*.inc: each contract is written out as an
//! executable definition over character/byte sequences, named as the specification function it mirrors, and compared with the real
//! std operation. Strings of length <= 4 over an alphabet with 1..4-byte characters are enumerated; longer ones are random.
use std::collections::HashMap;
type S = Vec<char>;
const AL: &[char] = &['a', 'A', '=', '\r', '\n', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{0}'];
struct R(u64);
impl R {
    fn n(&mut self, k: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 % k as u64) as usize }
}
fn st(s: &[char]) -> String { s.iter().collect() }
fn sv(s: &str) -> S { s.chars().collect() }
fn svs<'a>(i: impl Iterator<Item = &'a str>) -> Vec<S> { i.map(sv).collect() }
// ---- specification functions
fn encode_scalar(u: u32) -> Vec<u8> {
    if u < 0x80 { vec![u as u8] }
    else if u < 0x800 { vec![0xc0 | (u >> 6) as u8, 0x80 | (u & 0x3f) as u8] }
    else if u < 0x10000 { vec![0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8] }
    else { vec![0xf0 | (u >> 18) as u8, 0x80 | (u >> 12 & 0x3f) as u8, 0x80 | (u >> 6 & 0x3f) as u8, 0x80 | (u & 0x3f) as u8] }
}
fn encode_utf8(s: &[char]) -> Vec<u8> { let mut v = vec![]; for c in s { v.append(&mut encode_scalar(*c as u32)) } v }
fn blen(s: &[char]) -> usize { encode_utf8(s).len() }
fn boundary(s: &[char], i: usize) -> Option<usize> { (0..=s.len()).find(|k| blen(&s[..*k]) == i) }
fn find_char(s: &[char], c: char) -> Option<usize> {
    if s.is_empty() { None } else if s[0] == c { Some(0) } else { find_char(&s[1..], c).map(|k| k + 1) }
}
fn occurs<T: PartialEq>(h: &[T], n: &[T], i: usize) -> bool { i + n.len() <= h.len() && h[i..i + n.len()] == *n }
fn find_seq<T: PartialEq>(h: &[T], n: &[T]) -> Option<usize> { (0..=h.len()).find(|i| occurs(h, n, *i)) }
fn split_on(s: &[char], c: char) -> Vec<S> {
    match s.split_last() {
        None => vec![vec![]],
        Some((l, p)) => { let mut p = split_on(p, c); if *l == c { p.push(vec![]) } else { p.last_mut().unwrap().push(*l) } p }
    }
}
fn split_seq(s: &[char], n: &[char]) -> Vec<S> {
    match find_seq(s, n) { Some(i) if !n.is_empty() => { let mut v = vec![s[..i].to_vec()]; v.append(&mut split_seq(&s[i + n.len()..], n)); v } _ => vec![s.to_vec()] }
}
fn split_n(s: &[char], n: usize, c: char) -> Vec<S> {
    if n == 0 { vec![] } else if n == 1 { vec![s.to_vec()] } else {
        match find_char(s, c) { Some(k) => { let mut v = vec![s[..k].to_vec()]; v.append(&mut split_n(&s[k + 1..], n - 1, c)); v } None => vec![s.to_vec()] }
    }
}
fn ascii_lower(c: char) -> char { if (65..=90).contains(&(c as u32)) { ((c as u8) + 32) as char } else { c } }
fn dec(n: u128) -> S { if n < 10 { vec![(b'0' + n as u8) as char] } else { let mut v = dec(n / 10); v.push((b'0' + (n % 10) as u8) as char); v } }
fn dec_int(n: i128) -> S { if n < 0 { let mut v = vec!['-']; v.append(&mut dec((-n) as u128)); v } else { dec(n as u128) } }
// parse: an optional '+' (and '-' for signed types), then at least one digit, the value in range
fn num(s: &[char], signed: bool, min: i128, max: i128) -> Option<i128> {
    let (neg, d) = match s.split_first() { Some(('+', d)) => (false, d), Some(('-', d)) if signed => (true, d), _ => (false, s) };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) || d.len() > 30 { return None }
    let v = d.iter().fold(0i128, |a, c| a * 10 + (*c as i128 - 48));
    let v = if neg { -v } else { v };
    (min..=max).contains(&v).then_some(v)
}
fn pairs_map<K: Clone + Eq + std::hash::Hash, V: Clone>(s: &[(K, V)]) -> Vec<(K, V)> {
    let mut m: Vec<(K, V)> = vec![];
    for (k, v) in s { match m.iter_mut().find(|p| p.0 == *k) { Some(p) => p.1 = v.clone(), None => m.push((k.clone(), v.clone())) } }
    m
}
fn strings(s: &[char], pats: &[S]) -> usize {
    let t = st(s); let mut n = 0;
    macro_rules! ck { ($a:expr, $b:expr) => {{ n += 1; let (a, b) = ($a, $b); assert!(a == b, "{:?}: {} is {:?}, the contract says {:?}", t, stringify!($a), a, b) }} }
    ck!(sv(&t), s.to_vec());
    ck!(t.as_bytes().to_vec(), encode_utf8(s));
    ck!(t.len(), blen(s));
    ck!(t.is_empty(), s.is_empty());
    ck!(sv(&t.to_ascii_lowercase()), s.iter().map(|c| ascii_lower(*c)).collect::<S>());
    ck!(String::from_utf8(encode_utf8(s)).map(|x| sv(&x)).ok(), Some(s.to_vec()));
    ck!(sv(t.trim_start_matches(|c| c == ' ' || c == 'a')), s.iter().copied().skip_while(|c| *c == ' ' || *c == 'a').collect::<S>());
    for i in 0..=blen(s) + 1 {
        let k = boundary(s, i);
        ck!(t.is_char_boundary(i), k.is_some());
        if let Some(k) = k {
            ck!(sv(&t[i..]), s[k..].to_vec());
            ck!(sv(&t[..i]), s[..k].to_vec());
            let (a, b) = t.split_at(i);
            ck!((sv(a), sv(b)), (s[..k].to_vec(), s[k..].to_vec()));
            for j in i..=blen(s) { if let Some(l) = boundary(s, j) { ck!(sv(&t[i..j]), s[k..l].to_vec()) } }
        }
    }
    for c in AL {
        ck!(svs(t.split(*c)), split_on(s, *c));
        ck!(t.find(*c), find_char(s, *c).map(|k| blen(&s[..k])));
        ck!(t.starts_with(*c), s.first() == Some(c));
        for m in 0..4 { ck!(svs(t.splitn(m, *c)), split_n(s, m, *c)) }
    }
    for p in pats {
        let q = st(p); let q = q.as_str();
        ck!(t.find(q), find_seq(s, p).map(|k| blen(&s[..k])));
        ck!(t.starts_with(q), p.len() <= s.len() && s[..p.len()] == p[..]);
        if !p.is_empty() { ck!(svs(t.split(q)), split_seq(s, p)); }
        ck!(sv(&(t.clone() + q)), [s, p].concat());
        ck!(sv(&format!("{}{}-{}", t, q, 7)), [s, p, &['-', '7'][..]].concat());
        ck!(t == q, s == &p[..]);
        ck!(t.as_bytes() == q.as_bytes(), s == &p[..]); // injective
        ck!(t.as_bytes().windows(q.len().max(1)).position(|w| w == q.as_bytes()), if q.is_empty() { None } else { find_seq(&encode_utf8(s), &encode_utf8(p)) });
    }
    n
}
fn each(al: &[char], len: usize, f: &mut dyn FnMut(&[char])) {
    fn go(al: &[char], s: &mut S, len: usize, f: &mut dyn FnMut(&[char])) { f(s); if len > 0 { for c in al { s.push(*c); go(al, s, len - 1, f); s.pop(); } } }
    go(al, &mut vec![], len, f)
}
fn main() {
    let mut r = R(0x9e3779b97f4a7c15); let mut n = 0usize;
    let mut pats = vec![]; each(&['a', '\r', '\n', '\u{e9}'], 2, &mut |p| pats.push(p.to_vec()));
    each(AL, 4, &mut |s| n += strings(s, &pats));
    for _ in 0..3000 { let k = r.n(24); let s: S = (0..k).map(|_| AL[r.n(AL.len())]).collect(); n += strings(&s, &pats); }
    // every scalar value: one character
    for u in 0..=0x10ffffu32 { if let Some(c) = char::from_u32(u) { assert_eq!(c.to_string().as_bytes(), &encode_scalar(u)[..]); n += 1 } }
    // from_utf8 accepts exactly the encodings: all sequences of at most 3 bytes from the interesting ones, decoded by hand
    let by = [0u8, 0x41, 0x7f, 0x80, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    let mut seen = std::collections::HashSet::new();
    let scal: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
    for c in &scal { seen.insert(encode_scalar(*c as u32)); }
    fn valid(b: &[u8], one: &std::collections::HashSet<Vec<u8>>) -> bool { b.is_empty() || (1..=4.min(b.len())).any(|k| one.contains(&b[..k]) && valid(&b[k..], one)) }
    for a in by { for b in by { for c in by { for d in by { let v = [a, b, c, d]; for k in 0..=4 { assert_eq!(std::str::from_utf8(&v[..k]).is_ok(), valid(&v[..k], &seen), "{:?}", &v[..k]); n += 1 } } } } }
    // numbers
    for i in (0..4000).map(|i| i as u64).chain((0..2000).map(|i| u64::MAX - i)).chain((0..64).map(|b| 1u64 << b)) {
        assert_eq!(sv(&i.to_string()), dec_int(i as i128)); assert_eq!(sv(&(i as i64).to_string()), dec_int(i as i64 as i128));
        assert_eq!(sv(&(i as i32).to_string()), dec_int(i as i32 as i128)); assert_eq!(sv(&(i as u8).to_string()), dec_int(i as u8 as i128)); n += 4;
        assert_eq!(i64::try_from(i).ok(), if i <= i64::MAX as u64 { Some(i as i64) } else { None });
        assert_eq!(usize::try_from(i as i64).ok(), if 0 <= i as i64 { Some(i as usize) } else { None });
    }
    each(&['0', '1', '9', '+', '-', ' ', 'x'], 5, &mut |s| {
        let t = st(s);
        assert_eq!(t.parse::<u64>().ok().map(|v| v as i128), num(s, false, 0, u64::MAX as i128), "{:?}", t);
        assert_eq!(t.parse::<u8>().ok().map(|v| v as i128), num(s, false, 0, 255), "{:?}", t);
        assert_eq!(t.parse::<i8>().ok().map(|v| v as i128), num(s, true, -128, 127), "{:?}", t); n += 3;
    });
    for t in ["18446744073709551615", "18446744073709551616", "99999999999999999999", "000000000000000000000000001"] { assert_eq!(t.parse::<usize>().ok().map(|v| v as i128), num(&sv(t), false, 0, u64::MAX as i128)); }
    // iterators, vectors, maps
    for _ in 0..20000 {
        let k = r.n(7); let a: Vec<usize> = (0..k).map(|_| r.n(4)).collect(); let k = r.n(7); let b: Vec<usize> = (0..k).map(|_| r.n(4)).collect(); let m = r.n(8);
        assert_eq!(a.iter().zip(b.iter()).collect::<Vec<_>>(), (0..a.len().min(b.len())).map(|i| (&a[i], &b[i])).collect::<Vec<_>>());
        assert_eq!(a.iter().take(m).collect::<Vec<_>>(), a[..m.min(a.len())].iter().collect::<Vec<_>>());
        assert_eq!(a.iter().skip(m).collect::<Vec<_>>(), a[m.min(a.len())..].iter().collect::<Vec<_>>());
        assert_eq!(a.iter().chain(b.iter()).copied().collect::<Vec<_>>(), [&a[..], &b[..]].concat());
        assert_eq!(a.iter().rev().copied().collect::<Vec<_>>(), (0..a.len()).map(|i| a[a.len() - 1 - i]).collect::<Vec<_>>());
        assert_eq!(a.iter().enumerate().collect::<Vec<_>>(), (0..a.len()).map(|i| (i, &a[i])).collect::<Vec<_>>());
        assert_eq!(a.iter().position(|x| *x == m), find_seq(&a, &[m])); assert_eq!(a.iter().find(|x| **x == m), find_seq(&a, &[m]).map(|i| &a[i]));
        assert_eq!(a.iter().any(|x| *x == m), !(0..a.len()).all(|i| a[i] != m)); assert_eq!(a.iter().all(|x| *x == m), !(0..a.len()).any(|i| a[i] != m));
        assert_eq!(a.iter().eq(b.iter()), a.len() == b.len() && (0..a.len()).all(|i| a[i] == b[i])); assert_eq!(a.iter().ne(b.iter()), !(a == b));
        assert_eq!(a.iter().count(), a.len()); assert_eq!(a.iter().sum::<usize>(), a.iter().fold(0, |x, y| x + y));
        let mut c = a.clone(); c.extend(b.iter().copied()); assert_eq!(c, [&a[..], &b[..]].concat());
        let mut c = a.clone(); c.extend_from_slice(&b); assert_eq!(c, [&a[..], &b[..]].concat());
        // stable sort: sorted by key, a permutation, equal keys in their old order
        let mut p: Vec<(usize, usize)> = a.iter().copied().enumerate().map(|(i, x)| (x, i)).collect(); p.sort_by_key(|x| x.0);
        assert!(p.windows(2).all(|w| w[0].0 < w[1].0 || (w[0].0 == w[1].0 && w[0].1 < w[1].1)));
        let mut q: Vec<usize> = p.iter().map(|x| x.1).collect(); q.sort(); assert_eq!(q, (0..a.len()).collect::<Vec<_>>()); assert!(p.iter().all(|x| a[x.1] == x.0));
        // maps: the view after a sequence of insertions, each entry visited exactly once
        let e: Vec<(String, usize)> = a.iter().zip(b.iter()).map(|(k, v)| (format!("k{}", k), *v)).collect();
        let want = pairs_map(&e); let mut h = HashMap::new(); let mut sofar = vec![];
        for (k, v) in &e { let old = pairs_map(&sofar).into_iter().find(|p: &(String, usize)| p.0 == *k).map(|p| p.1); assert_eq!(h.insert(k.clone(), *v), old); sofar.push((k.clone(), *v)); }
        assert_eq!(h, e.iter().cloned().collect::<HashMap<_, _>>()); assert_eq!(h.is_empty(), want.is_empty());
        let mut it: Vec<_> = h.iter().map(|(k, v)| (k.clone(), *v)).collect(); it.sort(); let mut w = want.clone(); w.sort(); assert_eq!(it, w);
        let mut it: Vec<_> = h.clone().into_iter().collect(); it.sort(); assert_eq!(it, w);
        for i in 0..5 { let k = format!("k{}", i); let x = want.iter().find(|p| p.0 == k).map(|p| p.1); assert_eq!(h.get(&k).copied(), x); assert_eq!(h.contains_key(&k), x.is_some());
            let mut g = h.clone(); if let Some(v) = g.get_mut(&k) { *v += 9 } let mut o = h.clone(); if let Some(x) = x { o.insert(k.clone(), x + 9); } assert_eq!(g, o);
            let mut g = h.clone(); g.entry(k.clone()).and_modify(|v| *v += 9).or_insert_with(|| 5); let mut o = h.clone(); o.insert(k, x.map_or(5, |x| x + 9)); assert_eq!(g, o); }
        n += 40;
    }
    println!("shims: {} comparisons, no difference", n);
}
