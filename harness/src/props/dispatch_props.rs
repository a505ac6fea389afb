use super::*;
use octane::router::Closure;
use octane::request::MatchedRequest;
use octane::responder::Response;
use octane::{route, route_next, route_stop};

#[derive(Debug, Clone)]
pub enum Op {
    /// method index (0..6, 6 = every method), pattern, id, stop?
    Route(usize, String, usize, bool),
    Mw(usize, bool),
    Sub(Vec<Op>),
}
const MS: [&str; 7] = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "ALL"];

fn clos(log: &Log, id: usize, stop: bool) -> Closure {
    let log = log.clone();
    let act = move |req: &MatchedRequest, res: &mut Response| {
        log.lock().unwrap().push(ev_of(id, req));
        // every third handler writes no body: the others' body must survive
        if id % 3 != 2 {
            res.send(format!("b{}", id));
        }
    };
    // handlers written by hand and by the crate's macros
    match (id % 2 == 0, stop) {
        (true, stop) => Box::new(move |req, res| {
            act(req, res);
            if stop {
                Flow::Stop
            } else {
                Flow::Next
            }
        }),
        (_, true) => route_stop!(|req, res| act(req, res)),
        (_, false) => route_next!(|req, res| act(req, res)),
    }
}

fn apply<R: Route>(r: &mut R, op: &Op, log: &Log) {
    match op {
        Op::Route(m, p, id, stop) => {
            let c = clos(log, *id, *stop);
            let _ = match m {
                0 => r.get(p, c),
                1 => r.post(p, c),
                2 => r.put(p, c),
                3 => r.delete(p, c),
                4 => r.head(p, c),
                5 => r.patch(p, c),
                _ => r.add_route(p, c),
            };
        }
        Op::Mw(id, stop) => {
            r.add(clos(log, *id, *stop)).unwrap();
        }
        Op::Sub(_) => {}
    }
}

pub fn build(ops: &[Op], log: &Log) -> Octane {
    let mut app = Octane::new();
    for o in ops {
        match o {
            Op::Sub(v) => {
                let mut r = Router::new();
                for o in v {
                    apply(&mut r, o, log);
                }
                app.with_router(r);
            }
            o => apply(&mut app, o, log),
        }
    }
    app
}

fn flatten(ops: &[Op], out: &mut Vec<Op>) {
    for o in ops {
        match o {
            Op::Sub(v) => flatten(v, out),
            o => out.push(o.clone()),
        }
    }
}

fn match_pat(pat: &[String], path: &[String]) -> Option<BTreeMap<String, String>> {
    if pat.len() != path.len() {
        return None;
    }
    let mut m = BTreeMap::new();
    for (a, b) in pat.iter().zip(path) {
        if FULL && a.starts_with(':') {
            m.insert(a[1..].to_string(), b.clone());
        } else if a != b {
            return None;
        }
    }
    Some(m)
}

/// The handlers that must run, in order, with their variables.
fn model(ops: &[Op], method: &str, path: &[String]) -> Vec<(usize, BTreeMap<String, String>)> {
    let mut flat = vec![];
    flatten(ops, &mut flat);
    let mut out = vec![];
    for o in &flat {
        let (hit, id, stop) = match o {
            Op::Route(m, p, id, stop) => {
                let pat = match spec::norm_path(p) {
                    Some(p) => p,
                    None => continue,
                };
                if MS[*m] != "ALL" && MS[*m] != method {
                    continue;
                }
                (match_pat(&pat, path), *id, *stop)
            }
            Op::Mw(id, stop) => (Some(BTreeMap::new()), *id, *stop),
            Op::Sub(_) => unreachable!(),
        };
        if let Some(v) = hit {
            out.push((id, v));
            if stop {
                break;
            }
        }
    }
    out
}

const PSEG: &[&str] = &["a", "a", "b", "c", ":x", ":x", ":y", "A", "aa", "é", "a.b", ":", "..", ".", ""];
const RSEG: &[&str] = &["a", "a", "b", "c", "z", ":x", "A", "aa", "é", "a.b", ":", "x", "%61", "..", "."];

fn pattern(r: &mut Rng, depth: usize) -> String {
    let n = size(r, 0, depth, 600);
    let mut s = String::from("/");
    for _ in 0..n {
        if let Some(d) = dseg(r, 10) {
            s.push_str(d.trim_matches('/'));
        } else {
            s.push_str(*r.pick(PSEG));
        }
        s.push('/');
    }
    if r.chance(50) {
        s.pop();
    }
    s
}

fn program(r: &mut Rng, sub: bool, big: bool) -> Vec<Op> {
    let mut id = 0;
    // a few patterns, reused, so that handlers pile up on the same route
    let mut np = r.range(1, 6);
    if big {
        np = r.range(1, 3);
    }
    let pats: Vec<String> = (0..np).map(|_| pattern(r, 4)).collect();
    fn ops(r: &mut Rng, n: usize, id: &mut usize, pats: &[String], sub: usize, stop: usize) -> Vec<Op> {
        (0..n)
            .map(|_| {
                if sub > 0 && r.chance(30) {
                    let k = r.range(0, 6);
                    return Op::Sub(ops(r, k, id, pats, 0, stop));
                }
                *id += 1;
                let st = r.chance(stop);
                if r.chance(25) {
                    return Op::Mw(*id, st);
                }
                let m = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 6]);
                let p = if r.chance(85) { r.pick(pats).clone() } else { pattern(r, 4) };
                Op::Route(m, p, *id, st)
            })
            .collect()
    }
    let n = if big { size(r, 25, 90, 1500) } else { r.range(1, 9) };
    let stop = *r.pick(&[0, 0, 5, 25]);
    ops(r, n, &mut id, &pats, sub as usize, stop)
}

fn seg(r: &mut Rng) -> String {
    loop {
        let s = match dseg(r, 10) {
            Some(d) => d,
            None => r.pick(RSEG).to_string(),
        };
        if !s.contains(' ') && !s.contains('?') {
            break s;
        }
    }
}
fn request(r: &mut Rng, ops: &[Op]) -> (String, String) {
    let mut flat = vec![];
    flatten(ops, &mut flat);
    let routes: Vec<(&usize, &String)> = flat
        .iter()
        .filter_map(|o| if let Op::Route(m, p, ..) = o { Some((m, p)) } else { None })
        .collect();
    let (mut method, mut segs): (String, Vec<String>) = ("GET".into(), vec![]);
    if !routes.is_empty() && r.chance(85) {
        let (m, p) = r.pick(&routes);
        method = if **m == 6 { MS[r.below(6)].into() } else { MS[**m].into() };
        segs = p.split('/').map(|s| if s.starts_with(':') { seg(r) } else { s.to_string() }).collect();
    } else {
        for _ in 0..size(r, 0, 4, 600) {
            segs.push(seg(r));
        }
    }
    match r.below(10) {
        0 => segs.push(seg(r)),
        1 => {
            segs.pop();
        }
        2 if !segs.is_empty() => {
            let k = r.below(segs.len());
            segs[k] = seg(r);
        }
        3 => method = r.pick(&["OPTIONS", "TRACE", "GET", "POST", "PUT"]).to_string(),
        _ => {}
    }
    (method, format!("/{}", segs.join("/")))
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Order,
    Vars,
}

fn run_prog(ops: &[Op], reqs: &[(String, String)], what: What) -> Out {
    let o2: Vec<Op> = ops.to_vec();
    let s = start(&move |log: &Log| build(&o2, log));
    let mut hits = 0;
    for (m, p) in reqs {
        if p.contains(' ') || p.contains('?') {
            continue;
        }
        let path = match spec::norm_path(p) {
            Some(p) => p,
            None => continue,
        };
        let want = model(ops, m, &path);
        let b = format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", m, p);
        let rep = exchange(&s, &[(b.as_bytes(), 0)], false);
        if undecidable(&rep) || rep.timeout {
            return Out::Skip("reset".into());
        }
        let input = format!("registrations {:?}; request {} {}", ops, m, p);
        let got_ids: Vec<usize> = rep.events.iter().map(|e| e.id).collect();
        let want_ids: Vec<usize> = want.iter().map(|e| e.0).collect();
        hits += want_ids.len();
        match what {
            What::Order => {
                if got_ids != want_ids {
                    return Out::Fail { input, expected: format!("handlers {:?}", want_ids), got: format!("handlers {:?} (panics {:?})", got_ids, rep.panics) };
                }
                // the body of the last handler that sent one
                let body = want_ids.iter().rev().find(|i| *i % 3 != 2).map(|i| format!("b{}", i));
                match (status_of(&rep), body) {
                    (Ok(x), Some(b)) if x.code == 200 && x.body == b.as_bytes() => {}
                    (Ok(x), None) if x.code == 404 => {}
                    (x, b) => return Out::Fail { input, expected: format!("{:?}", b.unwrap_or("404".into())), got: format!("{:?}", x.map(|x| (x.code, show(&x.body)))) },
                }
            }
            What::Vars => {
                // a handler that ran gets the variables of its own pattern
                for e in &rep.events {
                    if let Some(wv) = want.iter().find(|x| x.0 == e.id) {
                        if FULL && e.vars.as_ref() != Some(&wv.1) {
                            return Out::Fail { input, expected: format!("handler {} sees {:?}", e.id, wv.1), got: format!("{:?}", e.vars) };
                        }
                    }
                }
                if rep.events.is_empty() && !want.is_empty() {
                    return Out::Fail { input, expected: format!("handlers {:?} with their variables", want), got: format!("no handler ran (panics {:?})", rep.panics) };
                }
            }
        }
    }
    Out::Ok(hash_of(&format!("{:?}", ops)), hits > 0, format!("{:?} x {} requests", ops, reqs.len()))
}

fn gen_section(run: &mut Run, name: &str, n: u64, sub: bool, what: What, rule: &str) {
    run.section(name, n, false, rule, |_, i, r| {
        let ops = program(r, sub, i % 12 == 11);
        if sub && !ops.iter().any(|o| matches!(o, Op::Sub(_))) {
            return Out::Ok(0, false, String::new());
        }
        let reqs: Vec<_> = (0..30).map(|_| request(r, &ops)).collect();
        run_prog(&ops, &reqs, what)
    });
}

/// long and wide registrations: many handlers on one route, many routes, long patterns, many variables, many routers
fn extremes(run: &mut Run, what: What, sub: bool) {
    let mut ns: Vec<usize> = (1..=40).collect();
    ns.extend(&[50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 514, 600, 1023, 1024, 1025, 1026]);
    ns.extend(dict().nums.iter().filter(|n| **n > 0 && **n <= 3000));
    ns.sort();
    ns.dedup();
    let kinds = 12;
    run.section("extremes", ns.len() as u64 * kinds, true, "n handlers on one route, n middlewares, n routes of several kinds, a pattern of n literal, variable or mixed segments, n different routes, n routers, a router of n registrations; n = 1..40, around powers of two up to 1024, and sizes the source names", |_, i, _| {
        let n = ns[(i / kinds) as usize];
        let wrap = |ops: Vec<Op>, k: usize| -> Vec<Op> {
            // in C03 some registrations come through routers
            if !sub {
                return ops;
            }
            let mut out = vec![];
            let mut it = ops.into_iter();
            loop {
                let part: Vec<Op> = it.by_ref().take(k).collect();
                if part.is_empty() {
                    break out;
                }
                if out.len() % 2 == 0 { out.push(Op::Sub(part)) } else { out.extend(part) }
            }
        };
        let seg = |k: usize| format!("s{}", k % 7);
        let mut path: Vec<String> = vec!["a".into(), "b".into()];
        let ops: Vec<Op> = match i % kinds {
            0 => (0..n).map(|k| Op::Route(0, "/a/b".into(), k, false)).collect(),
            1 => (0..n).map(|k| Op::Mw(k, false)).collect(),
            2 => (0..n).map(|k| match k % 4 { 0 => Op::Route(0, "/a/b".into(), k, false), 1 => Op::Route(6, "/a/:x".into(), k, false), 2 => Op::Mw(k, false), _ => Op::Route(0, "/:y/b".into(), k, false) }).collect(),
            3 => (0..n).map(|k| Op::Route(6, "/:x/b".into(), k, false)).collect(),
            4 | 5 | 6 => {
                path = (0..n).map(seg).collect();
                let pat = |kind: u64| -> String { (0..n).map(|k| match kind { 4 => format!("/{}", seg(k)), 5 => format!("/:v{}", k), _ => if k % 2 == 0 { format!("/:v{}", k) } else { format!("/{}", seg(k)) } }).collect() };
                let p = pat(i % kinds);
                vec![Op::Route(0, p.clone(), 0, false), Op::Route(6, pat(6), 1, false), Op::Route(0, p.clone() + "/more", 3, false), Op::Mw(4, false), Op::Route(0, p, 6, false)]
            }
            7 => (0..n).map(|k| Op::Route(0, format!("/a/b{}", if k + 1 == n { "".to_string() } else { k.to_string() }), k, false)).collect(),
            8 => (0..n).map(|k| Op::Route(k % 6, "/a/b".into(), k, false)).collect(),
            9 => (0..n).map(|k| Op::Route(0, format!("/:v{}/b", k), k, false)).collect(),
            10 => (0..n).map(|k| if k % 2 == 0 { Op::Mw(k, false) } else { Op::Route(1, "/a/b".into(), k, false) }).chain(vec![Op::Route(0, "/a/b".into(), n, false)]).collect(),
            _ => (0..n).map(|k| Op::Route(0, "/a/b".into(), k, k + 2 == n)).chain((0..3).map(|k| Op::Mw(n + k, false))).collect(),
        };
        let ops = if i % 2 == 0 { wrap(ops, 1) } else { wrap(ops, n.max(2) - 1) };
        let p = format!("/{}", path.join("/"));
        let reqs: Vec<(String, String)> = [("GET", p.clone()), ("POST", p.clone()), ("GET", p + "/x")].iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        run_prog(&ops, &reqs, what)
    });
}

pub fn c01(run: &mut Run) {
    extremes(run, What::Order, false);
    // every program of three registrations out of ten
    run.section("programs-of-three", 1000, true, "every sequence of 3 out of 10 registrations (GET /a, GET /:x, any-method /a, middleware, POST /a; each Next or Stop), requests GET /a, GET /b, POST /a, GET /a/b", |_, i, _| {
        let mk = |k: u64, id: usize| -> Op {
            let stop = k >= 5;
            match k % 5 {
                0 => Op::Route(0, "/a".into(), id, stop),
                1 => Op::Route(0, "/:x".into(), id, stop),
                2 => Op::Route(6, "/a".into(), id, stop),
                3 => Op::Mw(id, stop),
                _ => Op::Route(1, "/a".into(), id, stop),
            }
        };
        let ops = vec![mk(i % 10, 0), mk(i / 10 % 10, 1), mk(i / 100, 2)];
        let reqs: Vec<(String, String)> = [("GET", "/a"), ("GET", "/b"), ("POST", "/a"), ("GET", "/a/b")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        run_prog(&ops, &reqs, What::Order)
    });
    gen_section(run, "programs", 400 * run.scale, false, What::Order, "random registration sequences (1..9, every twelfth 25..90 registrations) over seven methods, literal, variable and dot segments, and 30 requests each derived from the registered patterns; non-trivial: at least one handler matched");
}
pub fn c02(run: &mut Run) {
    extremes(run, What::Vars, false);
    gen_section(run, "variables", 500 * run.scale, false, What::Vars, "random registration sequences with variable segments, 30 requests each; every handler that runs must see exactly the variables of its own pattern");
    run.section("characters", 8 * CHARS, true, "every printable ASCII character and six others in eight places of a variable's name and of its value, and of a literal segment beside it", |_, i, _| {
        let t = char_seg(i);
        if t.contains('/') || t == "." || t == ".." {
            return Out::Ok(0, false, String::new());
        }
        let ops = vec![
            Op::Route(0, format!("/n/:{}/:y", t), 1, false),
            Op::Route(0, "/v/:x/:y".into(), 2, false),
            Op::Route(0, format!("/:x/{}", t), 3, false),
            Op::Route(0, format!("/{}/l", t), 4, false),
            Op::Mw(5, false),
        ];
        let reqs: Vec<(String, String)> = ["/n/1/2".to_string(), format!("/v/{}/2", t), format!("/v/1/{}", t), format!("/q/{}", t), format!("/{}/l", t), format!("/{}/m", t), "/n/a".into()].iter().map(|p| ("GET".to_string(), p.clone())).collect();
        run_prog(&ops, &reqs, What::Vars)
    });
    run.section("values", 600 * run.scale, false, "one route with up to 6 variables, random request segments (unicode, escapes, colons, dots)", |_, _, r| {
        let n = r.range(1, 6);
        let mut pat = String::new();
        let mut req = String::new();
        for k in 0..n {
            if r.chance(75) {
                pat.push_str(&format!("/:{}", match dseg(r, 20) { Some(d) => d.replace('/', ""), None => r.pick(&["x", "y", "v1", "é", "id", "X", "", ":z", "x?", "x*", "a-b", "_"]).to_string() }));
                let v = loop {
                    let v = word(r, &["a", "B", "0", "%", "2", "é", ":", ".", "-", "日", "~", "="], 1, 5);
                    if v != "." && v != ".." {
                        break v;
                    }
                };
                req.push_str(&format!("/{}", v));
            } else {
                pat.push_str(&format!("/l{}", k));
                req.push_str(&format!("/l{}", k));
            }
        }
        let ops = vec![Op::Route(0, pat, 1, false), Op::Mw(4, false)];
        run_prog(&ops, &[("GET".into(), req)], What::Vars)
    });
}
pub fn c03(run: &mut Run) {
    extremes(run, What::Order, true);
    // a router in the middle: every placement of one registration before, inside and after
    run.section("three-layers", 343, true, "before / inside / after one router: every choice of 7 registrations for each of the three places, requests GET /a, POST /a, GET /b", |_, i, _| {
        let mk = |k: u64, id: usize| -> Op {
            match k {
                0 => Op::Route(0, "/a".into(), id, false),
                1 => Op::Route(0, "/:x".into(), id, false),
                2 => Op::Route(6, "/a".into(), id, false),
                3 => Op::Mw(id, false),
                4 => Op::Route(1, "/a".into(), id, false),
                5 => Op::Route(0, "/a".into(), id, true),
                _ => Op::Mw(id, true),
            }
        };
        let ops = vec![mk(i % 7, 0), Op::Sub(vec![mk(i / 7 % 7, 1), mk((i / 7 + 3) % 7, 3)]), mk(i / 49, 4), Op::Sub(vec![mk(i % 7, 6)])];
        let reqs: Vec<(String, String)> = [("GET", "/a"), ("POST", "/a"), ("GET", "/b")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        run_prog(&ops, &reqs, What::Order)
    });
    gen_section(run, "nested", 450 * run.scale, true, What::Order, "random registration sequences in which some registrations are made through routers that are then appended; the model registers them directly at that point");
    gen_section(run, "nested-vars", 100 * run.scale, true, What::Vars, "the same, checking the variables");
}
