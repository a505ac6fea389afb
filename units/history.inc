// ================= histories of registrations (src/router.rs) =================
/// one registration: a handler for a method and a path, or one without a path (m is None)
pub struct Ev { pub m: Option<RequestMethod>, pub path: Seq<Seq<char>>, pub closure: VxClosure }
pub open spec fn plain_ev(c: VxClosure) -> Ev { Ev { m: None, path: Seq::empty(), closure: c } }
pub open spec fn entry_ok(h: Seq<Ev>, m: RequestMethod, e: PathData<Closures>) -> bool { e.data.index < h.len() && h[e.data.index as int] == (Ev { m: Some(m), path: e.orig_path@, closure: e.data.closure }) }
pub open spec fn plain_ok(h: Seq<Ev>, c: Closures) -> bool { c.index < h.len() && h[c.index as int] == plain_ev(c.closure) }
pub open spec fn has_index(s: Seq<PathData<Closures>>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).data.index == k }
pub open spec fn has_plain(s: Seq<Closures>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).index == k }
pub open spec fn no_repeat(s: Seq<PathData<Closures>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).data.index != (#[trigger] s[j]).data.index }
impl Router {
    pub open spec fn present(&self, e: Ev, k: int) -> bool {
        match e.m { Some(m) => has_index(self.filed_at(m, keys_of(e.path)), k), None => has_plain(self.middlewares@, k) }
    }
    /// the router holds exactly the registrations of h, numbered in their order
    #[verifier::opaque]
    pub open spec fn logged(&self, h: Seq<Ev>) -> bool {
        &&& self.inv() && self.route_counter == h.len()
        &&& forall|m: RequestMethod, ks: Seq<Key>, i: int| noend(ks) && 0 <= i < self.filed_at(m, ks).len() ==> entry_ok(h, m, #[trigger] self.filed_at(m, ks)[i])
        &&& forall|m: RequestMethod, ks: Seq<Key>| noend(ks) ==> no_repeat(#[trigger] self.filed_at(m, ks))
        &&& forall|k: int| 0 <= k < h.len() ==> self.present(#[trigger] h[k], k)
        &&& forall|i: int| 0 <= i < self.middlewares@.len() ==> plain_ok(h, #[trigger] self.middlewares@[i])
    }
}
/// C01: what an empty router holds
pub proof fn log_new(r: Router)
    requires r.inv(), r.route_counter == 0, r.middlewares@.len() == 0, forall|m: RequestMethod, ks: Seq<Key>| (#[trigger] r.filed_at(m, ks)).len() == 0,
    ensures r.logged(Seq::empty()),
{ reveal(Router::logged); }
/// C01: registering a route adds one entry to the history
pub proof fn log_route(a: Router, b: Router, m: RequestMethod, path: Seq<Seq<char>>, c: VxClosure, h: Seq<Ev>)
    requires a.logged(h), Router::registered(a, b, m, path, c),
    ensures b.logged(h.push(Ev { m: Some(m), path, closure: c })),
{
    reveal(Router::logged);
    let e = Ev { m: Some(m), path, closure: c };
    let g = h.push(e);
    let k0 = keys_of(path);
    keys_match(path, path);
    let d = choose|d: PathData<Closures>| #![trigger a.filed_at(m, keys_of(path)).push(d)] d.orig_path@ == path && d.data == (Closures { closure: c, index: a.route_counter }) && b.filed_at(m, keys_of(path)) == a.filed_at(m, keys_of(path)).push(d);
    assert forall|n: RequestMethod, ks: Seq<Key>, i: int| noend(ks) && 0 <= i < b.filed_at(n, ks).len() implies entry_ok(g, n, #[trigger] b.filed_at(n, ks)[i]) by {
        if n == m && ks == k0 { if i < a.filed_at(n, ks).len() { assert(b.filed_at(n, ks)[i] == a.filed_at(n, ks)[i]); assert(entry_ok(h, n, a.filed_at(n, ks)[i])); } else { assert(b.filed_at(n, ks)[i] == d); } }
        else { assert(b.filed_at(n, ks) == a.filed_at(n, ks)); assert(entry_ok(h, n, a.filed_at(n, ks)[i])); }
    }
    assert forall|n: RequestMethod, ks: Seq<Key>| noend(ks) implies no_repeat(#[trigger] b.filed_at(n, ks)) by {
        let (x, y) = (a.filed_at(n, ks), b.filed_at(n, ks));
        assert(no_repeat(x));
        if n == m && ks == k0 {
            assert forall|i: int, j: int| 0 <= i < j < y.len() implies (#[trigger] y[i]).data.index != (#[trigger] y[j]).data.index by {
                assert(y[i] == x[i] && entry_ok(h, n, a.filed_at(n, ks)[i]));
                if j < x.len() { assert(y[j] == x[j]); }
            }
        } else { assert(y == x); }
    }
    assert forall|k: int| 0 <= k < g.len() implies b.present(#[trigger] g[k], k) by {
        if k < h.len() {
            assert(g[k] == h[k] && a.present(h[k], k));
            if h[k].m is Some {
                let (n, ks) = (h[k].m->0, keys_of(h[k].path));
                keys_match(h[k].path, h[k].path);
                let i = choose|i: int| 0 <= i < a.filed_at(n, ks).len() && (#[trigger] a.filed_at(n, ks)[i]).data.index == k;
                assert(b.filed_at(n, ks)[i] == a.filed_at(n, ks)[i]);
            }
        } else { let y = b.filed_at(m, k0); assert(y[y.len() - 1].data.index == k); }
    }
    assert forall|i: int| 0 <= i < b.middlewares@.len() implies plain_ok(g, #[trigger] b.middlewares@[i]) by { assert(plain_ok(h, a.middlewares@[i])); }
}
/// C01: so does registering a handler without a path
pub proof fn log_plain(a: Router, b: Router, c: VxClosure, h: Seq<Ev>)
    requires
        a.logged(h), b.inv(), b.route_counter == a.route_counter + 1, b.paths == a.paths,
        b.middlewares@ == a.middlewares@.push(Closures { closure: c, index: a.route_counter }),
    ensures b.logged(h.push(plain_ev(c))),
{
    reveal(Router::logged);
    let g = h.push(plain_ev(c));
    assert forall|n: RequestMethod, ks: Seq<Key>, i: int| noend(ks) && 0 <= i < b.filed_at(n, ks).len() implies entry_ok(g, n, #[trigger] b.filed_at(n, ks)[i]) by { assert(entry_ok(h, n, a.filed_at(n, ks)[i])); }
    assert forall|n: RequestMethod, ks: Seq<Key>| noend(ks) implies no_repeat(#[trigger] b.filed_at(n, ks)) by { assert(no_repeat(a.filed_at(n, ks))); }
    assert forall|k: int| 0 <= k < g.len() implies b.present(#[trigger] g[k], k) by {
        if k < h.len() {
            assert(g[k] == h[k] && a.present(h[k], k));
            if h[k].m is Some { assert(b.filed_at(h[k].m->0, keys_of(h[k].path)) == a.filed_at(h[k].m->0, keys_of(h[k].path))); }
            else { let i = choose|i: int| 0 <= i < a.middlewares@.len() && (#[trigger] a.middlewares@[i]).index == k; assert(b.middlewares@[i] == a.middlewares@[i]); }
        } else { assert(b.middlewares@[b.middlewares@.len() - 1].index == k); }
    }
    assert forall|i: int| 0 <= i < b.middlewares@.len() implies plain_ok(g, #[trigger] b.middlewares@[i]) by { if i < a.middlewares@.len() { assert(b.middlewares@[i] == a.middlewares@[i]); assert(plain_ok(h, a.middlewares@[i])); } }
}
/// a refused registration leaves the history as it was
pub proof fn log_refused(a: Router, b: Router, h: Seq<Ev>)
    requires a.logged(h), Router::refused(a, b),
    ensures b.logged(h),
{
    reveal(Router::logged);
    assert forall|n: RequestMethod, ks: Seq<Key>, i: int| noend(ks) && 0 <= i < b.filed_at(n, ks).len() implies entry_ok(h, n, #[trigger] b.filed_at(n, ks)[i]) by { assert(b.filed_at(n, ks) == a.filed_at(n, ks)); assert(entry_ok(h, n, a.filed_at(n, ks)[i])); }
    assert forall|n: RequestMethod, ks: Seq<Key>| noend(ks) implies no_repeat(#[trigger] b.filed_at(n, ks)) by { assert(no_repeat(a.filed_at(n, ks))); }
    assert forall|k: int| 0 <= k < h.len() implies b.present(#[trigger] h[k], k) by { assert(a.present(h[k], k)); if h[k].m is Some { assert(b.filed_at(h[k].m->0, keys_of(h[k].path)) == a.filed_at(h[k].m->0, keys_of(h[k].path))); } }
}
/// a list with the elements of another one
proof fn same_elements(t: Seq<PathData<Closures>>, y: Seq<PathData<Closures>>)
    requires t.to_multiset() == y.to_multiset(), no_repeat(y),
    ensures
        no_repeat(t),
        forall|i: int| 0 <= i < t.len() ==> y.contains(#[trigger] t[i]),
        forall|i: int| 0 <= i < y.len() ==> t.contains(#[trigger] y[i]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < t.len() implies y.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); assert(y.to_multiset().count(t[i]) > 0); }
    assert forall|i: int| 0 <= i < y.len() implies t.contains(#[trigger] y[i]) by { assert(y.contains(y[i])); assert(t.to_multiset().count(y[i]) > 0); }
    assert(y.no_duplicates());
    y.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).data.index != (#[trigger] t[j]).data.index by {
        assert(y.contains(t[i]) && y.contains(t[j]));
        let u = choose|u: int| 0 <= u < y.len() && y[u] == t[i];
        let v = choose|v: int| 0 <= v < y.len() && y[v] == t[j];
        assert(t[i] != t[j]);
        if u < v { assert(y[u].data.index != y[v].data.index); } else if v < u { assert(y[v].data.index != y[u].data.index); }
    }
}
/// C03: appending a router gives the history of its registrations behind those already there
pub proof fn log_append(a: Router, o: Router, b: Router, h: Seq<Ev>, g: Seq<Ev>)
    requires a.logged(h), o.logged(g), Router::appended(a, o, b),
    ensures b.logged(h + g),
{
    reveal(Router::logged); reveal(Router::appended);
    let f = h + g;
    let c = a.route_counter as int;
    assert forall|n: RequestMethod, ks: Seq<Key>| noend(ks) implies no_repeat(#[trigger] b.filed_at(n, ks)) && (forall|i: int| 0 <= i < b.filed_at(n, ks).len() ==> entry_ok(f, n, #[trigger] b.filed_at(n, ks)[i]))
        && (forall|k: int| #[trigger] has_index(a.filed_at(n, ks), k) ==> has_index(b.filed_at(n, ks), k)) && (forall|k: int| #[trigger] has_index(o.filed_at(n, ks), k) ==> has_index(b.filed_at(n, ks), k + c)) by {
        let (x, y, z) = (a.filed_at(n, ks), o.filed_at(n, ks), b.filed_at(n, ks));
        assert(joined(x, y, z, c));
        let t = choose|t: Seq<PathData<Closures>>| t.to_multiset() == y.to_multiset() && z == x + #[trigger] shift_all(t, c);
        assert(no_repeat(x) && no_repeat(y));
        same_elements(t, y);
        assert forall|i: int| 0 <= i < t.len() implies entry_ok(g, n, #[trigger] t[i]) by { let u = choose|u: int| 0 <= u < y.len() && y[u] == t[i]; assert(entry_ok(g, n, o.filed_at(n, ks)[u])); }
        assert forall|i: int| 0 <= i < z.len() implies entry_ok(f, n, #[trigger] z[i]) && (i < x.len() ==> z[i].data.index < c) && (i >= x.len() ==> z[i].data.index == t[i - x.len()].data.index + c) by {
            if i < x.len() { assert(z[i] == x[i]); assert(entry_ok(h, n, a.filed_at(n, ks)[i])); }
            else { let u = t[i - x.len()]; assert(z[i] == shift(u, c)); assert(entry_ok(g, n, u)); assert(f[u.data.index + c] == g[u.data.index as int]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).data.index != (#[trigger] z[j]).data.index by {
            if j < x.len() { assert(z[i] == x[i] && z[j] == x[j]); } else if i >= x.len() { assert(t[i - x.len()].data.index != t[j - x.len()].data.index); }
        }
        assert forall|k: int| #[trigger] has_index(x, k) implies has_index(z, k) by { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).data.index == k; assert(z[i] == x[i]); }
        assert forall|k: int| #[trigger] has_index(y, k) implies has_index(z, k + c) by {
            let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i]).data.index == k;
            assert(t.contains(y[i]));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == y[i];
            assert(entry_ok(g, n, t[j]));
            assert(z[x.len() + j] == shift(t[j], c));
        }
    }
    let (x, y, z) = (a.middlewares@, o.middlewares@, b.middlewares@);
    assert forall|i: int| 0 <= i < z.len() implies plain_ok(f, #[trigger] z[i]) by {
        if i < x.len() { assert(z[i] == x[i]); assert(plain_ok(h, x[i])); } else { let u = y[i - x.len()]; assert(plain_ok(g, u)); assert(f[u.index + c] == g[u.index as int]); }
    }
    assert forall|k: int| 0 <= k < f.len() implies b.present(#[trigger] f[k], k) by {
        if k < h.len() {
            assert(f[k] == h[k] && a.present(h[k], k));
            keys_match(f[k].path, f[k].path);
            if h[k].m is Some { assert(noend(keys_of(f[k].path))); assert(has_index(a.filed_at(h[k].m->0, keys_of(f[k].path)), k)); let w = b.filed_at(h[k].m->0, keys_of(f[k].path)); }
            else { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).index == k; assert(z[i] == x[i]); }
        } else {
            let j = k - h.len();
            assert(f[k] == g[j] && o.present(g[j], j));
            keys_match(f[k].path, f[k].path);
            if g[j].m is Some { assert(has_index(o.filed_at(g[j].m->0, keys_of(f[k].path)), j)); let w = b.filed_at(g[j].m->0, keys_of(f[k].path)); assert(j + c == k); }
            else { let i = choose|i: int| 0 <= i < y.len() && (#[trigger] y[i]).index == j; assert(plain_ok(g, y[i])); assert(z[x.len() + i].index == k); }
        }
    }
}
// ---- running a history
pub open spec fn applies(e: Ev, q: ReqV) -> bool { match e.m { None => true, Some(m) => (m == q.line.method || m is All) && matches(e.path, q.line.path) } }
pub open spec fn ev_vars(e: Ev, q: ReqV) -> Map<Seq<char>, Seq<char>> { match e.m { None => Map::empty(), Some(_) => var_map(e.path, q.line.path, q.line.path.len() as int) } }
/// C01, C02: the registrations from number k on that apply to q are run in their order, each on the response its
/// predecessor left and with its own variables, up to the first that stops; this takes the response from a to b
#[verifier::opaque]
pub open spec fn run_history(h: Seq<Ev>, k: int, q: ReqV, a: Response, b: Response) -> bool decreases h.len() - k {
    if k < 0 || k >= h.len() { b == a }
    else if !applies(h[k], q) { run_history(h, k + 1, q, a, b) }
    else { exists|r: Response, f: Flow| #[trigger] h[k].closure.ran(q, ev_vars(h[k], q), a, r, f) && (if f is Stop { b == r } else { run_history(h, k + 1, q, r, b) }) }
}
proof fn history_skip(h: Seq<Ev>, k: int, n: int, q: ReqV, a: Response, b: Response)
    requires 0 <= k <= n <= h.len(), forall|i: int| k <= i < n ==> !applies(#[trigger] h[i], q), run_history(h, n, q, a, b),
    ensures run_history(h, k, q, a, b),
    decreases n - k,
{ if k < n { assert(!applies(h[k], q)); history_skip(h, k + 1, n, q, a, b); reveal_with_fuel(run_history, 2); } }
/// the pool holds each registration of h that applies once
pub open spec fn cand_ok(h: Seq<Ev>, q: ReqV, c: Cand) -> bool { c.data.index < h.len() && applies(h[c.data.index as int], q) && c.data.closure == h[c.data.index as int].closure && c.vars == ev_vars(h[c.data.index as int], q) }
pub open spec fn has_cand(pool: Seq<Cand>, k: int) -> bool { exists|x: int| 0 <= x < pool.len() && (#[trigger] pool[x]).data.index == k }
pub open spec fn pool_for(pool: Seq<Cand>, h: Seq<Ev>, q: ReqV) -> bool {
    &&& forall|x: int| 0 <= x < pool.len() ==> cand_ok(h, q, #[trigger] pool[x])
    &&& forall|k: int| 0 <= k < h.len() && applies(#[trigger] h[k], q) ==> has_cand(pool, k)
    &&& forall|x: int, y: int| 0 <= x < y < pool.len() ==> (#[trigger] pool[x]).data.index != (#[trigger] pool[y]).data.index
}
spec fn begin(pool: Seq<Cand>, order: Seq<int>, n: int) -> int { if n <= 0 { 0 } else { pool[order[n - 1]].data.index + 1 } }
proof fn full_order(n: int, order: Seq<int>)
    requires order.len() == n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] order[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> order[i] != order[j],
    ensures forall|x: int| 0 <= x < n ==> #[trigger] order.contains(x),
{
    assert(order.no_duplicates());
    order.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    let s = vstd::set_lib::set_int_range(0, n);
    assert(order.to_set().subset_of(s));
    vstd::set_lib::lemma_subset_equality(order.to_set(), s);
    assert forall|x: int| 0 <= x < n implies #[trigger] order.contains(x) by { assert(s.contains(x)); assert(order.to_set().contains(x)); }
}
/// nothing that applies lies between two handlers run one after the other
proof fn no_gap(pool: Seq<Cand>, h: Seq<Ev>, q: ReqV, order: Seq<int>, n: int, k: int)
    requires
        pool_for(pool, h, q), picks(pool, order), 0 <= n <= order.len(), n < order.len() || order.len() == pool.len(),
        begin(pool, order, n) <= k < h.len(), n < order.len() ==> k < pool[order[n]].data.index,
    ensures !applies(h[k], q),
{
    if applies(h[k], q) {
        assert(has_cand(pool, k));
        let x = choose|x: int| 0 <= x < pool.len() && (#[trigger] pool[x]).data.index == k;
        if n == order.len() { full_order(pool.len() as int, order); }
        if order.contains(x) {
            let i = choose|i: int| 0 <= i < order.len() && order[i] == x;
            if i < n { if i < n - 1 { assert(pool[order[i]].data.index <= pool[order[n - 1]].data.index); } }
            else if i > n { assert(pool[order[n]].data.index <= pool[order[i]].data.index); }
        } else { assert(pool[order[n]].data.index <= pool[x].data.index); }
    }
}
proof fn history_back(pool: Seq<Cand>, h: Seq<Ev>, q: ReqV, order: Seq<int>, n: int, a: Response, m: Response, b: Response)
    requires
        pool_for(pool, h, q), picks(pool, order), 0 <= n <= order.len(),
        runs(pool, order, q, n, a, m, false), run_history(h, begin(pool, order, n), q, m, b),
    ensures run_history(h, 0, q, a, b),
    decreases n,
{
    reveal_with_fuel(runs, 2);
    if n > 0 {
        let c = pool[order[n - 1]];
        let r = choose|r: Response| #[trigger] one_run(c, q, r, m, false) && runs(pool, order, q, n - 1, a, r, false);
        one_back(pool, h, q, order, n - 1, r, m, b, false);
        history_back(pool, h, q, order, n - 1, a, r, b);
    }
}
/// one handler, put in front of what follows
proof fn one_back(pool: Seq<Cand>, h: Seq<Ev>, q: ReqV, order: Seq<int>, n: int, r: Response, m: Response, b: Response, stop: bool)
    requires
        pool_for(pool, h, q), picks(pool, order), 0 <= n < order.len(), one_run(pool[order[n]], q, r, m, stop),
        if stop { b == m } else { run_history(h, begin(pool, order, n + 1), q, m, b) },
    ensures run_history(h, begin(pool, order, n), q, r, b),
{
    let c = pool[order[n]];
    let k = c.data.index as int;
    assert(cand_ok(h, q, c));
    let f = choose|f: Flow| #[trigger] c.data.closure.ran(q, c.vars, r, m, f) && stop == (f is Stop);
    assert(h[k].closure.ran(q, ev_vars(h[k], q), r, m, f));
    assert(run_history(h, k, q, r, b)) by { reveal_with_fuel(run_history, 2); }
    let s = begin(pool, order, n);
    if n > 0 { assert(order[n - 1] != order[n] && pool[order[n - 1]].data.index <= pool[order[n]].data.index); if order[n - 1] < order[n] { assert(pool[order[n - 1]].data.index != pool[order[n]].data.index); } else { assert(pool[order[n]].data.index != pool[order[n - 1]].data.index); } }
    assert forall|i: int| s <= i < k implies !applies(#[trigger] h[i], q) by { no_gap(pool, h, q, order, n, i); }
    history_skip(h, s, k, q, r, b);
}
/// C01: handling a request by a pool that holds what applies of a history is running the history
pub proof fn handled_history(pool: Seq<Cand>, h: Seq<Ev>, q: ReqV, a: Response, b: Response)
    requires pool_for(pool, h, q), handled(pool, q, a, b),
    ensures run_history(h, 0, q, a, b),
{
    let (order, stop) = choose|order: Seq<int>, stop: bool| picks(pool, order) && #[trigger] runs(pool, order, q, order.len() as int, a, b, stop) && (stop || order.len() == pool.len());
    let n = order.len() as int;
    if stop {
        reveal_with_fuel(runs, 2);
        assert(n > 0);
        let r = choose|r: Response| #[trigger] one_run(pool[order[n - 1]], q, r, b, true) && runs(pool, order, q, n - 1, a, r, false);
        one_back(pool, h, q, order, n - 1, r, b, b, true);
        history_back(pool, h, q, order, n - 1, a, r, b);
    } else {
        let s = begin(pool, order, n);
        if n > 0 { assert(cand_ok(h, q, pool[order[n - 1]])); }
        assert forall|i: int| s <= i < h.len() implies !applies(#[trigger] h[i], q) by { no_gap(pool, h, q, order, n, i); }
        assert(run_history(h, h.len() as int, q, b, b)) by { reveal_with_fuel(run_history, 2); }
        history_skip(h, s, h.len() as int, q, b, b);
        history_back(pool, h, q, order, n, a, b, b);
    }
}
// ---- the pool of a router with a history
/// numbers are not used twice in a tree
spec fn numbered(n: PathNode<Closures>) -> bool {
    forall|ks: Seq<Key>, js: Seq<Key>, i: int, j: int| #![trigger at(n, ks)[i], at(n, js)[j]] noend(ks) && noend(js) && 0 <= i < at(n, ks).len() && 0 <= j < at(n, js).len() && at(n, ks)[i].data.index == at(n, js)[j].data.index ==> ks == js && i == j
}
proof fn match_noend(ks: Seq<Key>, p: Seq<Seq<char>>)
    requires key_match(ks, p),
    ensures noend(ks),
{ assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] != Key::End by {} }
proof fn found_numbered(n: PathNode<Closures>, p: Seq<Seq<char>>)
    requires numbered(n),
    ensures no_repeat(found(n, p)),
    decreases p.len(),
{
    reveal_with_fuel(found, 2);
    if p.len() == 0 {
        at_nil(n);
        let e = Seq::<Key>::empty();
        let s = found(n, p);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).data.index != (#[trigger] s[j]).data.index by { assert(at(n, e)[i] == s[i] && at(n, e)[j] == s[j]); assert(noend(e)); }
    } else if n is Node {
        let m = n->Node_0;
        let c = Key::Chunk(p[0]);
        let r = p.skip(1);
        let l = if m@.dom().contains(c) { found(m@[c], r) } else { Seq::empty() };
        let v = if m@.dom().contains(Key::CatchAll) { found(m@[Key::CatchAll], r) } else { Seq::empty() };
        if m@.dom().contains(c) { child_numbered(n, m, c); found_numbered(m@[c], r); }
        if m@.dom().contains(Key::CatchAll) { child_numbered(n, m, Key::CatchAll); found_numbered(m@[Key::CatchAll], r); }
        let s = l + v;
        assert(found(n, p) == s);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).data.index != (#[trigger] s[j]).data.index by {
            if j < l.len() { assert(s[i] == l[i] && s[j] == l[j]); }
            else if i >= l.len() { assert(s[i] == v[i - l.len()] && s[j] == v[j - l.len()]); }
            else {
                let (d, e) = (l[i], v[j - l.len()]);
                assert(l.contains(d) && v.contains(e));
                found_iff(m@[c], r, d);
                found_iff(m@[Key::CatchAll], r, e);
                let ks = choose|ks: Seq<Key>| key_match(ks, r) && #[trigger] at(m@[c], ks).contains(d);
                let js = choose|ks: Seq<Key>| key_match(ks, r) && #[trigger] at(m@[Key::CatchAll], ks).contains(e);
                match_noend(ks, r); match_noend(js, r);
                let u = choose|u: int| 0 <= u < at(m@[c], ks).len() && at(m@[c], ks)[u] == d;
                let w = choose|w: int| 0 <= w < at(m@[Key::CatchAll], js).len() && at(m@[Key::CatchAll], js)[w] == e;
                let k1 = seq![c] + ks;
                let j1 = seq![Key::CatchAll] + js;
                at_step(n, m, k1); at_step(n, m, j1);
                assert(k1.skip(1) =~= ks && j1.skip(1) =~= js);
                assert(k1[0] == c && j1[0] == Key::CatchAll);
                assert(noend(k1) && noend(j1));
                assert(at(n, k1)[u] == d && at(n, j1)[w] == e);
            }
        }
    }
}
proof fn child_numbered(n: PathNode<Closures>, m: VxMap<PathChunk, PathNode<Closures>>, k: Key)
    requires numbered(n), n == PathNode::Node(m), m@.dom().contains(k), k != Key::End,
    ensures numbered(m@[k]),
{
    let c = m@[k];
    assert forall|ks: Seq<Key>, js: Seq<Key>, i: int, j: int| #![trigger at(c, ks)[i], at(c, js)[j]] noend(ks) && noend(js) && 0 <= i < at(c, ks).len() && 0 <= j < at(c, js).len() && at(c, ks)[i].data.index == at(c, js)[j].data.index implies ks == js && i == j by {
        let k1 = seq![k] + ks;
        let j1 = seq![k] + js;
        at_step(n, m, k1); at_step(n, m, j1);
        assert(k1.skip(1) =~= ks && j1.skip(1) =~= js);
        assert(noend(k1) && noend(j1));
        assert(at(n, k1)[i] == at(c, ks)[i] && at(n, j1)[j] == at(c, js)[j]);
    }
}
/// what a tree contributes to the pool
proof fn tree_part(r: Router, m: RequestMethod, h: Seq<Ev>, q: ReqV)
    requires r.logged(h), m == q.line.method || m is All,
    ensures
        ({ let s = r.method_cands(m, q.line.path);
           &&& forall|x: int| 0 <= x < s.len() ==> cand_ok(h, q, #[trigger] s[x]) && h[s[x].data.index as int].m == Some(m)
           &&& forall|k: int| 0 <= k < h.len() && applies(#[trigger] h[k], q) && h[k].m == Some(m) ==> has_cand(s, k)
           &&& forall|x: int, y: int| 0 <= x < y < s.len() ==> (#[trigger] s[x]).data.index != (#[trigger] s[y]).data.index }),
{
    reveal(Router::logged);
    let p = q.line.path;
    let s = r.method_cands(m, p);
    if r.paths@.dom().contains(m) {
        let n = r.paths@[m];
        let f = found(n, p);
        assert(tree_inv(n, r.route_counter as int));
        assert(numbered(n)) by {
            assert forall|ks: Seq<Key>, js: Seq<Key>, i: int, j: int| #![trigger at(n, ks)[i], at(n, js)[j]] noend(ks) && noend(js) && 0 <= i < at(n, ks).len() && 0 <= j < at(n, js).len() && at(n, ks)[i].data.index == at(n, js)[j].data.index implies ks == js && i == j by {
                assert(entry_ok(h, m, r.filed_at(m, ks)[i]) && entry_ok(h, m, r.filed_at(m, js)[j]));
                assert(no_repeat(r.filed_at(m, ks)));
                let y = r.filed_at(m, ks);
                if ks == js { if i < j { assert(y[i].data.index != y[j].data.index); } else if j < i { assert(y[j].data.index != y[i].data.index); } }
            }
        }
        found_numbered(n, p);
        found_matches(n, p);
        assert forall|x: int| 0 <= x < s.len() implies cand_ok(h, q, #[trigger] s[x]) && h[s[x].data.index as int].m == Some(m) by {
            let d = f[x];
            assert(f.contains(d));
            dispatch(n, p, d);
            let ks = choose|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d);
            let i = choose|i: int| 0 <= i < at(n, ks).len() && at(n, ks)[i] == d;
            assert(entry_ok(h, m, r.filed_at(m, ks)[i]));
        }
        assert forall|k: int| 0 <= k < h.len() && applies(#[trigger] h[k], q) && h[k].m == Some(m) implies has_cand(s, k) by {
            assert(r.present(h[k], k));
            let ks = keys_of(h[k].path);
            keys_match(h[k].path, h[k].path);
            let i = choose|i: int| 0 <= i < r.filed_at(m, ks).len() && (#[trigger] r.filed_at(m, ks)[i]).data.index == k;
            let d = at(n, ks)[i];
            assert(entry_ok(h, m, r.filed_at(m, ks)[i]));
            assert(at(n, ks).contains(d));
            dispatch(n, p, d);
            let x = choose|x: int| 0 <= x < f.len() && f[x] == d;
            assert(s[x].data.index == k);
        }
        assert forall|x: int, y: int| 0 <= x < y < s.len() implies (#[trigger] s[x]).data.index != (#[trigger] s[y]).data.index by { assert(f[x].data.index != f[y].data.index); }
    } else {
        assert forall|k: int| 0 <= k < h.len() && applies(#[trigger] h[k], q) && h[k].m == Some(m) implies has_cand(s, k) by { assert(r.present(h[k], k)); assert(r.filed_at(m, keys_of(h[k].path)).len() == 0); }
    }
}
/// C01, C03: what runs for a request is determined by the history of registrations alone
pub proof fn history_pool(r: Router, h: Seq<Ev>, q: ReqV)
    requires r.logged(h), !(q.line.method is All),
    ensures pool_for(r.pool(q.line.method, q.line.path), h, q),
{
    let p = q.line.path;
    let (a, b, c) = (r.method_cands(q.line.method, p), r.method_cands(RequestMethod::All, p), plain_cands(r.middlewares@));
    tree_part(r, q.line.method, h, q);
    tree_part(r, RequestMethod::All, h, q);
    reveal(Router::logged);
    let s = a + b + c;
    assert forall|x: int| 0 <= x < c.len() implies cand_ok(h, q, #[trigger] c[x]) && h[c[x].data.index as int].m is None by { assert(plain_ok(h, r.middlewares@[x])); }
    assert forall|x: int| 0 <= x < s.len() implies cand_ok(h, q, #[trigger] s[x]) && h[s[x].data.index as int].m == (if x < a.len() { Some(q.line.method) } else if x < a.len() + b.len() { Some(RequestMethod::All) } else { None }) by {
        if x < a.len() { assert(s[x] == a[x]); } else if x < a.len() + b.len() { assert(s[x] == b[x - a.len()]); } else { assert(s[x] == c[x - a.len() - b.len()]); }
    }
    assert forall|k: int| 0 <= k < h.len() && applies(#[trigger] h[k], q) implies has_cand(s, k) by {
        if h[k].m == Some(q.line.method) { assert(has_cand(a, k)); let x = choose|x: int| 0 <= x < a.len() && (#[trigger] a[x]).data.index == k; assert(s[x] == a[x]); }
        else if h[k].m == Some(RequestMethod::All) { assert(has_cand(b, k)); let x = choose|x: int| 0 <= x < b.len() && (#[trigger] b[x]).data.index == k; assert(s[a.len() + x] == b[x]); }
        else {
            assert(r.present(h[k], k));
            let x = choose|x: int| 0 <= x < r.middlewares@.len() && (#[trigger] r.middlewares@[x]).index == k;
            assert(c[x].data.index == k);
            assert(s[a.len() + b.len() + x] == c[x]);
        }
    }
    assert forall|x: int, y: int| 0 <= x < y < s.len() implies (#[trigger] s[x]).data.index != (#[trigger] s[y]).data.index by {
        let n = a.len() + b.len();
        if y < a.len() { assert(s[x] == a[x] && s[y] == a[y]); }
        else if a.len() <= x && y < n { assert(s[x] == b[x - a.len()] && s[y] == b[y - a.len()]); }
        else if n <= x { assert(r.middlewares@[x - n].index < r.middlewares@[y - n].index); }
    }
}
