// ================= the router (src/router.rs) =================
@@enum src/router.rs Flow
impl Flow {
@@fn src/router.rs Flow::should_continue
@props C01 C03
@ret r
@spec
    ensures r == (self is Next),
@@end
}
@@struct src/request.rs MatchedRequest
/// a handler given by the user: what it does is not restricted; `ran` is the record that it ran
#[verifier::external_body]
pub struct VxClosure { s: u8 }
impl VxClosure {
    pub uninterp spec fn ran(&self, q: ReqV, vars: Map<Seq<char>, Seq<char>>, a: Response, b: Response, f: Flow) -> bool;
    #[verifier::external_body]
    pub fn vx_call(&self, q: &MatchedRequest, res: &mut Response) -> (f: Flow)
        ensures self.ran(reqv(q.request), sviews(q.vars@), *old(res), *final(res), f),
    { unimplemented!() }
}
/// what a handler sees of a request
pub struct ReqV { pub line: RequestLineV, pub headers: Map<Seq<char>, Seq<char>>, pub raw: Seq<HeaderV>, pub body: Seq<u8>, pub cookies: Seq<CookieV> }
pub struct RequestLineV { pub method: RequestMethod, pub path: Seq<Seq<char>>, pub query: Seq<char>, pub version: HttpVersion }
pub open spec fn linev(l: RequestLine) -> RequestLineV { RequestLineV { method: l.method, path: l.path@, query: l.query@, version: l.version } }
pub open spec fn reqv(q: Request) -> ReqV { ReqV { line: linev(q.request_line), headers: q.headers.map(), raw: hviews(q.headers.raw@), body: q.body@, cookies: cviews(q.cookies@) } }
impl<'a> VxClone for Request<'a> {
    open spec fn cloned_from(self, o: Request<'a>) -> bool { reqv(self) == reqv(o) }
@@fn expanded:octane Request@Clone::clone rename=vx_clone vis=none
@props C01 C16
@ret r
@start
    proof {
        assert forall|a: Seq<Cookie<'a>>, b: Seq<Cookie<'a>>| #[trigger] all_cloned(a, b) implies cviews(a) == cviews(b) by { assert(cviews(a) =~= cviews(b)) by { assert forall|i: int| 0 <= i < a.len() implies cviews(a)[i] == cviews(b)[i] by { assert(a[i].cloned_from(b[i])); } } }
    }
@@end
}
impl<'a> VxClone for VxMap<&'a str, &'a str> { open spec fn cloned_from(self, o: VxMap<&'a str, &'a str>) -> bool { self@ == o@ } #[verifier::external_body] fn vx_clone(&self) -> VxMap<&'a str, &'a str> { unimplemented!() } }
@@struct src/middlewares/mod.rs Closures
@@struct src/router.rs Router
impl<'a, T> MatchedPath<'a, T> {
@@fn expanded:octane MatchedPath@Deref::deref vis=none rettype=&T
@props C01
@ret r
@spec
    ensures *r == *self.data,
@@end
}
impl<'a> MatchedRequest<'a> {
// what handlers see of the request
@@fn expanded:octane MatchedRequest@Deref::deref vis=none rettype=&Request<'a>
@props C16
@ret r
@spec
    ensures *r == self.request,
@@end
}
impl Closures {
    pub fn vx_index(&self) -> (r: usize) ensures r == self.index { self.index }
    pub fn vx_closure(&self) -> (r: &VxClosure) ensures *r == self.closure { &self.closure }
}
impl<'a> MatchedPath<'a, Closures> {
    pub fn vx_index(&self) -> (r: usize) ensures r == self.data.index { self.deref().index }
    pub fn vx_closure(&self) -> (r: &VxClosure) ensures *r == self.data.closure { &self.deref().closure }
}
impl VxKey for RequestMethod { type S = RequestMethod; open spec fn key(&self) -> RequestMethod { *self } }
impl<'a, K: VxKey, V> VxEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            old(self.m)@.dom().contains(self.k.key()) ==> *r == old(self.m)@[self.k.key()],
            !old(self.m)@.dom().contains(self.k.key()) ==> *r == v,
            final(self.m)@ == old(self.m)@.insert(self.k.key(), *final(r)),
    { unimplemented!() }
}
impl Router {
    /// everything filed is well formed and numbered below the counter; path-less handlers are numbered upwards
    pub open spec fn inv(&self) -> bool {
        &&& forall|m: RequestMethod| #[trigger] self.paths@.dom().contains(m) ==> tree_inv(self.paths@[m], self.route_counter as int)
        &&& forall|i: int| 0 <= i < self.middlewares@.len() ==> (#[trigger] self.middlewares@[i]).index < self.route_counter
        &&& forall|i: int, j: int| 0 <= i < j < self.middlewares@.len() ==> (#[trigger] self.middlewares@[i]).index < (#[trigger] self.middlewares@[j]).index
    }
    /// the entries registered under a method for a key sequence
    pub open spec fn filed_at(&self, m: RequestMethod, ks: Seq<Key>) -> Seq<PathData<Closures>> {
        if self.paths@.dom().contains(m) { at(self.paths@[m], ks) } else { Seq::empty() }
    }
    /// registering one handler for (method, path): it gets the next number, everything else stays
    pub open spec fn registered(a: Router, b: Router, m: RequestMethod, path: Seq<Seq<char>>, c: VxClosure) -> bool {
        &&& b.inv() && b.route_counter == a.route_counter + 1 && b.middlewares == a.middlewares
        &&& exists|d: PathData<Closures>| #![trigger a.filed_at(m, keys_of(path)).push(d)] d.orig_path@ == path && d.data == (Closures { closure: c, index: a.route_counter }) && b.filed_at(m, keys_of(path)) == a.filed_at(m, keys_of(path)).push(d)
        &&& forall|n: RequestMethod, ks: Seq<Key>| noend(ks) && (n != m || ks != keys_of(path)) ==> #[trigger] b.filed_at(n, ks) == a.filed_at(n, ks)
    }
    /// a refused registration changes no entry
    pub open spec fn refused(a: Router, b: Router) -> bool {
        &&& b.inv() && b.route_counter == a.route_counter && b.middlewares == a.middlewares
        &&& forall|n: RequestMethod, ks: Seq<Key>| #[trigger] b.filed_at(n, ks) == a.filed_at(n, ks)
    }
@@fn src/router.rs Router::new
@ret r
@spec
    ensures r.inv(), r.route_counter == 0, r.middlewares@.len() == 0, forall|m: RequestMethod, ks: Seq<Key>| (#[trigger] r.filed_at(m, ks)).len() == 0,
@@end
}
pub open spec fn tree_inv(n: PathNode<Closures>, c: int) -> bool {
    &&& wf_tree(n) && filed(n)
    &&& forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(n, ks).len() ==> (#[trigger] at(n, ks)[i]).data.index < c
}
proof fn reg_step(a: Router, b: Router, m: RequestMethod, n0: PathNode<Closures>, n1: PathNode<Closures>, d: PathData<Closures>)
    requires
        a.inv(), a.route_counter < usize::MAX, nonempty(d.orig_path@), d.data.index == a.route_counter,
        (if a.paths@.dom().contains(m) { n0 == a.paths@[m] } else { wf_tree(n0) && filed(n0) && all_empty(n0) }),
        inserted(n0, n1, keys_of(d.orig_path@), d), filed(n1),
        b.paths@ == a.paths@.insert(m, n1), b.middlewares == a.middlewares, b.route_counter == a.route_counter + 1,
    ensures Router::registered(a, b, m, d.orig_path@, d.data.closure),
{
    reveal(inserted);
    let k0 = keys_of(d.orig_path@);
    keys_match(d.orig_path@, d.orig_path@);
    assert forall|x: RequestMethod| #[trigger] b.paths@.dom().contains(x) implies tree_inv(b.paths@[x], b.route_counter as int) by {
        if x == m {
            assert forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(n1, ks).len() implies (#[trigger] at(n1, ks)[i]).data.index < b.route_counter by {
                if ks == k0 && i == at(n0, ks).len() {} else { assert(at(n1, ks)[i] == at(n0, ks)[i]); if a.paths@.dom().contains(m) { assert(tree_inv(n0, a.route_counter as int)); } }
            }
        } else { assert(a.paths@.dom().contains(x)); }
    }
    assert(b.filed_at(m, k0) == a.filed_at(m, k0).push(d));
    assert forall|n: RequestMethod, ks: Seq<Key>| noend(ks) && (n != m || ks != k0) implies #[trigger] b.filed_at(n, ks) == a.filed_at(n, ks) by {}
}
proof fn reg_refused(a: Router, b: Router, m: RequestMethod, n0: PathNode<Closures>)
    requires
        a.inv(), b.middlewares == a.middlewares, b.route_counter == a.route_counter, b.paths@ == a.paths@.insert(m, n0),
        (if a.paths@.dom().contains(m) { n0 == a.paths@[m] } else { wf_tree(n0) && filed(n0) && all_empty(n0) }),
    ensures Router::refused(a, b),
{
    assert forall|x: RequestMethod| #[trigger] b.paths@.dom().contains(x) implies tree_inv(b.paths@[x], b.route_counter as int) by {
        if a.paths@.dom().contains(x) {} else { assert forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(n0, ks).len() implies (#[trigger] at(n0, ks)[i]).data.index < b.route_counter by { assert(at(n0, ks).len() == 0); } }
    }
    assert forall|n: RequestMethod, ks: Seq<Key>| #[trigger] b.filed_at(n, ks) == a.filed_at(n, ks) by {}
}
impl Router {
@@fn src/router.rs Router@Route::head
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Head, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Head); }
@@end
@@fn src/router.rs Router@Route::put
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Put, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Put); }
@@end
@@fn src/router.rs Router@Route::get
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Get, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Get); }
@@end
@@fn src/router.rs Router@Route::delete
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Delete, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Delete); }
@@end
@@fn src/router.rs Router@Route::post
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Post, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Post); }
@@end
@@fn src/router.rs Router@Route::patch
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::Patch, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::Patch); }
@@end
@@fn src/router.rs Router@Route::add_route
@ret r
@params path closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok <==> normalise(path@) is Some,
        r is Ok ==> Router::registered(*old(self), *final(self), RequestMethod::All, normalise(path@)->0, closure),
        r is Err ==> Router::refused(*old(self), *final(self)),
@start
    proof { reg_hints(*old(self), RequestMethod::All); }
@@end
@@fn src/router.rs Router@Route::add
@props C01 C03
@ret r
@params closure
@spec
    requires old(self).inv(), old(self).route_counter < usize::MAX,
    ensures
        r is Ok, final(self).inv(), final(self).route_counter == old(self).route_counter + 1, final(self).paths == old(self).paths,
        final(self).middlewares@ == old(self).middlewares@.push(Closures { closure: closure, index: old(self).route_counter }),
@@end
}
pub open spec fn reg_from(a: Router, m: RequestMethod, n0: PathNode<Closures>) -> bool { if a.paths@.dom().contains(m) { n0 == a.paths@[m] } else { wf_tree(n0) && filed(n0) && all_empty(n0) } }
pub proof fn reg_hints(a: Router, m: RequestMethod)
    requires a.inv(), a.route_counter < usize::MAX,
    ensures
        forall|b: Router, n0: PathNode<Closures>, n1: PathNode<Closures>, ks: Seq<Key>, d: PathData<Closures>, p: Seq<Seq<char>>, c: VxClosure|
            #![trigger Router::registered(a, b, m, p, c), inserted(n0, n1, ks, d)]
            ks == keys_of(p) && d.orig_path@ == p && nonempty(p) && d.data == (Closures { closure: c, index: a.route_counter }) && reg_from(a, m, n0) && inserted(n0, n1, ks, d) && filed(n1)
            && b.paths@ == a.paths@.insert(m, n1) && b.middlewares == a.middlewares && b.route_counter == a.route_counter + 1
            ==> Router::registered(a, b, m, p, c),
        forall|b: Router, n0: PathNode<Closures>| #![trigger Router::refused(a, b), a.paths@.insert(m, n0)]
            reg_from(a, m, n0) && b.paths@ == a.paths@.insert(m, n0) && b.middlewares == a.middlewares && b.route_counter == a.route_counter ==> Router::refused(a, b),
{
    assert forall|b: Router, n0: PathNode<Closures>, n1: PathNode<Closures>, ks: Seq<Key>, d: PathData<Closures>, p: Seq<Seq<char>>, c: VxClosure|
            #![trigger Router::registered(a, b, m, p, c), inserted(n0, n1, ks, d)]
            ks == keys_of(p) && d.orig_path@ == p && nonempty(p) && d.data == (Closures { closure: c, index: a.route_counter }) && reg_from(a, m, n0) && inserted(n0, n1, ks, d) && filed(n1)
            && b.paths@ == a.paths@.insert(m, n1) && b.middlewares == a.middlewares && b.route_counter == a.route_counter + 1
            implies Router::registered(a, b, m, p, c) by { reg_step(a, b, m, n0, n1, d); }
    assert forall|b: Router, n0: PathNode<Closures>| #![trigger Router::refused(a, b), a.paths@.insert(m, n0)]
            reg_from(a, m, n0) && b.paths@ == a.paths@.insert(m, n0) && b.middlewares == a.middlewares && b.route_counter == a.route_counter implies Router::refused(a, b) by { reg_refused(a, b, m, n0); }
}
// ---- appending a router
pub open spec fn shift(d: PathData<Closures>, c: int) -> PathData<Closures> { PathData { orig_path: d.orig_path, data: Closures { closure: d.data.closure, index: (d.data.index + c) as usize } } }
pub open spec fn shift_all(s: Seq<PathData<Closures>>, c: int) -> Seq<PathData<Closures>> { Seq::new(s.len(), |i: int| shift(s[i], c)) }
pub open spec fn shift_plain(s: Seq<Closures>, c: int) -> Seq<Closures> { Seq::new(s.len(), |i: int| Closures { closure: s[i].closure, index: (s[i].index + c) as usize }) }
/// z is x followed by the entries of y, in some order, with their numbers raised by c
pub open spec fn joined(x: Seq<PathData<Closures>>, y: Seq<PathData<Closures>>, z: Seq<PathData<Closures>>, c: int) -> bool {
    exists|t: Seq<PathData<Closures>>| t.to_multiset() == y.to_multiset() && z == x + #[trigger] shift_all(t, c)
}
pub open spec fn filed_in(p: Map<RequestMethod, PathNode<Closures>>, m: RequestMethod, ks: Seq<Key>) -> Seq<PathData<Closures>> {
    if p.dom().contains(m) { at(p[m], ks) } else { Seq::empty() }
}
impl Router {
    /// appending o to a: o's entries follow a's, numbered on from a's counter, everything else stays
    #[verifier::opaque]
    pub open spec fn appended(a: Router, o: Router, b: Router) -> bool {
        &&& b.inv() && b.route_counter == a.route_counter + o.route_counter
        &&& b.middlewares@ == a.middlewares@ + shift_plain(o.middlewares@, a.route_counter as int)
        &&& forall|m: RequestMethod, ks: Seq<Key>| noend(ks) ==> joined(a.filed_at(m, ks), o.filed_at(m, ks), #[trigger] b.filed_at(m, ks), a.route_counter as int)
    }
}
pub open spec fn done(items: Seq<(RequestMethod, PathNode<Closures>)>, n: int, m: RequestMethod) -> bool { exists|i: int| 0 <= i < n && (#[trigger] items[i]).0 == m }
/// the first n trees of o have been appended
#[verifier::opaque]
pub open spec fn partway(a: Router, o: Router, p: Map<RequestMethod, PathNode<Closures>>, n: int) -> bool {
    let items = map_items(o.paths);
    &&& forall|m: RequestMethod| #[trigger] p.dom().contains(m) ==> tree_inv(p[m], a.route_counter + o.route_counter)
    &&& forall|m: RequestMethod, ks: Seq<Key>| noend(ks) ==> if done(items, n, m) { joined(a.filed_at(m, ks), o.filed_at(m, ks), #[trigger] filed_in(p, m, ks), a.route_counter as int) } else { filed_in(p, m, ks) == a.filed_at(m, ks) }
}
proof fn partway_start(a: Router, o: Router)
    requires a.inv(),
    ensures partway(a, o, a.paths@, 0),
{
    reveal(partway);
    assert forall|m: RequestMethod| #[trigger] a.paths@.dom().contains(m) implies tree_inv(a.paths@[m], a.route_counter + o.route_counter) by { assert(tree_inv(a.paths@[m], a.route_counter as int)); }
}
proof fn of_keys_count(s: Seq<PathData<Closures>>, ks: Seq<Key>, e: PathData<Closures>)
    ensures of_keys(s, ks).to_multiset().count(e) == (if keys_of(e.orig_path@) == ks { s.to_multiset().count(e) } else { 0 }),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_with_fuel(of_keys, 2);
    if s.len() > 0 { of_keys_count(s.drop_last(), ks, e); assert(s =~= s.drop_last().push(s.last())); }
}
proof fn of_keys_shift(s: Seq<PathData<Closures>>, ks: Seq<Key>, c: int)
    ensures of_keys(shift_all(s, c), ks) == shift_all(of_keys(s, ks), c),
    decreases s.len(),
{
    reveal_with_fuel(of_keys, 2);
    if s.len() > 0 {
        of_keys_shift(s.drop_last(), ks, c);
        assert(shift_all(s, c).drop_last() =~= shift_all(s.drop_last(), c));
        assert(shift_all(s, c).last() == shift(s.last(), c));
    }
    assert(of_keys(shift_all(s, c), ks) =~= shift_all(of_keys(s, ks), c));
}
proof fn of_keys_in(s: Seq<PathData<Closures>>, ks: Seq<Key>, i: int) -> (j: int)
    requires 0 <= i < of_keys(s, ks).len(),
    ensures 0 <= j < s.len(), s[j] == of_keys(s, ks)[i],
    decreases s.len(),
{
    reveal_with_fuel(of_keys, 2);
    if s.len() > 0 {
        if keys_of(s.last().orig_path@) == ks && i == of_keys(s, ks).len() - 1 { s.len() - 1 } else { of_keys_in(s.drop_last(), ks, i) }
    } else { 0 }
}
/// the entries of a tree of o, as the iterator gives them
proof fn drained_ok(n: PathNode<Closures>, s: Seq<PathData<Closures>>, c: int)
    requires tree_inv(n, c), s.to_multiset() == all(n),
    ensures
        proper(s),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).data.index < c,
        forall|ks: Seq<Key>| noend(ks) ==> #[trigger] of_keys(s, ks).to_multiset() == at(n, ks).to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    all_filed(n);
    assert forall|i: int| 0 <= i < s.len() implies nonempty((#[trigger] s[i]).orig_path@) && s[i].data.index < c by {
        let e = s[i];
        let ks = keys_of(e.orig_path@);
        assert(s.contains(e));
        assert(all(n).count(e) > 0);
        assert(at(n, ks).to_multiset().count(e) > 0);
        keys_match(e.orig_path@, e.orig_path@);
        let j = choose|j: int| 0 <= j < at(n, ks).len() && at(n, ks)[j] == e;
        assert(at(n, ks)[j] == e);
    }
    assert forall|ks: Seq<Key>| noend(ks) implies #[trigger] of_keys(s, ks).to_multiset() == at(n, ks).to_multiset() by {
        assert forall|e: PathData<Closures>| of_keys(s, ks).to_multiset().count(e) == at(n, ks).to_multiset().count(e) by {
            of_keys_count(s, ks, e);
            assert(all(n).count(e) == at(n, keys_of(e.orig_path@)).to_multiset().count(e));
            if keys_of(e.orig_path@) != ks && at(n, ks).contains(e) {
                let j = choose|j: int| 0 <= j < at(n, ks).len() && at(n, ks)[j] == e;
                assert(keys_of(at(n, ks)[j].orig_path@) == ks);
            }
        }
        assert(of_keys(s, ks).to_multiset() =~= at(n, ks).to_multiset());
    }
}
proof fn append_step(a: Router, o: Router, p: Map<RequestMethod, PathNode<Closures>>, n: int, n0: PathNode<Closures>, n1: PathNode<Closures>, s: Seq<PathData<Closures>>)
    requires
        a.inv(), o.inv(), a.route_counter + o.route_counter <= usize::MAX,
        partway(a, o, p, n), 0 <= n < map_items(o.paths).len(),
        s.to_multiset() == all(map_items(o.paths)[n].1),
        (if p.dom().contains(map_items(o.paths)[n].0) { n0 == p[map_items(o.paths)[n].0] } else { wf_tree(n0) && filed(n0) && all_empty(n0) }),
        extended(n0, n1, shift_all(s, a.route_counter as int)),
    ensures
        partway(a, o, p.insert(map_items(o.paths)[n].0, n1), n + 1),
{
    broadcast use axiom_map_items_exact;
    reveal(partway); reveal(extended);
    let items = map_items(o.paths);
    let (m0, on) = items[n];
    let c = a.route_counter as int;
    let oc = o.route_counter as int;
    let q = p.insert(m0, n1);
    assert(o.paths@.dom().contains(m0) && o.paths@[m0] == on);
    drained_ok(on, s, oc);
    assert(!done(items, n, m0));
    assert(filed(n0));
    assert forall|ks: Seq<Key>| noend(ks) implies #[trigger] at(n1, ks) == a.filed_at(m0, ks) + shift_all(of_keys(s, ks), c) && joined(a.filed_at(m0, ks), o.filed_at(m0, ks), at(n1, ks), c) by {
        of_keys_shift(s, ks, c);
        assert(filed_in(p, m0, ks) == a.filed_at(m0, ks));
        if !p.dom().contains(m0) { assert(at(n0, ks) =~= Seq::empty()); }
    }
    assert(tree_inv(n1, c + oc)) by {
        assert forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(n1, ks).len() implies (#[trigger] at(n1, ks)[i]).data.index < c + oc by {
            let x = a.filed_at(m0, ks);
            if i < x.len() { assert(at(n1, ks)[i] == x[i]); assert(a.paths@.dom().contains(m0)); assert(tree_inv(a.paths@[m0], c)); }
            else { let j = of_keys_in(s, ks, i - x.len()); assert(at(n1, ks)[i] == shift(s[j], c)); }
        }
    }
    assert forall|m: RequestMethod| #[trigger] q.dom().contains(m) implies tree_inv(q[m], c + oc) by { if m != m0 { assert(p.dom().contains(m)); } }
    assert forall|m: RequestMethod, ks: Seq<Key>| noend(ks) implies (if done(items, n + 1, m) { joined(a.filed_at(m, ks), o.filed_at(m, ks), #[trigger] filed_in(q, m, ks), c) } else { filed_in(q, m, ks) == a.filed_at(m, ks) }) by {
        if m == m0 { assert(items[n].0 == m); assert(done(items, n + 1, m)); }
        else {
            assert(filed_in(q, m, ks) == filed_in(p, m, ks));
            assert(done(items, n + 1, m) == done(items, n, m)) by { if done(items, n + 1, m) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] items[i]).0 == m; assert(i < n); } }
        }
    }
}
proof fn append_end(a: Router, o: Router, b: Router)
    requires
        a.inv(), o.inv(), a.route_counter + o.route_counter <= usize::MAX, partway(a, o, b.paths@, map_items(o.paths).len() as int),
        b.route_counter == a.route_counter + o.route_counter, b.middlewares@ == a.middlewares@ + shift_plain(o.middlewares@, a.route_counter as int),
    ensures Router::appended(a, o, b),
{
    broadcast use axiom_map_items_exact;
    reveal(partway); reveal(Router::appended);
    let items = map_items(o.paths);
    let c = a.route_counter as int;
    assert forall|m: RequestMethod, ks: Seq<Key>| noend(ks) implies joined(a.filed_at(m, ks), o.filed_at(m, ks), #[trigger] b.filed_at(m, ks), c) by {
        assert(filed_in(b.paths@, m, ks) == b.filed_at(m, ks));
        if o.paths@.dom().contains(m) { assert(done(items, items.len() as int, m)); }
        else if done(items, items.len() as int, m) {}
        else { let t = Seq::<PathData<Closures>>::empty(); assert(o.filed_at(m, ks) == t); assert(a.filed_at(m, ks) + shift_all(t, c) =~= a.filed_at(m, ks)); }
    }
    let x = a.middlewares@;
    let y = o.middlewares@;
    let z = b.middlewares@;
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).index < b.route_counter by { if i < x.len() { assert(z[i] == x[i]); } else { assert(z[i].index == y[i - x.len()].index + c); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).index < (#[trigger] z[j]).index by {
        if j < x.len() { assert(z[i] == x[i] && z[j] == x[j]); }
        else { assert(z[j].index == y[j - x.len()].index + c); if i < x.len() { assert(z[i] == x[i]); } else { assert(z[i].index == y[i - x.len()].index + c); } }
    }
}
impl Router {
@@fn src/router.rs Router::append
@props C03
@params router
@spec
    requires old(self).inv(), router.inv(), old(self).route_counter + router.route_counter <= usize::MAX,
    ensures Router::appended(*old(self), router, *final(self)),
@start
    broadcast use axiom_map_items_exact;
    let ghost a = *self;
    let ghost o = router;
    let ghost items = map_items(o.paths);
    proof { partway_start(a, o); }
@loop 0
    invariant
        a.inv(), o.inv(), a.route_counter + o.route_counter <= usize::MAX, items == map_items(o.paths),
        self_count == a.route_counter, other_count == o.route_counter,
        vx_it0@.len() <= items.len(),
        vx_it0@ == items.skip(items.len() - vx_it0@.len()),
        partway(a, o, self.paths@, items.len() - vx_it0@.len()),
        self.middlewares == a.middlewares, self.route_counter == a.route_counter,
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    broadcast use axiom_map_items_exact;
    let ghost n = items.len() - vx_it0@.len() - 1;
    let ghost p = self.paths@;
    let ghost c = a.route_counter as int;
    proof {
        assert(vx_it0@ =~= items.skip(n + 1));
        assert(items[n] == (methods, paths));
        assert(o.paths@.dom().contains(methods) && o.paths@[methods] == paths);
        assert(tree_inv(paths, o.route_counter as int));
        all_hints(paths, o.route_counter as int, c);
        assert forall|s: Seq<PathData<Closures>>, t: Seq<PathData<Closures>>| #![trigger drained(s, all(paths)), proper(t)]
            drained(s, all(paths)) && s.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == shift(s[i], c)) implies proper(t) by { assert(t =~= shift_all(s, c)); }
        assert forall|s: Seq<PathData<Closures>>, t: Seq<PathData<Closures>>, n0: PathNode<Closures>, n1: PathNode<Closures>| #![trigger drained(s, all(paths)), extended(n0, n1, t)]
            (if p.dom().contains(methods) { n0 == p[methods] } else { wf_tree(n0) && filed(n0) && all_empty(n0) }) && drained(s, all(paths)) && s.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == shift(s[i], c)) && extended(n0, n1, t)
            implies partway(a, o, p.insert(methods, n1), n + 1) by { assert(t =~= shift_all(s, c)); append_step(a, o, p, n, n0, n1, s); }
        if p.dom().contains(methods) { reveal(partway); assert(tree_inv(p[methods], c + o.route_counter)); }
    }
@loopafter 0
    proof {
        let (x, y, c) = (a.middlewares@, o.middlewares@, a.route_counter as int);
        assert forall|b: Router| #![trigger Router::appended(a, o, b)]
            b.paths@ == self.paths@ && b.route_counter == a.route_counter + o.route_counter && b.middlewares@.len() == x.len() + y.len()
            && (forall|i: int| 0 <= i < x.len() ==> #[trigger] b.middlewares@[i] == x[i])
            && (forall|i: int| x.len() <= i < x.len() + y.len() ==> (#[trigger] b.middlewares@[i]).index == y[i - x.len()].index + c && b.middlewares@[i].closure == y[i - x.len()].closure)
            implies Router::appended(a, o, b) by { assert(b.middlewares@ =~= x + shift_plain(y, c)); append_end(a, o, b); }
    }
@closure 0
    -> (z: PathData<Closures>)
    requires vx_c0_0.data.index < other_count,
    ensures z == shift(vx_c0_0, self_count as int),
@closure 1
    -> (z: Closures)
    requires vx_c1_0.index < other_count,
    ensures z.closure == vx_c1_0.closure, z.index == vx_c1_0.index + self_count,
@@end
}
pub proof fn all_hints(n: PathNode<Closures>, oc: int, c: int)
    requires tree_inv(n, oc),
    ensures
        forall|d: PathData<Closures>| #[trigger] all(n).count(d) > 0 ==> d.data.index < oc,
        forall|s: Seq<PathData<Closures>>| #![trigger s.to_multiset()] s.to_multiset() == all(n) ==> proper(shift_all(s, c)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    all_filed(n);
    assert forall|d: PathData<Closures>| #[trigger] all(n).count(d) > 0 implies d.data.index < oc by {
        let ks = keys_of(d.orig_path@);
        keys_match(d.orig_path@, d.orig_path@);
        assert(at(n, ks).to_multiset().count(d) > 0);
        let j = choose|j: int| 0 <= j < at(n, ks).len() && at(n, ks)[j] == d;
        assert(at(n, ks)[j] == d);
    }
    assert forall|s: Seq<PathData<Closures>>| #![trigger s.to_multiset()] s.to_multiset() == all(n) implies proper(shift_all(s, c)) by { drained_ok(n, s, oc); assert forall|i: int| 0 <= i < s.len() implies nonempty((#[trigger] shift_all(s, c)[i]).orig_path@) by { assert(nonempty(s[i].orig_path@)); } }
}
// ---- running the handlers
/// a handler that applies to a request, with the values of its path variables
pub struct Cand { pub data: Closures, pub vars: Map<Seq<char>, Seq<char>> }
pub open spec fn cand_of(m: MatchedPath<Closures>) -> Cand { Cand { data: *m.data, vars: sviews(m.vars@) } }
pub open spec fn tree_cands(n: PathNode<Closures>, p: Seq<Seq<char>>) -> Seq<Cand> {
    Seq::new(found(n, p).len(), |i: int| Cand { data: found(n, p)[i].data, vars: var_map(found(n, p)[i].orig_path@, p, p.len() as int) })
}
pub open spec fn plain_cands(s: Seq<Closures>) -> Seq<Cand> { Seq::new(s.len(), |i: int| Cand { data: s[i], vars: Map::empty() }) }
impl Router {
    pub open spec fn method_cands(&self, m: RequestMethod, p: Seq<Seq<char>>) -> Seq<Cand> {
        if self.paths@.dom().contains(m) { tree_cands(self.paths@[m], p) } else { Seq::empty() }
    }
    /// the handlers that apply: those of the method, those for all methods, those without a path
    pub open spec fn pool(&self, m: RequestMethod, p: Seq<Seq<char>>) -> Seq<Cand> {
        self.method_cands(m, p) + self.method_cands(RequestMethod::All, p) + plain_cands(self.middlewares@)
    }
}
/// the first n handlers of an order ran one after the other, taking the response from a to b; stop: the last one ended it
#[verifier::opaque]
pub open spec fn runs(pool: Seq<Cand>, order: Seq<int>, q: ReqV, n: int, a: Response, b: Response, stop: bool) -> bool decreases n {
    if n <= 0 { b == a && !stop } else {
        exists|m: Response| #[trigger] one_run(pool[order[n - 1]], q, m, b, stop) && runs(pool, order, q, n - 1, a, m, false)
    }
}
pub open spec fn one_run(c: Cand, q: ReqV, a: Response, b: Response, stop: bool) -> bool { exists|f: Flow| #[trigger] c.data.closure.ran(q, c.vars, a, b, f) && stop == (f is Stop) }
/// order picks handlers of the pool, none twice, in the order of their numbers, none before a lower number
pub open spec fn picks(pool: Seq<Cand>, order: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < order.len() ==> 0 <= #[trigger] order[i] < pool.len()
    &&& forall|i: int, j: int| 0 <= i < j < order.len() ==> order[i] != order[j] && pool[#[trigger] order[i]].data.index <= pool[#[trigger] order[j]].data.index
    &&& forall|x: int, i: int| 0 <= x < pool.len() && !order.contains(x) && 0 <= i < order.len() ==> pool[#[trigger] order[i]].data.index <= (#[trigger] pool[x]).data.index
}
pub open spec fn handled(pool: Seq<Cand>, q: ReqV, a: Response, b: Response) -> bool {
    exists|order: Seq<int>, stop: bool| picks(pool, order) && #[trigger] runs(pool, order, q, order.len() as int, a, b, stop) && (stop || order.len() == pool.len())
}
// ---- shims for run
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { is_perm(p, a.len() as int) && b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
pub open spec fn perm_of<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|p: Seq<int>| #[trigger] permuted(a, b, p) }
pub trait VxSort<T> {
    spec fn sov(&self) -> Seq<T>;
    fn vx_sort_by_key<F: Fn(&T) -> usize>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sov().len() ==> #[trigger] f.requires((&old(self).sov()[i],)),
        ensures
            perm_of(old(self).sov(), final(self).sov()),
            ({ let s = final(self).sov(); forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> exists|a: usize, b: usize| f.ensures((&s[i],), a) && f.ensures((&s[j],), b) && a <= b });
}
impl<T> VxSort<T> for Vec<T> { open spec fn sov(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sort_by_key<F: Fn(&T) -> usize>(&mut self, f: F) { unimplemented!() } }
pub fn vx_len<T>(v: &Vec<T>) -> (r: usize) ensures r == v@.len() { v.len() }
#[verifier::opaque]
pub open spec fn sum_of(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum_of(s.drop_last()) + s.last() as nat } }
impl VxIter<usize> { #[verifier::external_body] pub fn sum(self) -> (r: usize) requires sum_of(self@) <= usize::MAX ensures r == sum_of(self@) { unimplemented!() } }
#[verifier::external_body] pub fn vx_vec_of(v: usize, n: usize) -> (r: Vec<usize>) ensures r@ == Seq::new(n as nat, |i: int| v) { unimplemented!() }
pub open spec fn ordered(v: Seq<MatchedPath<Closures>>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i <= j < v.len() ==> v[i].data.index <= v[j].data.index }
/// v holds the handlers of part, by number
pub open spec fn listed_by(v: Seq<MatchedPath<Closures>>, part: Seq<Cand>, p: Seq<int>) -> bool {
    is_perm(p, part.len() as int) && v.len() == part.len() && (forall|i: int| 0 <= i < v.len() ==> cand_of(#[trigger] v[i]) == part[p[i]]) && ordered(v)
}
pub open spec fn listed(v: Seq<MatchedPath<Closures>>, part: Seq<Cand>) -> bool { exists|p: Seq<int>| #[trigger] listed_by(v, part, p) }
/// the lists together hold the pool: src says where each element comes from
#[verifier::opaque]
pub open spec fn layout(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, pool: Seq<Cand>) -> bool {
    &&& src.len() == ms.len()
    &&& forall|k: int| 0 <= k < ms.len() ==> (#[trigger] src[k]).len() == ms[k]@.len() && ordered(ms[k]@)
    &&& forall|k: int, j: int| #![trigger src[k][j]] 0 <= k < ms.len() && 0 <= j < ms[k]@.len() ==> 0 <= src[k][j] < pool.len() && cand_of(ms[k]@[j]) == pool[src[k][j]]
    &&& forall|k: int, j: int, l: int, i: int| #![trigger src[k][j], src[l][i]] 0 <= k < ms.len() && 0 <= j < ms[k]@.len() && 0 <= l < ms.len() && 0 <= i < ms[l]@.len() && src[k][j] == src[l][i] ==> k == l && j == i
    &&& forall|x: int| 0 <= x < pool.len() ==> #[trigger] from_some(ms, src, x)
    &&& sum_of(lens(ms)) == pool.len()
}
pub open spec fn from_some(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, x: int) -> bool { exists|k: int, j: int| 0 <= k < ms.len() && 0 <= j < ms[k]@.len() && #[trigger] src[k][j] == x }
pub open spec fn lens(ms: Seq<Vec<MatchedPath<Closures>>>) -> Seq<usize> { Seq::new(ms.len(), |k: int| ms[k]@.len() as usize) }
pub open spec fn laid(ms: Seq<Vec<MatchedPath<Closures>>>, pool: Seq<Cand>) -> bool { exists|src: Seq<Seq<int>>| #[trigger] layout(ms, src, pool) }
proof fn laid_push(ms: Seq<Vec<MatchedPath<Closures>>>, v: Vec<MatchedPath<Closures>>, pool: Seq<Cand>, part: Seq<Cand>)
    requires laid(ms, pool), listed(v@, part), v@.len() <= usize::MAX,
    ensures laid(ms.push(v), pool + part),
{
    reveal(layout); reveal_with_fuel(sum_of, 2);
    let src = choose|src: Seq<Seq<int>>| #[trigger] layout(ms, src, pool);
    let p = choose|p: Seq<int>| #[trigger] listed_by(v@, part, p);
    let q = Seq::new(p.len(), |i: int| p[i] + pool.len());
    let s2 = src.push(q);
    let m2 = ms.push(v);
    let n = ms.len() as int;
    assert(lens(m2).drop_last() =~= lens(ms));
    assert(s2[n] == q);
    assert forall|k: int| 0 <= k < n implies s2[k] == src[k] && m2[k] == ms[k] by {}
    perm_onto(p, part.len() as int);
    assert forall|x: int| 0 <= x < (pool + part).len() implies #[trigger] from_some(m2, s2, x) by {
        if x < pool.len() {
            assert(from_some(ms, src, x));
            let (k, j) = choose|k: int, j: int| 0 <= k < ms.len() && 0 <= j < ms[k]@.len() && #[trigger] src[k][j] == x;
            assert(s2[k][j] == x);
        } else {
            assert(p.contains(x - pool.len()));
            let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == x - pool.len();
            assert(s2[n][j] == x);
        }
    }
    assert(layout(m2, s2, pool + part));
}
/// an injection of 0..n into itself is onto
proof fn perm_onto(p: Seq<int>, n: int)
    requires is_perm(p, n),
    ensures forall|x: int| 0 <= x < n ==> #[trigger] p.contains(x),
{
    let s = p.to_set();
    let r = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(p.no_duplicates());
    p.unique_seq_to_set();
    assert(s.subset_of(r)) by { assert forall|x: int| s.contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(0 <= p[i] < n); } }
    vstd::set_lib::lemma_subset_equality(s, r);
    assert forall|x: int| 0 <= x < n implies #[trigger] p.contains(x) by { assert(r.contains(x)); assert(s.contains(x)); }
}
/// merging: the first idx[k] elements of every list have been picked
#[verifier::opaque]
pub open spec fn merged_to(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, pool: Seq<Cand>, idx: Seq<usize>, order: Seq<int>) -> bool {
    &&& idx.len() == ms.len()
    &&& forall|k: int| 0 <= k < ms.len() ==> #[trigger] idx[k] <= ms[k]@.len()
    &&& forall|k: int, j: int| #![trigger src[k][j]] 0 <= k < ms.len() && 0 <= j < ms[k]@.len() ==> (order.contains(src[k][j]) <==> j < idx[k])
    &&& picks(pool, order)
    &&& sum_of(idx) == order.len()
}
proof fn sum_zero(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures sum_of(s) == 0,
    decreases s.len(),
{ reveal_with_fuel(sum_of, 2); if s.len() > 0 { sum_zero(s.drop_last()); } }
proof fn sum_update(s: Seq<usize>, k: int, v: usize)
    requires 0 <= k < s.len(),
    ensures sum_of(s.update(k, v)) == sum_of(s) - s[k] + v,
    decreases s.len(),
{
    reveal_with_fuel(sum_of, 2);
    if k == s.len() - 1 { assert(s.update(k, v).drop_last() =~= s.drop_last()); }
    else { sum_update(s.drop_last(), k, v); assert(s.update(k, v).drop_last() =~= s.drop_last().update(k, v)); }
}
proof fn sum_less(a: Seq<usize>, b: Seq<usize>)
    requires a.len() == b.len(), sum_of(a) < sum_of(b),
    ensures exists|k: int| 0 <= k < a.len() && a[k] < b[k],
    decreases a.len(),
{
    reveal_with_fuel(sum_of, 2);
    if a.len() > 0 && a.last() >= b.last() {
        sum_less(a.drop_last(), b.drop_last());
        let k = choose|k: int| 0 <= k < a.drop_last().len() && a.drop_last()[k] < b.drop_last()[k];
        assert(a[k] < b[k]);
    } else if a.len() > 0 { assert(a[a.len() - 1] < b[a.len() - 1]); }
}
proof fn merge_init(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, pool: Seq<Cand>, idx: Seq<usize>)
    requires layout(ms, src, pool), idx.len() == ms.len(), forall|k: int| 0 <= k < idx.len() ==> idx[k] == 0,
    ensures merged_to(ms, src, pool, idx, Seq::empty()),
{ reveal(merged_to); sum_zero(idx); }
/// list k still has an element
pub open spec fn left(ms: Seq<Vec<MatchedPath<Closures>>>, idx: Seq<usize>, k: int) -> bool { idx[k] < ms[k]@.len() }
pub open spec fn front(ms: Seq<Vec<MatchedPath<Closures>>>, idx: Seq<usize>, k: int) -> usize { ms[k]@[idx[k] as int].data.index }
proof fn merge_left(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, pool: Seq<Cand>, idx: Seq<usize>, order: Seq<int>)
    requires layout(ms, src, pool), merged_to(ms, src, pool, idx, order), order.len() < pool.len(),
    ensures exists|k: int| 0 <= k < ms.len() && #[trigger] left(ms, idx, k),
{
    reveal(merged_to); reveal(layout);
    sum_less(idx, lens(ms));
    let k = choose|k: int| 0 <= k < idx.len() && idx[k] < lens(ms)[k];
    assert(idx[k] <= ms[k]@.len());
    assert(left(ms, idx, k)) by { if ms[k]@.len() > usize::MAX {} }
}
proof fn merge_step(ms: Seq<Vec<MatchedPath<Closures>>>, src: Seq<Seq<int>>, pool: Seq<Cand>, idx: Seq<usize>, order: Seq<int>, k: int)
    requires
        layout(ms, src, pool), merged_to(ms, src, pool, idx, order), 0 <= k < ms.len(), left(ms, idx, k), ms[k]@.len() <= usize::MAX,
        forall|l: int| 0 <= l < ms.len() && #[trigger] left(ms, idx, l) ==> front(ms, idx, k) <= front(ms, idx, l),
    ensures
        merged_to(ms, src, pool, idx.update(k, (idx[k] + 1) as usize), order.push(src[k][idx[k] as int])),
        0 <= src[k][idx[k] as int] < pool.len(), cand_of(ms[k]@[idx[k] as int]) == pool[src[k][idx[k] as int]],
{
    reveal(merged_to); reveal(layout);
    let x = src[k][idx[k] as int];
    let o2 = order.push(x);
    let i2 = idx.update(k, (idx[k] + 1) as usize);
    sum_update(idx, k, (idx[k] + 1) as usize);
    assert(!order.contains(x));
    assert forall|y: int| o2.contains(y) <==> order.contains(y) || y == x by {
        if o2.contains(y) { let i = choose|i: int| 0 <= i < o2.len() && o2[i] == y; if i < order.len() { assert(order[i] == y); } }
        if order.contains(y) { let i = choose|i: int| 0 <= i < order.len() && order[i] == y; assert(o2[i] == y); }
        assert(o2[order.len() as int] == x);
    }
    assert forall|l: int, j: int| #![trigger src[l][j]] 0 <= l < ms.len() && 0 <= j < ms[l]@.len() implies (o2.contains(src[l][j]) <==> j < i2[l]) by {
        if l == k && j == idx[k] {} else { assert(src[l][j] != x); }
    }
    assert forall|i: int| 0 <= i < o2.len() implies 0 <= #[trigger] o2[i] < pool.len() by { if i < order.len() { assert(o2[i] == order[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] && pool[#[trigger] o2[i]].data.index <= pool[#[trigger] o2[j]].data.index by {
        assert(o2[i] == order[i]);
        if j < order.len() { assert(o2[j] == order[j]); } else { assert(order.contains(order[i])); assert(pool[x].data.index >= pool[order[i]].data.index); }
    }
    assert forall|y: int, i: int| 0 <= y < pool.len() && !o2.contains(y) && 0 <= i < o2.len() implies pool[#[trigger] o2[i]].data.index <= (#[trigger] pool[y]).data.index by {
        assert(!order.contains(y));
        if i < order.len() { assert(o2[i] == order[i]); } else {
            assert(from_some(ms, src, y));
            let (l, j) = choose|l: int, j: int| 0 <= l < ms.len() && 0 <= j < ms[l]@.len() && #[trigger] src[l][j] == y;
            assert(j >= idx[l]);
            assert(left(ms, idx, l));
            assert(ordered(ms[l]@)); assert(src[l].len() == ms[l]@.len());
            assert(ms[l]@[idx[l] as int].data.index <= ms[l]@[j].data.index);
            assert(cand_of(ms[l]@[j]) == pool[y]);
            assert(cand_of(ms[k]@[idx[k] as int]) == pool[x]);
        }
    }
}
proof fn runs_prefix(pool: Seq<Cand>, o: Seq<int>, o2: Seq<int>, q: ReqV, n: int, a: Response, b: Response, stop: bool)
    requires n <= o.len() <= o2.len(), forall|i: int| 0 <= i < o.len() ==> o[i] == o2[i], runs(pool, o, q, n, a, b, stop),
    ensures runs(pool, o2, q, n, a, b, stop),
    decreases n,
{
    reveal_with_fuel(runs, 2);
    if n > 0 {
        let m = choose|m: Response| #[trigger] one_run(pool[o[n - 1]], q, m, b, stop) && runs(pool, o, q, n - 1, a, m, false);
        runs_prefix(pool, o, o2, q, n - 1, a, m, false);
        assert(o[n - 1] == o2[n - 1]);
        assert(one_run(pool[o2[n - 1]], q, m, b, stop));
    }
}
proof fn runs_step(pool: Seq<Cand>, o: Seq<int>, x: int, q: ReqV, a: Response, m: Response, b: Response, f: Flow)
    requires runs(pool, o, q, o.len() as int, a, m, false), pool[x].data.closure.ran(q, pool[x].vars, m, b, f),
    ensures runs(pool, o.push(x), q, o.push(x).len() as int, a, b, f is Stop),
{
    let o2 = o.push(x);
    runs_prefix(pool, o, o2, q, o.len() as int, a, m, false);
    reveal_with_fuel(runs, 2);
    assert(o2[o2.len() - 1] == x);
    assert(one_run(pool[x], q, m, b, f is Stop));
}
proof fn runs_nil(pool: Seq<Cand>, q: ReqV, a: Response)
    ensures runs(pool, Seq::empty(), q, 0, a, a, false),
{ reveal_with_fuel(runs, 2); }
/// numbers are below the counter
proof fn pool_small(r: Router, m: RequestMethod, p: Seq<Seq<char>>)
    requires r.inv(),
    ensures forall|x: int| 0 <= x < r.pool(m, p).len() ==> (#[trigger] r.pool(m, p)[x]).data.index < usize::MAX,
{
    let (a, b, c) = (r.method_cands(m, p), r.method_cands(RequestMethod::All, p), plain_cands(r.middlewares@));
    cands_small(r, m, p); cands_small(r, RequestMethod::All, p);
    assert forall|x: int| 0 <= x < r.pool(m, p).len() implies (#[trigger] r.pool(m, p)[x]).data.index < usize::MAX by {
        if x < a.len() { assert(r.pool(m, p)[x] == a[x]); } else if x < a.len() + b.len() { assert(r.pool(m, p)[x] == b[x - a.len()]); } else { assert(r.pool(m, p)[x] == c[x - a.len() - b.len()]); assert(r.middlewares@[x - a.len() - b.len()].index < r.route_counter); }
    }
}
proof fn cands_small(r: Router, m: RequestMethod, p: Seq<Seq<char>>)
    requires r.inv(),
    ensures forall|x: int| 0 <= x < r.method_cands(m, p).len() ==> (#[trigger] r.method_cands(m, p)[x]).data.index < usize::MAX,
{
    if r.paths@.dom().contains(m) {
        let n = r.paths@[m];
        assert(tree_inv(n, r.route_counter as int));
        assert forall|x: int| 0 <= x < r.method_cands(m, p).len() implies (#[trigger] r.method_cands(m, p)[x]).data.index < usize::MAX by {
            let d = found(n, p)[x];
            assert(found(n, p).contains(d));
            dispatch(n, p, d);
            let ks = choose|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d);
            let i = choose|i: int| 0 <= i < at(n, ks).len() && at(n, ks)[i] == d;
            assert(at(n, ks)[i].data.index < r.route_counter);
        }
    }
}
/// what the contracts of get, sort_by_key and collect say about a list, in terms of the handlers of the pool
pub open spec fn from_tree(a: Seq<MatchedPath<Closures>>, n: PathNode<Closures>, p: Seq<Seq<char>>) -> bool {
    &&& a.len() == found(n, p).len()
    &&& forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]).data == found(n, p)[i].data
    &&& forall|i: int| 0 <= i < a.len() ==> sviews((#[trigger] a[i]).vars@) == var_map(found(n, p)[i].orig_path@, p, p.len() as int)
}
proof fn listed_tree(r: Router, m: RequestMethod, p: Seq<Seq<char>>, a: Seq<MatchedPath<Closures>>, b: Seq<MatchedPath<Closures>>)
    requires r.paths@.dom().contains(m), from_tree(a, r.paths@[m], p), perm_of(a, b), ordered(b),
    ensures listed(b, r.method_cands(m, p)),
{
    let q = choose|q: Seq<int>| #[trigger] permuted(a, b, q);
    let part = r.method_cands(m, p);
    assert forall|i: int| 0 <= i < b.len() implies cand_of(#[trigger] b[i]) == part[q[i]] by { assert(b[i] == a[q[i]]); }
    assert(listed_by(b, part, q));
}
proof fn listed_plain(mw: Seq<Closures>, v: Seq<MatchedPath<Closures>>)
    requires
        v.len() == mw.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]).data == mw[i] && v[i].vars@ == Map::<Seq<char>, &str>::empty(),
        forall|i: int, j: int| 0 <= i < j < mw.len() ==> (#[trigger] mw[i]).index < (#[trigger] mw[j]).index,
    ensures listed(v, plain_cands(mw)),
{
    let q = Seq::new(v.len(), |i: int| i);
    assert(sviews(Map::<Seq<char>, &str>::empty()) =~= Map::empty());
    assert forall|i: int| 0 <= i < v.len() implies cand_of(#[trigger] v[i]) == plain_cands(mw)[q[i]] by { assert(*v[i].data == mw[i]); }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i <= j < v.len() implies v[i].data.index <= v[j].data.index by { if i < j { assert(mw[i].index < mw[j].index); } }
    assert(listed_by(v, plain_cands(mw), q));
}
/// handlers only see requests that are valid and name a known method
pub open spec fn runnable(q: ReqV) -> bool { !(q.line.version is Http11 && !q.headers.dom().contains("host"@)) && !(q.line.method is None) }
impl Router {
@@fn src/router.rs Router::run
@props C01 C02 C03 C16
@params parsed_request res
@spec
    requires runnable(reqv(parsed_request)), self.inv(), self.pool(parsed_request.request_line.method, parsed_request.request_line.path@).len() <= usize::MAX,
    ensures
        handled(self.pool(parsed_request.request_line.method, parsed_request.request_line.path@), reqv(parsed_request), *old(res), *final(res)),
        forall|h: Seq<Ev>| #[trigger] self.logged(h) && !(parsed_request.request_line.method is All) ==> run_history(h, 0, reqv(parsed_request), *old(res), *final(res)),
@start
    let ghost m = parsed_request.request_line.method;
    let ghost p = parsed_request.request_line.path@;
    let ghost q = reqv(parsed_request);
    let ghost r0 = *res;
    let ghost (ca, cb, cc) = (self.method_cands(m, p), self.method_cands(RequestMethod::All, p), plain_cands(self.middlewares@));
    let ghost pool = ca + cb + cc;
    proof {
        assert forall|h: Seq<Ev>, b: Response| #![trigger self.logged(h), handled(pool, q, r0, b)] self.logged(h) && !(m is All) && handled(pool, q, r0, b) implies run_history(h, 0, q, r0, b) by { history_pool(*self, h, q); handled_history(pool, h, q, r0, b); }
        pool_small(*self, m, p);
        assert(laid(Seq::empty(), Seq::empty())) by { reveal(layout); reveal_with_fuel(sum_of, 2); assert(layout(Seq::empty(), Seq::empty(), Seq::empty())); }
        assert forall|s: Seq<Cand>| #[trigger] (s + Seq::<Cand>::empty()) == s by { assert(s + Seq::<Cand>::empty() =~= s); }
        assert(Seq::<Cand>::empty() + ca =~= ca);
        assert forall|ms: Seq<Vec<MatchedPath<Closures>>>, v: Vec<MatchedPath<Closures>>, a: Seq<Cand>, b: Seq<Cand>| laid(ms, a) && listed(v@, b) implies #[trigger] laid(ms.push(v), a + b) by { assert(v.len() == v@.len()); laid_push(ms, v, a, b); }
        assert forall|k: RequestMethod, a: Seq<MatchedPath<Closures>>, b: Seq<MatchedPath<Closures>>| #![trigger perm_of(a, b), self.method_cands(k, p)]
            self.paths@.dom().contains(k) && from_tree(a, self.paths@[k], p) && perm_of(a, b) && ordered(b) implies listed(b, self.method_cands(k, p)) by { listed_tree(*self, k, p, a, b); }
        assert forall|v: Seq<MatchedPath<Closures>>| v.len() == self.middlewares@.len() && (forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]).data == self.middlewares@[i] && v[i].vars@ == Map::<Seq<char>, &str>::empty()) implies #[trigger] listed(v, cc) by { listed_plain(self.middlewares@, v); }
    }
@closure 0
    -> (z: usize)
    ensures z == vx_c0_0.data.index,
@closure 1
    -> (z: usize)
    ensures z == vx_c1_0.data.index,
@before get \(& RequestMethod :: All\)
    proof { assert(laid(matches@, ca)); }
@before self . middlewares . vx_iter
    proof { assert(laid(matches@, ca + cb)); }
@closure 2
    -> (z: MatchedPath<Closures>)
    ensures *z.data == *vx_c2_0, z.vars@ == Map::<Seq<char>, &str>::empty(),
@before vx_vec_of
    proof {
        assert(laid(matches@, pool));
        reveal(layout);
        assert forall|l: Seq<usize>| l.len() == matches@.len() && (forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] == matches@[k]@.len()) implies #[trigger] sum_of(l) == pool.len() by { assert(l =~= lens(matches@)); }
    }
@loopbefore 0
    let ghost src = choose|src: Seq<Seq<int>>| #[trigger] layout(matches@, src, pool);
    let ghost mut order: Seq<int> = Seq::empty();
    proof { merge_init(matches@, src, pool, indices@); runs_nil(pool, q, r0); }
@loop 0
    invariant_except_break
        vx_it0@.len() + order.len() == pool.len(),
        merged_to(matches@, src, pool, indices@, order), runs(pool, order, q, order.len() as int, r0, *res, false),
    invariant
        indices@.len() == matches@.len(), reqv(matched.request) == q, layout(matches@, src, pool),
        forall|x: int| 0 <= x < pool.len() ==> (#[trigger] pool[x]).data.index < usize::MAX,
    ensures handled(pool, q, r0, *res),
    decreases vx_it0@.len(),
@loopstart 0
    let ghost o0 = order;
    let ghost i0 = indices@;
    let ghost m0 = *res;
    let ghost n0 = vx_it0@.len();
    proof {
        assert(matches.len() == matches@.len());
        assert forall|k: int| 0 <= k < matches@.len() implies (#[trigger] matches@[k])@.len() <= usize::MAX by { assert(matches@[k].len() == matches@[k]@.len()); }
        if n0 == 0 { assert(picks(pool, order)) by { reveal(merged_to); } }
        if n0 > 0 {
            merge_left(matches@, src, pool, indices@, order);
            assert forall|k: int| 0 <= k < matches@.len() && #[trigger] left(matches@, i0, k) implies front(matches@, i0, k) < usize::MAX by {
                reveal(layout);
                let j = i0[k] as int;
                assert(cand_of(matches@[k]@[j]) == pool[src[k][j]]);
            }
        }
    }
@loopbefore 1
    let ghost items = vx_it1@;
    proof { assert(items.skip(0) =~= items); }
@loop 1
    invariant
        vx_it1@.len() <= items.len() == matches@.len(), vx_it1@ == items.skip(items.len() - vx_it1@.len()), indices@ == i0, i0.len() == matches@.len(), matches@.len() <= usize::MAX,
        forall|k: int| 0 <= k < items.len() ==> #[trigger] items[k] == (k as usize, (&matches@[k], &i0[k])),
        forall|k: int| 0 <= k < matches@.len() && #[trigger] left(matches@, i0, k) ==> front(matches@, i0, k) < usize::MAX,
        ({
            let seen = items.len() - vx_it1@.len();
            ||| minval == usize::MAX && minind == 0 && forall|k: int| 0 <= k < seen ==> !#[trigger] left(matches@, i0, k)
            ||| minind < seen && left(matches@, i0, minind as int) && minval == front(matches@, i0, minind as int) && forall|k: int| 0 <= k < seen && #[trigger] left(matches@, i0, k) ==> minval <= front(matches@, i0, k)
        }),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len(),
@loopstart 1
    let ghost (w, s0) = (vx_it1@, items.len() - vx_it1@.len());
    proof {
        if w.len() > 0 { assert(w[0] == items[s0]); assert(w.skip(1) =~= items.skip(s0 + 1)); }
    }
@loopbody 1
    proof { assert(left(matches@, i0, s0) == (*i < v@.len())); }
@loopafter 1
    proof {
        assert(left(matches@, i0, minind as int));
        merge_step(matches@, src, pool, i0, o0, minind as int);
        order = o0.push(src[minind as int][i0[minind as int] as int]);
    }
@after vx_call
    proof {
        let x = src[minind as int][i0[minind as int] as int];
        runs_step(pool, o0, x, q, r0, m0, *res, flow);
        assert(picks(pool, order)) by { reveal(merged_to); }
        assert(i0[minind as int] < usize::MAX);
        assert forall|t: Seq<usize>| t == i0.update(minind as int, (i0[minind as int] + 1) as usize) implies #[trigger] merged_to(matches@, src, pool, t, order) by {}
    }
@@end
}
