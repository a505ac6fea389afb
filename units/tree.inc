// ================= the route tree (src/path.rs PathNode) =================
@@struct src/path.rs PathData
@@enum src/path.rs PathChunk
@@enum src/path.rs PathNode
pub enum Key { Chunk(Seq<char>), CatchAll, End }
impl VxKey for PathChunk {
    type S = Key;
    open spec fn key(&self) -> Key { match *self { PathChunk::Chunk(s) => Key::Chunk(s@), PathChunk::CatchAll => Key::CatchAll, PathChunk::End => Key::End } }
}
impl VxDiscr for PathChunk { open spec fn discr(&self) -> int { match *self { PathChunk::Chunk(_) => 0, PathChunk::CatchAll => 1, PathChunk::End => 2 } } }
impl PathChunk {
// what the map compares keys by
@@fn expanded:octane PathChunk@PartialEq::eq vis=none rename=vx_same_key
@props C01
@ret r
@params other
@spec
    ensures r == (self.key() == other.key()),
@@end
}
#[verifier::reject_recursive_types(K)]
pub struct VxEntry<'a, K: VxKey, V> { pub m: &'a mut VxMap<K, V>, pub k: K }
impl<K: VxKey, V> VxMap<K, V> {
    pub fn entry<'a>(&'a mut self, k: K) -> (r: VxEntry<'a, K, V>)
        ensures r.k == k, *r.m == *old(self), *final(r.m) == *final(self),
    { VxEntry { m: self, k } }
}
pub trait VxDefault: Sized { spec fn def(self) -> bool; fn vx_dflt() -> (r: Self) ensures r.def(); }
impl<'a, K: VxKey, V> VxEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
        ensures
            old(self.m)@.dom().contains(self.k.key()) ==> *r == old(self.m)@[self.k.key()],
            !old(self.m)@.dom().contains(self.k.key()) ==> (*r).def(),
            final(self.m)@ == old(self.m)@.insert(self.k.key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()),
        ensures
            old(self.m)@.dom().contains(self.k.key()) ==> *r == old(self.m)@[self.k.key()],
            !old(self.m)@.dom().contains(self.k.key()) ==> f.ensures((), *r),
            final(self.m)@ == old(self.m)@.insert(self.k.key(), *final(r)),
    { unimplemented!() }
}
impl<T> VxDefault for PathNode<T> {
    open spec fn def(self) -> bool { self matches PathNode::Node(m) && m@ == Map::<Key, PathNode<T>>::empty() }
@@fn expanded:octane PathNode@Default::default vis=none rename=vx_dflt
@props C01
@ret r
@@end
}
// ---------------------------------------------------------------- specification
/// the key a component of a registered path is filed under
pub open spec fn key_of(c: Seq<char>) -> Key { if is_var(c) { Key::CatchAll } else { Key::Chunk(c) } }
pub open spec fn keys_of(p: Seq<Seq<char>>) -> Seq<Key> { Seq::new(p.len(), |i: int| key_of(p[i])) }
/// the node reached along ks
#[verifier::opaque]
pub open spec fn node_at<T>(n: PathNode<T>, ks: Seq<Key>) -> Option<PathNode<T>> decreases ks.len() {
    if ks.len() == 0 { Some(n) } else {
        match n {
            PathNode::Leaf(_) => None,
            PathNode::Node(m) => if m@.dom().contains(ks[0]) { node_at(m@[ks[0]], ks.skip(1)) } else { None },
        }
    }
}
/// a node whose child under End, if any, is a leaf
pub open spec fn ok_node<T>(n: PathNode<T>) -> bool {
    match n { PathNode::Leaf(_) => false, PathNode::Node(m) => m@.dom().contains(Key::End) ==> m@[Key::End] is Leaf }
}
pub open spec fn leaf_of<T>(n: PathNode<T>) -> Seq<PathData<T>> {
    match n {
        PathNode::Leaf(_) => Seq::empty(),
        PathNode::Node(m) => if m@.dom().contains(Key::End) { match m@[Key::End] { PathNode::Leaf(v) => v@, _ => Seq::empty() } } else { Seq::empty() },
    }
}
pub open spec fn noend(ks: Seq<Key>) -> bool { forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] != Key::End }
#[verifier::opaque]
pub open spec fn wf_tree<T>(n: PathNode<T>) -> bool {
    forall|ks: Seq<Key>| noend(ks) && (#[trigger] node_at(n, ks)) is Some ==> ok_node(node_at(n, ks)->0)
}
/// the entries filed under the key sequence ks
pub open spec fn at<T>(n: PathNode<T>, ks: Seq<Key>) -> Seq<PathData<T>> {
    match node_at(n, ks) { Some(x) => leaf_of(x), None => Seq::empty() }
}
/// b is a with one more entry d, filed last under ks; nothing else changes
#[verifier::opaque]
pub open spec fn inserted<T>(a: PathNode<T>, b: PathNode<T>, ks: Seq<Key>, d: PathData<T>) -> bool {
    &&& wf_tree(b)
    &&& at(b, ks) == at(a, ks).push(d)
    &&& forall|js: Seq<Key>| noend(js) && js != ks ==> #[trigger] at(b, js) == at(a, js)
}
pub open spec fn child<T>(m: Map<Key, PathNode<T>>, k: Key, c: PathNode<T>) -> bool {
    if m.dom().contains(k) { c == m[k] } else { c.def() }
}
proof fn at_step<T>(n: PathNode<T>, m: VxMap<PathChunk, PathNode<T>>, js: Seq<Key>)
    requires n == PathNode::Node(m), js.len() > 0,
    ensures node_at(n, js) == (if m@.dom().contains(js[0]) { node_at(m@[js[0]], js.skip(1)) } else { None }),
{ reveal_with_fuel(node_at, 2); }
proof fn at_nil<T>(n: PathNode<T>)
    ensures node_at(n, Seq::empty()) == Some(n),
{ reveal_with_fuel(node_at, 2); }
proof fn at_empty<T>(n: PathNode<T>, js: Seq<Key>)
    requires n.def(),
    ensures at(n, js) == Seq::<PathData<T>>::empty(), node_at(n, js) matches Some(x) ==> ok_node(x),
{ reveal_with_fuel(node_at, 2); }
proof fn child_wf<T>(n: PathNode<T>, m: VxMap<PathChunk, PathNode<T>>, k: Key, c: PathNode<T>)
    requires n == PathNode::Node(m), wf_tree(n), k != Key::End, child(m@, k, c),
    ensures wf_tree(c), c is Node,
{
    reveal(wf_tree);
    at_nil(c);
    assert forall|ks: Seq<Key>| noend(ks) && (#[trigger] node_at(c, ks)) is Some implies ok_node(node_at(c, ks)->0) by {
        if m@.dom().contains(k) {
            let js = seq![k] + ks;
            at_step(n, m, js);
            assert(js.skip(1) =~= ks);
            assert(noend(js));
        } else { at_empty(c, ks); }
    }
    assert(noend(Seq::<Key>::empty()));
    assert(ok_node(c));
}
proof fn root_ok<T>(n: PathNode<T>)
    requires wf_tree(n),
    ensures ok_node(n),
{ reveal(wf_tree); at_nil(n); assert(noend(Seq::<Key>::empty())); }
/// descending one level: an insertion below child k is an insertion into the node
proof fn insert_step<T>(a: PathNode<T>, b: PathNode<T>, m: VxMap<PathChunk, PathNode<T>>, m2: VxMap<PathChunk, PathNode<T>>,
    k: Key, c: PathNode<T>, c2: PathNode<T>, ks: Seq<Key>, d: PathData<T>)
    requires
        a == PathNode::Node(m), b == PathNode::Node(m2), wf_tree(a),
        ks.len() > 0, ks[0] == k, k != Key::End, noend(ks),
        child(m@, k, c), m2@ == m@.insert(k, c2), inserted(c, c2, ks.skip(1), d),
    ensures inserted(a, b, ks, d),
{
    reveal(inserted); reveal(wf_tree);
    at_nil(a); at_nil(b);
    assert(noend(ks.skip(1))) by { assert forall|i: int| 0 <= i < ks.skip(1).len() implies #[trigger] ks.skip(1)[i] != Key::End by { assert(ks[i + 1] != Key::End); } }
    at_step(a, m, ks); at_step(b, m2, ks);
    if !m@.dom().contains(k) { at_empty(c, ks.skip(1)); }
    assert forall|js: Seq<Key>| noend(js) && js != ks implies #[trigger] at(b, js) == at(a, js) by {
        if js.len() == 0 { assert(js =~= Seq::empty()); } else {
            at_step(a, m, js); at_step(b, m2, js);
            let r = js.skip(1);
            assert(noend(r)) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != Key::End by { assert(js[i + 1] != Key::End); } }
            if js[0] == k {
                if r == ks.skip(1) { assert(js =~= seq![k] + r); assert(ks =~= seq![k] + ks.skip(1)); }
                assert(at(c2, r) == at(c, r));
                if !m@.dom().contains(k) { at_empty(c, r); }
            }
        }
    }
    assert forall|js: Seq<Key>| noend(js) && (#[trigger] node_at(b, js)) is Some implies ok_node(node_at(b, js)->0) by {
        if js.len() == 0 {
            assert(js =~= Seq::empty());
            assert(ok_node(a));
        } else {
            at_step(a, m, js); at_step(b, m2, js);
            let r = js.skip(1);
            assert(noend(r)) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != Key::End by { assert(js[i + 1] != Key::End); } }
            if js[0] != k { assert(node_at(a, js) is Some); } else { assert(node_at(c2, r) is Some); }
        }
    }
}
proof fn insert_leaf<T>(a: PathNode<T>, b: PathNode<T>, m: VxMap<PathChunk, PathNode<T>>, m2: VxMap<PathChunk, PathNode<T>>,
    v2: Vec<PathData<T>>, d: PathData<T>)
    requires
        a == PathNode::Node(m), b == PathNode::Node(m2), wf_tree(a),
        m2@ == m@.insert(Key::End, PathNode::Leaf(v2)), v2@ == leaf_of(a).push(d),
    ensures inserted(a, b, Seq::empty(), d),
{
    reveal(inserted); reveal(wf_tree);
    at_nil(a); at_nil(b);
    assert forall|js: Seq<Key>| noend(js) && js != Seq::<Key>::empty() implies #[trigger] at(b, js) == at(a, js) by {
        if js.len() == 0 { assert(js =~= Seq::empty()); }
        at_step(a, m, js); at_step(b, m2, js);
        assert(js[0] != Key::End);
    }
    assert forall|js: Seq<Key>| noend(js) && (#[trigger] node_at(b, js)) is Some implies ok_node(node_at(b, js)->0) by {
        if js.len() == 0 { assert(js =~= Seq::empty()); } else {
            at_step(a, m, js); at_step(b, m2, js);
            assert(js[0] != Key::End);
            assert(node_at(a, js) is Some);
        }
    }
}
/// every entry is filed under the keys of its own path
pub open spec fn filed<T>(n: PathNode<T>) -> bool {
    forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(n, ks).len() ==> {
        let e = #[trigger] at(n, ks)[i];
        keys_of(e.orig_path@) == ks && nonempty(e.orig_path@)
    }
}
proof fn insert_filed<T>(a: PathNode<T>, b: PathNode<T>, d: PathData<T>)
    requires inserted(a, b, keys_of(d.orig_path@), d), filed(a), nonempty(d.orig_path@),
    ensures filed(b),
{
    reveal(inserted);
    let ks0 = keys_of(d.orig_path@);
    assert forall|ks: Seq<Key>, i: int| noend(ks) && 0 <= i < at(b, ks).len() implies {
        let e = #[trigger] at(b, ks)[i];
        keys_of(e.orig_path@) == ks && nonempty(e.orig_path@)
    } by {
        if ks == ks0 { if i < at(a, ks).len() { assert(at(b, ks)[i] == at(a, ks)[i]); } else { assert(at(b, ks)[i] == d); } }
        else { assert(at(b, ks) == at(a, ks)); assert(at(a, ks)[i] == at(b, ks)[i]); }
    }
}
/// the entries whose filing keys match the components of a path, literal before variable
#[verifier::opaque]
pub open spec fn found<T>(n: PathNode<T>, p: Seq<Seq<char>>) -> Seq<PathData<T>> decreases p.len() {
    if p.len() == 0 { leaf_of(n) } else {
        match n {
            PathNode::Leaf(_) => Seq::empty(),
            PathNode::Node(m) =>
                (if m@.dom().contains(Key::Chunk(p[0])) { found(m@[Key::Chunk(p[0])], p.skip(1)) } else { Seq::empty() })
                + (if m@.dom().contains(Key::CatchAll) { found(m@[Key::CatchAll], p.skip(1)) } else { Seq::empty() }),
        }
    }
}
pub open spec fn key_match(ks: Seq<Key>, p: Seq<Seq<char>>) -> bool {
    ks.len() == p.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] == Key::CatchAll || ks[i] == Key::Chunk(p[i])
}
/// lookup finds exactly the entries filed under a matching key sequence
proof fn found_iff<T>(n: PathNode<T>, p: Seq<Seq<char>>, d: PathData<T>)
    ensures found(n, p).contains(d) <==> exists|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d),
    decreases p.len(),
{
    reveal_with_fuel(found, 2);
    if p.len() == 0 {
        at_nil(n);
        let e = Seq::<Key>::empty();
        if found(n, p).contains(d) { assert(key_match(e, p) && at(n, e).contains(d)); }
        if exists|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d) {
            let ks = choose|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d);
            assert(ks =~= e);
        }
    } else {
        match n {
            PathNode::Leaf(_) => { reveal_with_fuel(node_at, 2); },
            PathNode::Node(m) => {
                let c = Key::Chunk(p[0]);
                let r = p.skip(1);
                let l = if m@.dom().contains(c) { found(m@[c], r) } else { Seq::empty() };
                let v = if m@.dom().contains(Key::CatchAll) { found(m@[Key::CatchAll], r) } else { Seq::empty() };
                assert(found(n, p) == l + v);
                if m@.dom().contains(c) { found_iff(m@[c], r, d); }
                if m@.dom().contains(Key::CatchAll) { found_iff(m@[Key::CatchAll], r, d); }
                if found(n, p).contains(d) {
                    let i = choose|i: int| 0 <= i < (l + v).len() && (l + v)[i] == d;
                    let k = if i < l.len() { assert(l[i] == d); c } else { assert(v[i - l.len()] == d); Key::CatchAll };
                    let js = choose|ks: Seq<Key>| key_match(ks, r) && #[trigger] at(m@[k], ks).contains(d);
                    let ks = seq![k] + js;
                    at_step(n, m, ks);
                    assert(ks.skip(1) =~= js);
                    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] == Key::CatchAll || ks[i] == Key::Chunk(p[i]) by {
                        if i > 0 { assert(js[i - 1] == ks[i]); assert(r[i - 1] == p[i]); }
                    }
                    assert(key_match(ks, p) && at(n, ks).contains(d));
                }
                if exists|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d) {
                    let ks = choose|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d);
                    at_step(n, m, ks);
                    let js = ks.skip(1);
                    assert forall|i: int| 0 <= i < js.len() implies #[trigger] js[i] == Key::CatchAll || js[i] == Key::Chunk(r[i]) by { assert(ks[i + 1] == js[i]); }
                    assert(key_match(js, r) && at(m@[ks[0]], js).contains(d));
                    if ks[0] == c {
                        let i = choose|i: int| 0 <= i < l.len() && l[i] == d;
                        assert((l + v)[i] == d);
                    } else {
                        let i = choose|i: int| 0 <= i < v.len() && v[i] == d;
                        assert((l + v)[l.len() + i] == d);
                    }
                }
            },
        }
    }
}
/// for the keys of a registered path, key matching is path matching
proof fn keys_match(pat: Seq<Seq<char>>, p: Seq<Seq<char>>)
    ensures key_match(keys_of(pat), p) <==> matches(pat, p), noend(keys_of(pat)),
{
    let ks = keys_of(pat);
    if key_match(ks, p) {
        assert forall|i: int| 0 <= i < pat.len() implies part_matches(#[trigger] pat[i], p[i]) by { assert(ks[i] == key_of(pat[i])); }
    }
    if matches(pat, p) {
        assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] == Key::CatchAll || ks[i] == Key::Chunk(p[i]) by { assert(part_matches(pat[i], p[i])); }
    }
}
/// C01: an entry is found for a path exactly when it was registered and its own path matches
proof fn dispatch<T>(n: PathNode<T>, p: Seq<Seq<char>>, d: PathData<T>)
    requires filed(n),
    ensures found(n, p).contains(d) <==> (exists|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d)) && matches(d.orig_path@, p),
{
    found_iff(n, p, d);
    keys_match(d.orig_path@, p);
    if found(n, p).contains(d) {
        let ks = choose|ks: Seq<Key>| key_match(ks, p) && #[trigger] at(n, ks).contains(d);
        assert(noend(ks)) by { assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] != Key::End by {} }
        let i = choose|i: int| 0 <= i < at(n, ks).len() && at(n, ks)[i] == d;
        assert(keys_of(at(n, ks)[i].orig_path@) == ks);
    }
    if (exists|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d)) && matches(d.orig_path@, p) {
        let ks = choose|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d);
        let i = choose|i: int| 0 <= i < at(n, ks).len() && at(n, ks)[i] == d;
        assert(keys_of(at(n, ks)[i].orig_path@) == ks);
        assert(key_match(ks, p) && at(n, ks).contains(d));
    }
}

pub open spec fn all_empty<T>(z: PathNode<T>) -> bool { forall|ks: Seq<Key>| #[trigger] at(z, ks) == Seq::<PathData<T>>::empty() }
proof fn new_tree<T>(z: PathNode<T>)
    requires z.def(),
    ensures wf_tree(z), filed(z), all_empty(z),
{
    reveal(wf_tree);
    assert forall|ks: Seq<Key>| #[trigger] at(z, ks) == Seq::<PathData<T>>::empty() by { at_empty(z, ks); }
    assert forall|ks: Seq<Key>| noend(ks) && (#[trigger] node_at(z, ks)) is Some implies ok_node(node_at(z, ks)->0) by { at_empty(z, ks); }
}
/// every entry found satisfies the filing invariant and matches
proof fn found_matches<T>(n: PathNode<T>, p: Seq<Seq<char>>)
    requires filed(n),
    ensures forall|i: int| 0 <= i < found(n, p).len() ==> matches((#[trigger] found(n, p)[i]).orig_path@, p) && nonempty(found(n, p)[i].orig_path@),
{
    assert forall|i: int| 0 <= i < found(n, p).len() implies matches((#[trigger] found(n, p)[i]).orig_path@, p) && nonempty(found(n, p)[i].orig_path@) by {
        let d = found(n, p)[i];
        assert(found(n, p).contains(d));
        dispatch(n, p, d);
        let ks = choose|ks: Seq<Key>| noend(ks) && #[trigger] at(n, ks).contains(d);
        let j = choose|j: int| 0 <= j < at(n, ks).len() && at(n, ks)[j] == d;
        assert(nonempty(at(n, ks)[j].orig_path@));
    }
}
pub broadcast proof fn pairs_ext<'a>(a: Seq<(&'a str, &'a str)>, b: Seq<(&'a str, &'a str)>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures #[trigger] pairs_map(a) == #[trigger] pairs_map(b),
{ assert(a =~= b); }
@@struct src/path.rs MatchedPath
impl<T> PathNode<T> {
@@fn src/path.rs PathNode::get
@ret r
@params path
@spec
    requires wf_tree(*self), filed(*self),
    ensures
        r@.len() == found(*self, path@).len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).data == found(*self, path@)[i].data,
        forall|i: int| 0 <= i < r@.len() ==> sviews((#[trigger] r@[i]).vars@) == var_map(found(*self, path@)[i].orig_path@, path@, path@.len() as int),
@start
    broadcast use {axiom_map_items, pairs_ext};
    proof {
        found_matches(*self, path@);
        let f = found(*self, path@);
        assert forall|s: Seq<&PathData<T>>, i: int| 0 <= i < s.len() && derefs(s) == f
            implies nonempty((#[trigger] s[i]).orig_path@) && matches(s[i].orig_path@, path@) && *s[i] == f[i] by { assert(derefs(s)[i] == *s[i]); }
    }
@closure 0
    -> (z: MatchedPath<T>)
    requires nonempty(vx_c0_0.orig_path@), matches(vx_c0_0.orig_path@, path@),
    ensures *z.data == vx_c0_0.data, sviews(z.vars@) == var_map(vx_c0_0.orig_path@, path@, path@.len() as int),
@closure 1
    -> (z: (&str, &str))
    ensures z == vx_c1_0,
@@end
@@fn src/path.rs PathNode::unwrap_node
@ret r
@spec
    requires *self is Node,
    ensures *self == PathNode::Node(*r),
@@end
@@fn src/path.rs PathNode::unwrap_leaf
@ret r
@spec
    requires *self is Leaf,
    ensures *self == PathNode::Leaf(*r),
@@end
@@fn src/path.rs PathNode::new
@ret r
@spec
    ensures wf_tree(r), filed(r), all_empty(r), r.def(),
@start
    proof { assert forall|z: PathNode<T>| z.def() implies #[trigger] wf_tree(z) by { new_tree(z); }
        assert forall|z: PathNode<T>| z.def() implies #[trigger] filed(z) by { new_tree(z); }
        assert forall|z: PathNode<T>| z.def() implies #[trigger] all_empty(z) by { new_tree(z); } }
@@end
@@fn src/path.rs PathNode::dfs
@ret r
@params chunks
@spec
    requires wf_tree(*self),
    ensures derefs(r@) == found(*self, strings(chunks@)),
    decreases chunks@.len(),
@start
    let ghost p = strings(chunks@);
    proof {
        root_ok(*self);
        reveal_with_fuel(found, 2);
        let m = self->Node_0;
        assert forall|k: Key| k != Key::End && m@.dom().contains(k) implies wf_tree(#[trigger] m@[k]) by { child_wf(*self, m, k, m@[k]); }
        if chunks@.len() > 0 { assert(strings(chunks@.skip(1)) =~= p.skip(1)); assert(p[0] == chunks@[0]@); }
        assert(derefs(Seq::<&PathData<T>>::empty()) =~= Seq::empty());
        assert forall|s: Seq<PathData<T>>| derefs(#[trigger] refs(s)) == s by { assert(derefs(refs(s)) =~= s); }
        assert forall|a: Seq<&PathData<T>>, b: Seq<&PathData<T>>| #[trigger] derefs(a + b) == derefs(a) + derefs(b) by { assert(derefs(a + b) =~= derefs(a) + derefs(b)); }
        assert forall|a: Seq<PathData<T>>| #[trigger] (a + Seq::<PathData<T>>::empty()) == a && Seq::<PathData<T>>::empty() + a == a by { assert(a + Seq::empty() =~= a && Seq::empty() + a =~= a); }
    }
@closure 0
    -> (z: Vec<&PathData<T>>)
    requires *vx_c0_0 is Leaf,
    ensures z@ == refs(vx_c0_0->Leaf_0@),
@@end
@@fn src/path.rs PathNode::unwrap_node_mut
@ret r
@spec
    requires *old(self) is Node,
    ensures *old(self) == PathNode::Node(*r), *final(self) == PathNode::Node(*final(r)),
@@end
@@fn src/path.rs PathNode::unwrap_leaf_mut
@ret r
@spec
    requires *old(self) is Leaf,
    ensures *old(self) == PathNode::Leaf(*r), *final(self) == PathNode::Leaf(*final(r)),
@@end
@@fn src/path.rs PathNode::insert
@params path data
@spec
    requires wf_tree(*old(self)), nonempty(path@),
    ensures
        inserted(*old(self), *final(self), keys_of(path@), PathData { orig_path: path, data }),
        filed(*old(self)) ==> filed(*final(self)),
@start
    proof { root_ok(*old(self)); }
    let ghost a0 = *self;
    let ghost b0 = *final(self);
    let ghost d0 = PathData { orig_path: path, data };
    let ghost ks = keys_of(path@);
@loopbefore 0
    let ghost cs = vx_it0@;
    proof { assert(strings(cs) =~= path@); assert(ks.skip(0) =~= ks); assert(noend(ks)); }
@loop 0
    invariant
        nonempty(path@), strings(cs) == path@, ks == keys_of(path@), noend(ks), ks.len() == cs.len(),
        vx_it0@.len() <= cs.len(),
        vx_it0@ == cs.skip(cs.len() - vx_it0@.len()),
        wf_tree(PathNode::Node(*cur)),
        inserted(PathNode::Node(*cur), PathNode::Node(*final(cur)), ks.skip(cs.len() - vx_it0@.len()), d0) ==> inserted(a0, b0, ks, d0),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = cs.len() - vx_it0@.len();
    let ghost m0 = *cur;
    let ghost m2 = *final(cur);
    let ghost kk = ks[n - 1];
    proof {
        assert(vx_it0@ =~= cs.skip(n));
        assert(chunk == cs[n - 1]);
        assert(path@[n - 1] == chunk@);
        assert(chunk@.len() > 0);
        utf8_first(chunk@);
        assert(kk == key_of(chunk@));
        assert(ks.skip(n - 1).skip(1) =~= ks.skip(n));
        assert(noend(ks.skip(n - 1))) by { assert forall|i: int| 0 <= i < ks.skip(n - 1).len() implies #[trigger] ks.skip(n - 1)[i] != Key::End by { assert(ks[i + n - 1] != Key::End); } }
        assert forall|c: PathNode<T>| child(m0@, kk, c) implies #[trigger] wf_tree(c) && c is Node by { child_wf(PathNode::Node(m0), m0, kk, c); }
        assert forall|c: PathNode<T>, c2: PathNode<T>| child(m0@, kk, c) && m2@ == m0@.insert(kk, c2) && #[trigger] inserted(c, c2, ks.skip(n), d0)
            implies inserted(PathNode::Node(m0), PathNode::Node(m2), ks.skip(n - 1), d0) by {
            insert_step(PathNode::Node(m0), PathNode::Node(m2), m0, m2, kk, c, c2, ks.skip(n - 1), d0);
        }
        if m0@.dom().contains(kk) { assert(child(m0@, kk, m0@[kk])); assert(wf_tree(m0@[kk])); }
    }
@loopafter 0
    let ghost m0 = *cur;
    let ghost m2 = *final(cur);
    proof {
        root_ok(PathNode::Node(m0));
        assert(ks.skip(cs.len() as int) =~= Seq::empty());
        assert forall|v2: Vec<PathData<T>>| m2@ == #[trigger] m0@.insert(Key::End, PathNode::Leaf(v2)) && v2@ == leaf_of(PathNode::Node(m0)).push(d0)
            implies inserted(PathNode::Node(m0), PathNode::Node(m2), Seq::empty(), d0) by {
            insert_leaf(PathNode::Node(m0), PathNode::Node(m2), m0, m2, v2, d0);
        }
        assert forall|z: PathNode<T>| #[trigger] inserted(a0, z, ks, d0) && filed(a0) implies filed(z) by { insert_filed(a0, z, d0); }
    }
@closure 0
    -> (z: PathNode<T>)
    ensures z matches PathNode::Leaf(v) && v@ == Seq::<PathData<T>>::empty(),
@@end
}
