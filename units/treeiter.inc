// ================= iterating over a route tree by value (src/path.rs) =================
#type Map<hash_map::IntoIter<PathChunk,PathNode<T>>,F>=>VxIter<PathNode<T>>
#bound IntoIterator<Item=PathData<T>>=>VxInto<Item = PathData<T>>
use vstd::multiset::Multiset;
@@struct src/path.rs OwnedPathNodeIterator inst=F #[verifier::reject_recursive_types(T)]
/// the nodes a map holds are parts of it (in its iteration order)
pub open spec fn kids<T>(m: VxMap<PathChunk, PathNode<T>>) -> Seq<PathNode<T>> { Seq::new(map_items(m).len(), |i: int| map_items(m)[i].1) }
pub axiom fn axiom_kids_smaller<T>(m: VxMap<PathChunk, PathNode<T>>)
    ensures decreases_to!(m => kids(m));
/// all entries below a node, with multiplicity
pub open spec fn all<T>(n: PathNode<T>) -> Multiset<PathData<T>> decreases n via all_dec::<T> {
    match n { PathNode::Leaf(v) => v@.to_multiset(), PathNode::Node(m) => total(kids(m)) }
}
pub open spec fn total<T>(s: Seq<PathNode<T>>) -> Multiset<PathData<T>> decreases s {
    if s.len() == 0 { Multiset::empty() } else { all(s[0]).add(total(s.skip(1))) }
}
#[via_fn]
proof fn all_dec<T>(n: PathNode<T>) { match n { PathNode::Leaf(v) => {}, PathNode::Node(m) => { axiom_kids_smaller(m); } } }
/// number of nodes
pub open spec fn size<T>(n: PathNode<T>) -> nat decreases n via size_dec::<T> {
    match n { PathNode::Leaf(v) => 1, PathNode::Node(m) => 1 + sizes(kids(m)) }
}
pub open spec fn sizes<T>(s: Seq<PathNode<T>>) -> nat decreases s {
    if s.len() == 0 { 0 } else { size(s[0]) + sizes(s.skip(1)) }
}
#[via_fn]
proof fn size_dec<T>(n: PathNode<T>) { match n { PathNode::Leaf(v) => {}, PathNode::Node(m) => { axiom_kids_smaller(m); } } }
proof fn total_none<T>(s: Seq<PathNode<T>>, e: PathData<T>)
    requires forall|i: int| 0 <= i < s.len() ==> all(#[trigger] s[i]).count(e) == 0,
    ensures total(s).count(e) == 0,
    decreases s.len(),
{
    reveal_with_fuel(total, 2);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies all(#[trigger] s.skip(1)[i]).count(e) == 0 by { assert(s.skip(1)[i] == s[i + 1]); } total_none(s.skip(1), e); }
}
proof fn total_one<T>(s: Seq<PathNode<T>>, k: int, e: PathData<T>)
    requires 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() && i != k ==> all(#[trigger] s[i]).count(e) == 0,
    ensures total(s).count(e) == all(s[k]).count(e),
    decreases s.len(),
{
    reveal_with_fuel(total, 2);
    let r = s.skip(1);
    if k == 0 { assert forall|i: int| 0 <= i < r.len() implies all(#[trigger] r[i]).count(e) == 0 by { assert(r[i] == s[i + 1]); } total_none(r, e); }
    else { assert forall|i: int| 0 <= i < r.len() && i != k - 1 implies all(#[trigger] r[i]).count(e) == 0 by { assert(r[i] == s[i + 1]); } total_one(r, k - 1, e); assert(r[k - 1] == s[k]); }
}
/// the entries of a subtree reached along pre are filed under pre and the way down
pub open spec fn under<T>(n: PathNode<T>, pre: Seq<Key>) -> bool {
    forall|js: Seq<Key>, i: int| noend(js) && 0 <= i < at(n, js).len() ==> keys_of((#[trigger] at(n, js)[i]).orig_path@) == pre + js
}
pub open spec fn starts(ks: Seq<Key>, pre: Seq<Key>) -> bool { pre.len() <= ks.len() && ks.take(pre.len() as int) == pre }
/// the multiset of all entries is the one given by the lists filed under each key sequence
proof fn all_under<T>(n: PathNode<T>, pre: Seq<Key>, e: PathData<T>)
    requires wf_tree(n), under(n, pre),
    ensures
        all(n).count(e) == (if starts(keys_of(e.orig_path@), pre) { at(n, keys_of(e.orig_path@).skip(pre.len() as int)).to_multiset().count(e) } else { 0nat }),
    decreases n,
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    root_ok(n);
    reveal_with_fuel(all, 2);
    let m = n->Node_0;
    let s = kids(m);
    let items = map_items(m);
    let ks = keys_of(e.orig_path@);
    let l = pre.len() as int;
    keys_match(e.orig_path@, e.orig_path@);
    axiom_kids_smaller(m);
    axiom_map_items_exact(m);
    at_nil(n);
    let hit = starts(ks, pre);
    let tk = if ks.len() > l { ks[l] } else { Key::End };
    let r = ks.skip(l);
    if hit {
        assert(ks =~= pre + r);
        assert(noend(r)) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != Key::End by { assert(ks[i + l] != Key::End); } }
        if ks.len() > l { at_step(n, m, r); assert(r[0] == tk); } else { assert(r =~= Seq::empty()); }
    }
    assert forall|i: int| 0 <= i < s.len() implies all(#[trigger] s[i]).count(e) == (if hit && items[i].0.key() == tk { at(n, r).to_multiset().count(e) } else { 0nat }) by {
        let k = items[i].0.key();
        let c = s[i];
        assert(decreases_to!(s => s[i]));
        assert(m@.dom().contains(k) && m@[k] == c);
        if k == Key::End {
            let v = c->Leaf_0;
            reveal_with_fuel(all, 2);
            assert(at(n, Seq::empty()) == v@);
            if !(hit && tk == k) {
                if v@.contains(e) {
                    let j = choose|j: int| 0 <= j < v@.len() && v@[j] == e;
                    assert(keys_of(at(n, Seq::<Key>::empty())[j].orig_path@) == pre + Seq::<Key>::empty());
                    assert(pre + Seq::<Key>::empty() =~= pre);
                    assert(ks.take(l) =~= pre);
                }
            }
        } else {
            child_wf(n, m, k, c);
            let p2 = pre.push(k);
            assert forall|js: Seq<Key>, j: int| noend(js) && 0 <= j < at(c, js).len() implies keys_of((#[trigger] at(c, js)[j]).orig_path@) == p2 + js by {
                let ls = seq![k] + js;
                at_step(n, m, ls);
                assert(ls.skip(1) =~= js);
                assert(noend(ls));
                assert(at(n, ls)[j] == at(c, js)[j]);
                assert(pre + ls =~= p2 + js);
            }
            all_under(c, p2, e);
            if hit && tk == k {
                assert(ks.len() > l);
                assert(ks.take(l + 1) =~= p2) by { assert(ks.take(l + 1) =~= ks.take(l).push(ks[l])); }
                assert(ks.skip(l + 1) =~= r.skip(1));
            } else if starts(ks, p2) {
                assert(ks.take(l) =~= ks.take(l + 1).take(l));
                assert(p2.take(l) =~= pre);
                assert(ks.take(l + 1)[l] == k);
            }
        }
    }
    if hit && m@.dom().contains(tk) {
        let i0 = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0.key() == tk;
        assert(s[i0] == items[i0].1);
        total_one(s, i0, e);
    } else {
        if hit { assert(at(n, r) =~= Seq::<PathData<T>>::empty()); }
        total_none(s, e);
    }
}
pub proof fn all_filed<T>(n: PathNode<T>)
    requires wf_tree(n), filed(n),
    ensures forall|e: PathData<T>| #[trigger] all(n).count(e) == at(n, keys_of(e.orig_path@)).to_multiset().count(e),
{
    assert forall|e: PathData<T>| #[trigger] all(n).count(e) == at(n, keys_of(e.orig_path@)).to_multiset().count(e) by {
        assert forall|js: Seq<Key>, i: int| noend(js) && 0 <= i < at(n, js).len() implies keys_of((#[trigger] at(n, js)[i]).orig_path@) == Seq::<Key>::empty() + js by { assert(Seq::<Key>::empty() + js =~= js); }
        all_under(n, Seq::empty(), e);
        let ks = keys_of(e.orig_path@);
        assert(ks.take(0) =~= Seq::empty());
        assert(ks.skip(0) =~= ks);
    }
}
// ---------------------------------------------------------------- the iterator
pub open spec fn frames<T>(st: Seq<VxIter<PathNode<T>>>) -> Multiset<PathData<T>> decreases st.len() {
    if st.len() == 0 { Multiset::empty() } else { frames(st.drop_last()).add(total(st.last()@)) }
}
pub open spec fn weight<T>(st: Seq<VxIter<PathNode<T>>>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { weight(st.drop_last()) + 2 * sizes(st.last()@) + 1 }
}
pub broadcast proof fn frames_push<T>(st: Seq<VxIter<PathNode<T>>>, x: VxIter<PathNode<T>>)
    ensures #![trigger st.push(x)] frames(st.push(x)) == frames(st).add(total(x@)), weight(st.push(x)) == weight(st) + 2 * sizes(x@) + 1,
{ reveal_with_fuel(frames, 2); reveal_with_fuel(weight, 2); assert(st.push(x).drop_last() =~= st); }
pub broadcast proof fn frames_top<T>(st: Seq<VxIter<PathNode<T>>>, i: int, x: VxIter<PathNode<T>>)
    requires st.len() > 0, i == st.len() - 1,
    ensures #![trigger st.update(i, x)] frames(st.update(i, x)) == frames(st.drop_last()).add(total(x@)), weight(st.update(i, x)) == weight(st.drop_last()) + 2 * sizes(x@) + 1, st.update(i, x).drop_last() == st.drop_last(),
{ reveal_with_fuel(frames, 2); reveal_with_fuel(weight, 2); assert(st.update(i, x).drop_last() =~= st.drop_last()); }
pub open spec fn seconds<T>(s: Seq<(PathChunk, PathNode<T>)>, t: Seq<PathNode<T>>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i].1 }
pub open spec fn pending<T>(v: Option<Vec<PathData<T>>>) -> Multiset<PathData<T>> { match v { Some(v) => v@.to_multiset(), None => Multiset::empty() } }
impl<T> OwnedPathNodeIterator<T> {
    /// the entries still to come
    pub open spec fn rem(&self) -> Multiset<PathData<T>> { pending(self.curvec).add(frames(self.stack@)) }
@@fn src/path.rs OwnedPathNodeIterator@Iterator::next rettype=Option<PathData<T>>
@props C03
@ret r
@spec
    ensures
        r matches Some(d) ==> old(self).rem() =~= final(self).rem().insert(d),
        r is None ==> old(self).rem() =~= Multiset::empty() && final(self).rem() =~= Multiset::empty(),
@start
    broadcast use {frames_push, frames_top, vstd::seq_lib::group_to_multiset_ensures};
@loop 0
    invariant self.rem() =~= old(self).rem(),
    decreases weight(self.stack@),
@loopstart 0
    broadcast use {frames_push, frames_top, vstd::seq_lib::group_to_multiset_ensures};
    let ghost (st, cv) = (self.stack@, self.curvec);
    proof {
        reveal_with_fuel(frames, 2); reveal_with_fuel(weight, 2); reveal_with_fuel(total, 2); reveal_with_fuel(sizes, 2); reveal_with_fuel(all, 2); reveal_with_fuel(size, 2);
        if cv is Some && (cv->0)@.len() > 0 { let s = (cv->0)@; assert(s =~= s.drop_last().push(s.last())); }
        if cv is Some && (cv->0)@.len() == 0 { assert((cv->0)@.to_multiset() =~= Multiset::empty()); }
        assert forall|m: VxMap<PathChunk, PathNode<T>>, it: VxIter<PathNode<T>>| seconds(map_items(m), #[trigger] it@) implies #[trigger] kids(m) == it@ by { assert(kids(m) =~= it@); }
    }
@@end
}
@@fn src/path.rs get_second
@props C03
@ret r
@params tup
@spec
    ensures r == tup.1,
@@end
/// the entries of a list that belong to a key sequence, in order
#[verifier::opaque]
pub open spec fn of_keys<T>(s: Seq<PathData<T>>, ks: Seq<Key>) -> Seq<PathData<T>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if keys_of(s.last().orig_path@) == ks { of_keys(s.drop_last(), ks).push(s.last()) } else { of_keys(s.drop_last(), ks) }
}
pub open spec fn proper<T>(s: Seq<PathData<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> nonempty((#[trigger] s[i]).orig_path@) }
/// b is a with the entries of s filed behind those already there
#[verifier::opaque]
pub open spec fn extended<T>(a: PathNode<T>, b: PathNode<T>, s: Seq<PathData<T>>) -> bool {
    &&& wf_tree(b)
    &&& filed(a) ==> filed(b)
    &&& forall|ks: Seq<Key>| noend(ks) ==> #[trigger] at(b, ks) == at(a, ks) + of_keys(s, ks)
}
pub proof fn extended_none<T>(a: PathNode<T>)
    requires wf_tree(a),
    ensures extended(a, a, Seq::empty()),
{
    reveal(extended); reveal(of_keys);
    assert forall|ks: Seq<Key>| noend(ks) implies #[trigger] at(a, ks) == at(a, ks) + of_keys(Seq::<PathData<T>>::empty(), ks) by { assert(at(a, ks) + Seq::<PathData<T>>::empty() =~= at(a, ks)); }
}
pub proof fn extended_push<T>(a: PathNode<T>, b: PathNode<T>, c: PathNode<T>, s: Seq<PathData<T>>, d: PathData<T>)
    requires extended(a, b, s), inserted(b, c, keys_of(d.orig_path@), d), filed(b) ==> filed(c),
    ensures extended(a, c, s.push(d)),
{
    reveal(extended); reveal(inserted); reveal_with_fuel(of_keys, 2);
    assert(s.push(d).drop_last() =~= s);
    assert forall|ks: Seq<Key>| noend(ks) implies #[trigger] at(c, ks) == at(a, ks) + of_keys(s.push(d), ks) by {
        let kd = keys_of(d.orig_path@);
        if ks == kd { assert(at(c, ks) =~= at(b, ks).push(d)); assert((at(a, ks) + of_keys(s, ks)).push(d) =~= at(a, ks) + of_keys(s, ks).push(d)); }
        else { assert(at(c, ks) == at(b, ks)); }
    }
}
impl<T> PathNode<T> {
@@fn src/path.rs PathNode@IntoIterator::into_iter rename=vx_into_ vis=pub rettype=OwnedPathNodeIterator<T>
@props C03
@ret r
@spec
    ensures r.rem() =~= all(self),
@start
    broadcast use {frames_push, frames_top, vstd::seq_lib::group_to_multiset_ensures};
    proof { reveal_with_fuel(frames, 2); reveal_with_fuel(all, 2);
        assert forall|m: VxMap<PathChunk, PathNode<T>>, it: VxIter<PathNode<T>>| seconds(map_items(m), #[trigger] it@) implies #[trigger] kids(m) == it@ by { assert(kids(m) =~= it@); }
        if self is Leaf { assert(frames(Seq::<VxIter<PathNode<T>>>::empty()) =~= Multiset::empty()); } }
@@end
@@fn src/path.rs PathNode@Extend::extend rename=vx_extend vis=pub
@props C03
@params iter
@spec
    requires wf_tree(*old(self)), proper(iter.items()),
    ensures extended(*old(self), *final(self), iter.items()),
@loopbefore 0
    let ghost s = vx_it0@;
    proof { extended_none(*self); assert(s.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        proper(s), s == iter.items(),
        vx_it0@.len() <= s.len(),
        vx_it0@ == s.skip(s.len() - vx_it0@.len()),
        extended(*old(self), *self, s.take(s.len() - vx_it0@.len())), wf_tree(*self),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost b = *self;
    let ghost n = s.len() - vx_it0@.len();
    proof {
        assert(dat == s[n - 1]);
        assert(s.take(n) =~= s.take(n - 1).push(dat));
        assert(vx_it0@ =~= s.skip(n));
        assert forall|c: PathNode<T>| #[trigger] inserted(b, c, keys_of(dat.orig_path@), dat) && (filed(b) ==> filed(c)) implies extended(*old(self), c, s.take(n)) && wf_tree(c) by { extended_push(*old(self), b, c, s.take(n - 1), dat); reveal(inserted); }
    }
@loopafter 0
    proof { assert(s.take(s.len() as int) =~= s); }
@@end
@@fn src/path.rs PathNode@FromIterator::from_iter vis=pub
@props C03
@ret r
@params iter
@spec
    requires proper(iter.items()),
    ensures exists|a: PathNode<T>| wf_tree(a) && filed(a) && all_empty(a) && #[trigger] extended(a, r, iter.items()),
@loopbefore 0
    let ghost s = vx_it0@;
    let ghost a = ret;
    proof { extended_none(a); assert(s.take(0) =~= Seq::empty()); }
@loop 0
    invariant
        proper(s), s == iter.items(), wf_tree(a), filed(a), all_empty(a),
        vx_it0@.len() <= s.len(),
        vx_it0@ == s.skip(s.len() - vx_it0@.len()),
        extended(a, ret, s.take(s.len() - vx_it0@.len())), wf_tree(ret),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost b = ret;
    let ghost n = s.len() - vx_it0@.len();
    proof {
        assert(dat == s[n - 1]);
        assert(s.take(n) =~= s.take(n - 1).push(dat));
        assert(vx_it0@ =~= s.skip(n));
        assert forall|c: PathNode<T>| #[trigger] inserted(b, c, keys_of(dat.orig_path@), dat) && (filed(b) ==> filed(c)) implies extended(a, c, s.take(n)) && wf_tree(c) by { extended_push(a, b, c, s.take(n - 1), dat); reveal(inserted); }
    }
@loopafter 0
    proof { assert(s.take(s.len() as int) =~= s); }
@@end
}
// ---- Iterator::map and collect on these iterators: assumed to take the items from next() until it returns None
pub open spec fn drained<T>(s: Seq<PathData<T>>, m: Multiset<PathData<T>>) -> bool { s.to_multiset() == m }
impl<T> OwnedPathNodeIterator<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(PathData<T>) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|d: PathData<T>| self.rem().count(d) > 0 ==> #[trigger] f.requires((d,)),
        ensures exists|s: Seq<PathData<T>>| #[trigger] drained(s, self.rem()) && s.len() == r@.len() && forall|i: int| 0 <= i < r@.len() ==> f.ensures((s[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
impl<T> VxFrom<PathData<T>> for PathNode<T> {
    open spec fn from_items(self, s: Seq<PathData<T>>) -> bool { proper(s) ==> exists|a: PathNode<T>| wf_tree(a) && filed(a) && all_empty(a) && #[trigger] extended(a, self, s) }
}
