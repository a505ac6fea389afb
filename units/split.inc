// ================= searching and splitting (octane_http::find_in_slice, Spliterator) =================
/// element types whose == is equality
pub trait VxSame: VxEq<Self> + Sized { proof fn same(&self, o: &Self) ensures self.eqv(o) == (*self == *o); }
impl VxSame for u8 { proof fn same(&self, o: &u8) {} }
@@fn octane_http/src/http1x/mod.rs find_in_slice
@props C06 C07 C15
@ret r
@params haystack needle
@spec
    ensures
        find_seq(haystack@, needle@) == (match r { Some(i) => Some(i as int), None => None::<int> }),
        find_seq(haystack@, needle@) matches Some(i) ==> first_occ(haystack@, needle@, i),
        find_seq(haystack@, needle@) is None ==> absent(haystack@, needle@),
        haystack@.len() <= usize::MAX && needle@.len() <= usize::MAX,
@start
    proof { find_seq_is(haystack@, needle@); }
@loopbefore 0
    let ghost all0 = vx_it0@;
@loop 0
    invariant
        needle@.len() <= haystack@.len(), haystack@.len() <= usize::MAX,
        all0 == incl(0, haystack@.len() - needle@.len()),
        vx_it0@.len() <= all0.len(),
        vx_it0@ == all0.skip(all0.len() - vx_it0@.len()),
        forall|j: int| 0 <= j < all0.len() - vx_it0@.len() ==> !#[trigger] occurs(haystack@, needle@, j),
        forall|i: int| first_occ(haystack@, needle@, i) ==> find_seq(haystack@, needle@) == Some(i),
        find_seq(haystack@, needle@) matches Some(i) ==> first_occ(haystack@, needle@, i),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost p = all0.len() - vx_it0@.len() - 1;
    proof {
        assert(vx_it0@ =~= all0.skip(p + 1));
        assert(i == all0[p] && i == p);
    }
@loopbefore 1
    let ghost all1 = vx_it1@;
@loop 1
    invariant
        needle@.len() <= haystack@.len(), haystack@.len() <= usize::MAX, i + needle@.len() <= haystack@.len(),
        all1 == half(0, needle@.len() as int),
        vx_it1@.len() <= all1.len(),
        vx_it1@ == all1.skip(all1.len() - vx_it1@.len()),
        matching ==> forall|k: int| 0 <= k < all1.len() - vx_it1@.len() ==> haystack@[i + k] == needle@[k],
        !matching ==> !occurs(haystack@, needle@, i as int),
    ensures
        matching ==> vx_it1@.len() == 0,
    decreases vx_it1@.len(),
@loopbody 1
    let ghost q = all1.len() - vx_it1@.len() - 1;
    proof {
        assert(vx_it1@ =~= all1.skip(q + 1));
        assert(j == all1[q] && j == q);
        VxSame::same(&haystack@[i + j], &needle@[j as int]);
        if haystack@[i + j] != needle@[j as int] {
            assert(haystack@.subrange(i as int, i + needle@.len())[j as int] == haystack@[i + j]);
            assert(!occurs(haystack@, needle@, i as int));
        }
    }
@loopafter 1
    proof {
        if matching { assert(haystack@.subrange(i as int, i + needle@.len()) =~= needle@); assert(first_occ(haystack@, needle@, i as int)); }
    }
@loopafter 0
    proof { assert(absent(haystack@, needle@)); }
@@end
@@struct src/util.rs Spliterator
impl<'a, T: VxSame> Spliterator<'a, T> {
    /// the pieces it still yields
    pub open spec fn pieces(&self) -> Seq<Seq<T>> { if self.finished { seq![] } else { split_seq(self.string@, self.seq@) } }
    pub fn vx_into_(self) -> (r: Self) ensures r == self { self }
@@fn src/util.rs Spliterator::new
@props C06
@ret r
@params string seq
@spec
    ensures r.string@ == string@, r.seq@ == seq@, !r.finished,
@@end
@@fn src/util.rs Spliterator::find_seq
@props C06
@ret r
@spec
    ensures
        find_seq(self.string@, self.seq@) == (match r { Some(i) => Some(i as int), None => None::<int> }),
        find_seq(self.string@, self.seq@) matches Some(i) ==> first_occ(self.string@, self.seq@, i),
        self.string@.len() <= usize::MAX && self.seq@.len() <= usize::MAX,
@@end
@@fn src/util.rs Spliterator::next rename=vx_next rettype=Option<&'a[T]>
@props C06
@ret r
@spec
    requires old(self).seq@.len() > 0,
    ensures
        final(self).seq@ == old(self).seq@,
        old(self).pieces().len() == 0 ==> r is None && final(self).pieces() == old(self).pieces(),
        old(self).pieces().len() > 0 ==> r is Some && (r->0)@ == old(self).pieces()[0] && final(self).pieces() =~= old(self).pieces().skip(1),
@start
    let ghost (s0, n0) = (self.string@, self.seq@);
    proof {
        reveal_with_fuel(split_seq, 2);
        find_seq_is(s0, n0);
        if let Some(i) = find_seq(s0, n0) {
            assert(s0.skip(i).skip(n0.len() as int) =~= s0.skip(i + n0.len()));
            let p = split_seq(s0.skip(i + n0.len()), n0);
            assert((seq![s0.take(i)] + p).skip(1) =~= p);
        }
    }
@@end
}
