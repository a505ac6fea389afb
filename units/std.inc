// ================= assumed contracts of std (shared prelude) =================
// ---- equality
pub trait VxEq<R: ?Sized> { spec fn eqv(&self, o: &R) -> bool; fn vx_eq(&self, o: &R) -> (r: bool) ensures r == self.eqv(o); }
impl VxEq<str> for str { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> bool { self == o } }
impl VxEq<str> for String { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> bool { self == o } }
impl VxEq<String> for str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> bool { self == o } }
impl<'a> VxEq<&'a str> for String { open spec fn eqv(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &&'a str) -> bool { self == o } }
impl<'a> VxEq<String> for &'a str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> bool { self == o } }
impl VxEq<String> for String { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> bool { self == o } }
impl<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'b B> for &'a A { open spec fn eqv(&self, o: &&'b B) -> bool { (**self).eqv(*o) } fn vx_eq(&self, o: &&'b B) -> bool { (**self).vx_eq(*o) } }
impl<A: VxEq<B>, B> VxEq<Option<B>> for Option<A> {
    open spec fn eqv(&self, o: &Option<B>) -> bool { match (*self, *o) { (None, None) => true, (Some(a), Some(b)) => a.eqv(&b), _ => false } }
    fn vx_eq(&self, o: &Option<B>) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.vx_eq(b), _ => false } }
}
impl VxEq<u8> for u8 { open spec fn eqv(&self, o: &u8) -> bool { self == o }  fn vx_eq(&self, o: &u8) -> bool { *self == *o } }
impl VxEq<u16> for u16 { open spec fn eqv(&self, o: &u16) -> bool { self == o }  fn vx_eq(&self, o: &u16) -> bool { *self == *o } }
impl VxEq<u64> for u64 { open spec fn eqv(&self, o: &u64) -> bool { self == o }  fn vx_eq(&self, o: &u64) -> bool { *self == *o } }
impl VxEq<i64> for i64 { open spec fn eqv(&self, o: &i64) -> bool { self == o }  fn vx_eq(&self, o: &i64) -> bool { *self == *o } }
impl VxEq<isize> for isize { open spec fn eqv(&self, o: &isize) -> bool { self == o }  fn vx_eq(&self, o: &isize) -> bool { *self == *o } }
impl VxEq<usize> for usize { open spec fn eqv(&self, o: &usize) -> bool { self == o }  fn vx_eq(&self, o: &usize) -> bool { *self == *o } }
impl VxEq<char> for char { open spec fn eqv(&self, o: &char) -> bool { self == o }  fn vx_eq(&self, o: &char) -> bool { *self == *o } }
impl VxEq<bool> for bool { open spec fn eqv(&self, o: &bool) -> bool { self == o }  fn vx_eq(&self, o: &bool) -> bool { *self == *o } }
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.vx_eq(b) }

pub trait VxAny {}
impl<T: ?Sized> VxAny for T {}
// ---- iterators: the contract of an iterator is the sequence of items it still yields
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { v: std::collections::VecDeque<T> }
impl<T> View for VxIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vx_next<T>(it: &mut VxIter<T>) -> (r: Option<T>)
    ensures
        old(it)@.len() == 0 ==> r is None && final(it)@ == old(it)@,
        old(it)@.len() > 0 ==> r == Some(old(it)@[0]) && final(it)@ == old(it)@.skip(1),
{ it.v.pop_front() }
pub trait VxInto: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn vx_into_(self) -> (r: VxIter<Self::Item>) ensures r@ == self.items(); }
impl<T> VxInto for VxIter<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } fn vx_into_(self) -> VxIter<T> { self } }
impl<T> VxInto for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_(self) -> VxIter<T> { unimplemented!() } }
impl<'a, T> VxInto for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_(self) -> VxIter<&'a T> { unimplemented!() } }
impl<'a, T> VxInto for &'a [T] { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_(self) -> VxIter<&'a T> { unimplemented!() } }
pub open spec fn incl(a: int, b: int) -> Seq<usize> { Seq::new(if a <= b { (b - a + 1) as nat } else { 0 }, |i: int| (a + i) as usize) }
pub open spec fn half(a: int, b: int) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
#[verifier::external_body] pub fn vx_incl(a: usize, b: usize) -> (r: VxIter<usize>) ensures r@ == incl(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_half(a: usize, b: usize) -> (r: VxIter<usize>) ensures r@ == half(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_nil<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
#[verifier::external_body] pub fn vx_bytes<'a, const N: usize>(a: &'a [u8; N]) -> (r: &'a [u8]) ensures r@ == a@ { a }
pub fn vx_into<I: VxInto>(i: I) -> (r: VxIter<I::Item>) ensures r@ == i.items() { i.vx_into_() }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VxIterate<T> { spec fn itv(&self) -> Seq<T>; fn vx_iter(&self) -> (r: VxIter<&T>) ensures r@ == refs(self.itv()); }
impl<T> VxIterate<T> for Vec<T> { open spec fn itv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> VxIter<&T> { unimplemented!() } }
impl<T> VxIterate<T> for [T] { open spec fn itv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> VxIter<&T> { unimplemented!() } }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VxIter<U>) -> (r: VxIter<(T, U)>) ensures r@ == zipped(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<T>) ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>) ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VxIter<T>) -> (r: VxIter<T>) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, T)>) ensures r@ == enumerated(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ne<U>(self, o: VxIter<U>) -> (r: bool) where T: VxEq<U> ensures r == !seq_eqv(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq<U>(self, o: VxIter<U>) -> (r: bool) where T: VxEq<U> ensures r == seq_eqv(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],)),
        ensures
            r matches Some(k) ==> k < self@.len() && f.ensures((self@[k as int],), true) && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures
            r matches Some(x) ==> exists|k: int| 0 <= k < self@.len() && x == #[trigger] self@[k] && f.ensures((&self@[k],), true) && forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] self@[i],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures r.from_items(self@) { unimplemented!() }
}
pub trait VxFrom<T>: Sized { spec fn from_items(self, s: Seq<T>) -> bool; }
impl<T> VxFrom<T> for Vec<T> { open spec fn from_items(self, s: Seq<T>) -> bool { self@ == s } }
pub trait VxExtend<T> { spec fn exv(&self) -> Seq<T>; fn vx_extend<I: VxInto<Item = T>>(&mut self, i: I) ensures final(self).exv() == old(self).exv() + i.items(); }
impl<T> VxExtend<T> for Vec<T> { open spec fn exv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend<I: VxInto<Item = T>>(&mut self, i: I) { unimplemented!() } }
pub trait VxAppend { spec fn apv(&self) -> Seq<u8>; fn vx_append(&mut self, s: &[u8]) ensures final(self).apv() == old(self).apv() + s@; }
impl VxAppend for Vec<u8> { open spec fn apv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_append(&mut self, s: &[u8]) { self.extend_from_slice(s) } }
pub trait VxUnwrap<T> { spec fn ov(self) -> Option<Seq<T>>; fn vx_unwrap_or_default(self) -> (r: Vec<T>) ensures r@ == (match self.ov() { Some(s) => s, None => Seq::empty() }); }
impl<T> VxUnwrap<T> for Option<Vec<T>> { open spec fn ov(self) -> Option<Seq<T>> { match self { Some(v) => Some(v@), None => None } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> Vec<T> { self.unwrap_or_default() } }
pub trait VxClone: Sized { spec fn cloned_from(self, o: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures r.cloned_from(*self); }
impl VxClone for String { open spec fn cloned_from(self, o: String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_clone(&self) -> String { self.clone() } }
impl VxClone for u8 { open spec fn cloned_from(self, o: u8) -> bool { self == o } fn vx_clone(&self) -> u8 { *self } }
impl<'a, T: ?Sized> VxClone for &'a T { open spec fn cloned_from(self, o: &'a T) -> bool { self == o } fn vx_clone(&self) -> &'a T { *self } }
pub open spec fn all_cloned<T: VxClone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).cloned_from(b[i]) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
impl<T: VxClone> VxClone for Vec<T> { open spec fn cloned_from(self, o: Vec<T>) -> bool { all_cloned(self@, o@) } #[verifier::external_body] fn vx_clone(&self) -> Vec<T> { unimplemented!() } }
/// which variant a value is of, as derived comparisons ask
pub trait VxDiscr { spec fn discr(&self) -> int; }
#[verifier::external_body] pub fn vx_discr<T: VxDiscr>(x: &T) -> (r: isize) ensures r == x.discr() { unimplemented!() }
/// Clone::clone, as derived implementations call it
pub fn vx_clone_of<T: VxClone>(x: &T) -> (r: T) ensures r.cloned_from(*x) { x.vx_clone() }
pub proof fn cloned_strings() ensures forall|a: Seq<String>, b: Seq<String>| #[trigger] all_cloned(a, b) ==> strings(a) == strings(b) {
    assert forall|a: Seq<String>, b: Seq<String>| #[trigger] all_cloned(a, b) implies strings(a) == strings(b) by {
        assert forall|i: int| 0 <= i < a.len() implies strings(a)[i] == strings(b)[i] by { assert(a[i].cloned_from(b[i])); }
        assert(strings(a) =~= strings(b));
    }
}
impl<'a, T: VxClone> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxIter<T>) ensures all_cloned(r@, derefs(self@)) { unimplemented!() }
}
pub trait VxSlice<T> {
    spec fn slv(&self) -> Seq<T>;
    fn vx_full(&self) -> (r: &[T]) ensures r@ == self.slv(), r@.len() <= usize::MAX;
    fn vx_from(&self, a: usize) -> (r: &[T]) requires a <= self.slv().len() ensures r@ == self.slv().skip(a as int);
    fn vx_to(&self, b: usize) -> (r: &[T]) requires b <= self.slv().len() ensures r@ == self.slv().take(b as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.slv().len() ensures r@ == self.slv().subrange(a as int, b as int);
    fn vx_split_at(&self, a: usize) -> (r: (&[T], &[T])) requires a <= self.slv().len() ensures r.0@ == self.slv().take(a as int), r.1@ == self.slv().skip(a as int);
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: VxClone ensures all_cloned(r@, self.slv());
}
impl<T> VxSlice<T> for [T] {
    open spec fn slv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_full(&self) -> &[T] { self }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> &[T] { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, a: usize) -> &[T] { &self[..a] }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> &[T] { &self[a..b] }
    #[verifier::external_body] fn vx_split_at(&self, a: usize) -> (&[T], &[T]) { self.split_at(a) }
    #[verifier::external_body] fn vx_to_vec(&self) -> Vec<T> where T: VxClone { unimplemented!() }
}
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn zipped<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn seq_eqv<T: VxEq<U>, U>(a: Seq<T>, b: Seq<U>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).eqv(&b[i]) }

// ---- strings
pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn strings(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn strs_at<'a>(v: Seq<&'a str>, i: int)
    requires 0 <= i < v.len(),
    ensures strs(v)[i] == #[trigger] v[i]@, strs(v).len() == v.len(),
{}
pub broadcast proof fn strs_len<'a>(v: Seq<&'a str>)
    ensures (#[trigger] strs(v)).len() == v.len(),
{}
pub broadcast group strs_group { strs_at, strs_len }
/// std's split by one character
#[verifier::opaque]
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let p = split_on(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// number of UTF-8 bytes
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
/// byte offset i of s is the boundary before character k
pub open spec fn boundary(s: Seq<char>, k: int, i: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == i }
pub open spec fn is_boundary(s: Seq<char>, i: int) -> bool { exists|k: int| #[trigger] boundary(s, k, i) }
pub open spec fn is_suffix(s: Seq<char>, i: int, r: Seq<char>) -> bool { forall|k: int| #[trigger] boundary(s, k, i) ==> r == s.skip(k) }
pub open spec fn is_prefix(s: Seq<char>, i: int, r: Seq<char>) -> bool { forall|k: int| #[trigger] boundary(s, k, i) ==> r == s.take(k) }
pub open spec fn is_infix(s: Seq<char>, i: int, j: int, r: Seq<char>) -> bool {
    forall|k: int, l: int| #[trigger] boundary(s, k, i) && #[trigger] boundary(s, l, j) && k <= l ==> r == s.subrange(k, l)
}
/// needle n occurs in h at i
pub open spec fn occurs<T>(h: Seq<T>, n: Seq<T>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n }
/// ... for the first time
pub open spec fn first_occ<T>(h: Seq<T>, n: Seq<T>, i: int) -> bool { occurs(h, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs(h, n, j) }
pub open spec fn absent<T>(h: Seq<T>, n: Seq<T>) -> bool { forall|j: int| !#[trigger] occurs(h, n, j) }
pub open spec fn crlf() -> Seq<char> { seq!['\r', '\n'] }
pub open spec fn find_seq<T>(h: Seq<T>, n: Seq<T>) -> Option<int> { if absent(h, n) { None } else { Some(choose|i: int| first_occ(h, n, i)) } }
/// the pieces of s between non-overlapping occurrences of n, from left to right
#[verifier::opaque]
pub open spec fn split_seq<T>(s: Seq<T>, n: Seq<T>) -> Seq<Seq<T>> decreases s.len() {
    match find_seq(s, n) {
        None => seq![s],
        Some(i) => if n.len() > 0 && 0 <= i && i + n.len() <= s.len() { seq![s.take(i)] + split_seq(s.skip(i + n.len()), n) } else { seq![s] },
    }
}
pub proof fn first_exists<T>(h: Seq<T>, n: Seq<T>, i: int)
    requires occurs(h, n, i),
    ensures exists|j: int| j <= i && first_occ(h, n, j),
    decreases i,
{
    if exists|j: int| 0 <= j < i && occurs(h, n, j) {
        let j = choose|j: int| 0 <= j < i && occurs(h, n, j);
        first_exists(h, n, j);
    } else { assert(first_occ(h, n, i)); }
}
pub proof fn find_seq_is<T>(h: Seq<T>, n: Seq<T>)
    ensures
        find_seq(h, n) matches Some(i) ==> first_occ(h, n, i) && !absent(h, n),
        find_seq(h, n) is None ==> absent(h, n),
        forall|i: int| first_occ(h, n, i) ==> find_seq(h, n) == Some(i),
{
    if !absent(h, n) {
        let k = choose|k: int| occurs(h, n, k);
        first_exists(h, n, k);
    }
    assert forall|i: int| first_occ(h, n, i) implies find_seq(h, n) == Some(i) by {
        assert(occurs(h, n, i));
        let j = find_seq(h, n)->0;
        if i < j { assert(!occurs(h, n, i)); } else if j < i { assert(!occurs(h, n, j)); }
    }
}
/// patterns of the string functions: a character or a string
pub trait VxOwn { spec fn ownv(&self) -> Seq<char>; fn vx_own(&self) -> (r: String) ensures r@ == self.ownv(); }
impl VxOwn for str { open spec fn ownv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> String { self.to_owned() } }
impl VxOwn for String { open spec fn ownv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_own(&self) -> String { self.to_owned() } }
pub trait VxPat: Sized {
    spec fn first_in(self, s: Seq<char>) -> Option<int>;
    spec fn split_in(self, s: Seq<char>) -> Seq<Seq<char>>;
    spec fn at_start(self, s: Seq<char>) -> bool;
}
impl VxPat for char {
    open spec fn first_in(self, s: Seq<char>) -> Option<int> { find_char(s, self) }
    open spec fn split_in(self, s: Seq<char>) -> Seq<Seq<char>> { split_on(s, self) }
    open spec fn at_start(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self }
}
impl<'a> VxPat for &'a str {
    open spec fn first_in(self, s: Seq<char>) -> Option<int> { find_seq(s, self@) }
    open spec fn split_in(self, s: Seq<char>) -> Seq<Seq<char>> { split_seq(s, self@) }
    open spec fn at_start(self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.take(self@.len() as int) == self@ }
}
/// at most two pieces: cut at the first c
pub open spec fn cut2(s: Seq<char>, c: char) -> Seq<Seq<char>> { match find_char(s, c) { Some(k) => seq![s.take(k), s.skip(k + 1)], None => seq![s] } }
pub open spec fn split_n(s: Seq<char>, n: int, c: char) -> Seq<Seq<char>> decreases n {
    if n <= 0 { seq![] } else if n == 1 { seq![s] } else { match find_char(s, c) { Some(k) => seq![s.take(k)] + split_n(s.skip(k + 1), n - 1, c), None => seq![s] } }
}
pub open spec fn ascii_lower(c: char) -> char { if 65 <= c as u32 <= 90 { ((c as u8 + 32) as u8) as char } else { c } }
pub open spec fn lower_ascii(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_lower(c)) }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_split<P: VxPat>(&self, c: P) -> (r: VxIter<&str>) ensures strs(r@) == c.split_in(self.sv());
    fn vx_full(&self) -> (r: &str) ensures r@ == self.sv();
    fn vx_from(&self, a: usize) -> (r: &str)
        requires is_boundary(self.sv(), a as int),
        ensures is_suffix(self.sv(), a as int, r@);
    fn vx_to(&self, a: usize) -> (r: &str)
        requires is_boundary(self.sv(), a as int),
        ensures is_prefix(self.sv(), a as int, r@);
    fn vx_range(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, is_boundary(self.sv(), a as int), is_boundary(self.sv(), b as int),
        ensures is_infix(self.sv(), a as int, b as int, r@);
    fn vx_starts_with<P: VxPat>(&self, c: P) -> (r: bool) ensures r == c.at_start(self.sv());
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(self.sv());
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.sv();
    fn vx_find<P: VxPat>(&self, c: P) -> (r: Option<usize>) ensures found_at(self.sv(), c.first_in(self.sv()), r), r matches Some(i) ==> i <= isize::MAX;
    fn vx_split_at(&self, a: usize) -> (r: (&str, &str))
        requires is_boundary(self.sv(), a as int),
        ensures is_prefix(self.sv(), a as int, r.0@), is_suffix(self.sv(), a as int, r.1@);
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxIter<&str>) ensures strs(r@) == split_n(self.sv(), n as int, c);
    fn vx_is_char_boundary(&self, a: usize) -> (r: bool) ensures r == is_boundary(self.sv(), a as int);
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower_ascii(self.sv());
    fn vx_trim_start_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures exists|k: int| #![trigger self.sv().skip(k)] 0 <= k <= self.sv().len() && r@ == self.sv().skip(k)
            && (forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self.sv()[i],), true)) && (k < self.sv().len() ==> f.ensures((self.sv()[k],), false));
}
/// position of the first c in s
#[verifier::opaque]
pub open spec fn find_char(s: Seq<char>, c: char) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s[0] == c { Some(0int) } else { match find_char(s.skip(1), c) { Some(k) => Some(k + 1), None => None } }
}
pub open spec fn found_at(s: Seq<char>, k: Option<int>, r: Option<usize>) -> bool {
    match k { None => r is None, Some(k) => r matches Some(i) && boundary(s, k, i as int) }
}
pub proof fn find_char_first(s: Seq<char>, c: char)
    ensures
        find_char(s, c) matches Some(k) ==> 0 <= k < s.len() && s[k] == c && forall|j: int| 0 <= j < k ==> s[j] != c,
        find_char(s, c) is None <==> forall|j: int| 0 <= j < s.len() ==> s[j] != c,
    decreases s.len(),
{
    reveal_with_fuel(find_char, 2);
    if s.len() > 0 {
        find_char_first(s.skip(1), c);
        assert forall|j: int| 1 <= j < s.len() implies s[j] == s.skip(1)[j - 1] by {}
    }
}
pub struct VxUtf8Error;
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::encode_utf8(s@) == v@ && s@ == vstd::utf8::decode_utf8(v@), Err(_) => !vstd::utf8::valid_utf8(v@) },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8(v: &[u8]) -> (r: Result<&str, VxUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::encode_utf8(s@) == v@ && s@ == vstd::utf8::decode_utf8(v@), Err(_) => !vstd::utf8::valid_utf8(v@) },
{ unimplemented!() }
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, c: P) -> VxIter<&str> { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> &str { self }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> &str { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, a: usize) -> &str { &self[..a] }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> &str { &self[a..b] }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, c: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> bool { self.is_empty() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> &[u8] { self.as_bytes() }
    #[verifier::external_body] fn vx_chars(&self) -> VxIter<char> { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, c: P) -> Option<usize> { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, a: usize) -> (&str, &str) { self.split_at(a) }
    #[verifier::external_body] fn vx_splitn(&self, n: usize, c: char) -> VxIter<&str> { unimplemented!() }
    #[verifier::external_body] fn vx_is_char_boundary(&self, a: usize) -> bool { self.is_char_boundary(a) }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> String { self.to_ascii_lowercase() }
    #[verifier::external_body] fn vx_trim_start_matches<F: Fn(char) -> bool>(&self, f: F) -> &str { unimplemented!() }
}
/// facts about UTF-8 used by the contracts: proved from vstd
pub proof fn scalar_first(u: u32)
    requires vstd::utf8::is_scalar(u),
    ensures
        1 <= vstd::utf8::encode_scalar(u).len() <= 4,
        u < 0x80 <==> vstd::utf8::encode_scalar(u).len() == 1,
        u < 0x80 ==> vstd::utf8::encode_scalar(u)[0] == u,
        u >= 0x80 ==> forall|i: int| 0 <= i < vstd::utf8::encode_scalar(u).len() ==> #[trigger] vstd::utf8::encode_scalar(u)[i] >= 0x80,
{
    assert(u < 0x80 ==> (u & 0x7f) == u) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xc0u8 | x) >= 0xc0) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xe0u8 | x) >= 0xe0) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0xf0u8 | x) >= 0xf0) by (bit_vector);
    assert(forall|x: u8| #[trigger] (0x80u8 | x) >= 0x80) by (bit_vector);
}
pub proof fn utf8_first(s: Seq<char>)
    requires s.len() > 0,
    ensures
        blen(s) > 0,
        (s[0] as u32) < 0x80 ==> vstd::utf8::encode_utf8(s)[0] as u32 == s[0] as u32 && boundary(s, 1, 1),
        (s[0] as u32) >= 0x80 ==> vstd::utf8::encode_utf8(s)[0] >= 0x80,
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    assert(s.take(1).drop_first() =~= seq![]);
    assert(s.take(1)[0] == s[0]);
    vstd::utf8::char_is_scalar(s[0]);
    scalar_first(s[0] as u32);
}
/// an ASCII byte of the encoding is an ASCII character at that boundary
pub proof fn utf8_ascii(s: Seq<char>, i: int)
    requires 0 <= i < blen(s), vstd::utf8::encode_utf8(s)[i] < 0x80,
    ensures exists|k: int| #[trigger] boundary(s, k, i) && k < s.len() && s[k] as u32 == vstd::utf8::encode_utf8(s)[i] as u32,
    decreases s.len(),
{
    broadcast use vstd::utf8::encode_utf8_concat;
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() > 0 {
        vstd::utf8::char_is_scalar(s[0]);
        scalar_first(s[0] as u32);
        let h = vstd::utf8::encode_scalar(s[0] as u32);
        if i < h.len() {
            assert(s.take(0) =~= seq![]);
            assert(vstd::utf8::encode_utf8(seq![]) =~= seq![]);
            assert(vstd::utf8::encode_utf8(s)[i] == h[i]);
            assert(boundary(s, 0, i));
        } else {
            utf8_ascii(s.drop_first(), i - h.len());
            let k = choose|k: int| #[trigger] boundary(s.drop_first(), k, i - h.len()) && k < s.drop_first().len() && s.drop_first()[k] as u32 == vstd::utf8::encode_utf8(s.drop_first())[i - h.len()] as u32;
            assert(s.take(k + 1).drop_first() =~= s.drop_first().take(k));
            assert(s.take(k + 1)[0] == s[0]);
            assert(boundary(s, k + 1, i));
        }
    }
}
/// an ASCII character at boundary i is one byte
pub proof fn utf8_at(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 0x80,
    ensures
        blen(s.take(k)) < blen(s), vstd::utf8::encode_utf8(s)[blen(s.take(k)) as int] as u32 == s[k] as u32,
        blen(s.take(k + 1)) == blen(s.take(k)) + 1,
{
    broadcast use vstd::utf8::encode_utf8_concat;
    let t = s.skip(k);
    assert(s =~= s.take(k) + t);
    utf8_first(t);
    assert(s.take(k + 1) =~= s.take(k) + t.take(1));
}
/// cutting a string before and after the first ASCII c is cutting at boundaries
pub broadcast proof fn find_cut(s: Seq<char>, c: char)
    requires (c as u32) < 0x80,
    ensures
        (#[trigger] find_char(s, c)) matches Some(k) ==> 0 <= k < s.len() && s[k] == c && (forall|j: int| 0 <= j < k ==> s[j] != c)
            && (forall|i: int| #[trigger] boundary(s, k, i) ==> is_boundary(s, i) && boundary(s, k + 1, i + 1) && is_boundary(s, i + 1))
            && s.skip(k).skip(1) == s.skip(k + 1),
{
    find_char_first(s, c);
    if let Some(k) = find_char(s, c) {
        utf8_at(s, k);
        assert(s.skip(k).skip(1) =~= s.skip(k + 1));
        assert forall|i: int| #[trigger] boundary(s, k, i) implies is_boundary(s, i) && boundary(s, k + 1, i + 1) && is_boundary(s, i + 1) by { assert(boundary(s, k + 1, i + 1)); }
    }
}
/// boundaries are unique and ordered
pub proof fn boundary_order(s: Seq<char>, k: int, l: int)
    requires 0 <= k < l <= s.len(),
    ensures blen(s.take(k)) < blen(s.take(l)),
{
    broadcast use vstd::utf8::encode_utf8_concat;
    assert(s.take(l) =~= s.take(k) + s.subrange(k, l));
    utf8_first(s.subrange(k, l));
}
/// the bytes between two boundaries encode the characters between them
pub proof fn utf8_sub(s: Seq<char>, k: int, l: int)
    requires 0 <= k <= l <= s.len(),
    ensures
        blen(s.take(k)) <= blen(s.take(l)) <= blen(s),
        vstd::utf8::encode_utf8(s).subrange(blen(s.take(k)) as int, blen(s.take(l)) as int) == vstd::utf8::encode_utf8(s.subrange(k, l)),
{
    broadcast use vstd::utf8::encode_utf8_concat;
    let (a, b, c) = (s.take(k), s.subrange(k, l), s.skip(l));
    assert(s =~= a + b + c);
    assert(s.take(l) =~= a + b);
    assert(vstd::utf8::encode_utf8(s).subrange(blen(a) as int, blen(a + b) as int) =~= vstd::utf8::encode_utf8(b));
}
pub proof fn utf8_inj(a: Seq<char>, b: Seq<char>)
    requires vstd::utf8::encode_utf8(a) == vstd::utf8::encode_utf8(b),
    ensures a == b,
{
    broadcast use vstd::utf8::group_utf8_lib;
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
// ---- maps
pub trait VxKey { type S; spec fn key(&self) -> Self::S; }
impl VxKey for str { type S = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl VxKey for String { type S = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, K: VxKey + ?Sized> VxKey for &'a K { type S = K::S; open spec fn key(&self) -> K::S { (**self).key() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VxMap<K: VxKey, V> { k: Vec<(K, V)> }
impl<K: VxKey, V> View for VxMap<K, V> { type V = Map<K::S, V>; uninterp spec fn view(&self) -> Map<K::S, V>; }
impl<K: VxKey, V> VxMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.key(), v),
            r == (if old(self)@.dom().contains(k.key()) { Some(old(self)@[k.key()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: VxKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.key()) { Some(&self@[k.key()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: VxKey<S = K::S> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            r is Some <==> old(self)@.dom().contains(k.key()),
            r matches Some(v) ==> *v == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(v)),
            r is None ==> *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: VxKey<S = K::S> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.key()),
    { unimplemented!() }
}
/// the map built by inserting pairs in order
pub open spec fn pairs_map<K: VxKey, V>(s: Seq<(K, V)>) -> Map<K::S, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0.key(), s.last().1) }
}
/// the items of a map in its (unspecified) iteration order
pub uninterp spec fn map_items<K: VxKey, V>(m: VxMap<K, V>) -> Seq<(K, V)>;
pub broadcast axiom fn axiom_map_items<K: VxKey, V>(m: VxMap<K, V>)
    ensures pairs_map(#[trigger] map_items(m)) == m@;
/// ... which holds every entry exactly once
pub open spec fn items_exact<K: VxKey, V>(m: Map<K::S, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && m[s[i].0.key()] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
    &&& forall|k: K::S| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
}
pub broadcast axiom fn axiom_map_items_exact<K: VxKey, V>(m: VxMap<K, V>)
    ensures items_exact(m@, #[trigger] map_items(m));
pub open spec fn ref_pairs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<K: VxKey, V> VxMap<K, V> {
    #[verifier::external_body] pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::S, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_iter(&self) -> (r: VxIter<(&K, &V)>) ensures r@ == ref_pairs(map_items(*self)) { unimplemented!() }
}
impl<K: VxKey, V> VxInto for VxMap<K, V> { type Item = (K, V); open spec fn items(self) -> Seq<(K, V)> { map_items(self) } #[verifier::external_body] fn vx_into_(self) -> VxIter<(K, V)> { unimplemented!() } }
impl<K: VxKey, V> VxFrom<(K, V)> for VxMap<K, V> { open spec fn from_items(self, s: Seq<(K, V)>) -> bool { self@ == pairs_map(s) } }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
// ================= end of prelude =================
