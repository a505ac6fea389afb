#type HashMap<String,QueryValue>=VxMap<String, QueryValue>
#type &'amutdynIterator<Item=T> => &'a mut VxIter<T>
// ---------------------------------------------------------------- specification
pub open spec fn hex(c: char) -> Option<int> {
    let u = c as int;
    if 48 <= u <= 57 { Some(u - 48) } else if 65 <= u <= 70 { Some(u - 55) } else if 97 <= u <= 102 { Some(u - 87) } else { None }
}
pub open spec fn escape(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '%' && hex(s[1]) is Some && hex(s[2]) is Some }
/// percent-decoding from left to right
#[verifier::opaque]
pub open spec fn decode(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if escape(s) { seq![((hex(s[1])->0 * 16 + hex(s[2])->0) as u8) as char] + decode(s.skip(3)) }
    else { seq![s[0]] + decode(s.skip(1)) }
}
@@fn src/query.rs from_hex
@props C09
@ret r
@params chr
@spec
    ensures match hex(chr) { Some(h) => r == Some(h as u8), None => r is None },
@@end
@@struct src/query.rs DoublePeek #[verifier::reject_recursive_types(T)]
impl<'a, T: Default> DoublePeek<'a, T> {
    /// what the iterator still yields
    pub open spec fn rest(&self) -> Seq<T> { self.cache@.take(self.stored as int) + self.iter@ }
@@fn src/query.rs DoublePeek::new
@props C09
@ret r
@params it
@spec
    ensures r.rest() =~= old(it)@, r.stored == 0, !r.unpeek,
@@end
@@fn src/query.rs DoublePeek::peek
@props C09
@ret r
@spec
    requires old(self).stored <= 2,
    ensures
        final(self).stored <= 2, final(self).rest() =~= old(self).rest(), !final(self).unpeek,
        ({
            let at = if old(self).unpeek && old(self).stored > 0 { 0 } else { old(self).stored as int };
            if at < 2 && at < old(self).rest().len() { r == Some(&old(self).rest()[at]) && final(self).stored == (if at < old(self).stored { old(self).stored as int } else { at + 1 }) }
            else { r is None && final(self).stored == old(self).stored }
        }),
@@end
@@fn src/query.rs DoublePeek::next rename=vx_next rettype=Option<T>
@props C09
@ret r
@spec
    requires old(self).stored <= 2,
    ensures
        final(self).stored == (if old(self).stored > 0 { old(self).stored - 1 } else { 0 }),
        final(self).unpeek == old(self).unpeek,
        old(self).rest().len() == 0 ==> r is None && final(self).rest() =~= old(self).rest(),
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().skip(1),
@@end
}
@@fn src/query.rs unescape_hex
@props C08 C09 C10
@ret r
@params string
@spec
    ensures r@ == decode(string@),
@start
    proof { reveal_strlit(""); reveal(decode); }
@loop 0
    invariant
        peekable.stored <= 2,
        ret@ + decode(peekable.rest()) =~= decode(string@),
    ensures
        peekable.rest().len() == 0,
    decreases peekable.rest().len(),
@loopstart 0
    let ghost s0 = peekable.rest();
    let ghost r0 = ret@;
    proof {
        reveal(decode);
        if escape(s0) { assert(s0.skip(1).skip(1).skip(1) =~= s0.skip(3)); }
        assert(forall|a: Seq<char>, c: char, b: Seq<char>| #[trigger] (a + (seq![c] + b)) =~= a.push(c) + b);
    }
@@end
/// a part cut at its first '=': name, and value if there is one
pub open spec fn cut(part: Seq<char>) -> (Seq<char>, Option<Seq<char>>) {
    match find_char(part, '=') { Some(k) => (part.take(k), Some(part.skip(k + 1))), None => (part, None) }
}
pub open spec fn plain_step(m: Map<Seq<char>, Seq<char>>, part: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    let (n, v) = cut(part);
    if n.len() == 0 { m } else { m.insert(decode(n), match v { Some(v) => decode(v), None => Seq::empty() }) }
}
pub open spec fn plain(parts: Seq<Seq<char>>, n: int) -> Map<Seq<char>, Seq<char>> decreases n {
    if n <= 0 { Map::empty() } else { plain_step(plain(parts, n - 1), parts[n - 1]) }
}
pub open spec fn plain_query(q: Seq<char>) -> Map<Seq<char>, Seq<char>> { plain(split_on(q, '&'), split_on(q, '&').len() as int) }
pub open spec fn sv(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
/// what the code needs to know about the first '=' of a part
proof fn cut_facts(part: Seq<char>)
    ensures
        find_char(part, '=') matches Some(k) ==> 0 <= k < part.len()
            && (forall|i: int| #[trigger] boundary(part, k, i) ==> is_boundary(part, i))
            && (forall|i: int| #[trigger] boundary(part, k, i) ==> boundary(part, k + 1, i + 1) && is_boundary(part, i + 1))
            && part.skip(k).len() > 0 && boundary(part.skip(k), 1, 1) && part.skip(k).skip(1) == part.skip(k + 1),
        find_char(seq![], '=') is None,
{
    find_char_first(part, '=');
    find_char_first(seq![], '=');
    find_cut(part, '=');
    if let Some(k) = find_char(part, '=') {
        utf8_first(part.skip(k));
        assert(part.skip(k).skip(1) =~= part.skip(k + 1));
    }
}
@@fn src/query.rs parse_query
@props C08
@ret r
@params query
@spec
    ensures sv(r@) == plain_query(query@),
@start
    broadcast use strs_group;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@loopbefore 0
    let ghost parts = vx_it0@;
    proof { assert(sv(ret@) =~= Map::empty()); }
@loop 0
    invariant
        strs(parts) == split_on(query@, '&'),
        vx_it0@.len() <= parts.len(),
        vx_it0@ == parts.skip(parts.len() - vx_it0@.len()),
        sv(ret@) == plain(strs(parts), parts.len() - vx_it0@.len()),
        ""@ == Seq::<char>::empty(),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = parts.len() - vx_it0@.len();
    let ghost m0 = ret@;
    proof {
        assert(vx_it0@ =~= parts.skip(n));
        assert(tok == parts[n - 1]);
        assert(strs(parts)[n - 1] == tok@);
        assert(plain(strs(parts), n) == plain_step(plain(strs(parts), n - 1), tok@));
        cut_facts(tok@);
        broadcast use strs_group; reveal_with_fuel(split_n, 3); reveal_with_fuel(decode, 2);
        assert(split_n(tok@, 2, '=') =~= match cut(tok@).1 { Some(v) => seq![cut(tok@).0, v], None => seq![tok@] });
        if cut(tok@).1 is None { assert(decode(Seq::<char>::empty()) =~= Seq::<char>::empty()); }
        assert forall|k: Seq<char>, v: String| #[trigger] sv(m0.insert(k, v)) == sv(m0).insert(k, v@) by { assert(sv(m0.insert(k, v)) =~= sv(m0).insert(k, v@)); }
    }
@@end
@@enum src/query.rs QueryValue
pub enum Q { S(Seq<char>), A(Seq<Seq<char>>), O(Map<Seq<char>, Seq<char>>) }
pub open spec fn q(v: QueryValue) -> Q {
    match v { QueryValue::Str(s) => Q::S(s@), QueryValue::Arr(a) => Q::A(strings(a@)), QueryValue::Obj(o) => Q::O(sv(o@)) }
}
pub open spec fn qs(m: Map<Seq<char>, QueryValue>) -> Map<Seq<char>, Q> { m.map_values(|v: QueryValue| q(v)) }
#[verifier::opaque]
pub open spec fn rfind_char(s: Seq<char>, c: char) -> Option<int> decreases s.len() {
    if s.len() == 0 { None } else if s.last() == c { Some(s.len() - 1) } else { rfind_char(s.drop_last(), c) }
}
proof fn rfind_char_last(s: Seq<char>, c: char, k: int)
    ensures
        0 <= k < s.len() && s[k] == c && (forall|j: int| k < j < s.len() ==> s[j] != c) ==> rfind_char(s, c) == Some(k),
        (forall|j: int| 0 <= j < s.len() ==> s[j] != c) ==> rfind_char(s, c) is None,
    decreases s.len(),
{
    reveal_with_fuel(rfind_char, 2);
    if s.len() > 0 && s.last() != c { rfind_char_last(s.drop_last(), c, k); }
}
/// name[key]: what is outside and inside the last pair of brackets
pub open spec fn brackets(n: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if n.len() > 0 && n.last() == ']' { match rfind_char(n, '[') { Some(k) => Some((n.take(k), n.subrange(k + 1, n.len() - 1))), None => None } } else { None }
}
pub open spec fn ext_step(m: Map<Seq<char>, Q>, part: Seq<char>) -> Map<Seq<char>, Q> {
    let (n, v) = cut(part);
    if n.len() == 0 { m } else {
        match v {
            None => m.insert(decode(n), Q::S(Seq::empty())),
            Some(v) => match brackets(n) {
                None => m.insert(decode(n), Q::S(decode(v))),
                Some((o, i)) =>
                    if i.len() == 0 {
                        if m.dom().contains(o) { match m[o] { Q::A(a) => m.insert(o, Q::A(a.push(decode(v)))), _ => m } }
                        else { m.insert(o, Q::A(seq![decode(v)])) }
                    } else {
                        if m.dom().contains(o) { match m[o] { Q::O(a) => m.insert(o, Q::O(a.insert(i, decode(v)))), _ => m } }
                        else { m.insert(o, Q::O(Map::empty().insert(i, decode(v)))) }
                    },
            },
        }
    }
}
pub open spec fn ext(parts: Seq<Seq<char>>, n: int) -> Map<Seq<char>, Q> decreases n {
    if n <= 0 { Map::empty() } else { ext_step(ext(parts, n - 1), parts[n - 1]) }
}
pub open spec fn ext_query(s: Seq<char>) -> Map<Seq<char>, Q> { ext(split_on(s, '&'), split_on(s, '&').len() as int) }

/// last byte, and positions of '[' in the bytes of a name
proof fn name_bytes(n: Seq<char>)
    ensures
        n.len() > 0 ==> blen(n) > 0 && (vstd::utf8::encode_utf8(n)[blen(n) - 1] == 93u8 <==> n.last() == ']'),
        n.len() == 0 <==> blen(n) == 0,
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if n.len() > 0 {
        utf8_first(n);
        let b = vstd::utf8::encode_utf8(n);
        assert(n.take(n.len() as int) =~= n);
        if n.last() == ']' { utf8_at(n, n.len() - 1); }
        if b[b.len() - 1] == 93u8 {
            utf8_ascii(n, b.len() - 1);
            let k = choose|k: int| #[trigger] boundary(n, k, b.len() - 1) && k < n.len() && n[k] as u32 == b[b.len() - 1] as u32;
            utf8_at(n, k);
            if k < n.len() - 1 { boundary_order(n, k + 1, n.len() as int); }
        }
    }
}
proof fn bracket_bytes(n: Seq<char>, ind: int)
    requires
        n.len() > 0, n.last() == ']', 0 <= ind < blen(n), vstd::utf8::encode_utf8(n)[ind] == 91u8,
        forall|j: int| ind < j < blen(n) ==> vstd::utf8::encode_utf8(n)[j] != 91u8,
    ensures
        ind + 1 <= blen(n) - 1,
        brackets(n) matches Some((o, i)) && vstd::utf8::encode_utf8(n).subrange(0, ind) == vstd::utf8::encode_utf8(o)
            && vstd::utf8::encode_utf8(n).subrange(ind + 1, blen(n) - 1) == vstd::utf8::encode_utf8(i),
{
    let b = vstd::utf8::encode_utf8(n);
    utf8_ascii(n, ind);
    let k = choose|k: int| #[trigger] boundary(n, k, ind) && k < n.len() && n[k] as u32 == b[ind] as u32;
    assert(n[k] == '[');
    assert(k < n.len() - 1);
    assert forall|j: int| k < j < n.len() implies n[j] != '[' by {
        if n[j] == '[' { utf8_at(n, j); boundary_order(n, k, j); }
    }
    rfind_char_last(n, '[', k);
    utf8_at(n, k);
    utf8_at(n, n.len() - 1);
    assert(n.take(n.len() as int) =~= n);
    utf8_sub(n, 0, k);
    assert(n.subrange(0, k) =~= n.take(k));
    assert(n.take(0) =~= seq![]);
    assert(blen(n.take(0)) == 0) by { reveal_with_fuel(vstd::utf8::encode_utf8, 1); }
    utf8_sub(n, k + 1, n.len() - 1);
}
proof fn no_bracket(n: Seq<char>)
    requires n.len() > 0, forall|j: int| 0 <= j < blen(n) ==> #[trigger] vstd::utf8::encode_utf8(n)[j] != 91u8,
    ensures brackets(n) is None,
{
    assert forall|j: int| 0 <= j < n.len() implies n[j] != '[' by { if n[j] == '[' { utf8_at(n, j); } }
    rfind_char_last(n, '[', 0);
}
pub open spec fn last_bracket(n: Seq<char>, ind: int) -> bool {
    &&& n.len() > 0 && n.last() == ']' && 0 <= ind < blen(n) && vstd::utf8::encode_utf8(n)[ind] == 91u8
    &&& forall|j: int| ind < j < blen(n) ==> #[trigger] vstd::utf8::encode_utf8(n)[j] != 91u8
}
/// every byte of a name, met when walking its bytes from the end
proof fn from_end(b: Seq<u8>)
    ensures
        refs(b).reverse().len() == b.len(),
        forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == *refs(b).reverse()[b.len() - 1 - j],
        forall|j: int| 0 <= j < b.len() ==> *#[trigger] refs(b).reverse()[j] == b[b.len() - 1 - j],
{ }
pub open spec fn cut_brackets(n: Seq<char>, ind: int) -> bool {
    &&& ind + 1 <= blen(n) - 1 && brackets(n) is Some
    &&& vstd::utf8::encode_utf8(n).subrange(0, ind) == vstd::utf8::encode_utf8((brackets(n)->0).0)
    &&& vstd::utf8::encode_utf8(n).subrange(ind + 1, blen(n) - 1) == vstd::utf8::encode_utf8((brackets(n)->0).1)
}
proof fn all_brackets(n: Seq<char>)
    ensures
        forall|ind: int| #![trigger vstd::utf8::encode_utf8(n).subrange(0, ind)] #![trigger last_bracket(n, ind)] last_bracket(n, ind) ==> cut_brackets(n, ind),
        n.len() > 0 && (forall|j: int| 0 <= j < blen(n) ==> #[trigger] vstd::utf8::encode_utf8(n)[j] != 91u8) ==> brackets(n) is None,
{
    assert forall|ind: int| #[trigger] last_bracket(n, ind) implies cut_brackets(n, ind) by { bracket_bytes(n, ind); }
    if n.len() > 0 && (forall|j: int| 0 <= j < blen(n) ==> #[trigger] vstd::utf8::encode_utf8(n)[j] != 91u8) { no_bracket(n); }
}
proof fn same_string(s: Seq<char>)
    ensures vstd::utf8::valid_utf8(vstd::utf8::encode_utf8(s)), forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == vstd::utf8::encode_utf8(s) ==> t == s,
{
    vstd::utf8::encode_utf8_valid_utf8(s);
    assert forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == vstd::utf8::encode_utf8(s) implies t == s by { utf8_inj(t, s); }
}
proof fn same_bytes()
    ensures forall|a: Seq<u8>, b: Seq<u8>| #[trigger] all_cloned(a, b) ==> a == b,
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] all_cloned(a, b) implies a == b by { assert(a =~= b); }
}
impl QueryValue {
@@fn src/query.rs QueryValue::get_str
@props C10
@ret r
@spec
    ensures match q(*self) { Q::S(s) => r matches Some(x) && x@ == s, _ => r is None },
@@end
@@fn src/query.rs QueryValue::get_arr
@props C10
@ret r
@spec
    ensures match q(*self) { Q::A(a) => r matches Some(x) && strings(x@) == a, _ => r is None },
@@end
@@fn src/query.rs QueryValue::get_obj
@props C10
@ret r
@spec
    ensures match q(*self) { Q::O(o) => r matches Some(x) && sv(x@) == o, _ => r is None },
@@end
}
@@fn src/query.rs parse_extended_query
@props C10
@ret r
@params query
@spec
    ensures qs(r@) == ext_query(query@),
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@loopbefore 0
    let ghost parts = vx_it0@;
    proof { assert(qs(ret@) =~= Map::empty()); }
@loop 0
    invariant
        strs(parts) == split_on(query@, '&'),
        vx_it0@.len() <= parts.len(),
        vx_it0@ == parts.skip(parts.len() - vx_it0@.len()),
        qs(ret@) == ext(strs(parts), parts.len() - vx_it0@.len()),
        ""@ == Seq::<char>::empty(),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = parts.len() - vx_it0@.len();
    let ghost m0 = ret@;
    proof {
        assert(vx_it0@ =~= parts.skip(n));
        assert(tok == parts[n - 1]);
        assert(strs(parts)[n - 1] == tok@);
        assert(ext(strs(parts), n) == ext_step(ext(strs(parts), n - 1), tok@));
        cut_facts(tok@);
        let nm = cut(tok@).0;
        name_bytes(nm);
        all_brackets(nm);
        from_end(vstd::utf8::encode_utf8(nm));
        same_bytes();
        if let Some((o, i)) = brackets(nm) { same_string(o); same_string(i); name_bytes(i); }
        assert(strings(Seq::empty()) =~= Seq::empty());
        assert(sv(Map::empty()) =~= Map::empty());
        assert(Seq::<Seq<char>>::empty().push(decode(cut(tok@).1->0)) =~= seq![decode(cut(tok@).1->0)]);
        assert forall|m: Map<Seq<char>, QueryValue>, k: Seq<char>, v: QueryValue| #[trigger] qs(m.insert(k, v)) == qs(m).insert(k, q(v)) by { assert(qs(m.insert(k, v)) =~= qs(m).insert(k, q(v))); }
        assert forall|m: Map<Seq<char>, String>, k: Seq<char>, v: String| #[trigger] sv(m.insert(k, v)) == sv(m).insert(k, v@) by { assert(sv(m.insert(k, v)) =~= sv(m).insert(k, v@)); }
        assert forall|a: Seq<String>, v: String| #[trigger] strings(a.push(v)) == strings(a).push(v@) by { assert(strings(a.push(v)) =~= strings(a).push(v@)); }
    }
@closure 0
    -> (z: bool)
    ensures z == (*vx_c0_0 == 91u8),
@@end
