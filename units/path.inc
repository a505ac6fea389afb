// ================= paths (src/path.rs PathBuf) =================
pub struct InvalidPathError;
pub trait VxSelf { fn vx_self_ref(&self) -> (r: &Self) ensures r == self; }
impl<T> VxSelf for Vec<T> { fn vx_self_ref(&self) -> (r: &Vec<T>) { self } }
@@struct src/path.rs PathBuf
impl View for PathBuf { type V = Seq<Seq<char>>; open spec fn view(&self) -> Seq<Seq<char>> { strings(self.chunks@) } }
impl VxClone for PathBuf {
    open spec fn cloned_from(self, o: PathBuf) -> bool { self@ == o@ }
@@fn expanded:octane PathBuf@Clone::clone rename=vx_clone vis=none
@props C01 C02
@ret r
@start
    proof { cloned_strings(); }
@@end
}
impl PathBuf {
@@fn expanded:octane PathBuf@Deref::deref vis=none rettype=&Vec<String>
@props C01 C02
@ret r
@spec
    ensures *r == self.chunks,
@@end
    // method calls on a PathBuf reach its components through deref
    fn vx_iter(&self) -> (r: VxIter<&String>) ensures r@ == refs(self.chunks@) { self.deref().vx_iter() }
    fn len(&self) -> (r: usize) ensures r == self.chunks@.len() { self.deref().len() }
}
// ---------------------------------------------------------------- specification
/// one component of a path applied to the stack of components so far
pub open spec fn push_part(st: Option<Seq<Seq<char>>>, p: Seq<char>) -> Option<Seq<Seq<char>>> {
    match st {
        None => None,
        Some(s) =>
            if p.len() == 0 || p == seq!['.'] { Some(s) }
            else if p == seq!['.', '.'] { if s.len() == 0 { None } else { Some(s.drop_last()) } }
            else { Some(s.push(p)) },
    }
}
/// normalisation of the first n components; None: the path climbs above its root
pub open spec fn norm(parts: Seq<Seq<char>>, n: int) -> Option<Seq<Seq<char>>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { push_part(norm(parts, n - 1), parts[n - 1]) }
}
pub open spec fn normalise(path: Seq<char>) -> Option<Seq<Seq<char>>> {
    norm(split_on(path, '/'), split_on(path, '/').len() as int)
}
/// what every parsed path satisfies: no empty, "." or ".." component and no separator inside one
pub open spec fn wf(c: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() > 0 && c[i] != seq!['.'] && c[i] != seq!['.', '.'] && !c[i].contains('/')
}
pub open spec fn nonempty(c: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() > 0 }
pub open spec fn is_var(c: Seq<char>) -> bool { c.len() > 0 && c[0] == ':' }
pub open spec fn part_matches(pat: Seq<char>, part: Seq<char>) -> bool { is_var(pat) || pat == part }
pub open spec fn matches(pat: Seq<Seq<char>>, path: Seq<Seq<char>>) -> bool {
    pat.len() == path.len() && forall|i: int| 0 <= i < pat.len() ==> part_matches(#[trigger] pat[i], path[i])
}
/// values of the variables among the first n components; of two variables of the same name the later counts
pub open spec fn var_map(pat: Seq<Seq<char>>, path: Seq<Seq<char>>, n: int) -> Map<Seq<char>, Seq<char>> decreases n {
    if n <= 0 { Map::empty() }
    else if is_var(pat[n - 1]) { var_map(pat, path, n - 1).insert(pat[n - 1].skip(1), path[n - 1]) }
    else { var_map(pat, path, n - 1) }
}
pub open spec fn sviews(m: Map<Seq<char>, &str>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: &str| s@) }

proof fn split_no_sep(s: Seq<char>, c: char)
    ensures split_on(s, c).len() >= 1, forall|i: int| 0 <= i < split_on(s, c).len() ==> !(#[trigger] split_on(s, c)[i]).contains(c),
    decreases s.len(),
{
    reveal_with_fuel(split_on, 2);
    if s.len() > 0 {
        split_no_sep(s.drop_last(), c);
        let p = split_on(s.drop_last(), c);
        let l = p.last().push(s.last());
        if s.last() != c {
            assert(!p[p.len() - 1].contains(c));
            assert forall|k: int| 0 <= k < l.len() implies l[k] != c by { if k < p.last().len() { assert(p.last()[k] != c); } }
        }
    }
}
proof fn norm_none(parts: Seq<Seq<char>>, n: int, m: int)
    requires norm(parts, n) is None, n <= m,
    ensures norm(parts, m) is None,
    decreases m - n,
{
    if n < m { norm_none(parts, n, m - 1); }
}

proof fn prefix_eqv(a: Seq<String>, b: Seq<String>)
    ensures b.len() <= a.len() ==> (seq_eqv(refs(a).take(b.len() as int), refs(b)) <==> strings(a).take(b.len() as int) == strings(b)),
{
    if b.len() <= a.len() {
        let (x, y) = (refs(a).take(b.len() as int), refs(b));
        let (u, v) = (strings(a).take(b.len() as int), strings(b));
        if seq_eqv(x, y) {
            assert forall|i: int| 0 <= i < u.len() implies u[i] == v[i] by { assert(VxEq::eqv(&x[i], &y[i])); }
            assert(u =~= v);
        }
        if u == v {
            assert forall|i: int| 0 <= i < x.len() implies VxEq::eqv(#[trigger] &x[i], &y[i]) by { assert(u[i] == v[i]); }
        }
    }
}

impl PathBuf {
@@fn src/path.rs PathBuf::new
@props C04
@ret r
@spec
    ensures r@.len() == 0,
@@end
@@fn src/path.rs PathBuf::parse
@ret r
@params path
@props C04 C01
@spec
    ensures
        match normalise(path@) {
            Some(c) => r matches Ok(p) && p@ == c && wf(p@),
            None => r is Err,
        },
@start
    proof { split_no_sep(path@, '/'); reveal_strlit("."); reveal_strlit(".."); assert("."@ =~= seq!['.']); assert(".."@ =~= seq!['.', '.']); }
@loopbefore 0
    let ghost parts = vx_it0@;
    proof { assert(strings(chunks@) =~= seq![]); }
@loop 0
    invariant
        strs(parts) == split_on(path@, '/'),
        vx_it0@.len() <= parts.len(),
        vx_it0@ == parts.skip(parts.len() - vx_it0@.len()),
        norm(strs(parts), parts.len() - vx_it0@.len()) == Some(strings(chunks@)),
        wf(strings(chunks@)),
        "."@ == seq!['.'], ".."@ == seq!['.', '.'],
        forall|i: int| 0 <= i < split_on(path@, '/').len() ==> !(#[trigger] split_on(path@, '/')[i]).contains('/'),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = parts.len() - vx_it0@.len();
    let ghost st0 = strings(chunks@);
    proof {
        assert(vx_it0@ =~= parts.skip(n));
        assert(chunk == parts[n - 1]);
        assert(strs(parts)[n - 1] == chunk@);
        assert(norm(strs(parts), n) == push_part(norm(strs(parts), n - 1), chunk@));
        if chunk@.len() == 0 { assert(chunk@ =~= Seq::<char>::empty()); }
        if norm(strs(parts), n) is None { norm_none(strs(parts), n, parts.len() as int); }
        assert(chunks@.len() > 0 ==> strings(chunks@.drop_last()) =~= st0.drop_last());
        assert(st0.len() == chunks@.len());
        assert(wf(st0) && st0.len() > 0 ==> wf(st0.drop_last()));
    }
@loopend 0
    proof {
        let t = strings(chunks@);
        if t.len() > st0.len() { assert(t =~= st0.push(chunk@)); } else if t.len() < st0.len() { assert(t =~= st0.drop_last()); } else { assert(t =~= st0); }
    }
@@end
@@fn src/path.rs PathBuf@FromStr::from_str vis=none rettype=Result<PathBuf,InvalidPathError>
@ret r
@params s
@props C04
@spec
    ensures match normalise(s@) { Some(c) => r matches Ok(p) && p@ == c && wf(p@), None => r is Err },
@@end
@@fn src/path.rs PathBuf@TryFrom<String>::try_from vis=none rename=vx_try_from_string rettype=Result<PathBuf,InvalidPathError>
@ret r
@params val
@props C04
@spec
    ensures match normalise(val@) { Some(c) => r matches Ok(p) && p@ == c && wf(p@), None => r is Err },
@@end
@@fn src/path.rs PathBuf@TryFrom<&str>::try_from vis=none rename=vx_try_from_str rettype=Result<PathBuf,InvalidPathError>
@ret r
@params val
@props C04
@spec
    ensures match normalise(val@) { Some(c) => r matches Ok(p) && p@ == c && wf(p@), None => r is Err },
@@end
@@fn src/path.rs PathBuf::chunks
@ret r
@props C04
@spec
    ensures r == self.chunks,
@@end
@@fn src/path.rs PathBuf::check_starts_with
@props C04
@ret r
@params other
@spec
    ensures r == (forall|i: int| 0 <= i < self@.len() && i < other@.len() ==> self@[i] == other@[i]),
@loopbefore 0
    let ghost z = vx_it0@;
@loop 0
    invariant
        z == zipped(refs(self.chunks@), refs(other.chunks@)),
        vx_it0@.len() <= z.len(),
        vx_it0@ == z.skip(z.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < z.len() - vx_it0@.len() ==> self@[i] == other@[i],
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    proof {
        let n = z.len() - vx_it0@.len();
        assert(vx_it0@ =~= z.skip(n));
        assert((a, b) == z[n - 1]);
        assert(self@[n - 1] == a@ && other@[n - 1] == b@);
    }
@@end
@@fn src/path.rs PathBuf::check_matches
@ret r
@params other
@props C02 C01 C04
@spec
    requires nonempty(self@),
    ensures
        r is Some <==> matches(self@, other@),
        r matches Some(m) ==> sviews(m@) == var_map(self@, other@, self@.len() as int),
@loopbefore 0
    let ghost z = vx_it0@;
    proof { assert(sviews(vars@) =~= Map::empty()); assert(self@.len() == other@.len()); }
@loop 0
    invariant
        nonempty(self@),
        self@.len() == other@.len(), z.len() == self@.len(),
        z == zipped(refs(self.chunks@), refs(other.chunks@)),
        vx_it0@.len() <= z.len(),
        vx_it0@ == z.skip(z.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < z.len() - vx_it0@.len() ==> part_matches(#[trigger] self@[i], other@[i]),
        sviews(vars@) == var_map(self@, other@, z.len() - vx_it0@.len()),
    ensures
        vx_it0@.len() == 0,
    decreases vx_it0@.len(),
@loopbody 0
    let ghost n = z.len() - vx_it0@.len();
    let ghost m0 = vars@;
    proof {
        assert(vx_it0@ =~= z.skip(n));
        assert((a, b) == z[n - 1]);
        assert(self@[n - 1] == a@ && other@[n - 1] == b@);
        assert(a@.len() > 0);
        utf8_first(a@);
        assert(is_var(a@) ==> boundary(a@, 1, 1usize as int));
    }
@loopend 0
    proof {
        if is_var(a@) {
            assert(sviews(vars@) =~= sviews(m0).insert(a@.skip(1), b@));
        }
    }
@@end
@@fn src/path.rs PathBuf::subtract
@props C04
@ret r
@params other
@spec
    ensures
        r is Some <==> (other@.len() <= self@.len() && self@.take(other@.len() as int) == other@),
        r matches Some(p) ==> p@ =~= self@.skip(other@.len() as int),
@start
    proof { prefix_eqv(self.chunks@, other.chunks@); }
@@end
@@fn src/path.rs PathBuf::concat
@props C03 C04
@ret r
@params other
@spec
    ensures r@ =~= self@ + other@,
@@end
@@fn src/path.rs PathBuf::concat_owned
@props C03 C04
@ret r
@params other
@spec
    ensures r@ =~= self@ + other@,
@@end
}
@@fn src/path.rs is_ctl
@ret r
@params c
@props C06
@spec
    ensures r == ((c as u32) < 0x20 || c as u32 == 0x7f),
@@end
