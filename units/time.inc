// ================= the Date header (src/time.rs) =================
@@const src/constants.rs LEAPOCH
@@const src/constants.rs DAYS_PER_400Y
@@const src/constants.rs DAYS_PER_100Y
@@const src/constants.rs DAYS_PER_4Y
@@const src/constants.rs DAYS_IN_MONTH
@@struct src/time.rs Time

// ---------------------------------------------------------------- specification: the calendar
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn year_len(y: int) -> int { if leap(y) { 366 } else { 365 } }
/// days from 1970-01-01 to y-01-01
#[verifier::opaque]
pub open spec fn days_to_year(y: int) -> int
    decreases (if y >= 1970 { y - 1970 } else { 0 }),
{
    if y <= 1970 { 0 } else { days_to_year(y - 1) + year_len(y - 1) }
}
#[verifier::opaque]
pub open spec fn month_len(y: int, m: int) -> int {
    if m == 1 { if leap(y) { 29 } else { 28 } }
    else if m == 3 || m == 5 || m == 8 || m == 10 { 30 }
    else { 31 }
}
/// days from the first of January to the first of month m (0 = January)
#[verifier::opaque]
pub open spec fn days_to_month(y: int, m: int) -> int
    decreases (if m >= 0 { m } else { 0 }),
{
    if m <= 0 { 0 } else { days_to_month(y, m - 1) + month_len(y, m - 1) }
}
/// t is the calendar date and time of day of `stamp`
pub open spec fn is_date(t: Time, stamp: int) -> bool {
    &&& t.year >= 1970
    &&& 0 <= t.month < 12
    &&& 1 <= t.day <= month_len(t.year as int, t.month as int)
    &&& days_to_year(t.year as int) + days_to_month(t.year as int, t.month as int) + (t.day - 1) == stamp / 86400
    &&& t.week == (stamp / 86400 + 4) % 7
    &&& 0 <= t.hour < 24 && 0 <= t.min < 60 && 0 <= t.sec < 60
    &&& t.hour * 3600 + t.min * 60 + t.sec == stamp % 86400
}

pub open spec fn leaps(y: int) -> int { (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
#[verifier::spinoff_prover]
proof fn days_closed(y: int)
    requires y >= 1970,
    ensures days_to_year(y) == 365 * (y - 1970) + leaps(y) - 477,
    decreases y,
{
    reveal(days_to_year);
    if y > 1970 {
        days_closed(y - 1);
        let z = y - 1;
        assert(z / 4 - (z - 1) / 4 == if z % 4 == 0 { 1int } else { 0 });
        assert(z / 100 - (z - 1) / 100 == if z % 100 == 0 { 1int } else { 0 });
        assert(z / 400 - (z - 1) / 400 == if z % 400 == 0 { 1int } else { 0 });
        assert(z % 400 == 0 ==> z % 100 == 0);
        assert(z % 100 == 0 ==> z % 4 == 0);
    }
}
proof fn months(y: int)
    ensures
        days_to_month(y, 0) == 0,
        days_to_month(y, 1) == 31,
        forall|m: int| 2 <= m < 12 ==> #[trigger] days_to_month(y, m) == month_len(y, 1) + 31 + mar(m - 2),
{
    reveal_with_fuel(days_to_month, 13);
    reveal_with_fuel(mar, 13); reveal(month_len);
}
/// days from the first of March to the first of the k-th month after March
#[verifier::opaque]
pub open spec fn mar(k: int) -> int decreases (if k >= 0 { k } else { 0 })
{
    if k <= 0 { 0 } else { mar(k - 1) + (if k - 1 == 11 { 29 } else { month_len(0, (k - 1 + 2) % 12) }) }
}
proof fn mar_vals()
    ensures mar(0) == 0, mar(1) == 31, mar(2) == 61, mar(3) == 92, mar(4) == 122, mar(5) == 153, mar(6) == 184,
        mar(7) == 214, mar(8) == 245, mar(9) == 275, mar(10) == 306, mar(11) == 337, mar(12) == 366,
{
    reveal_with_fuel(mar, 13); reveal(month_len);
}
/// leap days up to March-based year 400*qc + 100*c + 4*q + r after 2000
#[verifier::spinoff_prover]
proof fn leap_count(qc: int, c: int, q: int, r: int)
    requires qc >= -1, 0 <= c <= 3, 0 <= q <= 24, 0 <= r <= 3,
    ensures ({
        let n = 400 * qc + 100 * c + 4 * q + r;
        &&& leaps(2000 + n + 1) - leaps(2001) == 97 * qc + 24 * c + q
        &&& (r == 3 && (q != 24 || c == 3)) <==> leap(2000 + n + 1)
        &&& n >= 0 || qc == -1
    }),
{
    let n = 400 * qc + 100 * c + 4 * q + r;
    assert((2000 + n) / 4 == 500 + 100 * qc + 25 * c + q);
    assert((2000 + n) / 100 == 20 + 4 * qc + c);
    assert((2000 + n) / 400 == 5 + qc);
    assert(leaps(2001) == 485);
    assert((2000 + n + 1) % 4 == (r + 1) % 4);
    assert((2000 + n + 1) % 100 == (4 * q + r + 1) % 100);
    assert((2000 + n + 1) % 400 == (100 * c + 4 * q + r + 1) % 400);
}

/// the March-based decomposition of a day number names a calendar date
proof fn finish(d: int, qc: int, c: int, q: int, r: int, rd: int, m: int, rem: int)
    requires
        d >= 0, d == 11017 + 146097 * qc + 36524 * c + 1461 * q + 365 * r + rd,
        qc >= -1, 0 <= c <= 3, 0 <= q <= 24, 0 <= r <= 3, 0 <= rd <= 365,
        rd == 365 ==> r == 3 && (q != 24 || c == 3),
        0 <= m <= 11, rem + mar(m) == rd, 0 <= rem < mar(m + 1) - mar(m),
    ensures ({
        let n = 400 * qc + 100 * c + 4 * q + r;
        let y = if m < 10 { 2000 + n } else { 2001 + n };
        let mm = if m < 10 { m + 2 } else { m - 10 };
        &&& y >= 1970
        &&& days_to_year(y) + days_to_month(y, mm) + rem == d
        &&& rem < month_len(y, mm)
    }),
{
    mar_vals();
    reveal(month_len); reveal_with_fuel(days_to_year, 2);
    leap_count(qc, c, q, r);
    let n = 400 * qc + 100 * c + 4 * q + r;
    assert(leaps(2001) == 485);
    assert(n >= -31);
    days_closed(2001 + n);
    assert(days_to_year(2001 + n) == d - rd + 306);
    months(2000 + n);
    months(2001 + n);
    if m < 10 {
        assert(n >= -30);
        assert(days_to_year(2001 + n) == days_to_year(2000 + n) + year_len(2000 + n));
        assert(mar(m + 1) - mar(m) == month_len(2000 + n, m + 2)) by { reveal_with_fuel(mar, 2); }
    } else if m == 11 {
        assert(rem == 28 ==> rd == 365);
    }
}

proof fn tod(x: int)
    requires 0 <= x < 86400,
    ensures (x / 3600) * 3600 + ((x / 60) % 60) * 60 + x % 60 == x, 0 <= x / 3600 < 24,
{
    assert(x / 3600 == (x / 60) / 60);
}

impl Time {
@@fn src/time.rs Time::time
@ret r
@params stamp
@spec
    requires stamp >= 0,
    ensures r matches Some(t) && is_date(t, stamp as int),
@loop 0
    invariant
        0 <= month <= 11,
        remdays >= 0,
        0 <= rd0 < 366,
        remdays + mar(month as int) == rd0,
        mar(month + 1) == mar(month as int) + DAYS_IN_MONTH[month as int],
    ensures
        0 <= month <= 11, remdays + mar(month as int) == rd0,
        0 <= remdays < mar(month + 1) - mar(month as int),
    decreases 12 - month,
@start
    let ghost stamp0 = stamp as int;
    proof { mar_vals(); }
@before let mut wday
    proof {
        assert(days as int == (stamp - 951868800) / 86400 && remsecs as int == (stamp - 951868800) % 86400);
        assert(days as int == stamp / 86400 - 11017 && remsecs as int == stamp as int % 86400);
    }
@before let mut c_cycles
    proof {
        assert(wday as int == (days as int + 3) % 7);
        assert((stamp0 / 86400 + 4) % 7 == (days as int + 3) % 7);
        assert(remdays as int == days as int % 146097 && qc_cycles as int == days as int / 146097);
    }
@before remdays -= c_cycles
    proof {
        assert(0 <= c_cycles <= 3);
        assert(c_cycles * DAYS_PER_100Y == c_cycles * 36524) by (nonlinear_arith) requires DAYS_PER_100Y == 36524;
    }
@before remdays -= q_cycles
    proof {
        assert(0 <= q_cycles <= 24);
        assert(q_cycles * DAYS_PER_4Y == q_cycles * 1461) by (nonlinear_arith) requires DAYS_PER_4Y == 1461;
    }
@before let mut q_cycles
    proof { assert(0 <= c_cycles <= 3 && 0 <= remdays <= 36524); }
@before let mut remyears
    proof { assert(0 <= q_cycles <= 24 && 0 <= remdays <= 1460); }
@loopbefore 0
    proof {
        assert(0 <= remyears <= 3 && 0 <= remdays <= 365);
        assert(days as int == 146097 * qc_cycles + 36524 * c_cycles + 1461 * q_cycles + 365 * remyears + remdays);
    }
    let ghost rd0 = remdays as int;
@loopafter 0
    proof {
        tod(remsecs as int);
        finish(stamp0 / 86400, qc_cycles as int, c_cycles as int, q_cycles as int, remyears as int, rd0, month as int, remdays as int);
    }
@loopstart 0
    proof { mar_vals(); }
@@end
}

// ---- the clock
/// seconds since 1970 the system clock showed during a call
pub uninterp spec fn is_now(s: int) -> bool;
pub struct VxSystemTime;
pub struct VxEpoch;
pub const UNIX_EPOCH: VxEpoch = VxEpoch;
pub struct VxTimeError;
#[verifier::external_body]
pub struct VxSince { s: u64 }
impl VxSince {
    pub uninterp spec fn secs(&self) -> u64;
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() }
}
impl VxSystemTime {
    #[verifier::external_body] pub fn now() -> (r: VxSystemTime) { unimplemented!() }
    /// assumed: the clock is not before 1970 and not past i64 seconds
    #[verifier::external_body] pub fn duration_since(&self, e: VxEpoch) -> (r: Result<VxSince, VxTimeError>) ensures r matches Ok(d) && is_now(d.secs() as int) && d.secs() <= i64::MAX { unimplemented!() }
}
pub trait VxTryInto<T>: Sized { spec fn tri(self) -> Option<T>; fn vx_try_into(self) -> (r: Result<T, VxTimeError>) ensures match self.tri() { Some(t) => r == Ok::<T, VxTimeError>(t), None => r is Err }; }
impl VxTryInto<i64> for u64 { open spec fn tri(self) -> Option<i64> { if self <= i64::MAX { Some(self as i64) } else { None } } #[verifier::external_body] fn vx_try_into(self) -> Result<i64, VxTimeError> { unimplemented!() } }
impl VxTryInto<usize> for i64 { open spec fn tri(self) -> Option<usize> { if 0 <= self <= usize::MAX { Some(self as usize) } else { None } } #[verifier::external_body] fn vx_try_into(self) -> Result<usize, VxTimeError> { unimplemented!() } }
// ---- IMF-fixdate
pub open spec fn two(n: int) -> Seq<char> { seq![digit((n / 10) as nat), digit((n % 10) as nat)] }
pub open spec fn day_name(n: int) -> Seq<char> {
    if n == 0 { seq!['S', 'u', 'n'] } else if n == 1 { seq!['M', 'o', 'n'] } else if n == 2 { seq!['T', 'u', 'e'] } else if n == 3 { seq!['W', 'e', 'd'] }
    else if n == 4 { seq!['T', 'h', 'u'] } else if n == 5 { seq!['F', 'r', 'i'] } else { seq!['S', 'a', 't'] }
}
pub open spec fn month_name(n: int) -> Seq<char> {
    if n == 0 { seq!['J', 'a', 'n'] } else if n == 1 { seq!['F', 'e', 'b'] } else if n == 2 { seq!['M', 'a', 'r'] } else if n == 3 { seq!['A', 'p', 'r'] }
    else if n == 4 { seq!['M', 'a', 'y'] } else if n == 5 { seq!['J', 'u', 'n'] } else if n == 6 { seq!['J', 'u', 'l'] } else if n == 7 { seq!['A', 'u', 'g'] }
    else if n == 8 { seq!['S', 'e', 'p'] } else if n == 9 { seq!['O', 'c', 't'] } else if n == 10 { seq!['N', 'o', 'v'] } else { seq!['D', 'e', 'c'] }
}
/// day-name, day month year hh:mm:ss GMT
pub open spec fn imf(t: Time) -> Seq<char> {
    day_name(t.week as int) + seq![','] + seq![' '] + two(t.day as int) + seq![' '] + month_name(t.month as int) + seq![' '] + dec_int(t.year as int) + seq![' ']
        + two(t.hour as int) + seq![':'] + two(t.min as int) + seq![':'] + two(t.sec as int) + seq![' '] + seq!['G', 'M', 'T']
}
pub open spec fn in_range(t: Time) -> bool { 0 <= t.week < 7 && 0 <= t.month < 12 && 1 <= t.day <= 31 && 0 <= t.hour < 24 && 0 <= t.min < 60 && 0 <= t.sec < 60 }
pub proof fn date_in_range(t: Time, s: int)
    requires is_date(t, s), s >= 0,
    ensures in_range(t),
{ reveal(month_len); }
/// years up to 9999 are four digits
pub proof fn four_digits(t: Time, s: int)
    requires is_date(t, s), 0 <= s < 253402300800,
    ensures t.year <= 9999, dec_int(t.year as int) == two(t.year as int / 100) + two(t.year as int % 100),
{
    let y = t.year as int;
    days_closed(y); days_closed(10000);
    reveal_with_fuel(days_to_month, 13); reveal(month_len);
    assert(leaps(10000) == 9999int / 4 - 9999int / 100 + 9999int / 400);
    if y >= 10000 { assert((y - 1) / 4 - (y - 1) / 100 >= 2400); assert((y - 1) / 400 >= 24); }
    reveal_with_fuel(dec, 5);
    assert(dec_int(y) =~= two(y / 100) + two(y % 100));
}
/// the IMF-fixdate of a moment of the call
pub open spec fn date_now(s: Seq<char>) -> bool { exists|t: Time, n: int| is_now(n) && #[trigger] is_date(t, n) && n >= 0 && s == imf(t) }
pub trait VxBlen { spec fn blv(&self) -> Seq<char>; fn vx_blen(&self) -> (r: usize) ensures r == blen(self.blv()); }
impl VxBlen for String { open spec fn blv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_blen(&self) -> usize { self.len() } }
impl VxBlen for str { open spec fn blv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_blen(&self) -> usize { self.len() } }
@@const src/constants.rs WEEKS
@@const src/constants.rs MONTHS
pub trait Padding: Sized { spec fn num(self) -> int; fn pad_zero(self) -> (r: String) requires 0 <= self.num() < 100 ensures r@ == two(self.num()); }
impl Padding for i64 {
open spec fn num(self) -> int { self as int }
@@fn src/time.rs i64@Padding::pad_zero vis=none
@ret r
@start
    proof { pad_text(self as int); reveal_with_fuel(dec, 2); }
@@end
}
/// the last two bytes of "0" followed by the number
proof fn pad_text(n: int)
    requires 0 <= n < 100,
    ensures forall|t: Seq<char>| #![trigger blen(t)] t == dec_int(0) + dec_int(n) ==> blen(t) == t.len() && 2 <= t.len() <= 3 && boundary(t, t.len() - 2, t.len() - 2) && t.skip(t.len() - 2) == two(n),
{
    reveal_with_fuel(dec, 3);
    let t = dec_int(0) + dec_int(n);
    assert(t =~= if n < 10 { seq![digit(0), digit(n as nat)] } else { seq![digit(0), digit((n / 10) as nat), digit((n % 10) as nat)] });
    ascii_len(t, t.len() as int); ascii_len(t, t.len() - 2);
    assert(t.take(t.len() as int) =~= t);
    assert(t.skip(t.len() - 2) =~= two(n));
}
proof fn ascii_len(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s.take(k)) == k,
    decreases k,
{
    if k == 0 { assert(s.take(0) =~= seq![]); reveal_with_fuel(vstd::utf8::encode_utf8, 2); } else { ascii_len(s, k - 1); utf8_at(s, k - 1); }
}
proof fn week_names()
    ensures WEEKS@.len() == 7, forall|i: int| 0 <= i < 7 ==> (#[trigger] WEEKS@[i])@ == day_name(i),
{
    reveal_strlit("Sun"); assert("Sun"@ =~= seq!['S', 'u', 'n']); assert(WEEKS@[0]@ =~= day_name(0));
    reveal_strlit("Mon"); assert("Mon"@ =~= seq!['M', 'o', 'n']); assert(WEEKS@[1]@ =~= day_name(1));
    reveal_strlit("Tue"); assert("Tue"@ =~= seq!['T', 'u', 'e']); assert(WEEKS@[2]@ =~= day_name(2));
    reveal_strlit("Wed"); assert("Wed"@ =~= seq!['W', 'e', 'd']); assert(WEEKS@[3]@ =~= day_name(3));
    reveal_strlit("Thu"); assert("Thu"@ =~= seq!['T', 'h', 'u']); assert(WEEKS@[4]@ =~= day_name(4));
    reveal_strlit("Fri"); assert("Fri"@ =~= seq!['F', 'r', 'i']); assert(WEEKS@[5]@ =~= day_name(5));
    reveal_strlit("Sat"); assert("Sat"@ =~= seq!['S', 'a', 't']); assert(WEEKS@[6]@ =~= day_name(6));
}
proof fn month_names()
    ensures MONTHS@.len() == 12, forall|i: int| 0 <= i < 12 ==> (#[trigger] MONTHS@[i])@ == month_name(i),
{
    reveal_strlit("Jan"); assert("Jan"@ =~= seq!['J', 'a', 'n']); assert(MONTHS@[0]@ =~= month_name(0));
    reveal_strlit("Feb"); assert("Feb"@ =~= seq!['F', 'e', 'b']); assert(MONTHS@[1]@ =~= month_name(1));
    reveal_strlit("Mar"); assert("Mar"@ =~= seq!['M', 'a', 'r']); assert(MONTHS@[2]@ =~= month_name(2));
    reveal_strlit("Apr"); assert("Apr"@ =~= seq!['A', 'p', 'r']); assert(MONTHS@[3]@ =~= month_name(3));
    reveal_strlit("May"); assert("May"@ =~= seq!['M', 'a', 'y']); assert(MONTHS@[4]@ =~= month_name(4));
    reveal_strlit("Jun"); assert("Jun"@ =~= seq!['J', 'u', 'n']); assert(MONTHS@[5]@ =~= month_name(5));
    reveal_strlit("Jul"); assert("Jul"@ =~= seq!['J', 'u', 'l']); assert(MONTHS@[6]@ =~= month_name(6));
    reveal_strlit("Aug"); assert("Aug"@ =~= seq!['A', 'u', 'g']); assert(MONTHS@[7]@ =~= month_name(7));
    reveal_strlit("Sep"); assert("Sep"@ =~= seq!['S', 'e', 'p']); assert(MONTHS@[8]@ =~= month_name(8));
    reveal_strlit("Oct"); assert("Oct"@ =~= seq!['O', 'c', 't']); assert(MONTHS@[9]@ =~= month_name(9));
    reveal_strlit("Nov"); assert("Nov"@ =~= seq!['N', 'o', 'v']); assert(MONTHS@[10]@ =~= month_name(10));
    reveal_strlit("Dec"); assert("Dec"@ =~= seq!['D', 'e', 'c']); assert(MONTHS@[11]@ =~= month_name(11));
}
impl Time {
@@fn src/time.rs Time::week_day
@ret r
@spec
    requires 0 <= self.week < 7,
    ensures r matches Some(s) && s@ == day_name(self.week as int),
@start
    proof { week_names(); let e = enumerated(refs(WEEKS@)); assert(e[self.week as int].0 == self.week); }
@closure 0
    -> (z: bool)
    ensures z == (vx_c0_0.0 == self.week),
@@end
@@fn src/time.rs Time::month_day
@ret r
@spec
    requires 0 <= self.month < 12,
    ensures r matches Some(s) && s@ == month_name(self.month as int),
@start
    proof { month_names(); let e = enumerated(refs(MONTHS@)); assert(e[self.month as int].0 == self.month); }
@closure 0
    -> (z: bool)
    ensures z == (vx_c0_0.0 == self.month),
@@end
@@fn src/time.rs Time::format
@ret r
@spec
    requires in_range(*self),
    ensures r@ == imf(*self),
@start
    proof {
        reveal_strlit(":"); reveal_strlit(","); reveal_strlit("GMT"); reveal_strlit("");
        assert(":"@ =~= seq![':']); assert(","@ =~= seq![',']); assert("GMT"@ =~= seq!['G', 'M', 'T']);
        assert(seq!['G', 'M', 'T'] =~= seq!['G'] + seq!['M'] + seq!['T']);
        assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] (a + (b + c)) == a + b + c by { assert(a + (b + c) =~= a + b + c); }
    }
@@end
@@fn src/time.rs Time::now
@ret r
@spec
    ensures r matches Some(t) && exists|n: int| is_now(n) && #[trigger] is_date(t, n) && n >= 0,
@@end
}
