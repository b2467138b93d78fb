// ---------------------------------------------------------------- assumed contracts on chrono and std::time
// An instant is its number of nanoseconds since 1970-01-01T00:00Z, a date its day number; the calendar is the
// proleptic Gregorian one given by ymd_day.
pub open spec fn NSD() -> int { 86_400_000_000_000 }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_len(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub open spec fn before_month(y: int, m: int) -> int {
    (if m <= 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
     else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334int })
    + (if m > 2 && leap(y) { 1int } else { 0 })
}
pub open spec fn ymd_valid(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= month_len(y, m) }
pub open spec fn ymd_day(y: int, m: int, d: int) -> int {
    365 * (y - 1970) + ((y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400) - 477 + before_month(y, m) + d - 1
}
// cal_* is the date of a day number
pub open spec fn is_date(t: (int, int, int), day: int) -> bool { ymd_valid(t.0, t.1, t.2) && ymd_day(t.0, t.1, t.2) == day }
#[verifier::opaque] pub open spec fn cal(day: int) -> (int, int, int) { choose|t: (int, int, int)| is_date(t, day) }
pub open spec fn cal_y(day: int) -> int { cal(day).0 }
pub open spec fn cal_m(day: int) -> int { cal(day).1 }
pub open spec fn cal_d(day: int) -> int { cal(day).2 }
// every day has a date, and the years of the 64-bit nanosecond range
pub open spec fn cal_ok(day: int) -> bool {
    ymd_valid(cal_y(day), cal_m(day), cal_d(day)) && ymd_day(cal_y(day), cal_m(day), cal_d(day)) == day
        && (-106752 <= day <= 106751 ==> 1677 <= cal_y(day) <= 2262)
}
pub open spec fn following(t: (int, int, int)) -> (int, int, int) {
    if t.2 < month_len(t.0, t.1) { (t.0, t.1, t.2 + 1) } else if t.1 < 12 { (t.0, t.1 + 1, 1) } else { (t.0 + 1, 1, 1) }
}
pub open spec fn preceding(t: (int, int, int)) -> (int, int, int) {
    if t.2 > 1 { (t.0, t.1, t.2 - 1) } else if t.1 > 1 { (t.0, t.1 - 1, month_len(t.0, t.1 - 1)) } else { (t.0 - 1, 12, 31) }
}
#[verifier::spinoff_prover] proof fn step4(y: int) ensures y / 4 == (y - 1) / 4 + (if y % 4 == 0 { 1int } else { 0 }) {}
#[verifier::spinoff_prover] proof fn step100(y: int) ensures y / 100 == (y - 1) / 100 + (if y % 100 == 0 { 1int } else { 0 }) {}
#[verifier::spinoff_prover] proof fn step400(y: int) ensures y / 400 == (y - 1) / 400 + (if y % 400 == 0 { 1int } else { 0 }) {}
#[verifier::spinoff_prover] proof fn nested(y: int) ensures y % 400 == 0 ==> y % 100 == 0, y % 100 == 0 ==> y % 4 == 0 {}
#[verifier::spinoff_prover] proof fn leaps(y: int) ensures (y / 4 - y / 100 + y / 400) == ((y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400) + (if leap(y) { 1int } else { 0 }) {
    step4(y); step100(y); step400(y); nested(y);
}
proof fn months(y: int, m: int) requires 1 <= m < 12 ensures before_month(y, m + 1) == before_month(y, m) + month_len(y, m) {}
proof fn years(y: int) ensures ymd_day(y + 1, 1, 1) == ymd_day(y, 12, 31) + 1 { leaps(y); }
#[verifier::spinoff_prover] proof fn next_day(t: (int, int, int), day: int) requires is_date(t, day) ensures is_date(following(t), day + 1), is_date(preceding(t), day - 1) {
    hide(leap);
    let (y, m) = (t.0, t.1);
    if m < 12 { months(y, m); }
    if m > 1 { months(y, m - 1); }
    assert(ymd_day(y + 1, 1, 1) == ymd_day(y, 12, 31) + 1) by { years(y); }
    assert(ymd_day(y, 1, 1) == ymd_day(y - 1, 12, 31) + 1) by { years(y - 1); }
    assert(month_len(y, 12) == 31 && month_len(y - 1, 12) == 31);
}
proof fn has_date(day: int) -> (t: (int, int, int)) ensures is_date(t, day) decreases if day < 0 { -day } else { day } {
    if day == 0 { (1970, 1, 1) }
    else if day > 0 { let t = has_date(day - 1); next_day(t, day - 1); following(t) }
    else { let t = has_date(day + 1); next_day(t, day + 1); preceding(t) }
}
pub proof fn cal_total(day: int) ensures cal_ok(day) {
    reveal(cal);
    let t = has_date(day);
    assert(is_date(cal(day), day));
}
pub open spec fn tod_ns(h: int, m: int, s: int, ns: int) -> int { ((h * 60 + m) * 60 + s) * 1_000_000_000 + ns }
pub open spec fn tod_of(n: int) -> int { n % NSD() }
pub open spec fn day_of(n: int) -> int { n / NSD() }
pub open spec fn hour_of(n: int) -> int { tod_of(n) / 3_600_000_000_000 }
pub open spec fn minute_of(n: int) -> int { tod_of(n) / 60_000_000_000 % 60 }
pub open spec fn second_of(n: int) -> int { tod_of(n) / 1_000_000_000 % 60 }
pub open spec fn subsec_of(n: int) -> int { n % 1_000_000_000 }
// the fields of the time of day are its mixed-radix digits
pub open spec fn tod_ok(n: int) -> bool {
    &&& 0 <= hour_of(n) < 24 &&& 0 <= minute_of(n) < 60 &&& 0 <= second_of(n) < 60 &&& 0 <= subsec_of(n) < 1_000_000_000
    &&& tod_of(n) == tod_ns(hour_of(n), minute_of(n), second_of(n), subsec_of(n)) &&& 0 <= tod_of(n) < NSD() &&& n == day_of(n) * NSD() + tod_of(n)
}
#[verifier::spinoff_prover] proof fn sub_of_day(n: int) ensures n % 1_000_000_000 == (n % 86_400_000_000_000) % 1_000_000_000 {}
#[verifier::spinoff_prover] proof fn by_60(t: int) ensures t / 60_000_000_000 == (t / 1_000_000_000) / 60 {}
#[verifier::spinoff_prover] proof fn by_3600(t: int) ensures t / 3_600_000_000_000 == (t / 60_000_000_000) / 60 {}
#[verifier::spinoff_prover] proof fn tod_digits(t: int, s: int, m: int, h: int, f: int) requires 0 <= t < 86_400_000_000_000, s == t / 1_000_000_000, f == t % 1_000_000_000, m == s / 60, h == m / 60
    ensures 0 <= h < 24, 0 <= s < 86_400, 0 <= m < 1440, 0 <= f < 1_000_000_000, t == ((h * 60 + m % 60) * 60 + s % 60) * 1_000_000_000 + f {}
#[verifier::spinoff_prover] pub proof fn tod_parts(n: int) ensures tod_ok(n) {
    let t = n % 86_400_000_000_000;
    sub_of_day(n); by_60(t); by_3600(t);
    tod_digits(t, t / 1_000_000_000, t / 60_000_000_000, t / 3_600_000_000_000, t % 1_000_000_000);
}
// far inside chrono's own limits (years -262143 to 262142; Duration +- 2^63 ms)
pub open spec fn near(n: int) -> bool { -0x4_0000_0000_0000_0000 <= n <= 0x4_0000_0000_0000_0000 }
pub open spec fn near_day(d: int) -> bool { -95_000_000 <= d <= 95_000_000 }

pub struct Delta { g: Ghost<int> }
pub struct DateTime { g: Ghost<int>, frac: Ghost<bool> }
pub struct NaiveDateTime { g: Ghost<int>, frac: Ghost<bool> }
pub struct NaiveDate { g: Ghost<int> }
pub struct NaiveTime { g: Ghost<int>, frac: Ghost<bool> }
pub struct Weekday { g: Ghost<int> }
impl Copy for Delta {} impl Clone for Delta { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DateTime {} impl Clone for DateTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveDateTime {} impl Clone for NaiveDateTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveDate {} impl Clone for NaiveDate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NaiveTime {} impl Clone for NaiveTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Weekday {} impl Clone for Weekday { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Delta { pub closed spec fn n(self) -> int { self.g@ } }
impl DateTime { pub closed spec fn n(self) -> int { self.g@ } pub closed spec fn leap(self) -> bool { self.frac@ } }
impl NaiveDateTime { pub closed spec fn n(self) -> int { self.g@ } pub closed spec fn leap(self) -> bool { self.frac@ } }
impl NaiveDate { pub closed spec fn dno(self) -> int { self.g@ } }
impl NaiveTime { pub closed spec fn n(self) -> int { self.g@ } pub closed spec fn leap(self) -> bool { self.frac@ } }
impl Weekday { pub closed spec fn sunday0(self) -> int { self.g@ } }

impl Delta {
    #[verifier::external_body] pub fn nanoseconds(n: i64) -> (r: Delta) ensures r.n() == n { unimplemented!() }
    #[verifier::external_body] pub fn microseconds(n: i64) -> (r: Delta) ensures r.n() == n * 1000 { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: Delta) ensures r.n() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn v_checked_add(&self, o: &Delta) -> (r: Option<Delta>)
        ensures near(self.n() + o.n()) ==> r is Some, r is Some ==> r->0.n() == self.n() + o.n() { unimplemented!() }
    #[verifier::external_body] pub fn v_checked_sub(&self, o: &Delta) -> (r: Option<Delta>)
        ensures near(self.n() - o.n()) ==> r is Some, r is Some ==> r->0.n() == self.n() - o.n() { unimplemented!() }
    #[verifier::external_body] pub fn num_nanoseconds(&self) -> (r: Option<i64>) ensures r is Some <==> fits64(self.n()), r is Some ==> r->0 == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn num_microseconds(&self) -> (r: Option<i64>) ensures r is Some <==> fits64(tdiv(self.n(), 1000)), r is Some ==> r->0 == tdiv(self.n(), 1000) { unimplemented!() }
    #[verifier::external_body] pub fn num_milliseconds(&self) -> (r: i64) ensures near(self.n()) ==> r == tdiv(self.n(), 1_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn num_seconds(&self) -> (r: i64) ensures near(self.n()) ==> r == tdiv(self.n(), 1_000_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn num_days(&self) -> (r: i64) ensures near(self.n()) ==> r == tdiv(self.n(), NSD()) { unimplemented!() }
}
pub struct Utc;
impl Utc {
    #[verifier::external_body] pub fn timestamp_nanos(&self, n: i64, vk: Ghost<bool>) -> (r: DateTime) ensures r.n() == n, !r.leap() { unimplemented!() }
}
macro_rules! clocklike { ($t:ident) => { verus!{
impl $t {
    #[verifier::external_body] pub fn hour(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == hour_of(self.n()), r < 24 { unimplemented!() }
    #[verifier::external_body] pub fn minute(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == minute_of(self.n()), r < 60 { unimplemented!() }
    #[verifier::external_body] pub fn second(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == second_of(self.n()), r < 60 { unimplemented!() }
    #[verifier::external_body] pub fn nanosecond(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == subsec_of(self.n()), r < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn num_seconds_from_midnight(&self) -> (r: u32) requires !self.leap() ensures r == tod_of(self.n()) / 1_000_000_000, r < 86_400 { unimplemented!() }
}
} } }
clocklike!{ DateTime }
clocklike!{ NaiveDateTime }
clocklike!{ NaiveTime }
macro_rules! datelike { ($t:ident, $d:ident) => { verus!{
impl $t {
    #[verifier::external_body] pub fn year(&self) -> (r: i32) requires !self.leap() ensures cal_ok(self.$d()), r == cal_y(self.$d()) { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: u32) requires !self.leap() ensures cal_ok(self.$d()), r == cal_m(self.$d()) { unimplemented!() }
    #[verifier::external_body] pub fn month0(&self) -> (r: u32) requires !self.leap() ensures cal_ok(self.$d()), r == cal_m(self.$d()) - 1 { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: u32) requires !self.leap() ensures cal_ok(self.$d()), r == cal_d(self.$d()) { unimplemented!() }
    #[verifier::external_body] pub fn day0(&self) -> (r: u32) requires !self.leap() ensures cal_ok(self.$d()), r == cal_d(self.$d()) - 1 { unimplemented!() }
    // 1970-01-01 was a Thursday
    #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) requires !self.leap() ensures r.sunday0() == (self.$d() + 4) % 7 { unimplemented!() }
}
} } }
impl DateTime { pub open spec fn dayno(self) -> int { day_of(self.n()) } }
impl NaiveDateTime { pub open spec fn dayno(self) -> int { day_of(self.n()) } }
datelike!{ DateTime, dayno }
datelike!{ NaiveDateTime, dayno }
impl NaiveDate { pub open spec fn dayno(self) -> int { self.dno() } }
impl NaiveDate {
    #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures cal_ok(self.dno()), r == cal_y(self.dno()) { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: u32) ensures cal_ok(self.dno()), r == cal_m(self.dno()) { unimplemented!() }
    #[verifier::external_body] pub fn month0(&self) -> (r: u32) ensures cal_ok(self.dno()), r == cal_m(self.dno()) - 1 { unimplemented!() }
    #[verifier::external_body] pub fn day0(&self) -> (r: u32) ensures cal_ok(self.dno()), r == cal_d(self.dno()) - 1 { unimplemented!() }
    #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) ensures r.sunday0() == (self.dno() + 4) % 7 { unimplemented!() }
}
impl Weekday {
    #[verifier::external_body] pub fn num_days_from_sunday(&self) -> (r: u32) ensures r == self.sunday0() { unimplemented!() }
    #[verifier::external_body] pub fn num_days_from_monday(&self) -> (r: u32) ensures r == (self.sunday0() + 6) % 7 { unimplemented!() }
    #[verifier::external_body] pub fn number_from_sunday(&self) -> (r: u32) ensures r == self.sunday0() + 1 { unimplemented!() }
    #[verifier::external_body] pub fn number_from_monday(&self) -> (r: u32) ensures r == (self.sunday0() + 6) % 7 + 1 { unimplemented!() }
}
impl DateTime {
    #[verifier::external_body] pub fn timestamp_nanos(&self, vk: Ghost<bool>) -> (r: i64) requires vk@ ==> fits64(self.n()) ensures fits64(self.n()), r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures r is Some <==> fits64(self.n()), r is Some ==> r->0 == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) requires !self.leap() ensures near(self.n()) ==> r == self.n() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_millis(&self) -> (r: i64) requires !self.leap() ensures near(self.n()) ==> r == self.n() / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_micros(&self) -> (r: i64) requires !self.leap() ensures fits64(self.n()) ==> r == self.n() / 1000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_nanos(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == subsec_of(self.n()), r < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_micros(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == subsec_of(self.n()) / 1000, r < 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_millis(&self) -> (r: u32) requires !self.leap() ensures tod_ok(self.n()), r == subsec_of(self.n()) / 1_000_000, r < 1000 { unimplemented!() }
    #[verifier::external_body] pub fn date_naive(&self) -> (r: NaiveDate) requires !self.leap() ensures r.dno() == day_of(self.n()) { unimplemented!() }
    #[verifier::external_body] pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r.n() == self.n(), r.leap() == self.leap() { unimplemented!() }
    #[verifier::external_body] pub fn naive_local(&self) -> (r: NaiveDateTime) ensures r.n() == self.n(), r.leap() == self.leap() { unimplemented!() }
    #[verifier::external_body] pub fn time(&self) -> (r: NaiveTime) requires !self.leap() ensures r.n() == tod_of(self.n()), !r.leap() { unimplemented!() }
    #[verifier::external_body] pub fn checked_add_signed(self, d: Delta) -> (r: Option<DateTime>) requires !self.leap()
        ensures near(self.n() + d.n()) ==> r is Some, r is Some ==> r->0.n() == self.n() + d.n() && !r->0.leap() { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub_signed(self, d: Delta) -> (r: Option<DateTime>) requires !self.leap()
        ensures near(self.n() - d.n()) ==> r is Some, r is Some ==> r->0.n() == self.n() - d.n() && !r->0.leap() { unimplemented!() }
    #[verifier::external_body] pub fn signed_duration_since(self, o: DateTime) -> (r: Delta) requires !self.leap(), !o.leap() ensures r.n() == self.n() - o.n() { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body] pub fn new(d: NaiveDate, t: NaiveTime) -> (r: NaiveDateTime) ensures r.n() == d.dno() * NSD() + t.n(), r.leap() == t.leap() { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_nanos(&self, vk: Ghost<bool>) -> (r: i64) requires vk@ ==> fits64(self.n()) ensures fits64(self.n()), r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures r is Some <==> fits64(self.n()), r is Some ==> r->0 == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn and_utc(&self) -> (r: DateTime) ensures r.n() == self.n(), r.leap() == self.leap() { unimplemented!() }
    #[verifier::external_body] pub fn date(&self) -> (r: NaiveDate) requires !self.leap() ensures r.dno() == day_of(self.n()) { unimplemented!() }
    #[verifier::external_body] pub fn time(&self) -> (r: NaiveTime) requires !self.leap() ensures r.n() == tod_of(self.n()), !r.leap() { unimplemented!() }
}
pub open spec fn hmsn_ok(h: int, m: int, s: int, ns: int) -> bool { 0 <= h < 24 && 0 <= m < 60 && 0 <= s < 60 && 0 <= ns && (ns < 1_000_000_000 || s == 59 && ns < 2_000_000_000) }
impl NaiveDate {
    #[verifier::external_body] pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>)
        ensures -262_000 <= y <= 262_000 ==> (r is Some <==> ymd_valid(y as int, m as int, d as int)),
            r is Some ==> -262_200 <= y <= 262_200 && ymd_valid(y as int, m as int, d as int) && r->0.dno() == ymd_day(y as int, m as int, d as int) { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: u32) ensures cal_ok(self.dno()), r == cal_d(self.dno()) { unimplemented!() }
    #[verifier::external_body] pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, 0), r is Some ==> r->0.n() == self.dno() * NSD() + tod_ns(h as int, m as int, s as int, 0) && !r->0.leap() { unimplemented!() }
    #[verifier::external_body] pub fn and_hms_milli_opt(&self, h: u32, m: u32, s: u32, ms: u32) -> (r: Option<NaiveDateTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, ms * 1_000_000), r is Some ==> r->0.n() == self.dno() * NSD() + tod_ns(h as int, m as int, s as int, ms * 1_000_000) && r->0.leap() == (ms >= 1000) { unimplemented!() }
    #[verifier::external_body] pub fn and_hms_micro_opt(&self, h: u32, m: u32, s: u32, us: u32) -> (r: Option<NaiveDateTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, us * 1000), r is Some ==> r->0.n() == self.dno() * NSD() + tod_ns(h as int, m as int, s as int, us * 1000) && r->0.leap() == (us >= 1_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn and_hms_nano_opt(&self, h: u32, m: u32, s: u32, ns: u32) -> (r: Option<NaiveDateTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, ns as int), r is Some ==> r->0.n() == self.dno() * NSD() + tod_ns(h as int, m as int, s as int, ns as int) && r->0.leap() == (ns >= 1_000_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn and_time(&self, t: NaiveTime) -> (r: NaiveDateTime) ensures r.n() == self.dno() * NSD() + t.n(), r.leap() == t.leap() { unimplemented!() }
}
impl NaiveTime {
    #[verifier::external_body] pub fn from_hms_opt(h: u32, m: u32, s: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, 0), r is Some ==> r->0.n() == tod_ns(h as int, m as int, s as int, 0) && !r->0.leap() { unimplemented!() }
    #[verifier::external_body] pub fn from_hms_milli_opt(h: u32, m: u32, s: u32, ms: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, ms * 1_000_000), r is Some ==> r->0.n() == tod_ns(h as int, m as int, s as int, ms * 1_000_000) && r->0.leap() == (ms >= 1000) { unimplemented!() }
    #[verifier::external_body] pub fn from_hms_nano_opt(h: u32, m: u32, s: u32, ns: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> hmsn_ok(h as int, m as int, s as int, ns as int), r is Some ==> r->0.n() == tod_ns(h as int, m as int, s as int, ns as int) && r->0.leap() == (ns >= 1_000_000_000) { unimplemented!() }
    #[verifier::external_body] pub fn from_num_seconds_from_midnight_opt(s: u32, ns: u32) -> (r: Option<NaiveTime>)
        ensures r is Some <==> (s < 86_400 && (ns < 1_000_000_000 || s % 60 == 59 && ns < 2_000_000_000)), r is Some ==> r->0.n() == s * 1_000_000_000 + ns && r->0.leap() == (ns >= 1_000_000_000) { unimplemented!() }
}
// Local::now() is a reading of the local clock, as local time; which one is arbitrary, and another call is another reading
pub struct Local;
pub struct LocalTime { g: Ghost<int> }
impl Copy for LocalTime {} impl Clone for LocalTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl LocalTime { pub closed spec fn n(self) -> int { self.g@ } pub open spec fn leap(self) -> bool { false } pub open spec fn dayno(self) -> int { day_of(self.n()) } }
clocklike!{ LocalTime }
datelike!{ LocalTime, dayno }
impl LocalTime {
    #[verifier::external_body] pub fn naive_local(&self) -> (r: NaiveDateTime) ensures r.n() == self.n(), !r.leap() { unimplemented!() }
    #[verifier::external_body] pub fn time(&self) -> (r: NaiveTime) ensures r.n() == tod_of(self.n()), !r.leap() { unimplemented!() }
    // the microseconds and milliseconds of the second do not depend on the zone
    #[verifier::external_body] pub fn timestamp_subsec_nanos(&self) -> (r: u32) ensures tod_ok(self.n()), r == subsec_of(self.n()), r < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_micros(&self) -> (r: u32) ensures tod_ok(self.n()), r == subsec_of(self.n()) / 1000, r < 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_millis(&self) -> (r: u32) ensures tod_ok(self.n()), r == subsec_of(self.n()) / 1_000_000, r < 1000 { unimplemented!() }
}
pub uninterp spec fn is_reading(n: int) -> bool;
impl Local {
    #[verifier::external_body] pub fn now() -> (r: LocalTime) ensures is_reading(r.n()), -200_000_000_000_000_000_000 <= r.n() <= 200_000_000_000_000_000_000 { unimplemented!() }
}
// std::time::Duration: magnitudes; the floating point products are named by the platform's functions
pub uninterp spec fn mulf32(n: int, f: f32) -> Option<int>;
pub uninterp spec fn mulf64(n: int, f: f64) -> Option<int>;
pub uninterp spec fn divf32(n: int, f: f32) -> Option<int>;
pub uninterp spec fn divf64(n: int, f: f64) -> Option<int>;
pub struct SDuration { g: Ghost<int> }
impl Copy for SDuration {} impl Clone for SDuration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SDuration {
    pub closed spec fn n(self) -> int { self.g@ }
    #[verifier::external_body] pub fn from_nanos(n: u64) -> (r: SDuration) ensures r.n() == n { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn mul_f32(self, f: f32, vk: Ghost<bool>) -> (r: SDuration) requires vk@ ==> mulf32(self.n(), f) is Some ensures mulf32(self.n(), f) is Some, r.n() == mulf32(self.n(), f)->0, r.n() >= 0 { unimplemented!() }
    #[verifier::external_body] pub fn mul_f64(self, f: f64, vk: Ghost<bool>) -> (r: SDuration) requires vk@ ==> mulf64(self.n(), f) is Some ensures mulf64(self.n(), f) is Some, r.n() == mulf64(self.n(), f)->0, r.n() >= 0 { unimplemented!() }
    #[verifier::external_body] pub fn div_f32(self, f: f32, vk: Ghost<bool>) -> (r: SDuration) requires vk@ ==> divf32(self.n(), f) is Some ensures divf32(self.n(), f) is Some, r.n() == divf32(self.n(), f)->0, r.n() >= 0 { unimplemented!() }
    #[verifier::external_body] pub fn div_f64(self, f: f64, vk: Ghost<bool>) -> (r: SDuration) requires vk@ ==> divf64(self.n(), f) is Some ensures divf64(self.n(), f) is Some, r.n() == divf64(self.n(), f)->0, r.n() >= 0 { unimplemented!() }
}
pub uninterp spec fn neg32(f: f32) -> bool;
pub uninterp spec fn neg64(f: f64) -> bool;
pub uninterp spec fn abs32(f: f32) -> f32;
pub uninterp spec fn abs64(f: f64) -> f64;
pub trait VNum_f32: Sized { fn v_abs(self) -> (r: f32); fn v_is_sign_negative(self) -> (r: bool); fn v_is_sign_positive(self) -> (r: bool); }
impl VNum_f32 for f32 {
    #[verifier::external_body] fn v_abs(self) -> (r: f32) ensures r == abs32(self) { unimplemented!() }
    #[verifier::external_body] fn v_is_sign_negative(self) -> (r: bool) ensures r == neg32(self) { unimplemented!() }
    #[verifier::external_body] fn v_is_sign_positive(self) -> (r: bool) ensures r == !neg32(self) { unimplemented!() }
}
pub trait VNum_f64: Sized { fn v_abs(self) -> (r: f64); fn v_is_sign_negative(self) -> (r: bool); fn v_is_sign_positive(self) -> (r: bool); }
impl VNum_f64 for f64 {
    #[verifier::external_body] fn v_abs(self) -> (r: f64) ensures r == abs64(self) { unimplemented!() }
    #[verifier::external_body] fn v_is_sign_negative(self) -> (r: bool) ensures r == neg64(self) { unimplemented!() }
    #[verifier::external_body] fn v_is_sign_positive(self) -> (r: bool) ensures r == !neg64(self) { unimplemented!() }
}

impl core::ops::Sub for DateTime { type Output = Delta; #[verifier::external_body] fn sub(self, o: DateTime) -> Delta { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl for DateTime {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: DateTime) -> bool { !self.leap() && !o.leap() }
    closed spec fn sub_spec(self, o: DateTime) -> Delta { Delta { g: Ghost(self.n() - o.n()) } }
}
