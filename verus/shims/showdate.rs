// ---------------------------------------------------------------- text of dates and times (assumed contracts on chrono's Display)
#[verifier::opaque] pub open spec fn date_text(day: int) -> Seq<u8> { pad(cal_y(day), 4) + seq![45u8] + pad(cal_m(day), 2) + seq![45u8] + pad(cal_d(day), 2) }
// the time of day with as many decimals as needed, in groups of three
pub open spec fn frac_text(ns: int) -> Seq<u8> {
    if ns == 0 { Seq::empty() } else if ns % 1_000_000 == 0 { seq![46u8] + pad(ns / 1_000_000, 3) } else if ns % 1000 == 0 { seq![46u8] + pad(ns / 1000, 6) } else { seq![46u8] + pad(ns, 9) }
}
#[verifier::opaque] pub open spec fn tod_text(n: int) -> Seq<u8> { pad(hour_of(n), 2) + seq![58u8] + pad(minute_of(n), 2) + seq![58u8] + pad(second_of(n), 2) + frac_text(subsec_of(n)) }
impl VDisplay for NaiveDate { open spec fn text(self) -> Seq<u8> { date_text(self.dno()) } }
impl VDisplay for NaiveTime { open spec fn text(self) -> Seq<u8> { tod_text(self.n()) } }
// chrono separates date and time by a blank
impl VDisplay for NaiveDateTime { open spec fn text(self) -> Seq<u8> { date_text(self.dayno()) + seq![32u8] + tod_text(self.n()) } }
pub proof fn pad_len(n: int, w: nat) requires 0 <= n < p10(w), w >= 1 ensures pad(n, w as int).len() == w { digits_len(n as nat, w); }
pub proof fn p10s() ensures p10(1) == 10, p10(2) == 100, p10(3) == 1000, p10(4) == 10_000, p10(6) == 1_000_000, p10(9) == 1_000_000_000 { reveal_with_fuel(p10, 10); }
// 1970-01-01 + the 64-bit range of nanoseconds: ten characters of date, at most eighteen of time
pub proof fn date_len(n: int) requires fits64(n) ensures date_text(day_of(n)).len() == 10 {
    reveal(date_text); p10s(); cal_total(day_of(n));
    assert(-106752 <= day_of(n) <= 106751);
    pad_len(cal_y(day_of(n)), 4); pad_len(cal_m(day_of(n)), 2); pad_len(cal_d(day_of(n)), 2);
}
pub proof fn tod_len(n: int) ensures 8 <= tod_text(n).len() <= 18 {
    reveal(tod_text); p10s(); tod_parts(n);
    let ns = subsec_of(n);
    pad_len(hour_of(n), 2); pad_len(minute_of(n), 2); pad_len(second_of(n), 2); pad_len(ns, 9);
    if ns % 1_000_000 == 0 { pad_len(ns / 1_000_000, 3); }
    if ns % 1000 == 0 { pad_len(ns / 1000, 6); }
}
// the time of day of an instant is that of its own time of day
pub proof fn tod_same(n: int) ensures tod_text(tod_of(n)) == tod_text(n), tod_of(tod_of(n)) == tod_of(n) {
    reveal(tod_text);
    let t = tod_of(n);
    assert(t % 86_400_000_000_000 == t);
    vstd::arithmetic::div_mod::lemma_mod_mod(n, 1_000_000_000, 86_400);
    assert(n % 1_000_000_000 == t % 1_000_000_000);
    assert(tod_of(t) == t);
    assert(hour_of(t) == hour_of(n) && minute_of(t) == minute_of(n) && second_of(t) == second_of(n) && subsec_of(t) == subsec_of(n));
}
