//! P21: CONCAT_DATE, CONCAT_TOD, CONCAT_DATE_TOD.
use crate::cal::*;
use crate::core::*;
use iec61131std::date_time_extra_functions as real;

/// Nanoseconds of the date named, if there is one and they fit.
fn date(y: i128, m: i128, d: i128) -> Option<i64> {
    // no year outside this range fits
    if !(1600..2300).contains(&y) { return None; }
    day_number(y, m, d).map(|n| n * DAY).filter(|n| fits(*n)).map(|n| n as i64)
}
fn tod(h: i128, m: i128, s: i128, ms: i128) -> Option<i64> {
    let ok = (0..24).contains(&h) && (0..60).contains(&m) && (0..60).contains(&s) && (0..1000).contains(&ms);
    ok.then(|| (((h * 60 + m) * 60 + s) * SEC + ms * 1_000_000) as i64)
}
// arguments near what they name, so that a good share of the tuples is valid
pub struct Near<T, const LO: i64, const N: u64>(pub T);
impl<T: core::fmt::Debug, const LO: i64, const N: u64> core::fmt::Debug for Near<T, LO, N> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) }
}
macro_rules! near { ($($t:ty)*) => { $(
    #[cfg(not(kani))]
    impl<const LO: i64, const N: u64> Arb for Near<$t, LO, N> {
        fn arb(s: &mut Src) -> Self {
            let x = <$t>::arb(s);
            Near(if x as i128 & 3 == 3 { x } else { (LO as $t).wrapping_add((x as u64 / 4 % N) as $t) })
        }
    }
)* } }
near!(i8 u8 i16 u16 i32 u32 i64 u64);
type Year<T> = Near<T, 1675, 590>;
type Upto<T, const N: u64> = Near<T, 0, N>;
macro_rules! dates { ($($f:ident $t:ty;)*) => { contracts! { group dates by native; $(
    fn $f(y: Year<$t>, m: Upto<$t, 14>, d: Upto<$t, 34>) -> i64 = real::$f(y.0, m.0, d.0);
    valid date(y.0 as i128, m.0 as i128, d.0 as i128).is_some();
    post r Some(*r) == date(y.0 as i128, m.0 as i128, d.0 as i128);
)* } } }
macro_rules! tods { ($($f:ident $t:ty;)*) => { contracts! { group tods by native; $(
    fn $f(h: Upto<$t, 25>, m: Upto<$t, 61>, s: Upto<$t, 61>, ms: Upto<$t, 1003>) -> i64 = real::$f(h.0, m.0, s.0, ms.0);
    valid tod(h.0 as i128, m.0 as i128, s.0 as i128, ms.0 as i128).is_some();
    post r Some(*r) == tod(h.0 as i128, m.0 as i128, s.0 as i128, ms.0 as i128);
)* } } }
dates! {
    CONCAT_DATE__INT i16;
    CONCAT_DATE__UINT u16;
    CONCAT_DATE__DINT i32;
    CONCAT_DATE__UDINT u32;
    CONCAT_DATE__LINT i64;
    CONCAT_DATE__ULINT u64;
}
tods! {
    CONCAT_TOD__SINT i8;
    CONCAT_TOD__USINT u8;
    CONCAT_TOD__INT i16;
    CONCAT_TOD__UINT u16;
    CONCAT_TOD__DINT i32;
    CONCAT_TOD__UDINT u32;
    CONCAT_TOD__LINT i64;
    CONCAT_TOD__ULINT u64;
}
contracts! { group joined by native;
    fn CONCAT_DATE_TOD(a: i64, b: i64) -> i64 = real::CONCAT_DATE_TOD(a, b);
    valid fits((a as i128).div_euclid(DAY) * DAY + (b as i128).rem_euclid(DAY));
    post r *r as i128 == (a as i128).div_euclid(DAY) * DAY + (b as i128).rem_euclid(DAY);
}
