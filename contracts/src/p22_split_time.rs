//! P22: SPLIT_*, DAY_OF_WEEK, DATE_AND_TIME_TO_*.
use crate::cal::*;
use crate::core::*;
use iec61131std::date_time_conversion as conv;
use iec61131std::date_time_extra_functions as real;

// every output starts from different stale content
macro_rules! split { ($($d:ident $t:ident $dt:ident $ty:ty;)*) => { contracts! { group split by native; $(
    fn $d(x: i64) -> ([$ty; 3], i16) = { let [mut a, mut b, mut c] = [91, 92, 93]; let s = real::$d(x, &mut a, &mut b, &mut c); ([a, b, c], s) };
    valid <$ty>::try_from(fields(x).y).is_ok();
    post r { let f = fields(x); r.1 == 0 && r.0.map(|v| v as i128) == [f.y, f.mo, f.d] };
    fn $t(x: i64) -> ([$ty; 4], i16) = { let [mut a, mut b, mut c, mut d] = [91, 92, 93, 94]; let s = real::$t(x, &mut a, &mut b, &mut c, &mut d); ([a, b, c, d], s) };
    post r { let f = fields(x); r.1 == 0 && r.0.map(|v| v as i128) == [f.h, f.mi, f.s, f.ns / 1_000_000] };
    fn $dt(x: i64) -> ([$ty; 7], i16) = {
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g] = [91, 92, 93, 94, 95, 96, 97];
        let s = real::$dt(x, &mut a, &mut b, &mut c, &mut d, &mut e, &mut f, &mut g); ([a, b, c, d, e, f, g], s) };
    valid <$ty>::try_from(fields(x).y).is_ok();
    post r { let f = fields(x); r.1 == 0 && r.0.map(|v| v as i128) == [f.y, f.mo, f.d, f.h, f.mi, f.s, f.ns / 1_000_000] };
)* } } }
split! {
    SPLIT_DATE__INT SPLIT_TOD__INT SPLIT_DT__INT i16;
    SPLIT_DATE__UINT SPLIT_TOD__UINT SPLIT_DT__UINT u16;
    SPLIT_DATE__DINT SPLIT_TOD__DINT SPLIT_DT__DINT i32;
    SPLIT_DATE__UDINT SPLIT_TOD__UDINT SPLIT_DT__UDINT u32;
    SPLIT_DATE__LINT SPLIT_TOD__LINT SPLIT_DT__LINT i64;
    SPLIT_DATE__ULINT SPLIT_TOD__ULINT SPLIT_DT__ULINT u64;
}
contracts! { group parts by native;
    fn DAY_OF_WEEK(x: i64) -> i8 = real::DAY_OF_WEEK(x);
    // 1970-01-01 was a Thursday
    post r *r as i128 == ((x as i128).div_euclid(DAY) + 4).rem_euclid(7);
    fn DATE_AND_TIME_TO_DATE(x: i64) -> i64 = conv::DATE_AND_TIME_TO_DATE(x);
    valid fits((x as i128).div_euclid(DAY) * DAY);
    post r *r as i128 == (x as i128).div_euclid(DAY) * DAY;
    fn DATE_AND_TIME_TO_TIME_OF_DAY(x: i64) -> i64 = conv::DATE_AND_TIME_TO_TIME_OF_DAY(x);
    post r *r as i128 == (x as i128).rem_euclid(DAY);
    // the parts put together again
    fn split_and_join(x: i64) -> i64 = {
        let (mut y, mut mo, mut d, mut h, mut mi, mut s, mut ms) = (0i32, 0, 0, 0, 0, 0, 0);
        real::SPLIT_DT__DINT(x, &mut y, &mut mo, &mut d, &mut h, &mut mi, &mut s, &mut ms);
        real::CONCAT_DATE_TOD(real::CONCAT_DATE__DINT(y, mo, d), real::CONCAT_TOD__DINT(h, mi, s, ms))
    };
    given fits((x as i128).div_euclid(DAY) * DAY);
    post r *r as i128 == (x as i128).div_euclid(1_000_000) * 1_000_000;
    fn dt_parts_and_join(x: i64) -> i64 = real::CONCAT_DATE_TOD(conv::DATE_AND_TIME_TO_DATE(x), conv::DATE_AND_TIME_TO_TIME_OF_DAY(x));
    given fits((x as i128).div_euclid(DAY) * DAY);
    post r *r == x;
}
