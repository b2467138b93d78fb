//! P20: TIME times and divided by REAL and LREAL: sign rule over the platform's Duration arithmetic on magnitudes.
use crate::core::*;
use iec61131std::date_time_numeric_functions as real;
use std::time::Duration;

macro_rules! scaled { ($g:ident $t:ty, $m:ident: $($f:ident)*) => { contracts! { group $g by native; $(
    fn $f(a: i64, b: $t) -> i64 = real::$f(a, b);
    valid magnitude(|| Duration::from_nanos(a.unsigned_abs()).$m(b.abs())).is_some();
    post r *r == magnitude(|| Duration::from_nanos(a.unsigned_abs()).$m(b.abs())).unwrap() * if (a < 0) != (b.is_sign_negative()) { -1 } else { 1 };
)* } } }
fn magnitude(f: impl FnOnce() -> Duration) -> Option<i64> {
    guarded(f).ok().and_then(|d| i64::try_from(d.as_nanos()).ok())
}
scaled! { mul_real f32, mul_f32: MUL__TIME__REAL MUL_TIME__REAL MUL_LTIME__REAL }
scaled! { mul_lreal f64, mul_f64: MUL__TIME__LREAL MUL_TIME__LREAL MUL_LTIME__LREAL }
scaled! { div_real f32, div_f32: DIV__TIME__REAL DIV_TIME__REAL DIV_LTIME__REAL }
scaled! { div_lreal f64, div_f64: DIV__TIME__LREAL DIV_TIME__LREAL DIV_LTIME__LREAL }
