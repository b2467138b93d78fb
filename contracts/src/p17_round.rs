//! P17: ROUND.
use crate::core::*;
use iec61131std::numerical_functions as real;

// |x| < 2^23 (2^52): everything at or above is integral. `t` is x without its fraction; x - t is exact.
macro_rules! rounded { ($t:ty, $big:expr, $x:expr, $r:expr) => {{
    let (x, r): ($t, $t) = ($x, $r);
    if x.is_nan() { r.is_nan() } else if !(x.abs() < $big) { r == x } else {
        let t = (x as i64) as $t;
        let d = (x - t).abs();
        let want = if d >= 0.5 { if x < 0.0 { t - 1.0 } else { t + 1.0 } } else { t };
        r == want && (r != 0.0 || r.is_sign_negative() == x.is_sign_negative())
    }
}} }
contracts! { group round;
    fn ROUND__REAL(x: f32) -> f32 = real::ROUND__REAL(x);
    post r rounded!(f32, 8388608.0, x, *r);
    fn ROUND__LREAL(x: f64) -> f64 = real::ROUND__LREAL(x);
    post r rounded!(f64, 4503599627370496.0, x, *r);
}
