//! P16: elementary functions forward to the platform's function of the same name, precision and operand order; constants.
//! Under Kani every platform function is replaced by an uninterpreted one: it returns an arbitrary recorded value for
//! the recorded operands and anything for others, so only forwarding the operands unchanged to the right function, and
//! its result unchanged back, meets the postcondition.
use crate::core::*;
use iec61131std::arithmetic_functions as real;

trait Bits: Copy {
    fn bits(self) -> u64;
    fn nan(self) -> bool;
    fn of(b: u64) -> Self;
}
impl Bits for f32 {
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn nan(self) -> bool { self.is_nan() }
    fn of(b: u64) -> f32 { f32::from_bits(b as u32) }
}
impl Bits for f64 {
    fn bits(self) -> u64 { self.to_bits() }
    fn nan(self) -> bool { self.is_nan() }
    fn of(b: u64) -> f64 { f64::from_bits(b) }
}
impl Bits for i32 {
    fn bits(self) -> u64 { self as u32 as u64 }
    fn nan(self) -> bool { false }
    fn of(b: u64) -> i32 { b as i32 }
}
fn same_value<T: Bits>(a: T, b: T) -> bool {
    a.bits() == b.bits() || a.nan() && b.nan()
}

#[cfg(kani)]
mod lib {
    use super::Bits;
    /// (function, first operand, second operand, result)
    pub static mut KNOWN: (u32, u64, u64, u64) = (0, 0, 0, 0);
    pub fn know(f: u32, a: impl Bits, b: impl Bits, r: u64) {
        unsafe { KNOWN = (f, canon(a), canon(b), r) }
    }
    fn canon(a: impl Bits) -> u64 {
        if a.nan() { u64::MAX } else { a.bits() }
    }
    fn app<R: Bits>(f: u32, a: impl Bits, b: impl Bits) -> R {
        unsafe {
            if KNOWN.0 == f && KNOWN.1 == canon(a) && KNOWN.2 == canon(b) { R::of(KNOWN.3) } else { R::of(kani::any()) }
        }
    }
    macro_rules! un { ($($n:ident $t:ty, $id:expr;)*) => { $(pub fn $n(a: $t) -> $t { app($id, a, 0i32) })* } }
    un! { sqrt32 f32, 1; ln32 f32, 2; log10_32 f32, 3; exp32 f32, 4; sin32 f32, 5; cos32 f32, 6; tan32 f32, 7; asin32 f32, 8; acos32 f32, 9;
          atan32 f32, 10; log2_32 f32, 11; exp2_32 f32, 12; sinh32 f32, 13; cosh32 f32, 14; tanh32 f32, 15; exp_m1_32 f32, 16; ln_1p_32 f32, 17; cbrt32 f32, 18;
          sqrt64 f64, 101; ln64 f64, 102; log10_64 f64, 103; exp64 f64, 104; sin64 f64, 105; cos64 f64, 106; tan64 f64, 107; asin64 f64, 108;
          acos64 f64, 109; atan64 f64, 110; log2_64 f64, 111; exp2_64 f64, 112; sinh64 f64, 113; cosh64 f64, 114; tanh64 f64, 115; exp_m1_64 f64, 116; ln_1p_64 f64, 117; cbrt64 f64, 118; }
    pub fn atan2_32(a: f32, b: f32) -> f32 { app(20, a, b) }
    pub fn atan2_64(a: f64, b: f64) -> f64 { app(120, a, b) }
    pub fn powf32(a: f32, b: f32) -> f32 { app(21, a, b) }
    pub fn powf64(a: f64, b: f64) -> f64 { app(121, a, b) }
    pub fn powi32(a: f32, b: i32) -> f32 { app(22, a, b) }
    pub fn powi64(a: f64, b: i32) -> f64 { app(122, a, b) }
}
#[cfg(not(kani))]
mod lib {
    pub fn know<A, B>(_: u32, _: A, _: B, _: u64) {}
}
// what the platform's function returns: under Kani the recorded value, natively the function itself
#[cfg(kani)]
fn platform<T: Bits>(_: impl FnOnce() -> T, r: u64) -> T {
    T::of(r)
}
#[cfg(not(kani))]
fn platform<T: Bits>(f: impl FnOnce() -> T, _: u64) -> T {
    f()
}

macro_rules! math { ($g:ident; $($f:ident ( $($a:ident : $t:ty),* ) -> $r:ty = $id:expr, ($x:expr, $y:expr), $std:expr;)*) => { contracts! { group $g by proof; $(
    #[kani::stub(f32::sqrt, crate::p16_math::lib::sqrt32)]
    #[kani::stub(f32::ln, crate::p16_math::lib::ln32)]
    #[kani::stub(f32::log10, crate::p16_math::lib::log10_32)]
    #[kani::stub(f32::exp, crate::p16_math::lib::exp32)]
    #[kani::stub(f32::sin, crate::p16_math::lib::sin32)]
    #[kani::stub(f32::cos, crate::p16_math::lib::cos32)]
    #[kani::stub(f32::tan, crate::p16_math::lib::tan32)]
    #[kani::stub(f32::asin, crate::p16_math::lib::asin32)]
    #[kani::stub(f32::acos, crate::p16_math::lib::acos32)]
    #[kani::stub(f32::atan, crate::p16_math::lib::atan32)]
    #[kani::stub(f32::log2, crate::p16_math::lib::log2_32)]
    #[kani::stub(f32::exp2, crate::p16_math::lib::exp2_32)]
    #[kani::stub(f32::sinh, crate::p16_math::lib::sinh32)]
    #[kani::stub(f32::cosh, crate::p16_math::lib::cosh32)]
    #[kani::stub(f32::tanh, crate::p16_math::lib::tanh32)]
    #[kani::stub(f32::exp_m1, crate::p16_math::lib::exp_m1_32)]
    #[kani::stub(f32::ln_1p, crate::p16_math::lib::ln_1p_32)]
    #[kani::stub(f32::cbrt, crate::p16_math::lib::cbrt32)]
    #[kani::stub(f32::atan2, crate::p16_math::lib::atan2_32)]
    #[kani::stub(f32::powf, crate::p16_math::lib::powf32)]
    #[kani::stub(f32::powi, crate::p16_math::lib::powi32)]
    #[kani::stub(f64::sqrt, crate::p16_math::lib::sqrt64)]
    #[kani::stub(f64::ln, crate::p16_math::lib::ln64)]
    #[kani::stub(f64::log10, crate::p16_math::lib::log10_64)]
    #[kani::stub(f64::exp, crate::p16_math::lib::exp64)]
    #[kani::stub(f64::sin, crate::p16_math::lib::sin64)]
    #[kani::stub(f64::cos, crate::p16_math::lib::cos64)]
    #[kani::stub(f64::tan, crate::p16_math::lib::tan64)]
    #[kani::stub(f64::asin, crate::p16_math::lib::asin64)]
    #[kani::stub(f64::acos, crate::p16_math::lib::acos64)]
    #[kani::stub(f64::atan, crate::p16_math::lib::atan64)]
    #[kani::stub(f64::log2, crate::p16_math::lib::log2_64)]
    #[kani::stub(f64::exp2, crate::p16_math::lib::exp2_64)]
    #[kani::stub(f64::sinh, crate::p16_math::lib::sinh64)]
    #[kani::stub(f64::cosh, crate::p16_math::lib::cosh64)]
    #[kani::stub(f64::tanh, crate::p16_math::lib::tanh64)]
    #[kani::stub(f64::exp_m1, crate::p16_math::lib::exp_m1_64)]
    #[kani::stub(f64::ln_1p, crate::p16_math::lib::ln_1p_64)]
    #[kani::stub(f64::cbrt, crate::p16_math::lib::cbrt64)]
    #[kani::stub(f64::atan2, crate::p16_math::lib::atan2_64)]
    #[kani::stub(f64::powf, crate::p16_math::lib::powf64)]
    #[kani::stub(f64::powi, crate::p16_math::lib::powi64)]
    fn $f($($a: $t,)* u: u64) -> $r = { lib::know($id, $x, $y, u); real::$f($($a),*) };
    post r same_value(*r, platform(|| $std, u));
)* } } }
math! { reals;
    SQRT__REAL(x: f32) -> f32 = 1, (x, 0i32), f32::sqrt(x);
    LN__REAL(x: f32) -> f32 = 2, (x, 0i32), f32::ln(x);
    LOG__REAL(x: f32) -> f32 = 3, (x, 0i32), f32::log10(x);
    EXP__REAL(x: f32) -> f32 = 4, (x, 0i32), f32::exp(x);
    SIN__REAL(x: f32) -> f32 = 5, (x, 0i32), f32::sin(x);
    COS__REAL(x: f32) -> f32 = 6, (x, 0i32), f32::cos(x);
    TAN__REAL(x: f32) -> f32 = 7, (x, 0i32), f32::tan(x);
    ASIN__REAL(x: f32) -> f32 = 8, (x, 0i32), f32::asin(x);
    ACOS__REAL(x: f32) -> f32 = 9, (x, 0i32), f32::acos(x);
    ATAN__REAL(x: f32) -> f32 = 10, (x, 0i32), f32::atan(x);
    ATAN2__REAL(x: f32, y: f32) -> f32 = 20, (x, y), f32::atan2(x, y);
    EXPT__REAL__REAL(x: f32, y: f32) -> f32 = 21, (x, y), f32::powf(x, y);
    EXPT__REAL__LREAL(x: f32, y: f64) -> f32 = 21, (x, y as f32), f32::powf(x, y as f32);
    EXPT__REAL__DINT(x: f32, y: i32) -> f32 = 22, (x, y), f32::powi(x, y);
}
math! { lreals;
    SQRT__LREAL(x: f64) -> f64 = 101, (x, 0i32), f64::sqrt(x);
    LN__LREAL(x: f64) -> f64 = 102, (x, 0i32), f64::ln(x);
    LOG__LREAL(x: f64) -> f64 = 103, (x, 0i32), f64::log10(x);
    EXP__LREAL(x: f64) -> f64 = 104, (x, 0i32), f64::exp(x);
    SIN__LREAL(x: f64) -> f64 = 105, (x, 0i32), f64::sin(x);
    COS__LREAL(x: f64) -> f64 = 106, (x, 0i32), f64::cos(x);
    TAN__LREAL(x: f64) -> f64 = 107, (x, 0i32), f64::tan(x);
    ASIN__LREAL(x: f64) -> f64 = 108, (x, 0i32), f64::asin(x);
    ACOS__LREAL(x: f64) -> f64 = 109, (x, 0i32), f64::acos(x);
    ATAN__LREAL(x: f64) -> f64 = 110, (x, 0i32), f64::atan(x);
    ATAN2__LREAL(x: f64, y: f64) -> f64 = 120, (x, y), f64::atan2(x, y);
    EXPT__LREAL__LREAL(x: f64, y: f64) -> f64 = 121, (x, y), f64::powf(x, y);
    EXPT__LREAL__REAL(x: f64, y: f32) -> f64 = 121, (x, y as f64), f64::powf(x, y as f64);
    EXPT__LREAL__DINT(x: f64, y: i32) -> f64 = 122, (x, y), f64::powi(x, y);
}
contracts! { group constants;
    fn values() -> bool = true;
    post _r real::PI_LREAL.to_bits() == 0x400921FB54442D18 && real::PI_REAL.to_bits() == 0x40490FDB
        && real::FRAC_PI_2_LREAL.to_bits() == 0x3FF921FB54442D18 && real::FRAC_PI_2_REAL.to_bits() == 0x3FC90FDB
        && real::FRAC_PI_4_LREAL.to_bits() == 0x3FE921FB54442D18 && real::FRAC_PI_4_REAL.to_bits() == 0x3F490FDB
        && real::E_LREAL.to_bits() == 0x4005BF0A8B145769 && real::E_REAL.to_bits() == 0x402DF854;
}
