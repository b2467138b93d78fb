//! P19: TIME times and divided by integers.
use crate::cal::fits;
use crate::core::*;
use iec61131std::date_time_numeric_functions as real;

macro_rules! mul { ($($f:ident $t:ty;)*) => { contracts! { group mul by native; $(
    fn $f(a: i64, b: $t) -> i64 = real::$f(a, b);
    given (b as i128) < 1 << 63;
    valid fits(a as i128 * b as i128);
    post r *r as i128 == a as i128 * b as i128;
)* } } }
macro_rules! div { ($($f:ident $t:ty;)*) => { contracts! { group div by native; $(
    fn $f(a: i64, b: $t) -> i64 = real::$f(a, b);
    given (b as i128) < 1 << 63;
    valid b != 0 && fits(a as i128 / b as i128);
    post r *r as i128 == a as i128 / b as i128;
)* } } }
// a ULINT operand of 2^63 or more may be rejected
macro_rules! big { ($($g:ident $op:tt: $($f:ident)*;)*) => { $(contracts! { group $g by native; $(
    fn $f(a: i64, b: u64) -> Option<i64> = guarded(|| real::$f(a, b)).ok();
    given b >= 1 << 63;
    post r r.map_or(true, |r| r as i128 == a as i128 $op b as i128);
)* })* } }
mul! {
    MUL__TIME__SINT i8;
    MUL__TIME__INT i16;
    MUL__TIME__DINT i32;
    MUL__TIME__LINT i64;
    MUL__TIME__USINT u8;
    MUL__TIME__UINT u16;
    MUL__TIME__UDINT u32;
    MUL__TIME__ULINT u64;
    MUL_TIME__SINT i8;
    MUL_TIME__INT i16;
    MUL_TIME__DINT i32;
    MUL_TIME__LINT i64;
    MUL_TIME__USINT u8;
    MUL_TIME__UINT u16;
    MUL_TIME__UDINT u32;
    MUL_TIME__ULINT u64;
    MUL_LTIME__SINT i8;
    MUL_LTIME__INT i16;
    MUL_LTIME__DINT i32;
    MUL_LTIME__LINT i64;
    MUL_LTIME__USINT u8;
    MUL_LTIME__UINT u16;
    MUL_LTIME__UDINT u32;
    MUL_LTIME__ULINT u64;
}
div! {
    DIV__TIME__SINT i8;
    DIV__TIME__INT i16;
    DIV__TIME__DINT i32;
    DIV__TIME__LINT i64;
    DIV__TIME__USINT u8;
    DIV__TIME__UINT u16;
    DIV__TIME__UDINT u32;
    DIV__TIME__ULINT u64;
    DIV_TIME__SINT i8;
    DIV_TIME__INT i16;
    DIV_TIME__DINT i32;
    DIV_TIME__LINT i64;
    DIV_TIME__USINT u8;
    DIV_TIME__UINT u16;
    DIV_TIME__UDINT u32;
    DIV_TIME__ULINT u64;
    DIV_LTIME__SINT i8;
    DIV_LTIME__INT i16;
    DIV_LTIME__DINT i32;
    DIV_LTIME__LINT i64;
    DIV_LTIME__USINT u8;
    DIV_LTIME__UINT u16;
    DIV_LTIME__UDINT u32;
    DIV_LTIME__ULINT u64;
}
big! { div_big /: DIV__TIME__ULINT DIV_TIME__ULINT DIV_LTIME__ULINT; mul_big *: MUL__TIME__ULINT MUL_TIME__ULINT MUL_LTIME__ULINT; }
