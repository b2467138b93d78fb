//! P18: sums and differences of TIME, DATE, TOD and DT (the proof is Verus's; here the same contract is evaluated).
use crate::cal::fits;
use crate::core::*;
use iec61131std::date_time_numeric_functions as real;

macro_rules! exact { ($($f:ident $op:tt;)*) => { contracts! { group sums by native; $(
    fn $f(a: i64, b: i64) -> i64 = real::$f(a, b);
    valid fits(a as i128 $op b as i128);
    post r *r as i128 == a as i128 $op b as i128;
)* } } }
exact! { ADD_TIME +; ADD_TOD_TIME +; ADD_DT_TIME +; SUB_TIME -; SUB_DATE_DATE -; SUB_TOD_TIME -; SUB_TOD_TOD -; SUB_DT_TIME -; SUB_DT_DT -; }
