//! P13: MAX, MIN and LIMIT.
use crate::core::*;
use iec61131std::types as real;

#[cfg(kani)]
const N: u32 = 4;
#[cfg(not(kani))]
const N: u32 = 70_000;

fn below<T: PartialOrd>(a: T, b: T) -> bool { a < b }
fn same32(a: f32, b: f32) -> bool { a == b || a.is_nan() && b.is_nan() }
fn same64(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }

// n first: the remaining elements are read but not passed on
macro_rules! ints { ($($max:ident $min:ident $limit:ident $t:ty;)*) => {
    contracts! { group limits; $(
        fn $limit(mn: $t, x: $t, mx: $t) -> $t = real::$limit(mn, x, mx);
        post r *r == if x < mn { mn } else if x > mx { mx } else { x };
    )* }
    contracts! { group lists by proof; $(
        #[kani::unwind(7)]
        fn $max(n: Count, a: Cells<$t>, null: bool) -> $t = unsafe { real::$max(n.0, if null { core::ptr::null() } else { a.as_ptr() }) };
        given n.0 <= N && (n.0 > 0 || null);
        valid !null;
        post r (0..n.0 as usize).any(|i| a[i] == *r) && (0..n.0 as usize).all(|i| a[i] <= *r);
        #[kani::unwind(7)]
        fn $min(n: Count, a: Cells<$t>, null: bool) -> $t = unsafe { real::$min(n.0, if null { core::ptr::null() } else { a.as_ptr() }) };
        given n.0 <= N && (n.0 > 0 || null);
        valid !null;
        post r (0..n.0 as usize).any(|i| a[i] == *r) && (0..n.0 as usize).all(|i| a[i] >= *r);
    )* }
} }
ints! {
    MAX__BOOL MIN__BOOL LIMIT__BOOL u8;
    MAX__BYTE MIN__BYTE LIMIT__BYTE u8;
    MAX__CHAR MIN__CHAR LIMIT__CHAR u8;
    MAX__WORD MIN__WORD LIMIT__WORD u16;
    MAX__WCHAR MIN__WCHAR LIMIT__WCHAR u16;
    MAX__DWORD MIN__DWORD LIMIT__DWORD u32;
    MAX__LWORD MIN__LWORD LIMIT__LWORD u64;
    MAX__SINT MIN__SINT LIMIT__SINT i8;
    MAX__USINT MIN__USINT LIMIT__USINT u8;
    MAX__INT MIN__INT LIMIT__INT i16;
    MAX__UINT MIN__UINT LIMIT__UINT u16;
    MAX__DINT MIN__DINT LIMIT__DINT i32;
    MAX__UDINT MIN__UDINT LIMIT__UDINT u32;
    MAX__LINT MIN__LINT LIMIT__LINT i64;
    MAX__ULINT MIN__ULINT LIMIT__ULINT u64;
    MAX__DATE MIN__DATE LIMIT__DATE i64;
    MAX__DATE_AND_TIME MIN__DATE_AND_TIME LIMIT__DATE_AND_TIME i64;
    MAX__TIME MIN__TIME LIMIT__TIME i64;
    MAX__TIME_OF_DAY MIN__TIME_OF_DAY LIMIT__TIME_OF_DAY i64;
}
// NaN elements do not count while a number is present; the sign of a zero result is left open
macro_rules! floats { ($($max:ident $min:ident $limit:ident $t:ty, $same:ident;)*) => {
    contracts! { group float_limits; $(
        fn $limit(mn: $t, x: $t, mx: $t) -> $t = real::$limit(mn, x, mx);
        post r $same(*r, if x < mn { mn } else if x > mx { mx } else { x });
    )* }
    contracts! { group float_lists by proof; $(
        #[kani::unwind(7)]
        fn $max(n: Count, a: Cells<$t>, null: bool) -> $t = unsafe { real::$max(n.0, if null { core::ptr::null() } else { a.as_ptr() }) };
        given n.0 <= N && (n.0 > 0 || null);
        valid !null;
        post r (0..n.0 as usize).any(|i| $same(a[i], *r)) && (0..n.0 as usize).all(|i| a[i].is_nan() || a[i] <= *r);
        #[kani::unwind(7)]
        fn $min(n: Count, a: Cells<$t>, null: bool) -> $t = unsafe { real::$min(n.0, if null { core::ptr::null() } else { a.as_ptr() }) };
        given n.0 <= N && (n.0 > 0 || null);
        valid !null;
        post r (0..n.0 as usize).any(|i| $same(a[i], *r)) && (0..n.0 as usize).all(|i| a[i].is_nan() || a[i] >= *r);
    )* }
} }
floats! {
    MAX__REAL MIN__REAL LIMIT__REAL f32, same32;
    MAX__LREAL MIN__LREAL LIMIT__LREAL f64, same64;
}
