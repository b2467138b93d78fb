//! P30: numbers to STRING.
use crate::core::*;
use crate::strs::*;
use iec61131std::extra_functions as real;

fn decimal(x: i128) -> String {
    let (mut m, mut d) = (x.unsigned_abs(), vec![]);
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 { break; }
    }
    if x < 0 { d.push(b'-') }
    d.reverse();
    String::from_utf8(d).unwrap()
}
/// Six decimals below the magnitude, scientific with six from it on.
fn number(x: f64, from: f64) -> String { if x.abs() < from { format!("{x:.6}") } else { format!("{x:.6e}") } }
fn on(want: &str, f: Stale, call: impl FnOnce(*mut u8) -> i32) -> Wrote<u8> { dest(81, want.len() + 1, f.0, |d| (call(d), true)) }
fn is(w: &Wrote<u8>, want: &str) -> bool { wrote(w, &want.chars().collect::<Vec<_>>()) }
macro_rules! texts { ($($f:ident $t:ty, |$x:ident| $e:expr;)*) => { contracts! { group texts by native; $(
    fn $f($x: $t, f: Stale) -> Wrote<u8> = on(&$e, f, |d| unsafe { real::$f($x, d) });
    post r is(r, &$e);
)* } } }
texts! {
    BYTE_TO_STRING_EXT u8, |x| decimal(x as i128);
    LWORD_TO_STRING_EXT u64, |x| decimal(x as i128);
    LINT_TO_STRING_EXT i64, |x| decimal(x as i128);
    LREAL_TO_STRING_EXT f64, |x| number(x, 1e14);
    REAL_TO_STRING_EXT f64, |x| number(x, 1e6);
}
