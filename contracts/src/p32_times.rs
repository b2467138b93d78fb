//! P32: times to STRING.
use crate::cal::*;
use crate::core::*;
use crate::strs::*;
use iec61131std::extra_functions as real;

fn date(x: i64) -> String { let f = fields(x); format!("{:04}-{:02}-{:02}", f.y, f.mo, f.d) }
/// The time of day with as many decimals as needed, in groups of three.
fn tod(x: i64) -> String {
    let f = fields(x);
    let hms = format!("{:02}:{:02}:{:02}", f.h, f.mi, f.s);
    if f.ns == 0 { hms } else if f.ns % 1_000_000 == 0 { format!("{hms}.{:03}", f.ns / 1_000_000) }
    else if f.ns % 1000 == 0 { format!("{hms}.{:06}", f.ns / 1000) } else { format!("{hms}.{:09}", f.ns) }
}
/// The components that are not zero, largest first, with a minus sign in front of a negative duration.
fn time(x: i64) -> String {
    let m = (x as i128).abs();
    let mut t = String::from(if x < 0 { "-" } else { "" });
    for (v, u) in [(m / DAY, "d"), (m / (3600 * SEC) % 24, "h"), (m / (60 * SEC) % 60, "m"), (m / SEC % 60, "s"), (m / 1_000_000 % 1000, "ms"), (m / 1000 % 1000, "us"), (m % 1000, "ns")] {
        if v != 0 { t += &format!("{v}{u}") }
    }
    t
}
fn on(want: &str, f: Stale, call: impl FnOnce(*mut u8) -> i32) -> Wrote<u8> { dest(81, want.len() + 1, f.0, |d| (call(d), true)) }
fn is(w: &Wrote<u8>, want: &str) -> bool { wrote(w, &want.chars().collect::<Vec<_>>()) }
macro_rules! texts { ($($f:ident |$x:ident| $e:expr;)*) => { contracts! { group texts by native; $(
    fn $f($x: i64, f: Stale) -> Wrote<u8> = on(&$e, f, |d| unsafe { real::$f($x, d) });
    post r is(r, &$e);
)* } } }
texts! {
    TIME_TO_STRING_EXT |x| time(x);
    DT_TO_STRING_EXT |x| format!("{}-{}", date(x), tod(x));
    DATE_TO_STRING_EXT |x| date(x);
    TOD_TO_STRING_EXT |x| tod(x);
}
