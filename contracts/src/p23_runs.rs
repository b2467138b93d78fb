//! P23: LEFT, RIGHT, MID.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;

fn left<'a>(t: &'a Text, n: At) -> Option<&'a [char]> { run(t, 0, n.0 as i64) }
fn right<'a>(t: &'a Text, n: At) -> Option<&'a [char]> { run(t, t.0.len() as i64 - n.0 as i64, n.0 as i64) }
fn mid<'a>(t: &'a Text, n: At, p: At) -> Option<&'a [char]> {
    if p.0 < 1 || p.0 as i64 > t.0.len() as i64 { None } else { run(t, p.0 as i64 - 1, n.0 as i64) }
}
fn on<T: Unit>(t: &Text, want: Option<&[char]>, f: Stale, call: impl FnOnce(*const T, *mut T) -> i32) -> Wrote<T> {
    let s = source::<T>(0, &T::enc(&t.0));
    let n = want.map_or(0, units_of::<T>);
    dest(n.max(units_of::<T>(&t.0)), n, f.0, |d| { let r = call(s.ptr(), d); (r, s.unchanged()) })
}
macro_rules! runs { ($g:ident $u:ty: $l:ident $r:ident $m:ident) => { contracts! { group $g by native;
    fn $l(t: Text, n: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, left(&t, n), f, |s, d| unsafe { real::$l(s, n.0, d) });
    valid left(&t, n).is_some();
    post r wrote(r, left(&t, n).unwrap());
    fn $r(t: Text, n: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, right(&t, n), f, |s, d| unsafe { real::$r(s, n.0, d) });
    valid right(&t, n).is_some();
    post r wrote(r, right(&t, n).unwrap());
    fn $m(t: Text, n: At, p: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, mid(&t, n, p), f, |s, d| unsafe { real::$m(s, n.0, p.0, d) });
    valid mid(&t, n, p).is_some();
    post r wrote(r, mid(&t, n, p).unwrap());
} } }
runs! { string u8: LEFT_EXT__STRING RIGHT_EXT__STRING MID_EXT__STRING }
runs! { wstring u16: LEFT_EXT__WSTRING RIGHT_EXT__WSTRING MID_EXT__WSTRING }
