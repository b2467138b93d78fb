//! P24: INSERT, DELETE, REPLACE.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;

fn inserted(t: &Text, i: &Text, p: At) -> Option<Vec<char>> {
    if p.0 < 0 || p.0 as i64 > t.0.len() as i64 { return None; }
    let p = p.0 as usize;
    Some(join(&[&t.0[..p], &i.0, &t.0[p..]]))
}
fn replaced(t: &Text, by: &[char], n: At, p: At) -> Option<Vec<char>> {
    if p.0 < 1 || p.0 as i64 > t.0.len() as i64 || n.0 < 0 || n.0 as i64 + p.0 as i64 - 1 > t.0.len() as i64 { return None; }
    let (p, n) = (p.0 as usize - 1, n.0 as usize);
    Some(join(&[&t.0[..p], by, &t.0[p + n..]]))
}
fn on<T: Unit>(t: &Text, o: &Text, want: Option<Vec<char>>, f: Stale, call: impl FnOnce(*const T, *const T, *mut T) -> i32) -> Wrote<T> {
    let (s, o2) = (source::<T>(0, &T::enc(&t.0)), source::<T>(1, &T::enc(&o.0)));
    let n = want.map_or(0, |w| units_of::<T>(&w));
    dest(n.max(units_of::<T>(&t.0) + units_of::<T>(&o.0)), n, f.0, |d| { let r = call(s.ptr(), o2.ptr(), d); (r, s.unchanged() && o2.unchanged()) })
}
macro_rules! edits { ($g:ident $u:ty: $i:ident $d:ident $r:ident) => { contracts! { group $g by native;
    fn $i(t: Text, i: Text, p: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, &i, inserted(&t, &i, p), f, |s, o, d| unsafe { real::$i(s, o, p.0, d) });
    valid inserted(&t, &i, p).is_some();
    post r wrote(r, &inserted(&t, &i, p).unwrap());
    fn $d(t: Text, n: At, p: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, &Text(vec![]), replaced(&t, &[], n, p), f, |s, _, d| unsafe { real::$d(s, n.0, p.0, d) });
    valid replaced(&t, &[], n, p).is_some();
    post r wrote(r, &replaced(&t, &[], n, p).unwrap());
    fn $r(t: Text, i: Text, n: At, p: At, f: Stale) -> Wrote<$u> = on::<$u>(&t, &i, replaced(&t, &i.0, n, p), f, |s, o, d| unsafe { real::$r(s, o, n.0, p.0, d) });
    valid replaced(&t, &i.0, n, p).is_some();
    post r wrote(r, &replaced(&t, &i.0, n, p).unwrap());
} } }
edits! { string u8: INSERT_EXT__STRING DELETE_EXT__STRING REPLACE_EXT__STRING }
edits! { wstring u16: INSERT_EXT__WSTRING DELETE_EXT__WSTRING REPLACE_EXT__WSTRING }
