//! P26: CONCAT.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;

/// Which of the pointers is null: none, the destination or the argument list.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Null(u64);
impl Arb for Null {
    fn arb(s: &mut Src) -> Self { let k = s.choice(12); Null(if k < 2 { k + 1 } else { 0 }) }
}
fn all(v: &Many<Text>) -> Vec<char> { v.0.iter().flat_map(|t| t.0.iter().copied()).collect() }
fn on<T: Unit>(v: &Many<Text>, z: Null, f: Stale, call: impl FnOnce(*mut T, i32, *const *const T) -> i32) -> Wrote<T> {
    let s: Vec<Source<T>> = v.0.iter().enumerate().map(|(i, t)| source(i, &T::enc(&t.0))).collect();
    let p: Vec<*const T> = s.iter().map(|s| s.ptr()).collect();
    let a = pointers(10, &p);
    let n = units_of::<T>(&all(v));
    dest(n, n, f.0, |d| {
        let r = call(if z.0 == 1 { std::ptr::null_mut() } else { d }, p.len() as i32, if z.0 == 2 { std::ptr::null() } else { a });
        (r, s.iter().all(|s| s.unchanged()))
    })
}
macro_rules! joins { ($g:ident $u:ty: $c:ident $e:ident) => { contracts! { group $g by native;
    fn $c(v: Many<Text>, z: Null, f: Stale) -> Wrote<$u> = on::<$u>(&v, z, f, |d, n, a| unsafe { real::$c(d, n, a); 0 });
    valid z == Null(0);
    post r wrote(r, &all(&v));
    fn $e(v: Many<Text>, z: Null, f: Stale) -> Wrote<$u> = on::<$u>(&v, z, f, |d, n, a| unsafe { real::$e(d, n, a) });
    valid z == Null(0);
    post r wrote(r, &all(&v));
} } }
joins! { string u8: CONCAT__STRING CONCAT_EXT__STRING }
joins! { wstring u16: CONCAT__WSTRING CONCAT_EXT__WSTRING }
