//! P25: LEN, FIND.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;

fn first(t: &[char], n: &[char]) -> i32 {
    if n.is_empty() { return 0; }
    (0..t.len()).find(|&i| t[i..].starts_with(n)).map_or(0, |i| i as i32 + 1)
}
macro_rules! finds { ($g:ident $u:ty: $l:ident $f:ident) => { contracts! { group $g by native;
    fn $l(t: Text) -> i32 = { let s = source::<$u>(0, &<$u>::enc(&t.0)); let r = unsafe { real::$l(s.ptr()) }; assert!(s.unchanged()); r };
    post r *r == t.0.len() as i32;
    fn $f(t: Text, n: Text) -> i32 = {
        let (a, b) = (source::<$u>(0, &<$u>::enc(&t.0)), source::<$u>(1, &<$u>::enc(&n.0)));
        let r = unsafe { real::$f(a.ptr(), b.ptr()) }; assert!(a.unchanged() && b.unchanged()); r };
    post r *r == first(&t.0, &n.0);
} } }
finds! { string u8: LEN__STRING FIND__STRING }
finds! { wstring u16: LEN__WSTRING FIND__WSTRING }
/// Long enough for a position that 15 or 16 bits do not hold.
#[derive(Debug, Clone, Copy)]
pub struct Far(usize);
impl Arb for Far {
    fn arb(s: &mut Src) -> Self { Far([32_760, 65_530][s.choice(2) as usize] + s.choice(12) as usize) }
}
#[derive(Debug, Clone)]
pub struct Few(Vec<char>);
impl Arb for Few {
    fn arb(s: &mut Src) -> Self { Few((0..s.choice(5)).map(|_| some_char(s, 2)).collect()) }
}
fn long(n: Far, c: char, t: &Few) -> Vec<char> { let mut v = vec![c; n.0]; v.extend(&t.0); v }
fn end(t: &[char], k: u8) -> Vec<char> { t[t.len() - (k as usize % 6).min(t.len())..].to_vec() }
macro_rules! fars { ($g:ident $u:ty: $l:ident $f:ident) => { contracts! { group $g by native;
    fn $l(n: Far, wide: bool, t: Few) -> i32 = { let s = source::<$u>(0, &<$u>::enc(&long(n, if wide { '\u{20ac}' } else { 'a' }, &t))); unsafe { real::$l(s.ptr()) } };
    post r *r == (n.0 + t.0.len()) as i32;
    fn $f(n: Far, wide: bool, t: Few, k: u8) -> i32 = {
        let v = long(n, if wide { '\u{20ac}' } else { 'a' }, &t);
        let (a, b) = (source::<$u>(0, &<$u>::enc(&v)), source::<$u>(1, &<$u>::enc(&end(&v, k))));
        unsafe { real::$f(a.ptr(), b.ptr()) } };
    post r { let v = long(n, if wide { '\u{20ac}' } else { 'a' }, &t); *r == first(&v, &end(&v, k)) };
} } }
fars! { far_string u8: LEN__STRING FIND__STRING }
fars! { far_wstring u16: LEN__WSTRING FIND__WSTRING }
