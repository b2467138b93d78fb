//! P27: GT .. LT over any number of strings, NE.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;
use std::cmp::Ordering;

/// Code-unit order, written out.
fn order<T: Unit + Ord>(a: &[T], b: &[T]) -> Ordering {
    for i in 0.. {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (None, Some(_)) => return Ordering::Less,
            (Some(_), None) => return Ordering::Greater,
            (Some(x), Some(y)) if x != y => return if x < y { Ordering::Less } else { Ordering::Greater },
            _ => {}
        }
    }
    unreachable!()
}
fn chain<T: Unit + Ord>(v: &Many<Raw<T>>, f: fn(Ordering) -> bool) -> bool { v.0.windows(2).all(|w| f(order(&w[0].0, &w[1].0))) }
/// Strings in an order that a comparison over many of them is often true of.
fn arranged<T: Unit + Ord>(v: &Many<Raw<T>>, how: u8) -> Many<Raw<T>> {
    let mut o = v.clone();
    match how % 8 {
        0 => o.0.sort_by(|a, b| order(&a.0, &b.0)),
        1 => o.0.sort_by(|a, b| order(&b.0, &a.0)),
        2 => { let k = o.0.first().cloned(); for x in o.0.iter_mut() { *x = k.clone().unwrap() } }
        3 | 4 => { o.0.sort_by(|a, b| order(&a.0, &b.0)); o.0.dedup(); if how % 8 == 4 { o.0.reverse() } }
        5 => { o.0.sort_by(|a, b| order(&a.0, &b.0)); let n = o.0.len(); if n > 2 { o.0.swap(n - 1, n - 2) } }
        6 => { o.0.sort_by(|a, b| order(&b.0, &a.0)); if o.0.len() > 2 { o.0.swap(0, 1) } }
        _ => {}
    }
    o
}
fn with<T: Unit, R>(v: &Many<Raw<T>>, f: impl FnOnce(i32, *const *const T) -> R) -> R {
    let s: Vec<Source<T>> = v.0.iter().enumerate().map(|(i, t)| source(i, &t.0)).collect();
    let p: Vec<*const T> = s.iter().map(|s| s.ptr()).collect();
    let r = f(p.len() as i32, pointers(10, &p));
    assert!(s.iter().all(|s| s.unchanged()));
    r
}
macro_rules! compares { ($g:ident $u:ty, $ne:ident: $($f:ident $o:ident)*) => { contracts! { group $g by native;
    $( fn $f(v: Many<Raw<$u>>, how: u8) -> bool = with(&arranged(&v, how), |n, p| unsafe { real::$f(n, p) });
    valid arranged(&v, how).0.len() >= 2;
    post r *r == chain(&arranged(&v, how), Ordering::$o); )*
    fn $ne(a: Raw<$u>, b: Raw<$u>) -> bool = { let (s, t) = (source(0, &a.0), source(1, &b.0)); unsafe { real::$ne(s.ptr(), t.ptr()) } };
    post r *r == (a.0 != b.0);
} } }
compares! { string u8, NE__STRING: GT__STRING is_gt GE__STRING is_ge EQ__STRING is_eq LE__STRING is_le LT__STRING is_lt }
compares! { wstring u16, NE__WSTRING: GT__WSTRING is_gt GE__WSTRING is_ge EQ__WSTRING is_eq LE__WSTRING is_le LT__WSTRING is_lt }
/// Argument counts below two, negative ones included.
macro_rules! few { ($g:ident $u:ty: $($f:ident)*) => { contracts! { group $g by native; $(
    fn $f(n: i32) -> bool = with(&Many(vec![Raw::<$u>(vec![1]), Raw(vec![2])]), |_, p| unsafe { real::$f(n, p) });
    given n < 2;
    valid false;
    post _r false;
)* } } }
few! { few_string u8: GT__STRING GE__STRING EQ__STRING LE__STRING LT__STRING }
few! { few_wstring u16: GT__WSTRING GE__WSTRING EQ__WSTRING LE__WSTRING LT__WSTRING }
