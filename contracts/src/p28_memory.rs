//! P28: the helpers every string function reads and writes through.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_functions as real;
use iec61131std::string_functions::{CharsDecoder, CharsEncoder, EncodedCharsIter};

fn reread<T: Unit>(u: &[T], f: impl FnOnce(*const T) -> Vec<char>) -> Vec<char> { let s = source(0, u); let r = f(s.ptr()); assert!(s.unchanged()); r }
macro_rules! helpers { ($g:ident $u:ty, $ok:ident) => { contracts! { group $g by native;
    fn get_null_terminated_len(v: Raw<$u>) -> usize = { let s = source(0, &v.0); unsafe { real::get_null_terminated_len(s.ptr()) } };
    post r *r == v.0.len();
    fn ptr_to_slice(v: Raw<$u>) -> Vec<$u> = { let s = source(0, &v.0); unsafe { real::ptr_to_slice(s.ptr()).to_vec() } };
    post r *r == v.0;
    fn null_len(z: bool) -> usize = unsafe { real::get_null_terminated_len(std::ptr::null::<$u>()) };
    post r *r == 0;
    fn null_slice(z: bool) -> bool = { let s: &[$u] = unsafe { real::ptr_to_slice(std::ptr::null()) }; s.is_empty() && !s.as_ptr().is_null() };
    post r *r;
    fn decode(t: Text) -> Vec<char> = reread(&<$u>::enc(&t.0), |p| $ok(p));
    post r *r == t.0;
    fn encode(t: Text, f: Stale) -> Wrote<$u> = {
        // written from a decoded source, the way every string function does it
        let s = source(0, &<$u>::enc(&t.0));
        let n = units_of::<$u>(&t.0);
        dest(n, n, f.0, |d| { let mut p = d; unsafe { EncodedCharsIter::decode(s.ptr()).encode(&mut p); }
            ((p as usize != unsafe { d.add(n - 1) } as usize) as i32, s.unchanged()) })
    };
    post r wrote(r, &t.0);
} } }
fn read8(p: *const u8) -> Vec<char> { unsafe { EncodedCharsIter::decode(p).collect() } }
fn read16(p: *const u16) -> Vec<char> { unsafe { EncodedCharsIter::decode(p).map(|c| c.unwrap()).collect() } }
helpers! { string u8, read8 }
helpers! { wstring u16, read16 }
/// A unit of the other half of the range is no terminator.
contracts! { group ill_formed by native;
    fn decode_utf8(v: Raw<u8>) -> Vec<char> = reread(&v.0, |p| read8(p));
    valid std::str::from_utf8(&v.0).is_ok();
    post r *r == std::str::from_utf8(&v.0).unwrap().chars().collect::<Vec<_>>();
}
