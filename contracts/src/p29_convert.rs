//! P29: STRING_TO_WSTRING, WSTRING_TO_STRING.
use crate::core::*;
use crate::strs::*;
use iec61131std::string_conversion as real;

/// The characters of UTF-16 units, U+FFFD for an unpaired surrogate; written out.
fn chars(u: &[u16]) -> Vec<char> {
    let (mut o, mut i) = (vec![], 0);
    while i < u.len() {
        let x = u[i] as u32;
        let pair = u.get(i + 1).map(|y| *y as u32).filter(|y| (0xd800..0xdc00).contains(&x) && (0xdc00..0xe000).contains(y));
        o.push(match pair {
            Some(y) => { i += 1; char::from_u32(0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00)).unwrap() }
            None => char::from_u32(x).unwrap_or('\u{fffd}'),
        });
        i += 1;
    }
    o
}
fn to_string(u: &[u16], want: &[char], f: Stale) -> Wrote<u8> {
    let s = source(0, u);
    let n = units_of::<u8>(want);
    dest(n, n, f.0, |d| (unsafe { real::WSTRING_TO_STRING_EXT(s.ptr(), d) }, s.unchanged()))
}
fn to_wstring(u: &[u8], want: &[char], f: Stale) -> Wrote<u16> {
    let s = source(0, u);
    let n = units_of::<u16>(want);
    dest(n, n, f.0, |d| (unsafe { real::STRING_TO_WSTRING_EXT(s.ptr(), d) }, s.unchanged()))
}
contracts! { group convert by native;
    fn WSTRING_TO_STRING_EXT(v: Raw<u16>, f: Stale) -> Wrote<u8> = to_string(&v.0, &chars(&v.0), f);
    post r wrote(r, &chars(&v.0));
    fn STRING_TO_WSTRING_EXT(t: Text, f: Stale) -> Wrote<u16> = to_wstring(&u8::enc(&t.0), &t.0, f);
    post r wrote(r, &t.0);
    fn there_and_back(t: Text, f: Stale) -> Wrote<u8> = { let w = to_wstring(&u8::enc(&t.0), &t.0, f).units; to_string(&w[..w.len() - 1], &t.0, f) };
    post r wrote(r, &t.0);
    fn back_and_there(t: Text, f: Stale) -> Wrote<u16> = { let w = to_string(&u16::enc(&t.0), &t.0, f).units; to_wstring(&w[..w.len() - 1], &t.0, f) };
    post r wrote(r, &t.0);
}
