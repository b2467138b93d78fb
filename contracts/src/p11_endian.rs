//! P11: TO_/FROM_ BIG/LITTLE endian on a little-endian host: exactly the byte reversal or exactly the identity.
use crate::core::*;
use iec61131std::endianness_conversion_functions as real;

/// Byte reversal, written out by value.
fn rev(x: u64, bytes: u32) -> u64 {
    let mut r = 0u64;
    let mut i = 0;
    while i < bytes {
        r |= ((x >> (8 * i)) & 0xFF) << (8 * (bytes - 1 - i));
        i += 1;
    }
    r
}
macro_rules! ints { ($g:ident, $t:ty, $u:ty, $tb:ident, $tl:ident, $fb:ident, $fl:ident) => { contracts! { group $g;
    fn $tb(x: $t) -> $t = real::$tb(x);
    post r *r as $u as u64 == rev(x as $u as u64, <$t>::BITS / 8);
    fn $tl(x: $t) -> $t = real::$tl(x);
    post r *r == x;
    fn $fb(x: $t) -> $t = real::$fb(x);
    post r *r == x;
    fn $fl(x: $t) -> $t = real::$fl(x);
    post r *r as $u as u64 == rev(x as $u as u64, <$t>::BITS / 8);
} } }
macro_rules! floats { ($g:ident, $t:ty, $($f:ident),*) => { contracts! { group $g; $(
    // floats keep their value in every direction (tests/endianness_conversion_functions_tests.rs)
    fn $f(x: $t) -> $t = real::$f(x);
    post r r.to_bits() == x.to_bits();
)* } } }
ints!(int, i16, u16, TO_BIG_ENDIAN__INT, TO_LITTLE_ENDIAN__INT, FROM_BIG_ENDIAN__INT, FROM_LITTLE_ENDIAN__INT);
ints!(dint, i32, u32, TO_BIG_ENDIAN__DINT, TO_LITTLE_ENDIAN__DINT, FROM_BIG_ENDIAN__DINT, FROM_LITTLE_ENDIAN__DINT);
ints!(lint, i64, u64, TO_BIG_ENDIAN__LINT, TO_LITTLE_ENDIAN__LINT, FROM_BIG_ENDIAN__LINT, FROM_LITTLE_ENDIAN__LINT);
ints!(uint, u16, u16, TO_BIG_ENDIAN__UINT, TO_LITTLE_ENDIAN__UINT, FROM_BIG_ENDIAN__UINT, FROM_LITTLE_ENDIAN__UINT);
ints!(udint, u32, u32, TO_BIG_ENDIAN__UDINT, TO_LITTLE_ENDIAN__UDINT, FROM_BIG_ENDIAN__UDINT, FROM_LITTLE_ENDIAN__UDINT);
ints!(ulint, u64, u64, TO_BIG_ENDIAN__ULINT, TO_LITTLE_ENDIAN__ULINT, FROM_BIG_ENDIAN__ULINT, FROM_LITTLE_ENDIAN__ULINT);
ints!(word, u16, u16, TO_BIG_ENDIAN__WORD, TO_LITTLE_ENDIAN__WORD, FROM_BIG_ENDIAN__WORD, FROM_LITTLE_ENDIAN__WORD);
ints!(dword, u32, u32, TO_BIG_ENDIAN__DWORD, TO_LITTLE_ENDIAN__DWORD, FROM_BIG_ENDIAN__DWORD, FROM_LITTLE_ENDIAN__DWORD);
ints!(lword, u64, u64, TO_BIG_ENDIAN__LWORD, TO_LITTLE_ENDIAN__LWORD, FROM_BIG_ENDIAN__LWORD, FROM_LITTLE_ENDIAN__LWORD);
ints!(wchar, u16, u16, TO_BIG_ENDIAN__WCHAR, TO_LITTLE_ENDIAN__WCHAR, FROM_BIG_ENDIAN__WCHAR, FROM_LITTLE_ENDIAN__WCHAR);
ints!(date, i64, u64, TO_BIG_ENDIAN__DATE, TO_LITTLE_ENDIAN__DATE, FROM_BIG_ENDIAN__DATE, FROM_LITTLE_ENDIAN__DATE);
ints!(tod, i64, u64, TO_BIG_ENDIAN__TIME_OF_DAY, TO_LITTLE_ENDIAN__TIME_OF_DAY, FROM_BIG_ENDIAN__TIME_OF_DAY, FROM_LITTLE_ENDIAN__TIME_OF_DAY);
ints!(dt, i64, u64, TO_BIG_ENDIAN__DATE_AND_TIME, TO_LITTLE_ENDIAN__DATE_AND_TIME, FROM_BIG_ENDIAN__DATE_AND_TIME, FROM_LITTLE_ENDIAN__DATE_AND_TIME);
floats!(real32, f32, TO_BIG_ENDIAN__REAL, TO_LITTLE_ENDIAN__REAL, FROM_BIG_ENDIAN__REAL, FROM_LITTLE_ENDIAN__REAL);
floats!(lreal, f64, TO_BIG_ENDIAN__LREAL, TO_LITTLE_ENDIAN__LREAL, FROM_BIG_ENDIAN__LREAL, FROM_LITTLE_ENDIAN__LREAL);
