//! P09/P10: shifts and rotations.
use crate::core::*;
use iec61131std::bit_shift_functions as real;

macro_rules! shifts { ($g:ident, $t:ty, $shl:ident, $shr:ident) => { contracts! { group $g;
    fn $shl(x: $t, n: u32) -> $t = real::$shl(x, n);
    post r *r == (if n >= <$t>::BITS { 0 } else { (((x as u128) << n) & (<$t>::MAX as u128)) as $t });
    fn $shr(x: $t, n: u32) -> $t = real::$shr(x, n);
    post r *r == (if n >= <$t>::BITS { 0 } else { ((x as u128) >> n) as $t });
} } }
// rotation by n is the n-fold one-bit rotation: bit i of the result is bit (i - n) mod width of the operand
macro_rules! rotates { ($g:ident, $t:ty, $rol:ident, $ror:ident) => { contracts! { group $g;
    fn $rol(x: $t, n: u32) -> $t = real::$rol(x, n);
    post r { let k = n % <$t>::BITS; *r == (if k == 0 { x } else { (x << k) | (x >> (<$t>::BITS - k)) }) };
    fn $ror(x: $t, n: u32) -> $t = real::$ror(x, n);
    post r { let k = n % <$t>::BITS; *r == (if k == 0 { x } else { (x >> k) | (x << (<$t>::BITS - k)) }) };
} } }
shifts!(shift_byte, u8, SHL__BYTE, SHR__BYTE);
shifts!(shift_word, u16, SHL__WORD, SHR__WORD);
shifts!(shift_dword, u32, SHL__DWORD, SHR__DWORD);
shifts!(shift_lword, u64, SHL__LWORD, SHR__LWORD);
rotates!(rotate_byte, u8, ROL__BYTE, ROR__BYTE);
rotates!(rotate_word, u16, ROL__WORD, ROR__WORD);
rotates!(rotate_dword, u32, ROL__DWORD, ROR__DWORD);
rotates!(rotate_lword, u64, ROL__LWORD, ROR__LWORD);
