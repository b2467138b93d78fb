//! P12: IS_VALID and IS_VALID_BCD.
use crate::core::*;
use iec61131std::validation_functions as real;

contracts! { group floats;
    fn IS_VALID__REAL(x: u32) -> bool = real::IS_VALID__REAL(f32::from_bits(x));
    // an all-ones exponent is an infinity or a NaN
    post r *r == ((x >> 23) & 0xff != 0xff);
    fn IS_VALID__LREAL(x: u64) -> bool = real::IS_VALID__LREAL(f64::from_bits(x));
    post r *r == ((x >> 52) & 0x7ff != 0x7ff);
}
fn bcd(x: u64) -> bool {
    (0..16).all(|i| (x >> (4 * i)) & 15 <= 9)
}
contracts! { group bcd_digits by proof;
    fn IS_VALID_BCD__BYTE(x: u8) -> bool = real::IS_VALID_BCD__BYTE(x);
    post r *r == bcd(x as u64);
    fn IS_VALID_BCD__WORD(x: u16) -> bool = real::IS_VALID_BCD__WORD(x);
    post r *r == bcd(x as u64);
    fn IS_VALID_BCD__DWORD(x: u32) -> bool = real::IS_VALID_BCD__DWORD(x);
    post r *r == bcd(x as u64);
    fn IS_VALID_BCD__LWORD(x: u64) -> bool = real::IS_VALID_BCD__LWORD(x);
    post r *r == bcd(x);
}
