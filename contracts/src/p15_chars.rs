//! P15: CHAR and WCHAR.
use crate::core::*;
use iec61131std::string_conversion as real;

contracts! { group chars by proof;
    // a byte is the code point of the same number, one UTF-16 unit
    fn CHAR_TO_WCHAR(x: u8) -> u16 = real::CHAR_TO_WCHAR(x);
    post r *r == x as u16;
    // the first byte of the UTF-8 form; a lone surrogate becomes U+FFFD
    fn WCHAR_TO_CHAR(x: u16) -> u8 = real::WCHAR_TO_CHAR(x);
    post r *r == (if x < 0x80 { x as u8 } else if x < 0x800 { 0xC0 | (x >> 6) as u8 }
        else if x >= 0xD800 && x < 0xE000 { 0xEF } else { 0xE0 | (x >> 12) as u8 });
}
contracts! { group round_trip by proof;
    fn CHAR(x: u8) -> u8 = real::WCHAR_TO_CHAR(real::CHAR_TO_WCHAR(x));
    given x < 0x80;
    post r *r == x;
}
