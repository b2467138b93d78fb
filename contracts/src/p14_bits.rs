//! P14: REAL/DWORD and LREAL/LWORD.
use crate::core::*;
use iec61131std::bit_num_conversion as real;

contracts! { group casts;
    fn DWORD_TO_REAL(x: u32) -> f32 = real::DWORD_TO_REAL(x);
    post r r.to_bits() == x;
    fn REAL_TO_DWORD(x: f32) -> u32 = real::REAL_TO_DWORD(x);
    post r *r == x.to_bits();
    fn LWORD_TO_LREAL(x: u64) -> f64 = real::LWORD_TO_LREAL(x);
    post r r.to_bits() == x;
    fn LREAL_TO_LWORD(x: f64) -> u64 = real::LREAL_TO_LWORD(x);
    post r *r == x.to_bits();
}
contracts! { group inverse;
    fn DWORD(x: u32) -> u32 = real::REAL_TO_DWORD(real::DWORD_TO_REAL(x));
    post r *r == x;
    fn LWORD(x: u64) -> u64 = real::LREAL_TO_LWORD(real::LWORD_TO_LREAL(x));
    post r *r == x;
}
