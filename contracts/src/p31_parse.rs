//! P31: STRING to numbers.
use crate::core::*;
use crate::strs::*;
use iec61131std::extra_functions as real;

/// The value an integer text denotes: optional base prefix, optional sign, digits.
fn denotes(t: &[char]) -> Option<i128> {
    let s: String = t.iter().collect();
    let (digits, base) = [("16#", 16), ("0x", 16), ("0X", 16), ("8#", 8), ("2#", 2), ("0b", 2), ("0B", 2)].iter()
        .find_map(|(p, b)| s.strip_prefix(p).map(|r| (r, *b))).unwrap_or((&s, 10));
    let (neg, digits) = match digits.strip_prefix('-') { Some(r) => (true, r), None => (false, digits.strip_prefix('+').unwrap_or(digits)) };
    if digits.is_empty() { return None; }
    let mut v: i128 = 0;
    for c in digits.chars() {
        let d = match c { '0'..='9' => c as i128 - 48, 'a'..='f' => c as i128 - 87, 'A'..='F' => c as i128 - 55, _ => return None };
        if d >= base { return None; }
        v = (v * base + d).min(1 << 100);
    }
    Some(if neg { -v } else { v })
}
/// Number-like text.
#[derive(Clone, PartialEq)]
pub struct Num(Vec<char>);
impl std::fmt::Debug for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Text(self.0.clone()).fmt(f) }
}
impl Arb for Num {
    fn arb(s: &mut Src) -> Num {
        let mut t = String::new();
        let whole = s.choice(5) != 0;
        t += ["", "", "", "", "16#", "0x", "0X", "8#", "2#", "0b", "0B", "-16#", "10#", "0o", "0"][s.choice(15) as usize];
        t += ["", "", "", "-", "-", "+", "--"][s.choice(7) as usize];
        if whole {
            let x = <u64 as Arb>::arb(s) as u128 + [0, 0, 1 << 63, 1 << 64, 1 << 31, 1 << 32][s.choice(6) as usize];
            let base = if t.contains('x') || t.contains('X') || t.contains("16") { 16 } else if t.contains('8') { 8 } else if t.contains('2') || t.contains('b') || t.contains('B') { 2 } else { 10 };
            let mut d = vec![];
            let mut x = if s.choice(3) == 0 { x >> 32 } else { x };
            let upper = s.choice(2) == 0;
            loop {
                let c = std::char::from_digit((x % base) as u32, base as u32).unwrap();
                d.push(if upper { c.to_ascii_uppercase() } else { c });
                x /= base;
                if x == 0 { break; }
            }
            if s.choice(4) == 0 { let k = s.choice(25); d.extend(std::iter::repeat('0').take(k as usize)); }
            t.extend(d.into_iter().rev());
        }
        let mut t: Vec<char> = t.chars().collect();
        for _ in 0..s.choice(24).saturating_sub(21) {
            let k = s.choice(t.len() as u64 + 1) as usize;
            t.insert(k, ['_', ' ', '.', '#', 'g', '9', 'é', '2', 'F', '-', '\u{1}', 'e'][s.choice(12) as usize]);
        }
        Num(t)
    }
}
/// Text of a floating point number, or nearly.
#[derive(Clone, PartialEq)]
pub struct Float(Vec<char>);
impl std::fmt::Debug for Float {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Text(self.0.clone()).fmt(f) }
}
impl Arb for Float {
    fn arb(s: &mut Src) -> Float {
        let x = <f64 as Arb>::arb(s);
        let t = match s.choice(8) {
            0 => format!("{x}"),
            1 => format!("{x:e}"),
            2 => format!("{}", x as f32),
            3 => { let m = <u64 as Arb>::arb(s); let e = s.choice(700) as i64 - 350; format!("{m}e{e}") }
            4 => { let m = <u64 as Arb>::arb(s); let n = s.choice(20) as usize; format!("{m}.{:0n$}", s.choice(1 << 40)) }
            // halfway between two singles, and next to it
            5 => { let b = (<f64 as Arb>::arb(s) as f32).to_bits() & 0x7fff_ffff; let (a, c) = (f32::from_bits(b) as f64, f32::from_bits(b + 1) as f64);
                let h = (a + c) / 2.0; let mut t = format!("{h:.80}"); if s.choice(2) == 0 { t.push('1') } t }
            6 => ["inf", "-inf", "nan", "infinity", "", ".", "+", "-", "1.", ".5", "+.5e3", "1e", "0x10", "1_0", " 1", "1 ", "1,5", "NaN"][s.choice(18) as usize].to_string(),
            _ => Num::arb(s).0.into_iter().collect(),
        };
        Float(t.chars().filter(|c| *c != '\0').collect())
    }
}
fn on<R>(u: &[u8], f: impl FnOnce(*const u8) -> R) -> R { let s = source(0, u); let r = f(s.ptr()); assert!(s.unchanged()); r }
macro_rules! whole { ($($f:ident $t:ty;)*) => { contracts! { group whole by native; $(
    fn $f(x: Num) -> $t = on(&u8::enc(&x.0), |p| unsafe { real::$f(p) });
    valid denotes(&x.0).is_some_and(|v| <$t>::try_from(v).is_ok());
    post r *r as i128 == denotes(&x.0).unwrap();
)* } } }
whole! { STRING_TO_LINT i64; STRING_TO_DINT i32; }
macro_rules! reals { ($($f:ident $t:ty;)*) => { contracts! { group reals by native; $(
    fn $f(x: Float) -> $t = on(&u8::enc(&x.0), |p| unsafe { real::$f(p) });
    valid x.0.iter().collect::<String>().parse::<$t>().is_ok();
    post r { let e: $t = x.0.iter().collect::<String>().parse().unwrap(); r.to_bits() == e.to_bits() };
)* } } }
reals! { STRING_TO_LREAL f64; STRING_TO_REAL f32; }
/// Bytes that are no text.
macro_rules! noise { ($($f:ident $t:ty;)*) => { contracts! { group noise by native; $(
    fn $f(x: Raw<u8>) -> $t = on(&x.0, |p| unsafe { real::$f(p) });
    given std::str::from_utf8(&x.0).is_err();
    valid false;
    post _r false;
)* } } }
noise! { STRING_TO_LINT i64; STRING_TO_DINT i32; STRING_TO_LREAL f64; STRING_TO_REAL f32; }
