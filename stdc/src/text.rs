// Characters and code units, as verus/shims/strings.rs (enc1_8, enc1_16, items16) and chars.rs state them, on std's own code.
fn enc1_8(x: u32) -> ([u8; 4], usize) {
    if x < 0x80 { ([x as u8, 0, 0, 0], 1) }
    else if x < 0x800 { ([(0xc0 + x / 64) as u8, (0x80 + x % 64) as u8, 0, 0], 2) }
    else if x < 0x10000 { ([(0xe0 + x / 4096) as u8, (0x80 + x / 64 % 64) as u8, (0x80 + x % 64) as u8, 0], 3) }
    else { ([(0xf0 + x / 262144) as u8, (0x80 + x / 4096 % 64) as u8, (0x80 + x / 64 % 64) as u8, (0x80 + x % 64) as u8], 4) }
}
fn enc1_16(x: u32) -> ([u16; 2], usize) {
    if x < 0x10000 { ([x as u16, 0], 1) } else { ([(0xd800 + (x - 0x10000) / 1024) as u16, (0xdc00 + (x - 0x10000) % 1024) as u16], 2) }
}
fn high(u: u16) -> bool { 0xd800 <= u && u < 0xdc00 }
fn low(u: u16) -> bool { 0xdc00 <= u && u < 0xe000 }
#[cfg(kani)]
mod proofs {
    use super::*;
    #[kani::proof]
    #[kani::unwind(6)]
    fn char_utf8() {
        let c: char = kani::any();
        let (b, n) = enc1_8(c as u32);
        assert!(c.len_utf8() == n);
        let mut buf = [0u8; 4];
        let r = c.encode_utf8(&mut buf).as_bytes();
        assert!(r.len() == n);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(r[i] == b[i]);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn char_utf16() {
        let c: char = kani::any();
        let (b, n) = enc1_16(c as u32);
        assert!(c.len_utf16() == n);
        let mut buf = [0u16; 2];
        let r = c.encode_utf16(&mut buf);
        assert!(r.len() == n && r[0] == b[0] && (n == 1 || r[1] == b[1]));
    }
    // a character read back from its bytes is the character (Chars::next, from_utf8)
    #[kani::proof]
    #[kani::unwind(6)]
    fn char_read() {
        let c: char = kani::any();
        let (b, n) = enc1_8(c as u32);
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        let mut i = s.chars();
        assert!(i.next() == Some(c) && i.as_str().len() == 0);
    }
    // any source at all: what it gave is remembered
    struct Source { gave: [u16; 4], n: usize, end: bool }
    impl Iterator for &mut Source {
        type Item = u16;
        fn next(&mut self) -> Option<u16> {
            // a source that ended stays ended (a fused one: those of slices and of take_while over one)
            if self.end || kani::any() { self.end = true; return None; }
            let u = kani::any();
            self.gave[self.n] = u;
            self.n += 1;
            Some(u)
        }
    }
    // One step of decode_utf16 from any state: what it yields is the first of items16 of what it holds and what the source
    // still gives, and it then holds what items16 goes on with. The state is a held unit or none; the first step, from none,
    // reaches every held unit there can be (any that is not a low surrogate), the second starts from there.
    fn step(held: Option<u16>, src: &[u16], r: Option<Result<char, std::char::DecodeUtf16Error>>) -> Option<u16> {
        // the units of the view, in order
        let at = |i: usize| -> Option<u16> { match held { Some(h) => if i == 0 { Some(h) } else { src.get(i - 1).copied() }, None => src.get(i).copied() } };
        let used = src.len() + held.is_some() as usize;
        match at(0) {
            None => { assert!(r.is_none()); None }
            Some(u) if !high(u) && !low(u) => { assert!(used == 1); assert!(matches!(r, Some(Ok(c)) if c as u32 == u as u32)); None }
            Some(u) => match at(1) {
                Some(v) if high(u) && low(v) => { assert!(used == 2); assert!(matches!(r, Some(Ok(c)) if c as u32 == 0x10000 + (u as u32 - 0xd800) * 1024 + (v as u32 - 0xdc00))); None }
                v => { assert!(used <= 2); assert!(matches!(r, Some(Err(_)))); assert!(high(u) || v.is_none()); v }
            }
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn utf16_step() {
        let mut src = Source { gave: [0; 4], n: 0, end: false };
        let mut it = std::char::decode_utf16(&mut src);
        let a = it.next();
        let b = it.next();
        drop(it);
        // which of the units the first step read: the rest were the second's
        let k: usize = if src.n == 0 { 0 } else if !high(src.gave[0]) { 1 } else if src.n >= 2 { 2 } else { 1 };
        let held = step(None, &src.gave[..k], a);
        assert!(held.map_or(true, |h| !low(h)));
        let (good, bad) = (matches!(b, Some(Ok(_))), matches!(b, Some(Err(_))));
        let _ = step(held, &src.gave[k..src.n], b);
        kani::cover!(held.is_some() && good);
        kani::cover!(held.is_none() && bad);
    }
    #[kani::proof]
    fn orderings() {
        use std::cmp::Ordering::*;
        let k: u8 = kani::any();
        let o = match k % 3 { 0 => Less, 1 => Equal, _ => Greater };
        assert!(o.is_gt() == (o == Greater) && o.is_ge() == (o != Less) && o.is_eq() == (o == Equal) && o.is_ne() == (o != Equal) && o.is_le() == (o != Greater) && o.is_lt() == (o == Less));
        assert!(o.reverse() == match o { Less => Greater, Equal => Equal, Greater => Less });
    }
}
