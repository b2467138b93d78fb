//! Strings for the native side: generated characters, sources that end at an unreadable page, destinations with stale
//! content and canaries around them.
use crate::core::*;
use std::cell::RefCell;

pub trait Unit: Copy + PartialEq + std::fmt::Debug + Default + 'static {
    const WIDE: bool;
    fn enc(c: &[char]) -> Vec<Self>;
    fn dec(u: &[Self]) -> Option<Vec<char>>;
    fn from_u64(x: u64) -> Self;
}
impl Unit for u8 {
    const WIDE: bool = false;
    fn enc(c: &[char]) -> Vec<u8> {
        // written out: the oracle is not the library the code uses
        let mut o = vec![];
        for &c in c {
            let x = c as u32;
            match x {
                0..=0x7f => o.push(x as u8),
                0x80..=0x7ff => o.extend([0xc0 | (x >> 6) as u8, 0x80 | (x & 63) as u8]),
                0x800..=0xffff => o.extend([0xe0 | (x >> 12) as u8, 0x80 | (x >> 6 & 63) as u8, 0x80 | (x & 63) as u8]),
                _ => o.extend([0xf0 | (x >> 18) as u8, 0x80 | (x >> 12 & 63) as u8, 0x80 | (x >> 6 & 63) as u8, 0x80 | (x & 63) as u8]),
            }
        }
        o
    }
    fn dec(u: &[u8]) -> Option<Vec<char>> {
        Some(std::str::from_utf8(u).ok()?.chars().collect())
    }
    fn from_u64(x: u64) -> u8 { x as u8 }
}
impl Unit for u16 {
    const WIDE: bool = true;
    fn enc(c: &[char]) -> Vec<u16> {
        let mut o = vec![];
        for &c in c {
            let x = c as u32;
            if x < 0x10000 { o.push(x as u16) } else { o.extend([0xd800 + ((x - 0x10000) >> 10) as u16, 0xdc00 + (x & 0x3ff) as u16]) }
        }
        o
    }
    fn dec(u: &[u16]) -> Option<Vec<char>> {
        String::from_utf16(u).ok().map(|s| s.chars().collect())
    }
    fn from_u64(x: u64) -> u16 { x as u16 }
}

/// Characters, none of them NUL.
#[derive(Clone, PartialEq)]
pub struct Text(pub Vec<char>);
impl std::fmt::Debug for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() > 60 { write!(f, "<{} chars>{:?}..", self.0.len(), self.0[..20].iter().collect::<String>()) } else { write!(f, "{:?}", self.0.iter().collect::<String>()) }
    }
}
const EDGES: [char; 16] = ['a', '\u{1}', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', 'b'];
thread_local! { static WORDS: Vec<Vec<char>> = std::env::args().nth(4).map(|d| d.replace("dict.txt", "strings.txt"))
    .and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines().map(|l| l.chars().filter(|c| *c != '\0').collect()).collect(); }

pub fn some_char(s: &mut Src, mode: u64) -> char {
    match mode {
        0 => ['a', 'b'][s.choice(2) as usize],
        1 => char::from_u32(1 + s.choice(127) as u32).unwrap(),
        2 => EDGES[s.choice(16) as usize],
        4 => char::from_u32(named_char(s)).filter(|c| *c != '\0').unwrap_or('y'),
        _ => char::from_u32(1 + s.choice(0x10ffff) as u32).unwrap_or('x'),
    }
}
/// A character related to a number of the current source: itself, or one whose encoding has that unit.
fn named_len(s: &mut Src) -> u64 {
    let small: Vec<u64> = s.dict.iter().filter(|d| **d > 0 && **d < 2000).map(|d| *d as u64).collect();
    if small.is_empty() { return 3; }
    let k = s.below(small.len() as u64) as usize;
    small[k] + s.below(4) - 1
}
fn named_char(s: &mut Src) -> u32 {
    let k = s.below(s.dict.len() as u64) as usize;
    let d = s.dict.get(k).copied().unwrap_or(0);
    let d = d + s.below(3) as i128 - 1;
    let r = s.below(0x400) as u32;
    let x = match d {
        0xd800..=0xdbff => 0x10000 + ((d as u32 - 0xd800) << 10) + r,
        0xdc00..=0xdfff => 0x10000 + (s.below(0x400) as u32 * 0x400) + (d as u32 - 0xdc00),
        0x80..=0xbf if s.below(2) == 0 => [0xc0, 0x1000, 0x10000][s.below(3) as usize] + (d as u32 & 63) + 64 * s.below(16) as u32,
        0xc2..=0xdf if s.below(2) == 0 => (d as u32 & 31) * 64 + (r & 63),
        0xe0..=0xef if s.below(2) == 0 => (d as u32 & 15) * 4096 + r,
        0xf0..=0xf4 if s.below(2) == 0 => (d as u32 & 7) * 0x40000 + r,
        1..=0x10ffff => d as u32,
        _ => 0x61 + (r & 15),
    };
    s.choice_is(x as u64) as u32
}
fn upto(s: &mut Src, n: usize) -> usize { s.choice(n as u64 + 1) as usize }
impl Arb for Text {
    fn arb(s: &mut Src) -> Text {
        let kind = s.choice(64);
        let t: Vec<char> = match kind {
            // another argument again, cut, mutated, repeated or extended
            0..=23 if !s.texts.is_empty() => {
                let i = s.choice(s.texts.len() as u64) as usize;
                let mut t = s.texts[i].clone();
                match s.choice(6) {
                    0 => {}
                    1 => { let k = upto(s, t.len()); t.truncate(k); }
                    2 => { let k = upto(s, t.len()); t.drain(..k); }
                    3 if !t.is_empty() => { let k = upto(s, t.len() - 1); t[k] = some_char(s, 2); }
                    4 => { let m = s.choice(5); t.push(some_char(s, m)); }
                    _ => { let a = upto(s, t.len()); t.drain(..a); let k = upto(s, t.len()); t.truncate(k); }
                }
                t
            }
            24 => {
                // long: one character over and over, with something else at the end or inside
                let n = [80, 81, 127, 128, 255, 256, 257, 300, 1000][s.choice(9) as usize];
                let n = if s.choice(100) == 0 { [32_767, 32_768, 65_535, 65_536, 70_000][s.choice(5) as usize] } else { n };
                let n = if s.choice(2) == 0 { n } else { let x = named_len(s); s.choice_is(x).min(70_000) as usize };
                let m = s.choice(5);
                let c = some_char(s, m);
                let mut t = vec![c; n];
                for _ in 0..s.choice(4) { let m = s.choice(5); t.push(some_char(s, m)); }
                if n > 0 && s.choice(4) == 0 { let k = upto(s, n - 1); t[k] = some_char(s, 2); }
                t
            }
            25..=27 => {
                let n = WORDS.with(|w| w.len());
                let k = s.choice(n as u64 + 1) as usize;
                let words = WORDS.with(|w| w.get(k).cloned()).unwrap_or_default();
                // a replay does not depend on the dictionary: the characters are recorded
                let len = s.choice_is(words.len() as u64);
                (0..len).map(|i| char::from_u32(s.choice_is(words.get(i as usize).copied().unwrap_or('x') as u64) as u32).filter(|c| *c != '\0').unwrap_or('x')).collect()
            }
            _ => {
                let n = s.size;
                let n = upto(s, n);
                let mode = s.choice(5);
                (0..n).map(|_| some_char(s, mode)).collect()
            }
        };
        s.texts.push(t.clone());
        Text(t)
    }
}
/// Nonzero code units, well-formed or not.
#[derive(Clone, PartialEq)]
pub struct Raw<T>(pub Vec<T>);
impl<T: Unit> std::fmt::Debug for Raw<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() > 60 { write!(f, "<{} units>", self.0.len()) } else { write!(f, "{:x?}", self.0) }
    }
}
impl<T: Unit> Arb for Raw<T> {
    fn arb(s: &mut Src) -> Raw<T> {
        let mut u = T::enc(&Text::arb(s).0);
        for _ in 0..s.choice(3) {
            let x = T::from_u64([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xff, 0x80, 0xc3, 0xe2, 0x8000, 0x7fff, 0xfffe, 1][s.choice(12) as usize]);
            let x = if x == T::default() { T::from_u64(1) } else { x };
            let k = upto(s, u.len());
            if s.choice(2) == 0 || k == u.len() { u.insert(k, x) } else { u[k] = x }
        }
        if s.choice(4) == 0 { let k = upto(s, u.len()); u.truncate(k); }
        Raw(u)
    }
}

// ------------------------------------------------------------------------------------------------ memory
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
const SLOT: usize = 1 << 21;
const SLOTS: usize = 12;
thread_local! { static BASE: *mut u8 = unsafe {
    let n = SLOTS * (SLOT + 8192);
    let b = mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0);
    assert!(b as isize != -1);
    for i in 0..SLOTS { assert!(mprotect(b.add(i * (SLOT + 8192) + 4096 + SLOT), 4096, 0) == 0); }
    b
}; }
/// The address just before the unreadable page of slot i.
fn slot_end(i: usize) -> *mut u8 { BASE.with(|b| unsafe { b.add(i * (SLOT + 8192) + 4096 + SLOT) }) }

/// Units and a terminator, ending at an unreadable page.
pub struct Source<T>(*const T, Vec<T>);
pub fn source<T: Unit>(slot: usize, units: &[T]) -> Source<T> {
    let mut v = units.to_vec();
    v.push(T::default());
    // past the slots (many arguments): anywhere, for as long as the process runs
    let p = if slot < SLOTS - 2 { unsafe { (slot_end(slot) as *mut T).sub(v.len()) } } else { spare(slot - (SLOTS - 2), v.len()) };
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len()) };
    Source(p, v)
}
thread_local! { static SPARES: std::cell::RefCell<Vec<Vec<u64>>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// Spare memory number i, of n units at least.
fn spare<T>(i: usize, n: usize) -> *mut T {
    let words = n * std::mem::size_of::<T>() / 8 + 1;
    SPARES.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() <= i { s.resize(i + 1, Vec::new()) }
        if s[i].len() < words { s[i].resize(words, 0) }
        s[i].as_mut_ptr() as *mut T
    })
}
impl<T: Unit> Source<T> {
    pub fn ptr(&self) -> *const T { self.0 }
    pub fn unchanged(&self) -> bool { unsafe { std::slice::from_raw_parts(self.0, self.1.len()) == &self.1[..] } }
}
/// Pointers, ending at an unreadable page.
pub fn pointers<T>(slot: usize, p: &[*const T]) -> *const *const T {
    unsafe {
        let d = (slot_end(slot) as *mut *const T).sub(p.len());
        std::ptr::copy_nonoverlapping(p.as_ptr(), d, p.len());
        d
    }
}
const EDGE: usize = 24;
/// What a destination holds after the call.
#[derive(PartialEq)]
pub struct Wrote<T> { pub units: Vec<T>, pub around: bool, pub sources: bool, pub ret: i32 }
impl<T: Unit> std::fmt::Debug for Wrote<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = self.units.iter().position(|x| *x == T::default()).unwrap_or(self.units.len());
        match T::dec(&self.units[..n]) {
            Some(t) => write!(f, "{:?}", Text(t))?,
            None => write!(f, "{:x?}", &self.units[..n.min(60)])?,
        }
        if n == self.units.len() { write!(f, " without a terminator")? }
        if !self.around { write!(f, ", with memory around the result changed")? }
        if !self.sources { write!(f, ", with a source changed")? }
        if self.ret != 0 { write!(f, ", result {}", self.ret)? }
        Ok(())
    }
}
/// Calls f on a destination of n units (stale content `fill`) with untouchable units around; what lies past the expected
/// result is part of `around`.
pub fn dest<T: Unit>(n: usize, expect: usize, fill: u16, f: impl FnOnce(*mut T) -> (i32, bool)) -> Wrote<T> {
    let fill = if T::WIDE { fill as u64 } else { (fill & 0xff) as u64 };
    let all = n + 2 * EDGE;
    let mut large: Vec<T> = if all * std::mem::size_of::<T>() > SLOT { vec![T::default(); all] } else { Vec::new() };
    let p = if large.is_empty() { unsafe { (slot_end(SLOTS - 1) as *mut T).sub(all) } } else { large.as_mut_ptr() };
    let buf = |p: *mut T| unsafe { std::slice::from_raw_parts_mut(p, all) };
    let canary = |i: usize| T::from_u64(0x5a + 7 * i as u64 | 1);
    for (i, x) in buf(p).iter_mut().enumerate() { *x = if i < EDGE || i >= EDGE + n { canary(i) } else { T::from_u64(fill) } }
    let (ret, sources) = f(unsafe { p.add(EDGE) });
    let b = buf(p);
    let k = expect.min(n);
    let around = b.iter().enumerate().all(|(i, x)| if i < EDGE || i >= EDGE + n { *x == canary(i) } else { i < EDGE + k || *x == T::from_u64(fill) });
    Wrote { units: b[EDGE..EDGE + k].to_vec(), around, sources, ret }
}
/// Exactly these characters and one terminator.
pub fn wrote<T: Unit>(w: &Wrote<T>, chars: &[char]) -> bool {
    let mut e = T::enc(chars);
    e.push(T::default());
    w.units == e && w.around && w.sources && w.ret == 0
}
pub fn units_of<T: Unit>(chars: &[char]) -> usize { T::enc(chars).len() + 1 }
/// A position or length: around the ones the text has.
#[derive(Debug, Clone, Copy)]
pub struct At(pub i32);
impl Arb for At {
    fn arb(s: &mut Src) -> At {
        let longest = s.texts.first().map_or(0, |t| t.len());
        let other = s.last.last().map_or(0, |x| *x as i32);
        At(match s.choice(10) {
            0 => <i32 as Arb>::arb(s),
            8 => (longest as i32 + 2).wrapping_sub(other).wrapping_sub(s.choice(4) as i32),
            9 => { let x = named_len(s); s.choice_is(x) as i32 }
            1 => -(s.choice(4) as i32),
            2 | 3 => longest as i32 + 2 - s.choice(5) as i32,
            _ => s.choice(longest as u64 + 2) as i32,
        })
    }
}
/// Several values.
#[derive(Debug, Clone)]
pub struct Many<A>(pub Vec<A>);
impl<A: Arb> Arb for Many<A> {
    fn arb(s: &mut Src) -> Self {
        let n = s.choice(8);
        // one in a hundred: more than a byte counts
        let n = if n == 7 && s.choice(12) == 0 { let x = s.below(3); let x = if x == 0 { named_len(s) } else { [127, 128, 129, 255, 256, 257, 258, 300, 512, 515][s.below(10) as usize] }; s.choice_is(x).min(2001) } else { n };
        Many((0..n).map(|_| A::arb(s)).collect())
    }
}
/// Stale content of a destination.
#[derive(Debug, Clone, Copy)]
pub struct Stale(pub u16);
impl Arb for Stale {
    fn arb(s: &mut Src) -> Self { Stale([0, 0x78, 0x3230, 0xffff, 0x35][s.choice(5) as usize]) }
}
/// Where a slice [from, from + n) of the characters lies, if inside.
pub fn run(t: &Text, from: i64, n: i64) -> Option<&[char]> {
    if from < 0 || n < 0 || from + n > t.0.len() as i64 { None } else { Some(&t.0[from as usize..(from + n) as usize]) }
}
pub fn join(parts: &[&[char]]) -> Vec<char> { parts.concat() }
