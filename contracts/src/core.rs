//! The contract machinery. One `contracts!` entry states the contract of one function of /repo:
//!
//!     fn NAME(args) -> R = <call of the real function>;
//!     given <assumption the contract speaks under>;
//!     valid <when the call must return; when it is false the call must panic>;
//!     post r <what the returned value must satisfy>;
//!
//! Under `cfg(kani)` an entry becomes
//!   NAME::accepts  a `proof_for_contract` of `requires(given && valid) ensures(post)`: for every argument the
//!                  call neither panics, overflows nor touches memory it may not, and its result satisfies `post`
//!   NAME::rejects  a should_panic proof over `given && !valid`: no such call returns (`returned()` is a
//!                  non-panic failure, so a call that comes back turns the verdict)
//! Natively the same tokens become a replay/search target: arguments come from a replayed counterexample or a
//! search, the real function is called, and `valid`/`post` judge what it did.

#[cfg(kani)]
pub trait Arb: Sized {
    fn any() -> Self;
}
#[cfg(kani)]
pub fn any<T: Arb>() -> T {
    T::any()
}

/// Reached only when a call that had to panic came back.
#[cfg(kani)]
#[inline(never)]
pub fn returned() {
    #[allow(deref_nullptr)]
    unsafe {
        core::ptr::null_mut::<u8>().write_volatile(1)
    }
}

#[cfg(kani)]
macro_rules! arb_prim { ($($t:ty),*) => { $(impl Arb for $t { fn any() -> $t { kani::any() } })* } }
#[cfg(kani)]
arb_prim!(u8, u16, u32, u64, i8, i16, i32, i64, bool);
#[cfg(kani)]
impl Arb for f32 {
    fn any() -> f32 {
        f32::from_bits(kani::any())
    }
}
#[cfg(kani)]
impl Arb for f64 {
    fn any() -> f64 {
        f64::from_bits(kani::any())
    }
}
#[cfg(kani)]
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn any() -> [T; N] {
        core::array::from_fn(|_| T::any())
    }
}

/// The native search's counterparts are lists of any length.
#[cfg(kani)]
#[derive(Clone, Copy, Debug)]
pub struct Count(pub u32);
#[cfg(kani)]
impl Arb for Count {
    fn any() -> Count {
        Count(kani::any())
    }
}
#[cfg(kani)]
pub type Cells<T> = [T; 4];

#[cfg(not(kani))]
pub use native::*;
#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    use std::fmt::Debug;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    /// Where arguments come from: recorded raw values, or an edge-biased pseudo-random search.
    pub struct Src {
        pub replay: Option<Vec<Vec<u8>>>,
        pub pos: usize,
        pub rec: Vec<Vec<u8>>,
        pub state: u64,
        pub dict: Vec<i128>,
        pub last: Vec<u64>,
        /// upper bound on generated string lengths etc.
        pub size: usize,
        /// texts of the arguments so far
        pub texts: Vec<Vec<char>>,
        /// print each call before it is made
        pub log: Option<&'static str>,
    }
    impl Src {
        pub fn random(seed: u64, dict: Vec<i128>) -> Src {
            Src { replay: None, pos: 0, rec: vec![], state: seed | 1, dict, last: vec![], size: 6, texts: vec![], log: None }
        }
        pub fn replaying(v: Vec<Vec<u8>>) -> Src {
            Src { replay: Some(v), pos: 0, rec: vec![], state: 1, dict: vec![], last: vec![], size: 6, texts: vec![], log: None }
        }
        pub fn reset(&mut self) {
            self.rec.clear();
            self.last.clear();
            self.texts.clear();
            self.pos = 0;
        }
        /// Just before the call.
        pub fn announce(&self) {
            if let Some(t) = self.log {
                let raw: Vec<String> = self.rec.iter().map(|x| x.iter().map(|b| format!("{b:02x}")).collect()).collect();
                eprintln!("CALL {t} {}", raw.join(","));
            }
        }
        pub fn bits(&mut self) -> u64 {
            // splitmix64
            self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.bits() % n.max(1)
        }
        /// One primitive of `w` bytes.
        pub fn prim(&mut self, w: usize) -> u64 {
            let v = if let Some(r) = &self.replay {
                let mut b = [0u8; 8];
                if let Some(x) = r.get(self.pos) {
                    for (i, y) in x.iter().take(8).enumerate() {
                        b[i] = *y;
                    }
                }
                self.pos += 1;
                u64::from_le_bytes(b)
            } else {
                self.edge(w)
            };
            let v = if w == 8 { v } else { v & ((1u64 << (8 * w)) - 1) };
            self.last.push(v);
            self.rec.push(v.to_le_bytes()[..w].to_vec());
            v
        }
        /// A raw choice below n, recorded (for shapes: lengths, alphabets)
        pub fn choice(&mut self, n: u64) -> u64 {
            let v = if self.replay.is_some() {
                // as recorded: the bound depends on the search's settings
                self.prim(8).min(1 << 24)
            } else {
                let v = self.below(n);
                self.last.push(v);
                self.rec.push(v.to_le_bytes().to_vec());
                v
            };
            v
        }
        /// A primitive of `w` bytes the caller decides, recorded as `prim` would.
        pub fn prim_is(&mut self, w: usize, v: u64) -> u64 {
            if self.replay.is_some() { return self.prim(w); }
            let v = if w == 8 { v } else { v & ((1u64 << (8 * w)) - 1) };
            self.rec.push(v.to_le_bytes()[..w].to_vec());
            v
        }
        /// A value the caller decides, recorded.
        pub fn choice_is(&mut self, v: u64) -> u64 {
            if self.replay.is_some() { self.prim(8) } else {
                self.rec.push(v.to_le_bytes().to_vec());
                v
            }
        }
        fn edge(&mut self, w: usize) -> u64 {
            let bits = 8 * w as u32;
            match self.below(16) {
                0 => self.below(4),
                1 => (0u64).wrapping_sub(self.below(4)),
                2 => (1u64 << (bits - 1)).wrapping_add(self.below(5)).wrapping_sub(2),
                3 => {
                    let s = self.below(bits as u64);
                    (1u64 << s).wrapping_add(self.below(5)).wrapping_sub(2)
                }
                4 => self.below(300),
                5 if !self.last.is_empty() => {
                    let i = self.below(self.last.len() as u64) as usize;
                    let d = self.below(7);
                    self.last[i].wrapping_add(d).wrapping_sub(3)
                }
                6 | 7 if !self.dict.is_empty() => {
                    let i = self.below(self.dict.len() as u64) as usize;
                    let d = self.below(3) as i128 - 1;
                    let v = self.dict[i] + d;
                    (if self.below(4) == 0 { -v } else { v }) as u64
                }
                8 => {
                    // calendar-shaped nanoseconds
                    let unit = [1_000_000_000u64, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 1_000_000, 1000]
                        [self.below(6) as usize];
                    let k = self.below(40000);
                    let v = unit.wrapping_mul(k).wrapping_add(self.below(3)).wrapping_sub(1);
                    if self.below(2) == 0 { v.wrapping_neg() } else { v }
                }
                9 => {
                    let s = self.below(64);
                    self.bits() >> s
                }
                10 => {
                    let s = self.below(64);
                    (self.bits() >> s).wrapping_neg()
                }
                11 => {
                    // floating point shaped
                    let k = self.below(2001) as f64 - 1000.0;
                    let d = [1.0, 2.0, 4.0, 10.0, 1000.0, 0.001, 1e-6, 1e6][self.below(8) as usize];
                    if w == 4 { ((k / d) as f32).to_bits() as u64 } else { (k / d).to_bits() }
                }
                12 => {
                    if w == 4 {
                        [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, f32::MIN_POSITIVE, f32::MAX, 0.5, -0.5, 1.0, 2.0,
                         1e6, -1e6, 1e14, 3e38][self.below(15) as usize].to_bits() as u64
                    } else {
                        [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MIN_POSITIVE, f64::MAX, 0.5, -0.5, 1.0, 2.0,
                         1e6, -1e6, 1e14, -1e300][self.below(15) as usize].to_bits()
                    }
                }
                _ => self.bits(),
            }
        }
    }

    pub trait Arb: Sized {
        fn arb(s: &mut Src) -> Self;
    }
    macro_rules! arb_int { ($($t:ty : $w:expr),*) => { $(impl Arb for $t { fn arb(s: &mut Src) -> $t { s.prim($w) as $t } })* } }
    arb_int!(u8:1, u16:2, u32:4, u64:8, i8:1, i16:2, i32:4, i64:8);
    impl Arb for bool {
        fn arb(s: &mut Src) -> bool {
            s.prim(1) & 1 == 1
        }
    }
    impl Arb for f32 {
        fn arb(s: &mut Src) -> f32 {
            f32::from_bits(s.prim(4) as u32)
        }
    }
    impl Arb for f64 {
        fn arb(s: &mut Src) -> f64 {
            f64::from_bits(s.prim(8))
        }
    }
    impl<T: Arb, const N: usize> Arb for [T; N] {
        fn arb(s: &mut Src) -> [T; N] {
            core::array::from_fn(|_| T::arb(s))
        }
    }

    /// How many cells follow (at most u32), and the cells: at least four, so that a counterexample of a proof over four
    /// cells replays here.
    #[derive(Clone, Copy, Debug)]
    pub struct Count(pub u32);
    impl Arb for Count {
        fn arb(s: &mut Src) -> Count {
            let v = match s.below(8) {
                0 => s.below(400),
                1 if !s.dict.is_empty() => {
                    let i = s.below(s.dict.len() as u64) as usize;
                    (s.dict[i].unsigned_abs() as u64 + s.below(3)).saturating_sub(1) % 70_000
                }
                2 if s.below(64) == 0 => s.below(70_000),
                _ => s.below(9),
            };
            let v = if v > 2000 && s.below(16) > 0 { v % 2000 } else { v };
            Count(s.prim_is(4, v) as u32)
        }
    }
    pub trait Cell: Arb + Copy {
        const W: usize;
        fn of(v: u64) -> Self;
    }
    macro_rules! cells { ($($t:ty : $w:expr, $v:ident $e:expr;)*) => { $(impl Cell for $t { const W: usize = $w; fn of($v: u64) -> $t { $e } })* } }
    cells! { u8: 1, v v as u8; u16: 2, v v as u16; u32: 4, v v as u32; u64: 8, v v; i8: 1, v v as i8; i16: 2, v v as i16; i32: 4, v v as i32; i64: 8, v v as i64;
        f32: 4, v f32::from_bits(v as u32); f64: 8, v f64::from_bits(v); }
    pub struct Cells<T>(pub Vec<T>);
    impl<T: std::fmt::Debug> std::fmt::Debug for Cells<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            if self.0.len() <= 24 { write!(f, "{:?}", self.0) } else { write!(f, "{:?}.. ({} in all)", &self.0[..24], self.0.len()) }
        }
    }
    impl<T> std::ops::Index<usize> for Cells<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T { &self.0[i] }
    }
    impl<T> Cells<T> {
        pub fn as_ptr(&self) -> *const T { self.0.as_ptr() }
        /// as many as Count said
        pub fn arb_n(s: &mut Src, n: usize) -> Cells<T> where T: Cell {
            let n = n.max(4).min(70_000);
            // fresh values, or one value with a few others among it
            let mode = s.below(3);
            let (fill, near) = if s.replay.is_none() { (s.edge(T::W), s.edge(T::W)) } else { (0, 0) };
            let odd: Vec<usize> = (0..s.below(4)).map(|k| { let r = s.below(n as u64) as usize; match (k, s.below(4)) { (0, 0) => n - 1, (0, 1) => 0, _ => r } }).collect();
            Cells((0..n).map(|i| {
                let fresh = if s.replay.is_some() { 0 } else if mode == 0 && n <= 24 { s.edge(T::W) }
                    else if odd.contains(&i) { if s.below(2) == 0 { near } else { let d = s.below(5); fill.wrapping_add(d).wrapping_sub(2) } }
                    else if mode == 1 { let d = s.below(3); fill.wrapping_add(d) } else { fill };
                T::of(s.prim_is(T::W, fresh))
            }).collect())
        }
    }
    impl<T: Cell> Arb for Cells<T> {
        fn arb(s: &mut Src) -> Cells<T> {
            let n = s.rec.last().map_or(0, |b| b.iter().rev().fold(0usize, |a, x| a << 8 | *x as usize));
            Cells::arb_n(s, n)
        }
    }

    thread_local!(pub static ARGS: RefCell<String> = const { RefCell::new(String::new()) });

    pub enum Verdict {
        Skip,
        Held { valid: bool },
        Broken(String),
    }
    pub struct Target {
        pub name: &'static str,
        pub run: fn(&mut Src) -> Verdict,
    }

    /// Calls the real function; Err(message) when it panicked.
    pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default()
        })
    }
    pub fn judge<R: Debug>(valid: bool, out: Result<R, String>, post: impl FnOnce(&R) -> bool) -> Verdict {
        match (valid, out) {
            (true, Ok(r)) => {
                // a postcondition that panics on a result does not allow it
                if let Ok(true) = guarded(|| post(&r)) {
                    Verdict::Held { valid }
                } else {
                    Verdict::Broken(format!("returned {r:?}, which its postcondition does not allow"))
                }
            }
            (true, Err(m)) => Verdict::Broken(format!("panicked ({m}) although its precondition holds")),
            (false, Ok(r)) => Verdict::Broken(format!("returned {r:?} although these arguments must be rejected with a panic")),
            (false, Err(_)) => Verdict::Held { valid },
        }
    }
}

/// `contracts!{ group g; .. }` checks every entry with Kani function contracts and natively. Variants:
/// `group g by proof;` the same obligations in a plain Kani proof (needed where stubs keep state in statics, which
/// proof_for_contract would havoc), `by kani proof` only that, `by native` only the native evaluation.
#[macro_export]
macro_rules! contracts {
    (group $g:ident; $($body:tt)*) => { $crate::contracts!{ @split $g [contract] [native]; $($body)* } };
    (group $g:ident by proof; $($body:tt)*) => { $crate::contracts!{ @split $g [proof] [native]; $($body)* } };
    (group $g:ident by kani proof; $($body:tt)*) => { $crate::contracts!{ @split $g [proof] []; $($body)* } };
    (group $g:ident by native; $($body:tt)*) => { $crate::contracts!{ @split $g [] [native]; $($body)* } };
    (@split $g:ident $k:tt $n:tt; $(
        $(#[$m:meta])*
        fn $name:ident ( $($a:ident : $t:ty),* $(,)? ) -> $rt:ty = $call:expr;
        $(given $as:expr;)?
        $(valid $v:expr;)?
        post $r:ident $p:expr;
    )*) => {
        #[allow(non_snake_case, unused_imports, dead_code, unused_variables, unused_parens, unused_unsafe)]
        pub mod $g {
            use super::*;
            $(
            $crate::kani_side!{ $k $name [$($v)?] [$($as)?] [$(#[$m])*] ($($a: $t),*) -> $rt = $call ; $r $p }
            $crate::native_side!{ $n $name [$($v)?] [$($as)?] ($($a: $t),*) -> $rt = $call ; $r $p }
            )*
            #[cfg(not(kani))]
            $crate::native_targets!{ $n $g $($name)* }
        }
    };
}
#[macro_export]
macro_rules! native_targets {
    ([] $g:ident $($name:ident)*) => { pub const TARGETS: &[$crate::core::Target] = &[]; };
    ([native] $g:ident $($name:ident)*) => {
        pub const TARGETS: &[$crate::core::Target] = &[ $( $crate::core::Target { name: concat!(stringify!($g), "::", stringify!($name)), run: $name } ),* ];
    };
}
#[macro_export]
macro_rules! native_side {
    ([] $($rest:tt)*) => {};
    ([native] $name:ident [$($v:expr)?] [$($as:expr)?] ($($a:ident : $t:ty),*) -> $rt:ty = $call:expr ; $r:ident $p:expr) => {
        #[cfg(not(kani))]
        pub fn $name(s: &mut $crate::core::Src) -> $crate::core::Verdict {
            use $crate::core::*;
            $(let $a: $t = Arb::arb(s);)*
            if !(true $(&& ($as))?) { return Verdict::Skip; }
            let valid: bool = true $(&& ($v))?;
            ARGS.with(|x| { let mut x = x.borrow_mut(); x.clear(); $( x.push_str(&format!("{}={:?} ", stringify!($a), $a)); )* });
            s.announce();
            let out = guarded(|| -> $rt { $call });
            judge(valid, out, |$r: &$rt| $p)
        }
    };
}
#[macro_export]
macro_rules! kani_side {
    ([] $($rest:tt)*) => {};
    ([contract] $name:ident [$($v:expr)?] [$($as:expr)?] [$(#[$m:meta])*] ($($a:ident : $t:ty),*) -> $rt:ty = $call:expr ; $r:ident $p:expr) => {
        #[cfg(kani)]
        pub mod $name {
            use super::*;
            #[kani::requires(true $(&& ($as))? $(&& ($v))?)]
            #[kani::ensures(|$r: &$rt| $p)]
            pub fn contract($($a: $t),*) -> $rt { $call }
            #[kani::proof_for_contract(contract)]
            $(#[$m])*
            fn accepts() {
                $(let $a: $t = $crate::core::any();)*
                let out = contract($($a),*);
                kani::cover!(true, "the contract's precondition is satisfiable and the call returns");
                core::mem::forget(out);
            }
            $crate::rejects!{ [$($v)?] [$($as)?] [$(#[$m])*] ($($a: $t),*) -> $rt = $call }
        }
    };
    ([proof] $name:ident [$($v:expr)?] [$($as:expr)?] [$(#[$m:meta])*] ($($a:ident : $t:ty),*) -> $rt:ty = $call:expr ; $r:ident $p:expr) => {
        #[cfg(kani)]
        pub mod $name {
            use super::*;
            #[kani::proof]
            $(#[$m])*
            fn accepts() {
                $(let $a: $t = $crate::core::any();)*
                $crate::given!($($as)?);
                $crate::given!($($v)?);
                let out = (|| -> $rt { $call })();
                kani::cover!(true, "the contract's precondition is satisfiable and the call returns");
                { let $r = &out; assert!($p, "postcondition"); }
                core::mem::forget(out);
            }
            $crate::rejects!{ [$($v)?] [$($as)?] [$(#[$m])*] ($($a: $t),*) -> $rt = $call }
        }
    };
}
#[macro_export]
macro_rules! given { () => {}; ($e:expr) => { kani::assume($e) }; }

#[macro_export]
macro_rules! rejects {
    ([] $($rest:tt)*) => {};
    ([$v:expr] [$($as:expr)?] [$(#[$m:meta])*] ($($a:ident : $t:ty),*) -> $rt:ty = $call:expr) => {
        #[kani::proof]
        #[kani::should_panic]
        $(#[$m])*
        fn rejects() {
            $(let $a: $t = $crate::core::any();)*
            $crate::given!($($as)?);
            kani::assume(!($v));
            kani::cover!(true, "there are arguments to reject");
            let out = (|| -> $rt { $call })();
            core::mem::forget(out);
            $crate::core::returned();
        }
    };
}

/// A function block instance as the PLC runtime hands it over: the declared memory `M`, followed by zeroed bytes, so
/// that an implementation keeping more private state than `M` shows still works on memory of its own.
#[repr(C)]
pub struct Instance<M> {
    pub m: M,
    pad: [u64; 8],
}
impl<M: Copy> Instance<M> {
    pub fn new(m: M) -> Self {
        Instance { m, pad: [0; 8] }
    }
    /// One call of the function block `f` on this memory.
    pub fn call<R>(&mut self, f: impl FnOnce(&mut R)) -> M {
        f(unsafe { &mut *(self as *mut Self as *mut R) });
        self.m
    }
}
/// The mirror `M` shows all the memory of `R`.
pub const fn same<M, R>() -> bool {
    ::core::mem::size_of::<M>() == ::core::mem::size_of::<R>()
}
