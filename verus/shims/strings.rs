// ---------------------------------------------------------------- characters and code units
pub struct DecErr {}
pub struct Utf8Err {}
pub open spec fn chr_ok(x: int) -> bool { 0 <= x < 0xd800 || 0xe000 <= x < 0x110000 }
pub open spec fn is_chr(c: char, x: int) -> bool { c as u32 as int == x }
#[verifier::opaque] pub open spec fn chr(x: int) -> char { choose|c: char| is_chr(c, x) }
pub open spec fn lossy1(r: Result<char, DecErr>) -> char { match r { Ok(c) => c, Err(_) => '\u{fffd}' } }
pub open spec fn oks(s: Seq<Result<char, DecErr>>) -> Seq<char> { Seq::new(s.len(), |i: int| lossy1(s[i])) }
pub open spec fn all_ok(s: Seq<Result<char, DecErr>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn enc1_8(c: char) -> Seq<u8> {
    let x = c as u32 as int;
    if x < 0x80 { seq![x as u8] }
    else if x < 0x800 { seq![(0xc0 + x / 64) as u8, (0x80 + x % 64) as u8] }
    else if x < 0x10000 { seq![(0xe0 + x / 4096) as u8, (0x80 + x / 64 % 64) as u8, (0x80 + x % 64) as u8] }
    else { seq![(0xf0 + x / 262144) as u8, (0x80 + x / 4096 % 64) as u8, (0x80 + x / 64 % 64) as u8, (0x80 + x % 64) as u8] }
}
pub open spec fn enc1_16(c: char) -> Seq<u16> {
    let x = c as u32 as int;
    if x < 0x10000 { seq![x as u16] } else { seq![(0xd800 + (x - 0x10000) / 1024) as u16, (0xdc00 + (x - 0x10000) % 1024) as u16] }
}
pub open spec fn high(u: u16) -> bool { 0xd800 <= u < 0xdc00 }
pub open spec fn low(u: u16) -> bool { 0xdc00 <= u < 0xe000 }
// what decoding UTF-16 yields, one item per character or unpaired surrogate
pub open spec fn items16(u: Seq<u16>) -> Seq<Result<char, DecErr>> decreases u.len() {
    if u.len() == 0 { Seq::empty() }
    else if !high(u[0]) && !low(u[0]) { seq![Ok(chr(u[0] as int))] + items16(u.skip(1)) }
    else if high(u[0]) && u.len() > 1 && low(u[1]) { seq![Ok(chr(0x10000 + (u[0] - 0xd800) * 1024 + (u[1] - 0xdc00)))] + items16(u.skip(2)) }
    else { seq![Err(DecErr {})] + items16(u.skip(1)) }
}
pub trait Code: Sized {
    spec fn num(self) -> int;
    fn is_zero(&self) -> (r: bool) ensures r == (*self == Self::zero());
    spec fn zero() -> Self;
    spec fn enc1(c: char) -> Seq<Self>;
}
pub trait Unit: Code {
    type Item;
    // the string is well-formed, the characters it then has, what decoding it yields, and whether decoding returns
    spec fn ok(u: Seq<Self>) -> bool;
    spec fn chars(u: Seq<Self>) -> Seq<char>;
    spec fn items(u: Seq<Self>) -> Seq<Self::Item>;
    spec fn decodes(u: Seq<Self>) -> bool;
}
pub open spec fn enc<T: Code>(s: Seq<char>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc::<T>(s.drop_last()) + T::enc1(s.last()) }
}
impl Code for u8 {
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() }
    open spec fn num(self) -> int { self as int }
    open spec fn zero() -> u8 { 0 }
    open spec fn enc1(c: char) -> Seq<u8> { enc1_8(c) }
}
impl Code for u16 {
    #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() }
    open spec fn num(self) -> int { self as int }
    open spec fn zero() -> u16 { 0 }
    open spec fn enc1(c: char) -> Seq<u16> { enc1_16(c) }
}
pub open spec fn well8(u: Seq<u8>) -> bool { exists|s: Seq<char>| enc::<u8>(s) == u }
pub open spec fn dec8(u: Seq<u8>) -> Seq<char> { choose|s: Seq<char>| enc::<u8>(s) == u }
impl Unit for u8 {
    type Item = char;
    open spec fn ok(u: Seq<u8>) -> bool { well8(u) }
    open spec fn chars(u: Seq<u8>) -> Seq<char> { dec8(u) }
    open spec fn items(u: Seq<u8>) -> Seq<char> { dec8(u) }
    open spec fn decodes(u: Seq<u8>) -> bool { well8(u) }
}
impl Unit for u16 {
    type Item = Result<char, DecErr>;
    open spec fn ok(u: Seq<u16>) -> bool { all_ok(items16(u)) }
    open spec fn chars(u: Seq<u16>) -> Seq<char> { oks(items16(u)) }
    open spec fn items(u: Seq<u16>) -> Seq<Result<char, DecErr>> { items16(u) }
    open spec fn decodes(u: Seq<u16>) -> bool { true }
}
// ---------------------------------------------------------------- memory
// A source pointer sees readable cells (those of its own string or argument list) and stands at one of them. The memory
// a destination pointer writes to is a map from addresses; sources are not part of it (no overlap).
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct CPtr<T> { p: *const T }
impl<T> Copy for CPtr<T> {} impl<T> Clone for CPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> CPtr<T> {
    pub uninterp spec fn cells(self) -> Seq<T>;
    pub uninterp spec fn off(self) -> int;
    pub uninterp spec fn null(self) -> bool;
    #[verifier::external_body] pub fn vread(self) -> (r: T) requires !self.null(), 0 <= self.off() < self.cells().len() ensures r == self.cells()[self.off()] { unimplemented!() }
    #[verifier::external_body] pub fn add(self, n: usize) -> (r: Self) requires !self.null() || n == 0, 0 <= self.off(), self.off() + n <= self.cells().len()
        ensures r.cells() == self.cells(), r.off() == self.off() + n, r.null() == self.null(), n == 0 ==> r == self { unimplemented!() }
    #[verifier::external_body] pub fn offset(self, n: isize) -> (r: Self) requires !self.null() || n == 0, 0 <= self.off() + n <= self.cells().len()
        ensures r.cells() == self.cells(), r.off() == self.off() + n, r.null() == self.null(), n == 0 ==> r == self { unimplemented!() }
    #[verifier::external_body] pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
}
// stands in a terminated string
pub open spec fn is_str<T: Unit>(p: CPtr<T>) -> bool {
    !p.null() && 0 <= p.off() < p.cells().len() && p.cells().last() == T::zero() && (forall|i: int| 0 <= i < p.cells().len() - 1 ==> (#[trigger] p.cells()[i]) != T::zero())
        && p.cells().len() <= 0x7fff_ffff
}
pub open spec fn str_at<T>(p: CPtr<T>) -> Seq<T> { if p.null() { Seq::empty() } else { p.cells().subrange(p.off(), p.cells().len() - 1) } }
pub open spec fn good<T: Unit>(p: CPtr<T>) -> bool { is_str(p) && T::ok(str_at(p)) && T::chars(str_at(p)).len() <= str_at(p).len() }
pub open spec fn chars<T: Unit>(p: CPtr<T>) -> Seq<char> { T::chars(str_at(p)) }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct MPtr<T> { p: *mut T }
impl<T> Copy for MPtr<T> {} impl<T> Clone for MPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub tracked struct Mem<T> { pub ghost m: spec_fn(int) -> T }
pub open spec fn wr<T>(m: spec_fn(int) -> T, a: int, b: Seq<T>) -> spec_fn(int) -> T { |i: int| if a <= i < a + b.len() { b[i - a] } else { m(i) } }
impl<T> MPtr<T> {
    pub uninterp spec fn addr(self) -> int;
    pub uninterp spec fn null(self) -> bool;
    #[verifier::external_body] pub fn is_null(self) -> (r: bool) ensures r == self.null() { unimplemented!() }
    #[verifier::external_body] pub fn add(self, n: usize) -> (r: Self) requires !self.null() ensures r.addr() == self.addr() + n, !r.null() { unimplemented!() }
    #[verifier::external_body] pub fn offset(self, n: isize) -> (r: Self) requires !self.null() ensures r.addr() == self.addr() + n, !r.null() { unimplemented!() }
    #[verifier::external_body] pub fn vwrite(self, v: T, Tracked(m): Tracked<&mut Mem<T>>) requires !self.null() ensures final(m).m == wr(old(m).m, self.addr(), seq![v]) { unimplemented!() }
}
// exactly these characters and one terminator were written, and nothing else
pub open spec fn wrote1<T: Unit>(m0: spec_fn(int) -> T, m1: spec_fn(int) -> T, a: int, s: Seq<char>) -> bool { m1 == wr(m0, a, enc::<T>(s).push(T::zero())) }
pub open spec fn wrote<T: Unit>(m0: spec_fn(int) -> T, m1: spec_fn(int) -> T, a: int, s: Seq<char>) -> bool {
    exists|t: Seq<char>| #[trigger] wrote1::<T>(m0, m1, a, t) && t =~= s
}
// ---------------------------------------------------------------- iterators
#[verifier::external_body] #[verifier::accept_recursive_types(A)]
pub struct It<A> { x: core::marker::PhantomData<A> }
pub open spec fn upto(n: int, m: nat) -> int { if n <= m { n } else { m as int } }
impl<A> It<A> {
    pub uninterp spec fn s(self) -> Seq<A>;
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<A>) ensures r.s() == self.s().take(upto(n as int, self.s().len())) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<A>) ensures r.s() == self.s().skip(upto(n as int, self.s().len())) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: It<A>) -> (r: It<A>) ensures r.s() == self.s() + o.s() { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: Fn(A) -> B>(self, f: F) -> (r: It<B>) requires forall|i: int| 0 <= i < self.s().len() ==> f.requires((#[trigger] self.s()[i],))
        ensures r.s().len() == self.s().len(), forall|i: int| 0 <= i < r.s().len() ==> f.ensures((self.s()[i],), #[trigger] r.s()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body] pub fn by_ref(&mut self) -> (r: &mut It<A>) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<A>)
        ensures old(self).s().len() == 0 ==> r is None && final(self).s() == old(self).s(),
            old(self).s().len() > 0 ==> r is Some && r->0 == old(self).s()[0] && final(self).s() == old(self).s().skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: It<A>) ensures r == self { unimplemented!() }
}
// ---------------------------------------------------------------- integer ranges
pub trait VIdx: Sized { spec fn i(self) -> int; spec fn at(x: int) -> Self; }
impl VIdx for i32 { open spec fn i(self) -> int { self as int } open spec fn at(x: int) -> i32 { x as i32 } }
impl VIdx for u32 { open spec fn i(self) -> int { self as int } open spec fn at(x: int) -> u32 { x as u32 } }
impl VIdx for i64 { open spec fn i(self) -> int { self as int } open spec fn at(x: int) -> i64 { x as i64 } }
impl VIdx for usize { open spec fn i(self) -> int { self as int } open spec fn at(x: int) -> usize { x as usize } }
pub struct VRange {}
impl VRange {
    #[verifier::external_body] pub fn v_new<T: VIdx>(a: T, b: T) -> (r: It<T>) ensures r.s() == Seq::new(if a.i() < b.i() { (b.i() - a.i()) as nat } else { 0 }, |k: int| T::at(a.i() + k)) { unimplemented!() }
    #[verifier::external_body] pub fn v_incl<T: VIdx>(a: T, b: T) -> (r: It<T>) ensures r.s() == Seq::new(if a.i() <= b.i() { (b.i() - a.i() + 1) as nat } else { 0 }, |k: int| T::at(a.i() + k)) { unimplemented!() }
}
pub trait VOr<T>: Sized { spec fn or(self, d: T) -> T; fn v_unwrap_or(self, d: T) -> (r: T) ensures r == self.or(d); }
impl<T> VOr<T> for Option<T> { open spec fn or(self, d: T) -> T { match self { Some(x) => x, None => d } } #[verifier::external_body] fn v_unwrap_or(self, d: T) -> (r: T) { unimplemented!() } }
impl<T, E> VOr<T> for Result<T, E> { open spec fn or(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } } #[verifier::external_body] fn v_unwrap_or(self, d: T) -> (r: T) { unimplemented!() } }
pub fn v_replacement() -> (r: char) ensures r == '\u{fffd}' { '\u{fffd}' }
