// ---------------------------------------------------------------- text of values, and writing text (assumed contracts on core::fmt and std::io)
pub open spec fn digits(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { digits(n / 10).push((48 + n % 10) as u8) } }
#[verifier::opaque] pub open spec fn dec(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + digits((-n) as nat) } else { digits(n as nat) } }
pub open spec fn zeros(k: int) -> Seq<u8> { Seq::new(if k < 0 { 0 } else { k as nat }, |i: int| 48u8) }
pub open spec fn pad(n: int, w: int) -> Seq<u8> { if n < 0 { seq![45u8] + zeros(w - 1 - digits((-n) as nat).len()) + digits((-n) as nat) } else { zeros(w - digits(n as nat).len()) + digits(n as nat) } }
pub open spec fn p10(k: nat) -> int decreases k { if k == 0 { 1 } else { 10 * p10((k - 1) as nat) } }
pub proof fn digits_len(n: nat, k: nat) requires k >= 1, n < p10(k) ensures 1 <= digits(n).len() <= k decreases k {
    if n >= 10 {
        if k == 1 { assert(p10(1) == 10) by { reveal_with_fuel(p10, 3); } }
        assert(n / 10 < p10((k - 1) as nat));
        digits_len(n / 10, (k - 1) as nat);
    }
}
// how long the numbers of the machine's types come out
pub proof fn dec_len(n: int) ensures 1 <= dec(n).len(), -0x8000_0000_0000_0000 <= n <= 0xffff_ffff_ffff_ffff ==> dec(n).len() <= 20, 0 <= n < 10 ==> dec(n).len() == 1, 0 <= n < 100 ==> dec(n).len() <= 2,
    0 <= n < 1000 ==> dec(n).len() <= 3, 0 <= n < 1_000_000 ==> dec(n).len() <= 6, 0 <= n < 1_000_000_000 ==> dec(n).len() <= 9, 0 <= n < 10_000 ==> dec(n).len() <= 4
{
    reveal(dec); reveal_with_fuel(p10, 22);
    let m = (if n < 0 { -n } else { n }) as nat;
    let k = m + 1;
    assert(p10(20) == 100_000_000_000_000_000_000) by (compute);
    assert(p10(19) == 10_000_000_000_000_000_000) by (compute);
    if m < p10(20) { digits_len(m, 20); }
    if m < p10(19) { digits_len(m, 19); }
    if m < p10(1) { digits_len(m, 1); }
    if m < p10(2) { digits_len(m, 2); }
    if m < p10(3) { digits_len(m, 3); }
    if m < p10(4) { digits_len(m, 4); }
    if m < p10(6) { digits_len(m, 6); }
    if m < p10(9) { digits_len(m, 9); }
    digits_some(m);
}
pub proof fn digits_some(n: nat) ensures digits(n).len() >= 1 decreases n { if n >= 10 { digits_some(n / 10); } }
pub trait VDisplay: Sized { spec fn text(self) -> Seq<u8>; }
pub trait VPadded: Sized { spec fn padded(self, w: int) -> Seq<u8>; }
macro_rules! shown { ($($t:ident)*) => { verus!{ $(
impl VDisplay for $t { open spec fn text(self) -> Seq<u8> { dec(self as int) } }
impl VPadded for $t { open spec fn padded(self, w: int) -> Seq<u8> { pad(self as int, w) } }
)* } } }
shown!{ u8 u16 i32 u32 i64 u64 i128 u128 usize }
impl VDisplay for VStr { open spec fn text(self) -> Seq<u8> { enc::<u8>(self.view()) } }
impl<'a, T: VDisplay> VDisplay for &'a T { open spec fn text(self) -> Seq<u8> { (*self).text() } }
pub struct VString { b: Ghost<Seq<u8>> }
impl VString {
    pub closed spec fn bytes(self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: VSlice<u8>) ensures r.view() == self.bytes() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { unimplemented!() }
}
impl VDisplay for VString { open spec fn text(self) -> Seq<u8> { self.bytes() } }
pub trait VToString: VDisplay { fn v_to_string(&self) -> (r: VString) ensures r.bytes() == self.text(); }
impl<T: VDisplay> VToString for T { #[verifier::external_body] fn v_to_string(&self) -> (r: VString) { unimplemented!() } }
// what format_args! makes: the pieces in order
pub struct VFmt { b: Ghost<Seq<u8>> }
impl VFmt {
    pub closed spec fn bytes(self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] pub fn v_new() -> (r: VFmt) ensures r.bytes() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_lit(self, s: Ghost<Seq<u8>>) -> (r: VFmt) ensures r.bytes() == self.bytes() + s@ { unimplemented!() }
    #[verifier::external_body] pub fn v_disp<T: VDisplay>(self, x: &T) -> (r: VFmt) ensures r.bytes() == self.bytes() + x.text() { unimplemented!() }
    #[verifier::external_body] pub fn v_pad<T: VPadded>(self, x: &T, w: Ghost<int>) -> (r: VFmt) ensures r.bytes() == self.bytes() + x.padded(w@) { unimplemented!() }
}
pub struct IoErr {}
impl VBuf<u8> {
    #[verifier::external_body] pub fn write_fmt(&mut self, f: VFmt, Tracked(m): Tracked<&mut Mem<u8>>) -> (r: Result<(), IoErr>)
        ensures r is Ok <==> f.bytes().len() <= old(self).n(),
            r is Ok ==> final(self).addr() == old(self).addr() + f.bytes().len() && final(self).n() == old(self).n() - f.bytes().len() && final(m).m == wr(old(m).m, old(self).addr(), f.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, s: VSlice<u8>, Tracked(m): Tracked<&mut Mem<u8>>) -> (r: Result<(), IoErr>)
        ensures r is Ok <==> s.view().len() <= old(self).n(),
            r is Ok ==> final(self).addr() == old(self).addr() + s.view().len() && final(self).n() == old(self).n() - s.view().len() && final(m).m == wr(old(m).m, old(self).addr(), s.view()) { unimplemented!() }
}
// these bytes and one terminator were written, and nothing else
pub open spec fn wrote_text(m0: spec_fn(int) -> u8, m1: spec_fn(int) -> u8, a: int, t: Seq<u8>) -> bool { m1 =~= wr(m0, a, t.push(0)) }
pub broadcast proof fn wr_cat(m: spec_fn(int) -> u8, a: int, x: Seq<u8>, b: int, y: Seq<u8>) requires b == a + x.len() ensures #[trigger] wr(wr(m, a, x), b, y) == wr(m, a, x + y) {
    assert(wr(wr(m, a, x), b, y) =~= wr(m, a, x + y));
}
pub broadcast proof fn from_none(x: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + x) == x { assert(Seq::<u8>::empty() + x =~= x); }
