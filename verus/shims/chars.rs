// ---------------------------------------------------------------- open ranges, take_while, and encoding one character
pub struct VFrom { pub a: usize }
impl VFrom {
    #[verifier::external_body] pub fn v_new(a: usize) -> (r: VFrom) ensures r.a == a { unimplemented!() }
    #[verifier::external_body] pub fn take_while<F: Fn(&usize) -> bool>(self, f: F, n: Ghost<int>) -> (r: TakeWhile<F>) requires stops(f, self.a as int, n@) ensures r.a() == self.a, r.f() == f, r.n() == n@ { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(F)]
pub struct TakeWhile<F> { f: F }
// the predicate may be asked about every index up to n, holds below n and not at n
pub open spec fn stops<F: Fn(&usize) -> bool>(f: F, a: int, n: int) -> bool {
    a <= n <= usize::MAX && (forall|i: usize| a <= i <= n ==> #[trigger] f.requires((&i,))) && (forall|i: usize, r: bool| a <= i <= n && #[trigger] f.ensures((&i,), r) ==> r == (i < n))
}
impl<F: Fn(&usize) -> bool> TakeWhile<F> {
    pub uninterp spec fn a(self) -> usize;
    pub uninterp spec fn f(self) -> F;
    pub uninterp spec fn n(self) -> int;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures stops(self.f(), self.a() as int, self.n()) ==> r == self.n() - self.a() { unimplemented!() }
}
pub trait VChar: Sized {
    spec fn c(self) -> char;
    fn v_encode_utf8<const N: usize>(self, b: &mut [u8; N], vk: Ghost<bool>) -> (r: VStr) requires vk@ ==> enc1_8(self.c()).len() <= N ensures enc1_8(self.c()).len() <= N, r.view() == seq![self.c()];
    fn v_encode_utf16<const N: usize>(self, b: &mut [u16; N], vk: Ghost<bool>) -> (r: VSlice<u16>) requires vk@ ==> enc1_16(self.c()).len() <= N ensures enc1_16(self.c()).len() <= N, r.view() == enc1_16(self.c());
    fn v_len_utf8(self) -> (r: usize) ensures r == enc1_8(self.c()).len();
    fn v_len_utf16(self) -> (r: usize) ensures r == enc1_16(self.c()).len();
}
impl VChar for char {
    open spec fn c(self) -> char { self }
    #[verifier::external_body] fn v_encode_utf8<const N: usize>(self, b: &mut [u8; N], vk: Ghost<bool>) -> (r: VStr) { unimplemented!() }
    #[verifier::external_body] fn v_encode_utf16<const N: usize>(self, b: &mut [u16; N], vk: Ghost<bool>) -> (r: VSlice<u16>) { unimplemented!() }
    #[verifier::external_body] fn v_len_utf8(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_len_utf16(self) -> (r: usize) { unimplemented!() }
}
