// ---------------------------------------------------------------- slices and str
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VSlice<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for VSlice<T> {} impl<T> Clone for VSlice<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> VSlice<T> {
    pub uninterp spec fn view(self) -> Seq<T>;
    #[verifier::external_body] pub fn v_empty() -> (r: Self) ensures r.view() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn windows(self, n: usize, vk: Ghost<bool>) -> (r: It<VSlice<T>>) requires vk@ ==> n > 0
        ensures n > 0, r.s().len() == (if n <= self.view().len() { self.view().len() - n + 1 } else { 0int }),
            forall|i: int| #![trigger r.s()[i]] #![trigger self.view().subrange(i, i + n)] 0 <= i < r.s().len() ==> r.s()[i].view() == self.view().subrange(i, i + n) { unimplemented!() }
    #[verifier::external_body] pub fn iter(self) -> (r: It<&'static T>) ensures r.s() == refs(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: It<&'static T>) ensures r.s() == refs(self.view()) { unimplemented!() }
}
pub open spec fn refs<T>(s: Seq<T>) -> Seq<&'static T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T> It<VSlice<T>> {
    #[verifier::external_body] pub fn v_position_eq(self, w: VSlice<T>) -> (r: Option<usize>)
        ensures match r {
            Some(i) => i < self.s().len() && self.s()[i as int].view() == w.view() && forall|j: int| 0 <= j < i ==> (#[trigger] self.s()[j]).view() != w.view(),
            None => forall|j: int| 0 <= j < self.s().len() ==> (#[trigger] self.s()[j]).view() != w.view() } { unimplemented!() }
}
impl<T> It<&'static T> {
    #[verifier::external_body] pub fn copied(self) -> (r: It<T>) ensures self.s() == refs(r.s()), forall|v: Seq<T>| self.s() == #[trigger] refs(v) ==> r.s() == v, r.s().len() == self.s().len(), forall|i: int| 0 <= i < r.s().len() ==> r.s()[i] == *(#[trigger] self.s()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn cloned(self) -> (r: It<T>) ensures self.s() == refs(r.s()), forall|v: Seq<T>| self.s() == #[trigger] refs(v) ==> r.s() == v, r.s().len() == self.s().len(), forall|i: int| 0 <= i < r.s().len() ==> r.s()[i] == *(#[trigger] self.s()[i]) { unimplemented!() }
}
#[verifier::external_body]
pub struct VStr { x: u8 }
impl Copy for VStr {} impl Clone for VStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VStr {
    pub uninterp spec fn view(self) -> Seq<char>;
    #[verifier::external_body] pub fn chars(self) -> (r: It<char>) ensures r.s() == self.view() { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(self) -> (r: VSlice<u8>) ensures r.view() == enc::<u8>(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(self) -> (r: It<u8>) ensures r.s() == enc::<u8>(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn len(self) -> (r: usize) ensures r == enc::<u8>(self.view()).len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
}
#[verifier::external_body] pub fn decode_utf16(s: It<u16>) -> (r: It<Result<char, DecErr>>) ensures r.s() == items16(s.s()) { unimplemented!() }
// ---------------------------------------------------------------- lexicographic order
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
impl Ordering {
    #[verifier::external_body] pub fn is_gt(self) -> (r: bool) ensures r == (self is Greater) { unimplemented!() }
    #[verifier::external_body] pub fn is_ge(self) -> (r: bool) ensures r == !(self is Less) { unimplemented!() }
    #[verifier::external_body] pub fn is_eq(self) -> (r: bool) ensures r == (self is Equal) { unimplemented!() }
    #[verifier::external_body] pub fn is_ne(self) -> (r: bool) ensures r == !(self is Equal) { unimplemented!() }
    #[verifier::external_body] pub fn is_le(self) -> (r: bool) ensures r == !(self is Greater) { unimplemented!() }
    #[verifier::external_body] pub fn is_lt(self) -> (r: bool) ensures r == (self is Less) { unimplemented!() }
    #[verifier::external_body] pub fn reverse(self) -> (r: Ordering) ensures r == flip(self) { unimplemented!() }
}
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn lex<T: Code>(a: Seq<T>, b: Seq<T>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0].num() < b[0].num() { Ordering::Less }
    else if a[0].num() > b[0].num() { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}
impl<T: Code> VSlice<T> {
    #[verifier::external_body] pub fn cmp(self, o: VSlice<T>) -> (r: Ordering) ensures r == lex(self.view(), o.view()) { unimplemented!() }
}
impl<T> VSlice<T> {
    #[verifier::external_body] pub fn v_lit(s: Ghost<Seq<T>>) -> (r: Self) ensures r.view() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn v_at(self, i: usize, vk: Ghost<bool>) -> (r: T) requires vk@ ==> i < self.view().len() ensures i < self.view().len(), r == self.view()[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn v_from(self, i: usize, vk: Ghost<bool>) -> (r: Self) requires vk@ ==> i <= self.view().len() ensures i <= self.view().len(), r.view() == self.view().skip(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_to(self, i: usize, vk: Ghost<bool>) -> (r: Self) requires vk@ ==> i <= self.view().len() ensures i <= self.view().len(), r.view() == self.view().take(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_sub(self, i: usize, j: usize, vk: Ghost<bool>) -> (r: Self) requires vk@ ==> i <= j <= self.view().len() ensures i <= j <= self.view().len(), r.view() == self.view().subrange(i as int, j as int) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(self, p: VSlice<T>) -> (r: bool) ensures r == (p.view().len() <= self.view().len() && self.view().take(p.view().len() as int) == p.view()) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix(self, p: VSlice<T>) -> (r: Option<VSlice<T>>)
        ensures r is Some <==> (p.view().len() <= self.view().len() && self.view().take(p.view().len() as int) == p.view()), r is Some ==> r->0.view() == self.view().skip(p.view().len() as int) { unimplemented!() }
}
pub open spec fn v_text(s: Seq<u32>) -> Seq<char> { Seq::new(s.len(), |i: int| chr(s[i] as int)) }
impl VStr {
    // a literal: its characters, and the bytes they are encoded as (computed by the extractor)
    #[verifier::external_body] pub fn v_lit(s: Ghost<Seq<char>>, b: Ghost<Seq<u8>>) -> (r: Self) ensures r.view() == s@, enc::<u8>(r.view()) == b@ { unimplemented!() }
}
// ---------------------------------------------------------------- a mutable slice over the destination: address and length
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VBuf<T> { x: core::marker::PhantomData<T> }
impl<T> Copy for VBuf<T> {} impl<T> Clone for VBuf<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> VBuf<T> {
    pub uninterp spec fn addr(self) -> int;
    pub uninterp spec fn n(self) -> int;
    #[verifier::external_body] pub fn len(self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn v_buf_from(self, i: usize, vk: Ghost<bool>) -> (r: Self) requires vk@ ==> i <= self.n() ensures i <= self.n(), r.addr() == self.addr() + i, r.n() == self.n() - i { unimplemented!() }
    #[verifier::external_body] pub fn v_set(self, i: usize, v: T, vk: Ghost<bool>, Tracked(m): Tracked<&mut Mem<T>>) requires vk@ ==> i < self.n() ensures i < self.n(), final(m).m == wr(old(m).m, self.addr() + i, seq![v]) { unimplemented!() }
    #[verifier::external_body] pub fn v_copy(self, i: usize, j: usize, s: VSlice<T>, vk: Ghost<bool>, Tracked(m): Tracked<&mut Mem<T>>) requires vk@ ==> i <= j <= self.n() && j - i == s.view().len()
        ensures i <= j <= self.n(), j - i == s.view().len(), final(m).m == wr(old(m).m, self.addr() + i, s.view()) { unimplemented!() }
}
