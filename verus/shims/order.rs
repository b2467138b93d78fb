// ---------------------------------------------------------------- ordered values
// NaN has no place; the two zeros share one
pub uninterp spec fn nan32(x: f32) -> bool;
pub uninterp spec fn place32(x: f32) -> int;
pub uninterp spec fn nan64(x: f64) -> bool;
pub uninterp spec fn place64(x: f64) -> int;
pub trait VOrd: Sized { spec fn has(self) -> bool; spec fn at(self) -> int; }
impl VOrd for u8 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for u16 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for u32 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for u64 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for i8 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for i16 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for i32 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for i64 { open spec fn has(self) -> bool { true } open spec fn at(self) -> int { self as int } }
impl VOrd for f32 { open spec fn has(self) -> bool { !nan32(self) } open spec fn at(self) -> int { place32(self) } }
impl VOrd for f64 { open spec fn has(self) -> bool { !nan64(self) } open spec fn at(self) -> int { place64(self) } }
pub open spec fn less<T: VOrd>(a: T, b: T) -> bool { a.has() && b.has() && a.at() < b.at() }
pub open spec fn same<T: VOrd>(a: T, b: T) -> bool { a.has() == b.has() && (a.has() ==> a.at() == b.at()) }
pub open spec fn is_max<T: VOrd>(s: Seq<T>, r: T) -> bool { (exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], r)) && forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).has() ==> r.has() && s[i].at() <= r.at() }
pub open spec fn is_min<T: VOrd>(s: Seq<T>, r: T) -> bool { (exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], r)) && forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).has() ==> r.has() && s[i].at() >= r.at() }
// Iterator::max/min are those of the total order of the integers
pub trait VInt: VOrd {}
impl VInt for u8 {} impl VInt for u16 {} impl VInt for u32 {} impl VInt for u64 {} impl VInt for i8 {} impl VInt for i16 {} impl VInt for i32 {} impl VInt for i64 {}
impl<T: VInt> It<&'static T> {
    #[verifier::external_body] pub fn v_max(self) -> (r: Option<&'static T>) ensures r is Some <==> self.s().len() > 0, r is Some ==> forall|v: Seq<T>| self.s() == #[trigger] refs(v) ==> is_max(v, *r->0) { unimplemented!() }
    #[verifier::external_body] pub fn v_min(self) -> (r: Option<&'static T>) ensures r is Some <==> self.s().len() > 0, r is Some ==> forall|v: Seq<T>| self.s() == #[trigger] refs(v) ==> is_min(v, *r->0) { unimplemented!() }
}
impl<T: VOrd> It<T> {
    // reduce by f32::max etc.: NaN counts only when there is nothing else; which of two equal values is left open
    #[verifier::external_body] pub fn v_reduce_max(self) -> (r: Option<T>) ensures r is Some <==> self.s().len() > 0, r is Some ==> is_max(self.s(), r->0) { unimplemented!() }
    #[verifier::external_body] pub fn v_reduce_min(self) -> (r: Option<T>) ensures r is Some <==> self.s().len() > 0, r is Some ==> is_min(self.s(), r->0) { unimplemented!() }
}
pub trait VCmp: VOrd { fn v_lt(self, o: Self) -> (r: bool) ensures r == less(self, o); fn v_le(self, o: Self) -> (r: bool) ensures r == (self.has() && o.has() && self.at() <= o.at()); }
impl VCmp for f32 { #[verifier::external_body] fn v_lt(self, o: f32) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn v_le(self, o: f32) -> (r: bool) { unimplemented!() } }
impl VCmp for f64 { #[verifier::external_body] fn v_lt(self, o: f64) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn v_le(self, o: f64) -> (r: bool) { unimplemented!() } }
