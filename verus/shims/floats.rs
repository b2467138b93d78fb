// ---------------------------------------------------------------- floating point numbers as an order
// Every finite value is a multiple of the smallest positive one: place(x) is that multiple (the infinities lie beyond all
// finite values, and are multiples of one too), unit() the place of 1.
pub uninterp spec fn nan(x: f64) -> bool;
pub uninterp spec fn place(x: f64) -> int;
pub open spec fn unit() -> int { pow2(1074) as int }
pub open spec fn pow2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * pow2((k - 1) as nat) } }
pub proof fn pow2_pos(k: nat) ensures pow2(k) > 0 decreases k { if k > 0 { pow2_pos((k - 1) as nat); } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn below(x: f64, k: int) -> bool { !nan(x) && iabs(place(x)) < k * unit() }
#[verifier::external_body] pub fn v_f64i(k: Ghost<int>) -> (r: f64) ensures !nan(r), place(r) == k@ * unit() { unimplemented!() }
pub trait VFloat: Sized {
    fn v_abs(self) -> (r: f64); fn v_floor(self) -> (r: f64); fn v_ceil(self) -> (r: f64); fn v_trunc(self) -> (r: f64); fn v_is_nan(self) -> (r: bool);
}
impl VFloat for f64 {
    #[verifier::external_body] fn v_abs(self) -> (r: f64) ensures nan(r) == nan(self), place(r) == iabs(place(self)) { unimplemented!() }
    #[verifier::external_body] fn v_floor(self) -> (r: f64) ensures nan(r) == nan(self), place(r) == place(self) / unit() * unit() { unimplemented!() }
    #[verifier::external_body] fn v_ceil(self) -> (r: f64) ensures nan(r) == nan(self), place(r) == -(-place(self) / unit() * unit()) { unimplemented!() }
    #[verifier::external_body] fn v_trunc(self) -> (r: f64) ensures nan(r) == nan(self), place(r) == if place(self) < 0 { -(-place(self) / unit() * unit()) } else { place(self) / unit() * unit() } { unimplemented!() }
    #[verifier::external_body] fn v_is_nan(self) -> (r: bool) ensures r == nan(self) { unimplemented!() }
}
pub trait VCmp: Sized { spec fn s_lt(self, o: Self) -> bool; spec fn s_le(self, o: Self) -> bool; fn v_lt(self, o: Self) -> (r: bool) ensures r == self.s_lt(o); fn v_le(self, o: Self) -> (r: bool) ensures r == self.s_le(o); }
impl VCmp for f64 {
    open spec fn s_lt(self, o: f64) -> bool { !nan(self) && !nan(o) && place(self) < place(o) }
    open spec fn s_le(self, o: f64) -> bool { !nan(self) && !nan(o) && place(self) <= place(o) }
    #[verifier::external_body] fn v_lt(self, o: f64) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_le(self, o: f64) -> (r: bool) { unimplemented!() }
}
pub proof fn whole_part(a: int, k: int) requires a >= 0 ensures unit() > 0, a / unit() * unit() < k * unit() <==> a < k * unit(), a / unit() * unit() <= a, (-a) / unit() * unit() <= -a, 0 <= a / unit() * unit() {
    pow2_pos(1074);
    let u = unit();
    assert(a / u * u <= a < a / u * u + u) by (nonlinear_arith) requires u > 0;
    assert((-a) / u * u <= -a) by (nonlinear_arith) requires u > 0;
    assert(0 <= a / u * u) by (nonlinear_arith) requires u > 0, a >= 0;
    let q = a / u;
    if q * u < k * u { assert(q < k) by (nonlinear_arith) requires q * u < k * u, u > 0; assert(q * u + u <= k * u) by (nonlinear_arith) requires q + 1 <= k, u > 0; }
}
// the platform's decimal texts: fixed and scientific with the given number of decimals; only their lengths are known,
// and that a NaN has one text
pub uninterp spec fn fixed(x: f64, decimals: int) -> Seq<u8>;
pub uninterp spec fn sci(x: f64, decimals: int) -> Seq<u8>;
pub axiom fn float_texts(x: f64, d: int) requires 0 <= d <= 20
    ensures below(x, 100_000_000_000_000) ==> fixed(x, d).len() <= 17 + d, sci(x, d).len() <= 8 + d, nan(x) ==> fixed(x, d) == sci(x, d);
impl VFmt {
    #[verifier::external_body] pub fn v_fixed(self, x: &f64, d: Ghost<int>) -> (r: VFmt) ensures r.bytes() == self.bytes() + fixed(*x, d@) { unimplemented!() }
    #[verifier::external_body] pub fn v_sci(self, x: &f64, d: Ghost<int>) -> (r: VFmt) ensures r.bytes() == self.bytes() + sci(*x, d@) { unimplemented!() }
}
