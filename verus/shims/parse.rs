// ---------------------------------------------------------------- assumed contracts on std's number parsing
pub struct ParseErr {}
pub open spec fn digit(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 122 { b - 87 } else if 65 <= b <= 90 { b - 55 } else { 99 } }
pub open spec fn all_digits(u: Seq<u8>, base: int) -> bool { forall|i: int| 0 <= i < u.len() ==> digit(#[trigger] u[i]) < base }
pub open spec fn number(u: Seq<u8>, base: int) -> int decreases u.len() { if u.len() == 0 { 0 } else { number(u.drop_last(), base) * base + digit(u.last()) } }
pub open spec fn minus(u: Seq<u8>) -> bool { u.len() > 0 && u[0] == 45 }
pub open spec fn plus(u: Seq<u8>) -> bool { u.len() > 0 && u[0] == 43 }
pub open spec fn unsigned_part(u: Seq<u8>) -> Seq<u8> { if minus(u) || plus(u) { u.skip(1) } else { u } }
// the number a text denotes: an optional sign and one or more digits of the base
pub open spec fn is_number(u: Seq<u8>, base: int) -> bool { unsigned_part(u).len() > 0 && all_digits(unsigned_part(u), base) }
pub open spec fn denoted(u: Seq<u8>, base: int) -> int { if minus(u) { -number(unsigned_part(u), base) } else { number(unsigned_part(u), base) } }
pub trait VParse: Sized {
    spec fn parsed(s: Seq<char>) -> Option<Self>;
    #[verifier::external_body] fn v_parse(s: VStr) -> (r: Result<Self, ParseErr>) ensures r is Ok <==> Self::parsed(s.view()) is Some, r is Ok ==> r->Ok_0 == Self::parsed(s.view())->0 { unimplemented!() }
}
impl VStr {
    #[verifier::external_body] pub fn parse<T: VParse>(self) -> (r: Result<T, ParseErr>) ensures r is Ok <==> T::parsed(self.view()) is Some, r is Ok ==> r->Ok_0 == T::parsed(self.view())->0 { unimplemented!() }
}
pub trait VRadix: VParse {
    spec fn lo() -> int;
    spec fn hi() -> int;
    spec fn n(self) -> int;
    #[verifier::external_body] fn from_str_radix(s: VStr, base: u32) -> (r: Result<Self, ParseErr>) requires 2 <= base <= 36
        ensures ({ let u = enc::<u8>(s.view()); &&& r is Ok <==> is_number(u, base as int) && Self::lo() <= denoted(u, base as int) <= Self::hi() &&& r is Ok ==> r->Ok_0.n() == denoted(u, base as int) }) { unimplemented!() }
}
pub open spec fn decimal_in(s: Seq<char>, lo: int, hi: int) -> Option<int> { let u = enc::<u8>(s); if is_number(u, 10) && lo <= denoted(u, 10) <= hi { Some(denoted(u, 10)) } else { None } }
impl VParse for i64 { open spec fn parsed(s: Seq<char>) -> Option<i64> { match decimal_in(s, i64::MIN as int, i64::MAX as int) { Some(x) => Some(x as i64), None => None } } }
impl VParse for i32 { open spec fn parsed(s: Seq<char>) -> Option<i32> { match decimal_in(s, i32::MIN as int, i32::MAX as int) { Some(x) => Some(x as i32), None => None } } }
impl VRadix for i64 { open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } open spec fn n(self) -> int { self as int } }
impl VRadix for i32 { open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } open spec fn n(self) -> int { self as int } }
// the number nearest to what a decimal text denotes, and whether it is such a text: the platform's
pub uninterp spec fn real32(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn real64(s: Seq<char>) -> Option<f64>;
impl VParse for f32 { open spec fn parsed(s: Seq<char>) -> Option<f32> { real32(s) } }
impl VParse for f64 { open spec fn parsed(s: Seq<char>) -> Option<f64> { real64(s) } }
// ASCII is text (proved)
pub proof fn ascii(u: Seq<u8>) requires forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] < 128 ensures well8(u) decreases u.len() {
    let s = ascii_text(u);
}
pub proof fn ascii_text(u: Seq<u8>) -> (s: Seq<char>) requires forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] < 128 ensures enc::<u8>(s) == u decreases u.len() {
    if u.len() == 0 { assert(enc::<u8>(Seq::empty()) =~= u); Seq::empty() }
    else {
        let d = u.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < 128 by { assert(d[i] == u[i]); }
        let s = ascii_text(d);
        let c = chr(u.last() as int);
        chr_is(u.last() as int);
        assert(u.last() == u[u.len() - 1]);
        let t = s.push(c);
        assert(t.drop_last() =~= s);
        assert(enc1_8(c) =~= seq![u.last()]);
        assert(enc::<u8>(t) =~= u);
        t
    }
}
pub proof fn number_is_text(u: Seq<u8>, base: int) requires base <= 36 ensures is_number(u, base) ==> well8(u) {
    if is_number(u, base) {
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < 128 by {
            let d = unsigned_part(u);
            if minus(u) || plus(u) { if i > 0 { assert(d[i - 1] == u[i]); assert(digit(d[i - 1]) < base); } } else { assert(digit(d[i]) < base); }
        }
        ascii(u);
    }
}
