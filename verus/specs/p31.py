from specs.common import *

LEMMAS = """
pub open spec fn readable<T: Unit>(p: CPtr<T>) -> bool { p.null() || is_str(p) }
// the base a text selects and how long its prefix is
pub open spec fn pre(u: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= u.len() && u.take(p.len() as int) == p }
pub open spec fn base_of(u: Seq<u8>) -> int {
    if pre(u, seq![49u8, 54u8, 35u8]) || pre(u, seq![48u8, 120u8]) || pre(u, seq![48u8, 88u8]) { 16 }
    else if pre(u, seq![56u8, 35u8]) { 8 }
    else if pre(u, seq![50u8, 35u8]) || pre(u, seq![48u8, 98u8]) || pre(u, seq![48u8, 66u8]) { 2 } else { 10 }
}
pub open spec fn prefix_len(u: Seq<u8>) -> int { if pre(u, seq![49u8, 54u8, 35u8]) { 3 } else if base_of(u) != 10 { 2 } else { 0 } }
pub open spec fn rest_of(u: Seq<u8>) -> Seq<u8> { u.skip(prefix_len(u)) }
pub open spec fn is_int(u: Seq<u8>) -> bool { is_number(rest_of(u), base_of(u)) }
pub open spec fn int_of(u: Seq<u8>) -> int { denoted(rest_of(u), base_of(u)) }
pub open spec fn text_real32(u: Seq<u8>) -> Option<f32> { if well8(u) { real32(dec8(u)) } else { None } }
pub open spec fn text_real64(u: Seq<u8>) -> Option<f64> { if well8(u) { real64(dec8(u)) } else { None } }
pub open spec fn text_of<T: VParse>(u: Seq<u8>) -> Option<T> { if well8(u) { T::parsed(dec8(u)) } else { None } }
pub proof fn parts(u: Seq<u8>) ensures is_int(u) ==> well8(rest_of(u)), u.skip(0) == u,
    pre(u, seq![49u8, 54u8, 35u8]) == (3 <= u.len() && u[0] == 49u8 && u[1] == 54u8 && u[2] == 35u8), pre(u, seq![49u8, 54u8, 35u8]) == (3 <= u.len() && u.take(3) == seq![49u8, 54u8, 35u8]),
    pre(u, seq![48u8, 120u8]) == (2 <= u.len() && u[0] == 48u8 && u[1] == 120u8), pre(u, seq![48u8, 120u8]) == (2 <= u.len() && u.take(2) == seq![48u8, 120u8]),
    pre(u, seq![48u8, 88u8]) == (2 <= u.len() && u[0] == 48u8 && u[1] == 88u8), pre(u, seq![48u8, 88u8]) == (2 <= u.len() && u.take(2) == seq![48u8, 88u8]),
    pre(u, seq![56u8, 35u8]) == (2 <= u.len() && u[0] == 56u8 && u[1] == 35u8), pre(u, seq![56u8, 35u8]) == (2 <= u.len() && u.take(2) == seq![56u8, 35u8]),
    pre(u, seq![50u8, 35u8]) == (2 <= u.len() && u[0] == 50u8 && u[1] == 35u8), pre(u, seq![50u8, 35u8]) == (2 <= u.len() && u.take(2) == seq![50u8, 35u8]),
    pre(u, seq![48u8, 98u8]) == (2 <= u.len() && u[0] == 48u8 && u[1] == 98u8), pre(u, seq![48u8, 98u8]) == (2 <= u.len() && u.take(2) == seq![48u8, 98u8]),
    pre(u, seq![48u8, 66u8]) == (2 <= u.len() && u[0] == 48u8 && u[1] == 66u8), pre(u, seq![48u8, 66u8]) == (2 <= u.len() && u.take(2) == seq![48u8, 66u8]),
{
    number_is_text(rest_of(u), base_of(u));
    assert(u.skip(0) =~= u);
    if 3 <= u.len() && u[0] == 49u8 && u[1] == 54u8 && u[2] == 35u8 { assert(u.take(3) =~= seq![49u8, 54u8, 35u8]); } else if 3 <= u.len() { assert(u.take(3) != seq![49u8, 54u8, 35u8]) by { if u.take(3) == seq![49u8, 54u8, 35u8] { let t = u.take(3); assert(t[0] == u[0]); assert(t[1] == u[1]); assert(t[2] == u[2]); } } }
    if 2 <= u.len() && u[0] == 48u8 && u[1] == 120u8 { assert(u.take(2) =~= seq![48u8, 120u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![48u8, 120u8]) by { if u.take(2) == seq![48u8, 120u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
    if 2 <= u.len() && u[0] == 48u8 && u[1] == 88u8 { assert(u.take(2) =~= seq![48u8, 88u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![48u8, 88u8]) by { if u.take(2) == seq![48u8, 88u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
    if 2 <= u.len() && u[0] == 56u8 && u[1] == 35u8 { assert(u.take(2) =~= seq![56u8, 35u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![56u8, 35u8]) by { if u.take(2) == seq![56u8, 35u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
    if 2 <= u.len() && u[0] == 50u8 && u[1] == 35u8 { assert(u.take(2) =~= seq![50u8, 35u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![50u8, 35u8]) by { if u.take(2) == seq![50u8, 35u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
    if 2 <= u.len() && u[0] == 48u8 && u[1] == 98u8 { assert(u.take(2) =~= seq![48u8, 98u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![48u8, 98u8]) by { if u.take(2) == seq![48u8, 98u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
    if 2 <= u.len() && u[0] == 48u8 && u[1] == 66u8 { assert(u.take(2) =~= seq![48u8, 66u8]); } else if 2 <= u.len() { assert(u.take(2) != seq![48u8, 66u8]) by { if u.take(2) == seq![48u8, 66u8] { let t = u.take(2); assert(t[0] == u[0]); assert(t[1] == u[1]); } } }
}
"""


def spec():
    st = "parts(str_at($0));"
    fns = [dict(name="string_to_int", generics="<T: VRadix>", args=[("p", "CPtr<u8>")], ret="T", given=["readable($0)"], targets=["STRING_TO_LINT", "STRING_TO_DINT"], start=st,
                requires_valid="is_int(str_at($0)) && T::lo() <= int_of(str_at($0)) <= T::hi()", ensures=["vr__.n() == int_of(str_at($0))"]),
           dict(name="string_to_float", generics="<T: VParse>", args=[("p", "CPtr<u8>")], ret="T", given=["readable($0)"], targets=["STRING_TO_LREAL", "STRING_TO_REAL"],
                requires_valid="text_of::<T>(str_at($0)) is Some", ensures=["vr__ == text_of::<T>(str_at($0))->0"])]
    for n, t in (("LINT", "i64"), ("DINT", "i32")):
        fns.append(dict(name=f"STRING_TO_{n}", args=[("p", "CPtr<u8>")], ret=t, given=["readable($0)"], start=st, valid=f"is_int(str_at(p)) && {t}::MIN <= int_of(str_at(p)) <= {t}::MAX", post="r == int_of(str_at(p))"))
    for n, t in (("LREAL", "64"), ("REAL", "32")):
        fns.append(dict(name=f"STRING_TO_{n}", args=[("p", "CPtr<u8>")], ret=f"f{t}", given=["readable($0)"], valid=f"text_real{t}(str_at(p)) is Some", post=f"r == text_real{t}(str_at(p))->0"))
    return dict(shims=["strings", "utf", "slices", "codec", "ptr_slice", "parse"], lemmas=LEMMAS, config=strconfig(ghost_fns=["EncodedCharsIter::decode", "ptr_to_slice"]), ints=STRING_INTS, fns=fns,
                trusted=TRUSTED + ["assumed contracts on std's from_str_radix, str::parse and from_utf8 (verus/shims/parse.rs, slices.rs); the nearest floating point number is the one std's parser returns",
                                   "ptr_to_slice by the contract proved under P28"], assumptions=STRASSUME[1:])
