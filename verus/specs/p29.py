from specs.common import *

CLIENTS = """
// a well-formed string converted there and back is unchanged
pub proof fn there_and_back_8(u: Seq<u8>) requires u8::ok(u) ensures ({ let w = enc::<u16>(u8::chars(u)); u16::ok(w) && enc::<u8>(u16::chars(w)) == u }) { u8::f_round(u); u16::f_ok(u8::chars(u)); }
pub proof fn there_and_back_16(w: Seq<u16>) requires u16::ok(w) ensures ({ let u = enc::<u8>(u16::chars(w)); u8::ok(u) && enc::<u16>(u8::chars(u)) == w }) { u16::f_round(w); u8::f_ok(u16::chars(w)); }
"""


def spec():
    s = "u8::chars(str_at($$0))"
    k = f"({s}.len() - vit0__.s().len())"
    k1 = f"({s}.len() - 1 - vit0__.s().len())"
    e = f"enc1_16({s}[{k1}])"
    j = f"({e}.len() - vit1__.s().len())"
    a = "$$1.addr()"
    fns = [dict(name="WSTRING_TO_STRING_EXT", args=[("s", "CPtr<u16>"), ("d", "MPtr<u8>")], ret="i32", given=["is_str($0)", "!$1.null()"], post="r == 0 && wrote::<u8>(m0, m1, d.addr(), u16::chars(str_at(s)))",
                mem="Mem<u8>", memspec="spec_fn(int) -> u8"),
           dict(name="STRING_TO_WSTRING_EXT", args=[("s", "CPtr<u8>"), ("d", "MPtr<u16>")], ret="i32", given=["good($0)", "!$1.null()"], post="r == 0 && wrote::<u16>(m0, m1, d.addr(), u8::chars(str_at(s)))",
                mem="Mem<u16>", memspec="spec_fn(int) -> u16",
                loops=[dict(inv=f"""invariant vit0__.s() == {s}.skip({k}), 0 <= {k} <= {s}.len(), !@1.null(), vmem__.m == wr(vm0__, {a}, out::<u16>({s}, {k}, 0)), @1.addr() == {a} + out::<u16>({s}, {k}, 0).len(),
                       ensures vit0__.s().len() == 0, wrote::<u16>(vm0__, wr(vmem__.m, @1.addr(), seq![0u16]), {a}, {s})""",
                            proof=f"proof {{ out_next::<u16>(vm0__, {a}, {s}, {k}); if {k} < {s}.len() {{ u16::f_one({s}[{k}]); enc_one::<u16>({s}[{k}]); }} else {{ assert(wrote1::<u16>(vm0__, wr(vmem__.m, @1.addr(), seq![0u16]), {a}, {s})); }} }}"),
                       dict(inv=f"""invariant vit0__.s() == {s}.skip({k}), 0 < {k} <= {s}.len(), !@1.null(), vit1__.s() == refs({e}).skip({j}), 0 <= {j} <= {e}.len(),
                       vmem__.m == wr(vm0__, {a}, out::<u16>({s}, {k1}, {j})), @1.addr() == {a} + out::<u16>({s}, {k1}, {j}).len(), ensures vit1__.s().len() == 0""",
                            proof=f"proof {{ out_next::<u16>(vm0__, {a}, {s}, {k1}); assert({e}.len() >= {j}); }}")])]
    cfg = strconfig(ghost_methods=["encode", "encode_utf8", "encode_utf16"], closures={"WSTRING_TO_STRING_EXT": [dict(params=["Result<char, DecErr>"], ret="vb__: char", spec="ensures vb__ == lossy1($0)")]})
    return dict(shims=["strings", "utf", "slices", "chars", "codec", "out"], clients=CLIENTS, config=cfg, ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
