from specs.common import *
import specs.p31 as p31

# the integer texts are strings (no terminator inside) and STRING_TO_LINT's contract (P31) reads the same number back
LEMMAS = p31.LEMMAS + """
pub proof fn digits_back(n: nat) ensures digits(n).len() >= 1, forall|i: int| 0 <= i < digits(n).len() ==> 48 <= #[trigger] digits(n)[i] <= 57, number(digits(n), 10) == n decreases n {
    if n >= 10 { digits_back(n / 10); assert(digits(n).drop_last() =~= digits(n / 10)); }
    else { assert(digits(n).drop_last() =~= Seq::<u8>::empty()); assert(number(digits(n).drop_last(), 10) == 0); }
}
pub proof fn dec_back(n: int) ensures forall|i: int| 0 <= i < dec(n).len() ==> #[trigger] dec(n)[i] != 0, is_int(dec(n)), int_of(dec(n)) == n {
    reveal(dec); let d = digits((if n < 0 { -n } else { n }) as nat);
    digits_back((if n < 0 { -n } else { n }) as nat);
    let u = dec(n);
    if n < 0 { assert(u.skip(1) =~= d); } else { assert(u[0] == d[0]); }
    assert(unsigned_part(u) =~= d);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != 0 && u[i] != 35 && u[i] != 120 && u[i] != 88 && u[i] != 98 && u[i] != 66 by { if n < 0 { if i > 0 { assert(u[i] == d[i - 1]); } } else { assert(u[i] == d[i]); } }
    let (a, b, c, e, f, g, h) = (seq![49u8, 54u8, 35u8], seq![48u8, 120u8], seq![48u8, 88u8], seq![56u8, 35u8], seq![50u8, 35u8], seq![48u8, 98u8], seq![48u8, 66u8]);
    assert(a[2] == 35 && b[1] == 120 && c[1] == 88 && e[1] == 35 && f[1] == 35 && g[1] == 98 && h[1] == 66);
    assert(!pre(u, a)) by { if pre(u, a) { assert(u[2] == a[2]); } }
    assert(!pre(u, b)) by { if pre(u, b) { assert(u[1] == b[1]); } }
    assert(!pre(u, c)) by { if pre(u, c) { assert(u[1] == c[1]); } }
    assert(!pre(u, e)) by { if pre(u, e) { assert(u[1] == e[1]); } }
    assert(!pre(u, f)) by { if pre(u, f) { assert(u[1] == f[1]); } }
    assert(!pre(u, g)) by { if pre(u, g) { assert(u[1] == g[1]); } }
    assert(!pre(u, h)) by { if pre(u, h) { assert(u[1] == h[1]); } }
    assert(base_of(u) == 10);
    assert(rest_of(u) =~= u);
}
"""


def spec():
    fns = []
    com = dict(ret="i32", mem="Mem<u8>", memspec="spec_fn(int) -> u8", given=["!$1.null()"])
    for n, t in (("BYTE", "u8"), ("LWORD", "u64"), ("LINT", "i64")):
        fns.append(dict(name=f"{n}_TO_STRING_EXT", args=[("x", t), ("d", "MPtr<u8>")], start="broadcast use wr_cat; dec_len($0 as int);", post="r == 0 && wrote_text(m0, m1, d.addr(), dec(x as int))", **com))
    for n, k in (("LREAL", 100_000_000_000_000), ("REAL", 1_000_000)):
        fns.append(dict(name=f"{n}_TO_STRING_EXT", args=[("x", "f64"), ("d", "MPtr<u8>")], start=f"broadcast use wr_cat; float_texts($0, 6); whole_part(iabs(place($0)), {k});",
                        post=f"r == 0 && wrote_text(m0, m1, d.addr(), if below(x, {k}) {{ fixed(x, 6) }} else {{ sci(x, 6) }})", **com))
    cfg = strconfig(ghost_fns=[], cmp=["LREAL_TO_STRING_EXT", "REAL_TO_STRING_EXT"], types={"&str": "VStr", "&'staticstr": "VStr", "String": "VString", "fmt::Arguments": "VFmt", "std::fmt::Arguments": "VFmt", "core::fmt::Arguments": "VFmt"})
    cfg["mem_methods"] += ["write_fmt", "write_all"]
    cfg["rename_methods"].update({n: "v_" + n for n in ("to_string", "floor", "ceil", "trunc", "is_nan")})
    return dict(shims=["strings", "utf", "slices", "parse", "show", "floats"], lemmas=LEMMAS, config=cfg, ints=STRING_INTS, fns=fns,
                trusted=TRUSTED + ["assumed contracts on core::fmt (decimal integers, literal pieces) and on io::Write for a byte slice (verus/shims/show.rs)",
                                   "the platform's fixed and scientific texts of floating point numbers are named by uninterpreted functions with bounded lengths (verus/shims/floats.rs)"],
                assumptions=["the destination has room for 81 bytes"])
