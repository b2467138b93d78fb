from specs.common import *

INTS_ = [("BOOL", "u8"), ("BYTE", "u8"), ("CHAR", "u8"), ("WORD", "u16"), ("WCHAR", "u16"), ("DWORD", "u32"), ("LWORD", "u64"), ("SINT", "i8"), ("USINT", "u8"), ("INT", "i16"), ("UINT", "u16"),
         ("DINT", "i32"), ("UDINT", "u32"), ("LINT", "i64"), ("ULINT", "u64"), ("DATE", "i64"), ("DATE_AND_TIME", "i64"), ("TIME", "i64"), ("TIME_OF_DAY", "i64")]
FLOATS = [("REAL", "f32"), ("LREAL", "f64")]
LEMMAS = """
// the elements a caller hands over
pub open spec fn given<T>(n: u32, p: CPtr<T>) -> bool { p.null() || p.off() == 0 && n <= p.cells().len() && n > 0 }
pub open spec fn elems<T>(n: u32, p: CPtr<T>) -> Seq<T> { p.cells().subrange(0, n as int) }
"""


def spec():
    fns = []
    for t, r in INTS_ + FLOATS:
        k = {"f32": "fl32", "f64": "fl64"}.get(r, "num")
        for op, o in (("MAX", "ge"), ("MIN", "le")):
            post = f"is_{op.lower()}(elems(n, p), r)"
            fns.append(dict(name=f"{op}__{t}", targets=[f"lists::{op}__{t}", f"float_lists::{op}__{t}"], args=[("n", "u32"), ("p", f"CPtr<{r}>")], ret=r, given=["given($0, $1)"], valid="!p.null()", post=post))
        fns.append(dict(name=f"LIMIT__{t}", targets=[f"limits::LIMIT__{t}", f"float_limits::LIMIT__{t}"], args=[("mn", r), ("x", r), ("mx", r)], ret=r,
                        post="same(r, if less(x, mn) { mn } else if less(mx, x) { mx } else { x })"))
    cfg = config(cmp=[f"LIMIT__{t}" for t, _ in FLOATS], rename_fns={})
    return dict(shims=["strings", "slices", "order"], lemmas=LEMMAS, config=cfg, ints=STRING_INTS, fns=fns,
                trusted=TRUSTED + ["assumed contracts on Iterator::max, min and reduce over f32/f64 max/min, on slice::from_raw_parts and on floating point comparisons (verus/shims/order.rs, slices.rs)"],
                assumptions=["the list pointer covers the announced number of elements"])
