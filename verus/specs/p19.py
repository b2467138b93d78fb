from specs.common import *

TYPES = [("SINT", "i8"), ("INT", "i16"), ("DINT", "i32"), ("LINT", "i64"), ("USINT", "u8"), ("UINT", "u16"), ("UDINT", "u32"), ("ULINT", "u64")]


def spec():
    fns = []
    for fam in ("{}__TIME__", "{}_TIME__", "{}_LTIME__"):
        for t, r in TYPES:
            # a ULINT operand of 2^63 or more may be rejected
            given = ["$1 <= i64::MAX"] if r == "u64" else []
            n = fam.format("MUL") + t
            fns.append(dict(name=n, args=[("a", "i64"), ("b", r)], ret="i64", valid="fits64(a * b)", post="r == a * b", given=given))
            n = fam.format("DIV") + t
            fns.append(dict(name=n, args=[("a", "i64"), ("b", r)], ret="i64", valid="b != 0 && fits64(tdiv(a as int, b as int))", post="r == tdiv(a as int, b as int)", given=given))
    return dict(shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, fns=fns, trusted=TRUSTED)
