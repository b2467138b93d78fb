from specs.common import *

INTS = dict(SINT="i8", USINT="u8", INT="i16", UINT="u16", DINT="i32", UDINT="u32", LINT="i64", ULINT="u64")
DATE = "ymd_valid(y as int, m as int, d as int) && fits64(ymd_day(y as int, m as int, d as int) * NSD())"
TOD = "0 <= h < 24 && 0 <= m < 60 && 0 <= s < 60 && 0 <= ms < 1000"


def spec():
    fns = []
    for n, t in INTS.items():
        if t not in ("i8", "u8"):
            fns.append(dict(name="CONCAT_DATE__" + n, args=[("y", t), ("m", t), ("d", t)], ret="i64", valid=DATE, post="r == ymd_day(y as int, m as int, d as int) * NSD()"))
        fns.append(dict(name="CONCAT_TOD__" + n, args=[("h", t), ("m", t), ("s", t), ("ms", t)], ret="i64", valid=TOD,
                        post="r == tod_ns(h as int, m as int, s as int, ms * 1_000_000)"))
    fns.append(dict(name="CONCAT_DATE_TOD", args=[("a", "i64"), ("b", "i64")], ret="i64", valid="fits64(day_of(a as int) * NSD() + tod_of(b as int))",
                    post="r == day_of(a as int) * NSD() + tod_of(b as int)"))
    return dict(shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, fns=fns, trusted=TRUSTED + CHRONO)
