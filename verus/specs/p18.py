from specs.common import *


def spec():
    fns = []
    for n, op in [("ADD_TIME", "+"), ("ADD_TOD_TIME", "+"), ("ADD_DT_TIME", "+"), ("SUB_TIME", "-"), ("SUB_DATE_DATE", "-"), ("SUB_TOD_TIME", "-"),
                  ("SUB_TOD_TOD", "-"), ("SUB_DT_TIME", "-"), ("SUB_DT_DT", "-")]:
        fns.append(dict(name=n, args=[("a", "i64"), ("b", "i64")], ret="i64", valid=f"fits64(a {op} b)", post=f"r == a {op} b"))
    return dict(shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, fns=fns, trusted=TRUSTED + CHRONO)
