from specs.common import *


def spec():
    fns = []
    for n, u in UNITS:
        T, O = f"chars::<{u}>(s)", f"chars::<{u}>(o)"

        def fn(name, args, given, valid, run):
            fns.append(dict(name=name, args=args + [("d", f"MPtr<{u}>")], ret="i32", valid=valid, post=f"r == 0 && wrote::<{u}>(m0, m1, d.addr(), {run})",
                            mem=f"Mem<{u}>", memspec=f"spec_fn(int) -> {u}", start=START.format(u=u, d=len(args)), given=given + [f"!${len(args)}.null()"]))
        s, o = ("s", f"CPtr<{u}>"), ("o", f"CPtr<{u}>")
        span = f"n >= 0 && 1 <= p <= {T}.len() && p - 1 + n <= {T}.len()"
        fn(f"INSERT_EXT__{n}", [s, o, ("p", "i32")], ["good($0)", "good($1)"], f"0 <= p <= {T}.len()", f"{T}.take(p as int) + {O} + {T}.skip(p as int)")
        fn(f"DELETE_EXT__{n}", [s, ("n", "i32"), ("p", "i32")], ["good($0)"], span, f"{T}.take(p - 1) + {T}.skip(p - 1 + n)")
        fn(f"REPLACE_EXT__{n}", [s, o, ("n", "i32"), ("p", "i32")], ["good($0)", "good($1)"], span, f"{T}.take(p - 1) + {O} + {T}.skip(p - 1 + n)")
    return dict(shims=["strings", "utf", "codec"], lemmas=PIECES, config=strconfig(), ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
