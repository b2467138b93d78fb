from specs.common import *


def spec():
    fns = []
    for n, u in UNITS:
        c = f"chars::<{u}>(s)"
        mem = dict(mem=f"Mem<{u}>", memspec=f"spec_fn(int) -> {u}", given=["good($0)", "!$%d.null()"])

        def fn(name, args, valid, run):
            fns.append(dict(name=name, args=args, ret="i32", valid=valid, post=f"r == 0 && wrote::<{u}>(m0, m1, d.addr(), {run})",
                            mem=f"Mem<{u}>", memspec=f"spec_fn(int) -> {u}", start=START.format(u=u, d=len(args) - 1), given=["good($0)", f"!${len(args) - 1}.null()"]))
        p, m = [("s", f"CPtr<{u}>")], [("d", f"MPtr<{u}>")]
        fn(f"LEFT_EXT__{n}", p + [("n", "i32")] + m, f"0 <= n <= {c}.len()", f"{c}.take(n as int)")
        fn(f"RIGHT_EXT__{n}", p + [("n", "i32")] + m, f"0 <= n <= {c}.len()", f"{c}.skip({c}.len() - n)")
        fn(f"MID_EXT__{n}", p + [("n", "i32"), ("p", "i32")] + m, f"n >= 0 && 1 <= p <= {c}.len() && p - 1 + n <= {c}.len()", f"{c}.subrange(p - 1, p - 1 + n)")
    return dict(shims=["strings", "utf", "codec"], lemmas=PIECES, config=strconfig(), ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
