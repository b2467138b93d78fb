from specs.common import *


def spec():
    fns = []
    for op, o in (("MUL", "mul"), ("DIV", "div")):
        for t, r, w in (("REAL", "f32", "32"), ("LREAL", "f64", "64")):
            for fam in (f"{op}__TIME__", f"{op}_TIME__", f"{op}_LTIME__"):
                mag = f"{o}f{w}(if a < 0 {{ -(a as int) }} else {{ a as int }}, abs{w}(b))"
                fns.append(dict(name=fam + t, args=[("a", "i64"), ("b", r)], ret="i64", valid=f"{mag} is Some && {mag}->0 <= i64::MAX",
                                post=f"r == (if (a < 0) != neg{w}(b) {{ -{mag}->0 }} else {{ {mag}->0 }})"))
    return dict(shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, fns=fns, trusted=TRUSTED + CHRONO)
