from specs.common import *


def spec():
    # the value belongs to one reading of the clock: two readings mixed are not it
    return dict(shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, trusted=TRUSTED + CHRONO,
                fns=[dict(name="TIME", args=[], ret="i64", post="exists|n: int| is_reading(n) && r == tod_of(n)")])
