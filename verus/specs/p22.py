from specs.common import *

INTS = dict(INT="i16", UINT="u16", DINT="i32", UDINT="u32", LINT="i64", ULINT="u64")
LIM = dict(i16=(-32768, 32767), u16=(0, 65535), i32=(-2**31, 2**31 - 1), u32=(0, 2**32 - 1), i64=(-2**63, 2**63 - 1), u64=(0, 2**64 - 1))


def spec():
    fns = []
    D = ["cal_y(day_of(x as int))", "cal_m(day_of(x as int))", "cal_d(day_of(x as int))"]
    T = ["hour_of(x as int)", "minute_of(x as int)", "second_of(x as int)", "subsec_of(x as int) / 1_000_000"]
    for n, t in INTS.items():
        lo, hi = LIM[t]
        year = f"{lo}int <= cal_y(day_of(x as int)) <= {hi}int"
        for kind, vals, valid in (("DATE", D, year), ("TOD", T, "true"), ("DT", D + T, year)):
            fns.append(dict(name=f"SPLIT_{kind}__{n}", args=[("x", "i64")] + [(f"o{i}", t) for i in range(len(vals))], outs=list(range(1, len(vals) + 1)), ret="i16",
                            valid=valid, post="r == 0 && " + " && ".join(f"o{i} == {v}" for i, v in enumerate(vals))))
    fns.append(dict(name="DAY_OF_WEEK", args=[("x", "i64")], ret="i8", post="r == (day_of(x as int) + 4) % 7"))
    fns.append(dict(name="DATE_AND_TIME_TO_DATE", args=[("x", "i64")], ret="i64", valid="fits64(day_of(x as int) * NSD())", post="r == day_of(x as int) * NSD()"))
    fns.append(dict(name="DATE_AND_TIME_TO_TIME_OF_DAY", args=[("x", "i64")], ret="i64", post="r == tod_of(x as int)"))
    from specs import p21
    fns += [f for f in p21.spec()["fns"] if f["name"] in ("CONCAT_DATE__DINT", "CONCAT_TOD__DINT", "CONCAT_DATE_TOD")]
    clients = """
// callers of the contracts above: the parts put together again
pub fn split_and_join(x: i64) -> (r: i64)
    requires fits64(day_of(x as int) * NSD()),
    ensures r == x as int / 1_000_000 * 1_000_000
{
    let (mut y, mut mo, mut d, mut h, mut mi, mut s, mut ms) = (0i32, 0i32, 0i32, 0i32, 0i32, 0i32, 0i32);
    proof { cal_total(day_of(x as int)); years_fit(x); tod_joined(x as int); }
    SPLIT_DT__DINT(x, &mut y, &mut mo, &mut d, &mut h, &mut mi, &mut s, &mut ms, Ghost(true));
    let a = CONCAT_DATE__DINT(y, mo, d, Ghost(true));
    let b = CONCAT_TOD__DINT(h, mi, s, ms, Ghost(true));
    assert(a == day_of(x as int) * NSD());
    proof { midnight(day_of(x as int)); }
    CONCAT_DATE_TOD(a, b, Ghost(true))
}
pub fn dt_parts_and_join(x: i64) -> (r: i64) requires fits64(day_of(x as int) * NSD()) ensures r == x {
    proof { midnight(day_of(x as int)); tod_parts(x as int); }
    let d = DATE_AND_TIME_TO_DATE(x, Ghost(true));
    let t = DATE_AND_TIME_TO_TIME_OF_DAY(x, Ghost(true));
    CONCAT_DATE_TOD(d, t, Ghost(true))
}
pub proof fn years_fit(x: i64) ensures -106752 <= day_of(x as int) <= 106751 { }
pub proof fn midnight(d: int) ensures day_of(d * NSD()) == d, tod_of(d * NSD()) == 0 { }
#[verifier::spinoff_prover]
pub proof fn tod_joined(n: int)
    ensures ({ let t = tod_ns(hour_of(n), minute_of(n), second_of(n), subsec_of(n) / 1_000_000 * 1_000_000);
        0 <= hour_of(n) < 24 && 0 <= minute_of(n) < 60 && 0 <= second_of(n) < 60 && 0 <= subsec_of(n) / 1_000_000 < 1000
        && tod_of(t) == t && t == n / 1_000_000 * 1_000_000 - day_of(n) * NSD() })
{
    tod_parts(n);
    let sub = subsec_of(n); let k = sub / 1_000_000;
    let q = tod_of(n) / 1_000_000;
    let (h, m, s) = (hour_of(n), minute_of(n), second_of(n));
    assert(tod_of(n) == ((h * 60 + m) * 60 + s) * 1_000_000_000 + sub);
    assert(sub == k * 1_000_000 + sub % 1_000_000);
    assert(n / 1_000_000 == day_of(n) * 86_400_000 + ((h * 60 + m) * 60 + s) * 1000 + k);
    let t = tod_ns(h, m, s, k * 1_000_000);
    assert(0 <= t < NSD());
}
"""
    return dict(clients=clients, shims=["chrono"], config=config(ghost=DATE_GHOST), ints=DATE_INTS, fns=fns, trusted=TRUSTED + CHRONO)
