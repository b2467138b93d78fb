from specs.common import *

LEMMAS = """
pub open spec fn part(v: int, u: Seq<u8>) -> Seq<u8> { if v == 0 { Seq::empty() } else { dec(v) + u } }
pub trait VPart: Sized { spec fn part_of(self) -> Seq<u8>; }
impl VPart for (u32, VStr) { open spec fn part_of(self) -> Seq<u8> { part(self.0 as int, enc::<u8>(self.1.view())) } }
impl VPart for &(u32, VStr) { open spec fn part_of(self) -> Seq<u8> { part((*self).0 as int, enc::<u8>((*self).1.view())) } }
impl VPart for (u64, VStr) { open spec fn part_of(self) -> Seq<u8> { part(self.0 as int, enc::<u8>(self.1.view())) } }
impl VPart for &(u64, VStr) { open spec fn part_of(self) -> Seq<u8> { part((*self).0 as int, enc::<u8>((*self).1.view())) } }
// the components still to come
#[verifier::opaque] pub open spec fn rest<A: VPart>(s: Seq<A>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].part_of() + rest(s.skip(1)) } }
// the components that are not zero, largest first, with a minus sign in front of a negative duration
pub open spec fn mag(n: int) -> int { if n < 0 { -n } else { n } }
#[verifier::opaque] pub open spec fn comps(m: int) -> Seq<u8> {
    part(m / NSD(), seq![100u8]) + (part(m / 3_600_000_000_000 % 24, seq![104u8]) + (part(m / 60_000_000_000 % 60, seq![109u8]) + (part(m / 1_000_000_000 % 60, seq![115u8])
        + (part(m / 1_000_000 % 1000, seq![109u8, 115u8]) + (part(m / 1000 % 1000, seq![117u8, 115u8]) + part(m % 1000, seq![110u8, 115u8]))))))
}
pub proof fn rest7<A: VPart>(s: Seq<A>) requires s.len() == 7
    ensures rest(s) == s[0].part_of() + (s[1].part_of() + (s[2].part_of() + (s[3].part_of() + (s[4].part_of() + (s[5].part_of() + s[6].part_of())))))
{
    reveal(rest); rest6(s.skip(1));
}
pub open spec fn sign_text(n: int) -> Seq<u8> { if n < 0 { seq![45u8] } else { Seq::empty() } }
pub open spec fn time_text(n: int) -> Seq<u8> { sign_text(n) + comps(mag(n)) }
pub proof fn time_len(n: int) requires fits64(n) ensures comps(mag(n)).len() <= 40, time_text(n).len() <= 41 {
    reveal(comps);
    let m = mag(n);
    dec_len(m / NSD()); dec_len(m / 3_600_000_000_000 % 24); dec_len(m / 60_000_000_000 % 60); dec_len(m / 1_000_000_000 % 60); dec_len(m / 1_000_000 % 1000); dec_len(m / 1000 % 1000); dec_len(m % 1000);
}
pub proof fn rest6<A: VPart>(s: Seq<A>) requires s.len() == 6 ensures rest(s) == s[0].part_of() + (s[1].part_of() + (s[2].part_of() + (s[3].part_of() + (s[4].part_of() + (s[5].part_of()))))) { reveal(rest); rest5(s.skip(1)); }
pub proof fn rest5<A: VPart>(s: Seq<A>) requires s.len() == 5 ensures rest(s) == s[0].part_of() + (s[1].part_of() + (s[2].part_of() + (s[3].part_of() + (s[4].part_of())))) { reveal(rest); rest4(s.skip(1)); }
pub proof fn rest4<A: VPart>(s: Seq<A>) requires s.len() == 4 ensures rest(s) == s[0].part_of() + (s[1].part_of() + (s[2].part_of() + (s[3].part_of()))) { reveal(rest); rest3(s.skip(1)); }
pub proof fn rest3<A: VPart>(s: Seq<A>) requires s.len() == 3 ensures rest(s) == s[0].part_of() + (s[1].part_of() + (s[2].part_of())) { reveal(rest); rest2(s.skip(1)); }
pub proof fn rest2<A: VPart>(s: Seq<A>) requires s.len() == 2 ensures rest(s) == s[0].part_of() + (s[1].part_of()) { reveal(rest); rest1(s.skip(1)); }
pub proof fn rest1<A: VPart>(s: Seq<A>) requires s.len() == 1 ensures rest(s) == s[0].part_of() { reveal(rest); assert(rest(s.skip(1)) =~= Seq::<u8>::empty()); assert(rest(s) =~= s[0].part_of()); }
// the same digits taken in steps
pub proof fn steps(m: int) requires 0 <= m
    ensures m / 1_000_000_000 / 60 == m / 60_000_000_000, m / 1_000_000_000 / 3600 == m / 3_600_000_000_000, m / 1_000_000_000 / 86_400 == m / NSD(),
        m % 1_000_000_000 % 1000 == m % 1000, m % 1_000_000_000 / 1000 % 1000 == m / 1000 % 1000, m % 1_000_000_000 / 1_000_000 == m / 1_000_000 % 1000, 0 <= m / 1_000_000_000 <= m
{
    use vstd::arithmetic::div_mod::*;
    lemma_div_denominator(m, 1_000_000_000, 60);
    lemma_div_denominator(m, 1_000_000_000, 3600);
    lemma_div_denominator(m, 1_000_000_000, 86_400);
    lemma_mod_mod(m, 1000, 1_000_000);
    lemma_mod_breakdown(m, 1_000_000, 1000);
    lemma_mod_breakdown(m, 1000, 1_000_000);
    lemma_mod_mod(m / 1000, 1000, 1000);
}
// where writing the components stands: the text, and what of it is still to come
pub open spec fn stands(t: Seq<u8>, r: Seq<u8>) -> bool { r.len() <= t.len() && t.skip(t.len() - r.len()) == r }
pub open spec fn sofar(t: Seq<u8>, r: Seq<u8>) -> Seq<u8> { t.take(t.len() - r.len()) }
pub proof fn begin(n: int) ensures stands(time_text(n), comps(mag(n))), sofar(time_text(n), comps(mag(n))) == sign_text(n) {
    assert(time_text(n).skip(sign_text(n).len() as int) =~= comps(mag(n)));
    assert(time_text(n).take(sign_text(n).len() as int) =~= sign_text(n));
}
pub proof fn next_part<A: VPart>(t: Seq<u8>, s: Seq<A>) requires stands(t, rest(s))
    ensures s.len() > 0 ==> stands(t, rest(s.skip(1))) && sofar(t, rest(s.skip(1))) == sofar(t, rest(s)) + s[0].part_of() && rest(s).len() == s[0].part_of().len() + rest(s.skip(1)).len(),
        s.len() == 0 ==> rest(s).len() == 0 && sofar(t, rest(s)) == t
{
    reveal(rest);
    if s.len() > 0 {
        let (r, q, p) = (rest(s), rest(s.skip(1)), s[0].part_of());
        assert(r == p + q);
        assert(t.skip(t.len() - q.len()) =~= r.skip(p.len() as int));
        assert(r.skip(p.len() as int) =~= q);
        assert(r.take(p.len() as int) =~= p);
        assert(sofar(t, q) =~= sofar(t, r) + p) by {
            let k = t.len() - r.len();
            assert forall|i: int| k <= i < k + p.len() implies t[i] == p[i - k] by { assert(t.skip(k)[i - k] == r[i - k]); }
        }
    } else { assert(t.take(t.len() as int) =~= t); }
}
pub proof fn comps_are(m: int) ensures comps(m) == part(m / NSD(), seq![100u8]) + (part(m / 3_600_000_000_000 % 24, seq![104u8]) + (part(m / 60_000_000_000 % 60, seq![109u8]) + (part(m / 1_000_000_000 % 60, seq![115u8])
        + (part(m / 1_000_000 % 1000, seq![109u8, 115u8]) + (part(m / 1000 % 1000, seq![117u8, 115u8]) + part(m % 1000, seq![110u8, 115u8])))))) { reveal(comps); }
"""

PARTS = [("m / NSD()", "100u8"), ("m / 3_600_000_000_000 % 24", "104u8"), ("m / 60_000_000_000 % 60", "109u8"), ("m / 1_000_000_000 % 60", "115u8"), ("m / 1_000_000 % 1000", "109u8, 115u8"),
         ("m / 1000 % 1000", "117u8, 115u8"), ("m % 1000", "110u8, 115u8")]


def spec():
    com = dict(ret="i32", mem="Mem<u8>", memspec="spec_fn(int) -> u8", given=["!$1.null()"], args=[("x", "i64"), ("d", "MPtr<u8>")])
    fns = []
    for n, t, st in (("DT", "date_text(day_of(x as int)) + seq![45u8] + tod_text(x as int)", "date_len({x}); tod_len({x}); tod_same({x});"),
                     ("DATE", "date_text(day_of(x as int))", "date_len({x});"), ("TOD", "tod_text(x as int)", "tod_len({x}); tod_same({x});")):
        fns.append(dict(name=f"{n}_TO_STRING_EXT", start="broadcast use wr_cat; " + st.replace("{x}", "$0 as int"), post=f"r == 0 && wrote_text(m0, m1, d.addr(), {t})", **com))
    T, R = "time_text($$0 as int)", "rest(vit0__.s())"
    fns.append(dict(name="TIME_TO_STRING_EXT", start="broadcast use wr_cat; broadcast use from_none; time_len($0 as int); steps(mag($0 as int)); begin($0 as int); comps_are(mag($0 as int));", post="r == 0 && wrote_text(m0, m1, d.addr(), time_text(x as int))",
                    loops=[dict(inv=f"""invariant {T}.len() <= 41, stands({T}, {R}), @m0.addr() == $$1.addr() + sofar({T}, {R}).len(), @m0.n() == 81 - sofar({T}, {R}).len(), vmem__.m == wr(vm0__, $$1.addr(), sofar({T}, {R})),
                      ensures @m0.addr() == $$1.addr() + {T}.len(), @m0.n() == 81 - {T}.len(), vmem__.m == wr(vm0__, $$1.addr(), {T})""", before="rest7(vit0__.s()); let s = vit0__.s(); let m = mag($$0 as int); " + " ".join(f"assert(s[{i}].part_of() =~= part({c}, seq![{u}]));" for i, (c, u) in enumerate(PARTS)) + " assert(rest(s) == comps(m));", proof=f"proof {{ broadcast use wr_cat; broadcast use from_none; next_part({T}, vit0__.s()); }}")], **com))
    cfg = strconfig(ghost_fns=[], types={"&str": "VStr", "&'astr": "VStr", "&'staticstr": "VStr", "String": "VString", "fmt::Arguments": "VFmt", "std::fmt::Arguments": "VFmt", "core::fmt::Arguments": "VFmt"})
    cfg["mem_methods"] += ["write_fmt", "write_all"]
    cfg["ghost_methods"] += DATE_GHOST
    cfg["rename_methods"].update(to_string="v_to_string", iter="v_iter", into_iter="v_into_iter")
    return dict(shims=["strings", "utf", "slices", "chrono", "show", "showdate", "arrays"], lemmas=LEMMAS, config=cfg, ints=DATE_INTS + ["usize"], fns=fns,
                trusted=TRUSTED + CHRONO + ["assumed contracts on core::fmt (decimal integers, literal pieces), on io::Write for a byte slice (verus/shims/show.rs) and on chrono's Display of dates and times (verus/shims/showdate.rs)"],
                assumptions=["the destination has room for 81 bytes"])
