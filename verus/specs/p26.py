from specs.common import *

LEMMAS = PIECES + """
// the strings an argument list points to, and their concatenation
pub open spec fn args_ok<T: Unit>(p: CPtr<CPtr<T>>, n: int) -> bool {
    p.null() || (0 <= p.off() && (n <= 0 || p.off() + n <= p.cells().len()) && forall|i: int| 0 <= i < n ==> arg_ok(#[trigger] p.cells()[p.off() + i]))
}
pub open spec fn arg_ok<T: Unit>(q: CPtr<T>) -> bool { q.null() || good(q) }
pub open spec fn joined<T: Unit>(p: CPtr<CPtr<T>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { joined(p, n - 1) + chars::<T>(p.cells()[p.off() + n - 1]) }
}
// `e` was written at `a`; the unit after it may hold anything
pub open spec fn put<T>(m0: spec_fn(int) -> T, m: spec_fn(int) -> T, a: int, e: Seq<T>) -> bool { forall|i: int| i != a + e.len() ==> #[trigger] m(i) == wr(m0, a, e)(i) }
pub proof fn put_more<T: Text>(m0: spec_fn(int) -> T, m: spec_fn(int) -> T, a: int, e: Seq<T>, f: Seq<T>, z: T) requires put(m0, m, a, e) ensures put(m0, wr(m, a + e.len(), f.push(z)), a, e + f) {
    let m2 = wr(m, a + e.len(), f.push(z));
    assert forall|i: int| i != a + (e + f).len() implies #[trigger] m2(i) == wr(m0, a, e + f)(i) by {
        if a + e.len() <= i < a + e.len() + f.len() { assert(m2(i) == f[i - a - e.len()]); } else { assert(m(i) == wr(m0, a, e)(i)); }
    }
}
pub proof fn put_end<T: Text>(m0: spec_fn(int) -> T, m: spec_fn(int) -> T, a: int, e: Seq<T>, z: T) requires put(m0, m, a, e) ensures wr(m, a + e.len(), seq![z]) == wr(m0, a, e.push(z)) {
    let (x, y) = (wr(m, a + e.len(), seq![z]), wr(m0, a, e.push(z)));
    assert forall|i: int| #[trigger] x(i) == y(i) by { if i != a + e.len() { assert(m(i) == wr(m0, a, e)(i)); } }
    assert(x =~= y);
}
pub proof fn none_there<T: Text>() ensures T::ok(Seq::<T>::empty()), T::decodes(Seq::<T>::empty()), T::chars(Seq::<T>::empty()) == Seq::<char>::empty() {
    T::f_ok(Seq::empty()); assert(enc::<T>(Seq::empty()) =~= Seq::<T>::empty());
}
// what is read and written is the characters
pub proof fn reads<T: Text>(q: CPtr<T>) requires arg_ok(q) ensures T::decodes(str_at(q)) { if q.null() { none_there::<T>(); } else { T::f_round(str_at(q)); T::f_ok(chars(q)); } }
pub proof fn step<T: Text>(m0: spec_fn(int) -> T, m: spec_fn(int) -> T, a: int, p: CPtr<CPtr<T>>, k: int)
    requires put(m0, m, a, enc::<T>(joined(p, k))), k >= 0, arg_ok(p.cells()[p.off() + k])
    ensures put(m0, wr(m, a + enc::<T>(joined(p, k)).len(), enc::<T>(chars(p.cells()[p.off() + k])).push(T::zero())), a, enc::<T>(joined(p, k + 1))),
        T::decodes(str_at(p.cells()[p.off() + k])), enc::<T>(joined(p, k + 1)).len() == enc::<T>(joined(p, k)).len() + enc::<T>(chars(p.cells()[p.off() + k])).len()
{
    let c = chars(p.cells()[p.off() + k]);
    reads(p.cells()[p.off() + k]);
    enc_join::<T>(joined(p, k), c);
    assert(joined(p, k + 1) == joined(p, k) + c);
    put_more::<T>(m0, m, a, enc::<T>(joined(p, k)), enc::<T>(c), T::zero());
}
"""


def spec():
    fns = []
    for n, u in UNITS:
        common = dict(args=[("d", f"MPtr<{u}>"), ("n", "i32"), ("a", f"CPtr<CPtr<{u}>>")], mem=f"Mem<{u}>", memspec=f"spec_fn(int) -> {u}", valid="!a.null() && !d.null()", given=["args_ok($2, $1 as int)"], start=f"nothing::<{u}>(vmem__.m, $0.addr());")
        ran = f"wrote::<{u}>(m0, m1, d.addr(), joined(a, n as int))"
        k = "(if $$1 > 0 { $$1 - vit0__.s().len() } else { 0 })"
        cur = f"enc::<{u}>(joined($$2, {k}))"
        fns.append(dict(name=f"CONCAT_EXT__{n}", ret="i32", post=f"r == 0 && {ran}", **common,
                        loops=[dict(inv=f"""invariant !$$0.null(), !$$2.null(), args_ok($$2, $$1 as int), vit0__.s().len() <= (if $$1 > 0 {{ $$1 as int }} else {{ 0 }}),
                            !@0.null(), @0.addr() == $$0.addr() + {cur}.len(), !@2.null(), @2.cells() == $$2.cells(), @2.off() == $$2.off() + {k},
                            put(vm0__, vmem__.m, $$0.addr(), {cur}),
                          ensures vit0__.s().len() == 0, wrote::<{u}>(vm0__, wr(vmem__.m, @0.addr(), seq![0{u}]), $$0.addr(), joined($$2, $$1 as int))""",
                                    proof=f"""proof {{ if vit0__.s().len() > 0 {{ step::<{u}>(vm0__, vmem__.m, $$0.addr(), $$2, {k}); }} else {{ put_end::<{u}>(vm0__, vmem__.m, $$0.addr(), {cur}, 0); if $$1 <= 0 {{ assert(joined($$2, $$1 as int) == joined($$2, 0)); }} assert(wrote1::<{u}>(vm0__, wr(vmem__.m, @0.addr(), seq![0{u}]), $$0.addr(), joined($$2, $$1 as int))); }} }}""")]))
        fns.append(dict(name=f"CONCAT__{n}", ret="()", post=ran, **common))
    return dict(shims=["strings", "utf", "codec"], lemmas=LEMMAS, config=strconfig(), ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
