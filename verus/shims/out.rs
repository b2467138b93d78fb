// ---------------------------------------------------------------- lemmas on writing units one by one (proved)
pub proof fn wr_more<T>(m: spec_fn(int) -> T, a: int, x: Seq<T>, v: T) ensures wr(wr(m, a, x), a + x.len(), seq![v]) == wr(m, a, x.push(v)) {
    assert(wr(wr(m, a, x), a + x.len(), seq![v]) =~= wr(m, a, x.push(v)));
}
pub proof fn wr_none<T>(m: spec_fn(int) -> T, a: int) ensures wr(m, a, Seq::empty()) == m { assert(wr(m, a, Seq::empty()) =~= m); }
pub proof fn enc_next<T: Lead>(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures enc::<T>(s.take(k + 1)) == enc::<T>(s.take(k)) + T::enc1(s[k]) {
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
// the units written once the first k characters and j units of the next are out
pub open spec fn out<T: Code>(s: Seq<char>, k: int, j: int) -> Seq<T> { enc::<T>(s.take(k)) + (if k < s.len() { T::enc1(s[k]).take(j) } else { Seq::empty() }) }
pub proof fn out_next<T: Lead>(m: spec_fn(int) -> T, a: int, s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures k == 0 ==> out::<T>(s, k, 0) == Seq::<T>::empty() && wr(m, a, out::<T>(s, k, 0)) == m,
        k < s.len() ==> out::<T>(s, k, T::enc1(s[k]).len() as int) == out::<T>(s, k + 1, 0),
        k == s.len() ==> out::<T>(s, k, 0) == enc::<T>(s),
        wr(wr(m, a, out::<T>(s, k, 0)), a + out::<T>(s, k, 0).len(), seq![T::zero()]) == wr(m, a, out::<T>(s, k, 0).push(T::zero())),
        forall|j: int| k < s.len() && 0 <= j < T::enc1(s[k]).len() ==> #[trigger] wr(wr(m, a, out::<T>(s, k, j)), a + out::<T>(s, k, j).len(), seq![T::enc1(s[k])[j]]) == wr(m, a, out::<T>(s, k, j + 1)) && out::<T>(s, k, j + 1).len() == out::<T>(s, k, j).len() + 1
{
    if k == 0 { assert(s.take(0) =~= Seq::<char>::empty()); assert(enc::<T>(s.take(0)) =~= Seq::<T>::empty()); assert(out::<T>(s, k, 0) =~= Seq::<T>::empty()); wr_none(m, a); }
    wr_more(m, a, out::<T>(s, k, 0), T::zero());
    if k < s.len() {
        enc_next::<T>(s, k);
        let e = T::enc1(s[k]);
        assert(e.take(e.len() as int) =~= e);
        assert(out::<T>(s, k + 1, 0) =~= enc::<T>(s.take(k + 1)));
        assert(out::<T>(s, k, e.len() as int) =~= out::<T>(s, k + 1, 0));
        assert forall|j: int| 0 <= j < e.len() implies #[trigger] wr(wr(m, a, out::<T>(s, k, j)), a + out::<T>(s, k, j).len(), seq![e[j]]) == wr(m, a, out::<T>(s, k, j + 1)) && out::<T>(s, k, j + 1).len() == out::<T>(s, k, j).len() + 1 by {
            assert(out::<T>(s, k, j + 1) =~= out::<T>(s, k, j).push(e[j]));
            wr_more(m, a, out::<T>(s, k, j), e[j]);
        }
    } else { assert(s.take(k) =~= s); assert(out::<T>(s, k, 0) =~= enc::<T>(s)); }
}
