from specs.common import *

LEMMAS = """
// what FIND returns: one more than the index of the first occurrence, 0 without one
pub open spec fn first(s: Seq<char>, n: Seq<char>, r: int) -> bool {
    if n.len() == 0 || !(exists|i: int| occurs(s, n, i)) { r == 0 }
    else { occurs(s, n, r - 1) && forall|j: int| 0 <= j < r - 1 ==> !#[trigger] occurs(s, n, j) }
}
pub proof fn finding<T: Text>(u: Seq<T>, w: Seq<T>) requires T::ok(u), T::ok(w)
    ensures (w.len() > u.len() || u.len() == 0 || w.len() == 0) ==> first(T::chars(u), T::chars(w), 0),
        forall|i: int| 0 <= i <= u.len() - w.len() && w.len() > 0 && #[trigger] u.subrange(i, i + w.len()) == w && (forall|j: int| 0 <= j < i ==> #[trigger] u.subrange(j, j + w.len()) != w)
            ==> T::decodes(u.subrange(0, i)) && first(T::chars(u), T::chars(w), T::items(u.subrange(0, i)).len() as int + 1) && T::items(u.subrange(0, i)).len() < u.len() && T::ok(u.subrange(0, i)),
        (forall|j: int| 0 <= j <= u.len() - w.len() ==> #[trigger] u.subrange(j, j + w.len()) != w) ==> first(T::chars(u), T::chars(w), 0)
{
    let (s, n) = (T::chars(u), T::chars(w));
    T::f_round(u); T::f_round(w); enc_grows::<T>(s); enc_grows::<T>(n);
    assert forall|i: int| occurs(s, n, i) implies found(u, w, at::<T>(s, i)) by { occurs_found::<T>(s, n, i); }
    assert forall|i: int| 0 <= i <= u.len() - w.len() && w.len() > 0 && #[trigger] u.subrange(i, i + w.len()) == w && (forall|j: int| 0 <= j < i ==> #[trigger] u.subrange(j, j + w.len()) != w)
        implies T::decodes(u.subrange(0, i)) && first(s, n, T::items(u.subrange(0, i)).len() as int + 1) && T::items(u.subrange(0, i)).len() < u.len() && T::ok(u.subrange(0, i)) by
    {
        let k = found_occurs::<T>(s, n, i);
        assert(u.subrange(0, i) =~= u.take(i));
        T::f_ok(s.take(k));
        assert forall|j: int| 0 <= j < k implies !#[trigger] occurs(s, n, j) by {
            if occurs(s, n, j) { at_le::<T>(s, j, k); assert(found(u, w, at::<T>(s, j))); assert(u.subrange(at::<T>(s, j), at::<T>(s, j) + w.len()) == w); }
        }
        assert(occurs(s, n, k));
    }
    if w.len() > u.len() || u.len() == 0 || w.len() == 0 || (forall|j: int| 0 <= j <= u.len() - w.len() ==> #[trigger] u.subrange(j, j + w.len()) != w) {
        if n.len() > 0 && exists|i: int| occurs(s, n, i) {
            let i = choose|i: int| occurs(s, n, i);
            assert(found(u, w, at::<T>(s, i)));
            assert(u.subrange(at::<T>(s, i), at::<T>(s, i) + w.len()) == w);
        }
    }
}
// the same, where the code reads the units before an occurrence through its pointer
pub proof fn finding_at<T: Text>(p: CPtr<T>, q: CPtr<T>) requires good(p), good(q)
    ensures ({ let u = str_at(p); let w = str_at(q); let (s, n) = (chars(p), chars(q));
        &&& (w.len() > u.len() || u.len() == 0 || w.len() == 0) ==> first(s, n, 0)
        &&& forall|i: int| 0 <= i <= u.len() - w.len() && w.len() > 0 && u.subrange(i, i + w.len()) == w && (forall|j: int| 0 <= j < i ==> #[trigger] u.subrange(j, j + w.len()) != w)
            ==> T::decodes(#[trigger] p.cells().subrange(p.off(), p.off() + i)) && first(s, n, T::items(p.cells().subrange(p.off(), p.off() + i)).len() as int + 1) && T::items(p.cells().subrange(p.off(), p.off() + i)).len() < u.len()
        &&& (forall|j: int| 0 <= j <= u.len() - w.len() ==> #[trigger] u.subrange(j, j + w.len()) != w) ==> first(s, n, 0)
        &&& forall|i: int| 0 <= i <= u.len() ==> #[trigger] u.subrange(0, i) == p.cells().subrange(p.off(), p.off() + i)
    })
{
    finding(str_at(p), str_at(q));
    assert forall|i: int| 0 <= i <= str_at(p).len() implies #[trigger] str_at(p).subrange(0, i) == p.cells().subrange(p.off(), p.off() + i) by { assert(p.cells().subrange(p.off(), p.off() + i) =~= str_at(p).subrange(0, i)); }
    assert forall|i: int| 0 <= i <= str_at(p).len() implies #[trigger] p.cells().subrange(p.off(), p.off() + i) == str_at(p).subrange(0, i) by { assert(p.cells().subrange(p.off(), p.off() + i) =~= str_at(p).subrange(0, i)); }
}
"""


def spec():
    fns = []
    for n, u in UNITS:
        fns.append(dict(name=f"LEN__{n}", args=[("s", f"CPtr<{u}>")], ret="i32", given=["good($0)"], post=f"r == chars::<{u}>(s).len()"))
        fns.append(dict(name=f"FIND__{n}", args=[("s", f"CPtr<{u}>"), ("n", f"CPtr<{u}>")], ret="i32", given=["good($0)", "good($1)"], post=f"first(chars::<{u}>(s), chars::<{u}>(n), r as int)",
                        start=f"finding_at::<{u}>($0, $1);"))
    return dict(shims=["strings", "utf", "slices", "codec", "ptr_slice"], lemmas=LEMMAS, config=strconfig(ghost_methods=["encode", "windows"], ghost_fns=["EncodedCharsIter::decode", "ptr_to_slice"]),
                ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
