from specs.common import *

LEMMAS = """
pub open spec fn args_str<T: Unit>(p: CPtr<CPtr<T>>, n: int) -> bool {
    !p.null() && 0 <= p.off() && (n <= 0 || p.off() + n <= p.cells().len()) && forall|i: int| 0 <= i < n ==> arg_str(#[trigger] p.cells()[p.off() + i])
}
pub open spec fn arg_str<T: Unit>(q: CPtr<T>) -> bool { q.null() || is_str(q) }
// how the i-th string of the list compares with the next one
pub open spec fn pair<T: Unit>(p: CPtr<CPtr<T>>, i: int) -> Ordering { lex(str_at(p.cells()[p.off() + i]), str_at(p.cells()[p.off() + i + 1])) }
// every string stands in the relation to its successor
pub open spec fn chain<T: Unit>(p: CPtr<CPtr<T>>, n: int, rel: spec_fn(Ordering) -> bool) -> bool { forall|i: int| 0 <= i < n - 1 ==> rel(#[trigger] pair(p, i)) }
"""
RELS = dict(GT="o is Greater", GE="!(o is Less)", EQ="o is Equal", LE="!(o is Greater)", LT="o is Less")


def spec():
    gen = "<T: Unit, F: Fn(Ordering) -> bool>"
    k = "($$0 - 1 - vit0__.s().len())"
    fns = [dict(name="compare", generics=gen, args=[("n", "i32"), ("a", "CPtr<CPtr<T>>"), ("f", "F")], ret="bool", types={2: "F"}, valid="n >= 2",
                given=["args_str($1, $0 as int)", "forall|o: Ordering| $2.requires((o,))"],
                post="(r ==> forall|i: int| 0 <= i < n - 1 ==> f.ensures((#[trigger] pair(a, i),), true)) && (!r ==> exists|i: int| 0 <= i < n - 1 && f.ensures((#[trigger] pair(a, i),), false))",
                targets=[f"{r}__{n}" for r in RELS for n, _ in UNITS],
                start="if $0 >= 1 { assert(arg_str($1.cells()[$1.off() + 0])); }",
                loops=[dict(inv=f"""invariant $$0 >= 2, args_str($$1, $$0 as int), vit0__.s().len() <= $$0 - 1, forall|o: Ordering| $2.requires((o,)),
                      !@1.null(), @1.cells() == $$1.cells(), @1.off() == $$1.off() + {k}, @m1.view() == str_at($$1.cells()[$$1.off() + {k}]),
                      forall|i: int| 0 <= i < {k} ==> $2.ensures((#[trigger] pair($$1, i),), true),
                    ensures vit0__.s().len() == 0""", proof=f"proof {{ if vit0__.s().len() > 0 {{ assert(pair($$1, {k}) == lex(str_at($$1.cells()[$$1.off() + {k}]), str_at($$1.cells()[$$1.off() + {k} + 1]))); assert(arg_str($$1.cells()[$$1.off() + ({k} + 1)])); assert(arg_str($$1.cells()[$$1.off() + {k} + 1])); }} }}")])]
    for n, u in UNITS:
        for r, rel in RELS.items():
            fns.append(dict(name=f"{r}__{n}", args=[("n", "i32"), ("a", f"CPtr<CPtr<{u}>>")], ret="bool", valid="n >= 2", given=["args_str($1, $0 as int)"],
                            post=f"r == chain(a, n as int, |o: Ordering| {rel})"))
        fns.append(dict(name=f"NE__{n}", args=[("s", f"CPtr<{u}>"), ("o", f"CPtr<{u}>")], ret="bool", given=["arg_str($0)", "arg_str($1)"], post="r == !(lex(str_at(s), str_at(o)) is Equal)"))
    return dict(shims=["strings", "utf", "slices", "codec", "ptr_slice"], lemmas=LEMMAS, config=strconfig(ghost_fns=["EncodedCharsIter::decode", "ptr_to_slice"]), ints=STRING_INTS, fns=fns, trusted=TRUSTED + STRINGS, assumptions=STRASSUME)
