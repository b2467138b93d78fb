from specs.common import *

LEMMAS = """
pub struct EncIter<A> { pub iter: It<A> }
pub open spec fn readable<T: Unit>(p: CPtr<T>) -> bool { p.null() || is_str(p) }
pub open spec fn encode8_done(c: char) -> bool { true }
pub open spec fn encode16_done(c: Result<char, DecErr>) -> bool { c is Ok }
"""
CLIENTS = """
// what was written reads back as the same characters
pub proof fn no_zero<T: Text>(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> s[i] as u32 != 0 ensures forall|i: int| 0 <= i < enc::<T>(s).len() ==> #[trigger] enc::<T>(s)[i] != T::zero() decreases s.len() {
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies d[i] as u32 != 0 by { assert(d[i] == s[i]); }
        no_zero::<T>(d);
        assert(s.last() == s[s.len() - 1]);
        T::f_zero(s.last());
        let (x, y) = (enc::<T>(d), T::enc1(s.last()));
        assert forall|i: int| 0 <= i < enc::<T>(s).len() implies #[trigger] enc::<T>(s)[i] != T::zero() by { if i < x.len() { assert(enc::<T>(s)[i] == x[i]); } else { assert(enc::<T>(s)[i] == y[i - x.len()]); } }
    }
}
pub proof fn reads_back<T: Text>(s: Seq<char>, p: CPtr<T>)
    requires !p.null(), p.off() == 0, p.cells() == enc::<T>(s).push(T::zero()), p.cells().len() <= 0x7fff_ffff, forall|i: int| 0 <= i < s.len() ==> s[i] as u32 != 0
    ensures good(p), T::decodes(str_at(p)), chars(p) == s
{
    no_zero::<T>(s);
    assert(str_at(p) =~= enc::<T>(s));
    T::f_ok(s); enc_grows::<T>(s);
}
"""


def links():
    """The contracts the other string properties assume (shims/codec.rs, ptr_slice.rs), discharged from the ones proved here:
    the same text, with a call of the function under contract as the body."""
    import os, re
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims")
    codec, ptr = (open(f"{here}/{n}.rs").read() for n in ("codec", "ptr_slice"))
    stub = r"#\[verifier::external_body\] (pub )?(fn %s[^{]*)\{ unimplemented!\(\) \}"
    out = []
    dec = re.search(stub % "decode<T: Unit>", codec)
    for u, call in (("u8", "decode8(src, vk).iter"), ("u16", "decode16(src, vk).iter")):
        t = dec.group(2).replace("decode<T: Unit>", f"link_decode_{u}").replace("T::Item", f"<{u} as Unit>::Item")
        out.append("pub " + re.sub(r"\bT\b", u, t) + "{ " + call + " }")
    enc = codec[codec.index("pub trait VEncode"):]
    for call in ("encode8", "encode16"):
        enc = re.sub(stub % "encode", lambda m: m.group(2) + "{ " + call + "(self, dest, vk, Tracked(m)) }", enc, count=1)
    out.append(enc)
    sl = re.search(stub % "ptr_to_slice<T: Unit>", ptr)
    out.append("pub " + sl.group(2).replace("ptr_to_slice<", "link_ptr_to_slice<") + "{ ptr_to_slice(src, vk) }")
    text = "\n".join(out)
    assert "external_body" not in text and "unimplemented" not in text and len(re.findall("external_body", codec + ptr)) == 4
    return text


def spec():
    fns = [dict(name="get_null_terminated_len", generics="<T: Unit>", args=[("p", "CPtr<T>")], ret="usize", given=["readable($0)"], post="r == str_at(p).len()",
                start="if !$0.null() { let n__ = str_at($0).len() as int; assert(str_at($0).len() == $0.cells().len() - 1 - $0.off()); }"),
           dict(name="ptr_to_slice", generics="<T: Unit>", args=[("p", "CPtr<T>")], ret="VSlice<T>", given=["readable($0)"], post="r.view() == str_at(p)")]
    for n, u in UNITS:
        b = 8 if u == "u8" else 16
        ty = "Utf8Iterator" if u == "u8" else "Utf16Iterator"
        it = f"EncIter<<{u} as Unit>::Item>"
        g = n.lower()
        fns.append(dict(name=f"decode{b}", targets=[f"{g}::decode"], key=f"CharsDecoder<{u}>forEncodedCharsIter<{ty}<'a>>::decode", args=[("p", f"CPtr<{u}>")], ret=it, given=["readable($0)"],
                        valid=f"{u}::decodes(str_at(p))", post=f"r.iter.s() == {u}::items(str_at(p))"))
        item, allc, ok = ("char", "$$0.s()", "true") if b == 8 else ("Result<char, DecErr>", "oks($$0.s())", "all_ok(s.s())")
        I = "I"
        bound = "Iterator<Item=char>" if b == 8 else "Iterator<Item=Result<char,DecodeUtf16Error>>"
        k = "($$0.s().len() - vit0__.s().len())"
        k1 = "($$0.s().len() - 1 - vit0__.s().len())"
        e = f"enc1_{b}({allc}[{k1}])"
        j = f"({e}.len() - vit1__.s().len())"
        m0, a = "vm0__", "old($1).addr()"
        fns.append(dict(name=f"encode{b}", targets=[f"{g}::encode"], key=f"CharsEncoder<{u}>forI::encode", args=[("s", f"It<{item}>"), ("d", f"MPtr<{u}>")], types={0: f"It<{item}>"}, ret="()", outs=[1], valid=ok,
                        given=["!old($1).null()"], ghost="let ghost va__ = $1.addr();", mem=f"Mem<{u}>", memspec=f"spec_fn(int) -> {u}",
                        ensures=[f"wrote1::<{u}>(old(vmem__).m, final(vmem__).m, old($1).addr(), {allc.replace('$$', '$')})", f"final($1).addr() == old($1).addr() + enc::<{u}>({allc.replace('$$', '$')}).len()", "!final($1).null()"],
                        loops=[dict(inv=f"""invariant vit0__.s() == $$0.s().skip({k}), 0 <= {k} <= $$0.s().len(), !$1.null(), vk__@ ==> encode{b}__valid($$0), forall|i: int| 0 <= i < {k} ==> encode{b}_done($$0.s()[i]),
                               vmem__.m == wr({m0}, va__, out::<{u}>({allc}, {k}, 0)), $1.addr() == va__ + out::<{u}>({allc}, {k}, 0).len(), ensures vit0__.s().len() == 0""",
                                    proof=f"proof {{ out_next::<{u}>({m0}, va__, {allc}, {k}); if {k} < $$0.s().len() {{ {u}::f_one({allc}[{k}]); enc_one::<{u}>({allc}[{k}]); }} }}"),
                               dict(inv=f"""invariant vit0__.s() == $$0.s().skip({k}), 0 < {k} <= $$0.s().len(), !$1.null(), vit1__.s() == refs({e}).skip({j}), 0 <= {j} <= {e}.len(),
                               vmem__.m == wr({m0}, va__, out::<{u}>({allc}, {k1}, {j})), $1.addr() == va__ + out::<{u}>({allc}, {k1}, {j}).len(), ensures vit1__.s().len() == 0""",
                                    proof=f"proof {{ out_next::<{u}>({m0}, va__, {allc}, {k1}); let vj__ = {j}; assert({e}.len() >= vj__); }}")]))
    fns.append(dict(name="enc_iter_next", targets=["string::decode", "wstring::decode"], key="IteratorforEncodedCharsIter<T>::next", generics="<A>", args=[("i", "EncIter<A>")], types={0: "&mut EncIter<A>"}, ret="Option<A>", outs=[0],
                    ensures=["old($0).iter.s().len() == 0 ==> vr__ is None && final($0).iter.s() == old($0).iter.s()", "old($0).iter.s().len() > 0 ==> vr__ == Some(old($0).iter.s()[0]) && final($0).iter.s() == old($0).iter.s().skip(1)"]))
    cfg = strconfig(ghost_methods=["encode_utf8", "encode_utf16"], types={"&'a[T]": "VSlice<T>"}, self_struct="EncIter", witness={"get_null_terminated_len": {"take_while": "str_at(vparam0__).len() as int"}},
                    closures={"get_null_terminated_len": [dict(params=["&usize"], ret="vb__: bool", spec="requires !%0.null(), 0 <= %0.off(), %0.off() + *$0 < %0.cells().len() ensures vb__ == (%0.cells()[%0.off() + *$0] != T::zero())")]})
    return dict(shims=["strings", "utf", "slices", "chars", "out"], lemmas=LEMMAS, clients=CLIENTS + links(), config=cfg, ints=STRING_INTS, fns=fns, trusted=TRUSTED, assumptions=STRASSUME)
