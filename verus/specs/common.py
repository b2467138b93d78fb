import prelude
TRUSTED = ["Verus and Z3", "the extractor's rewrites (DESIGN.md lists each)", "assumed contracts on std's integer and Option/Result functions (verus/prelude.py; most of the integers' are discharged by the thorough run, coverage.std_integers)"]
CHRONO = ["contracts on chrono and std::time::Duration (verus/shims/chrono.rs), also sampled natively against an independent calendar"]


def config(ghost=(), rename=(), **kw):
    return dict(ghost_methods=list(prelude.GHOST) + list(ghost), rename_methods=dict(prelude.RENAME, **{n: "v_" + n for n in ("encode_utf8", "encode_utf16", "len_utf8", "len_utf16", *rename)}), **kw)


DATE_GHOST = ["timestamp_nanos", "mul_f32", "mul_f64", "div_f32", "div_f64"]
DATE_INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]


STRINGS = ["string reading and writing through EncodedCharsIter::decode, CharsEncoder::encode and ptr_to_slice by the contracts proved under P28 (which also proves the restated text of shims/codec.rs and ptr_slice.rs from them)",
           "assumed contracts on iterator adapters (take, skip, chain, count, windows, position) (verus/shims/strings.rs)"]
STRASSUME = ["the destination does not overlap a source and has room for the result", "strings have fewer than 2^31 code units"]


def strconfig(**kw):
    """String functions: memory is a ghost argument of what writes."""
    kw.setdefault("ghost_methods", ["encode"])
    kw.setdefault("ghost_fns", ["EncodedCharsIter::decode"])
    return config(ghost=kw.pop("ghost_methods"), rename=["unwrap_or"], mem_methods=["encode"], **kw)


UNITS = [("STRING", "u8"), ("WSTRING", "u16")]
STRING_INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize"]


# a text written in two pieces, the second over the terminator of the first, is the whole text
PIECES = """
pub broadcast proof fn pieces<T: Text>(m: spec_fn(int) -> T, a: int, b: int, s: Seq<char>, t: Seq<char>)
    requires b == a + enc::<T>(s).len()
    ensures #[trigger] wr(wr(m, a, enc::<T>(s).push(T::zero())), b, enc::<T>(t).push(T::zero())) == wr(m, a, enc::<T>(s + t).push(T::zero())),
        wrote1::<T>(m, wr(m, a, enc::<T>(s + t).push(T::zero())), a, s + t)
{
    enc_join::<T>(s, t);
    assert(wr(wr(m, a, enc::<T>(s).push(T::zero())), b, enc::<T>(t).push(T::zero())) =~= wr(m, a, enc::<T>(s + t).push(T::zero())));
}
// the terminator put down once more, or before the text
pub broadcast proof fn ended<T: Text>(m: spec_fn(int) -> T, a: int, b: int, s: Seq<char>) requires b == a + enc::<T>(s).len()
    ensures #[trigger] wr(wr(m, a, enc::<T>(s).push(T::zero())), b, seq![T::zero()]) == wr(m, a, enc::<T>(s).push(T::zero())) {
    assert(wr(wr(m, a, enc::<T>(s).push(T::zero())), b, seq![T::zero()]) =~= wr(m, a, enc::<T>(s).push(T::zero())));
}
pub broadcast proof fn begun<T: Text>(m: spec_fn(int) -> T, a: int, s: Seq<char>)
    ensures #[trigger] wr(wr(m, a, seq![T::zero()]), a, enc::<T>(s).push(T::zero())) == wr(m, a, enc::<T>(s).push(T::zero())) {
    assert(wr(wr(m, a, seq![T::zero()]), a, enc::<T>(s).push(T::zero())) =~= wr(m, a, enc::<T>(s).push(T::zero())));
}
pub proof fn nothing<T: Text>(m: spec_fn(int) -> T, a: int) ensures wrote1::<T>(m, wr(m, a, seq![T::zero()]), a, Seq::empty()) {
    assert(enc::<T>(Seq::empty()).push(T::zero()) =~= seq![T::zero()]);
}
"""
START = "broadcast use pieces; broadcast use ended; broadcast use begun; nothing::<{u}>(vmem__.m, ${d}.addr());"
