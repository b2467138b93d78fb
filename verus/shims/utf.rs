// ---------------------------------------------------------------- lemmas on the encodings (proved, not assumed)
// every scalar value is a character's, and every character's value is one
pub proof fn chr_is(x: int) ensures chr_ok(x) ==> chr(x) as u32 as int == x {
    reveal(chr);
    if chr_ok(x) { let c = x as char; assert(is_chr(c, x)); assert(is_chr(chr(x), x)); }
}
pub proof fn char_range(c: char) ensures chr_ok(c as u32 as int) {}
pub trait Lead: Unit {
    // a unit that can only be a later unit of a character
    spec fn cont(u: Self) -> bool;
    proof fn f_zero(c: char) ensures c as u32 != 0 ==> forall|j: int| 0 <= j < Self::enc1(c).len() ==> #[trigger] Self::enc1(c)[j] != Self::zero();
    // the character whose encoding a sequence starts with is determined by the sequence
    proof fn f_one(c: char) ensures Self::enc1(c).len() >= 1, !Self::cont(Self::enc1(c)[0]), forall|j: int| 1 <= j < Self::enc1(c).len() ==> Self::cont(#[trigger] Self::enc1(c)[j]),
        Self::enc1(c).len() <= 4;
    proof fn f_two(c: char, d: char, s: Seq<Self>)
        requires Self::enc1(c).len() <= s.len(), Self::enc1(d).len() <= s.len(), s.take(Self::enc1(c).len() as int) == Self::enc1(c), s.take(Self::enc1(d).len() as int) == Self::enc1(d),
        ensures c == d;
}
pub proof fn enc_one<T: Lead>(c: char) ensures enc::<T>(seq![c]) == T::enc1(c) {
    let s = seq![c];
    assert(s.drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(enc, 2);
    assert(enc::<T>(s.drop_last()) =~= Seq::<T>::empty());
    assert(enc::<T>(s) =~= T::enc1(c));
}
pub proof fn enc_join<T: Lead>(a: Seq<char>, b: Seq<char>) ensures enc::<T>(a + b) == enc::<T>(a) + enc::<T>(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(enc::<T>(a) + enc::<T>(b) =~= enc::<T>(a)); }
    else {
        enc_join::<T>(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(enc::<T>(a) + (enc::<T>(b.drop_last()) + T::enc1(b.last())) =~= (enc::<T>(a) + enc::<T>(b.drop_last())) + T::enc1(b.last()));
    }
}
pub proof fn enc_first<T: Lead>(s: Seq<char>) requires s.len() > 0 ensures enc::<T>(s) == T::enc1(s[0]) + enc::<T>(s.skip(1)) {
    assert(s =~= seq![s[0]] + s.skip(1));
    enc_join::<T>(seq![s[0]], s.skip(1));
    enc_one::<T>(s[0]);
}
pub proof fn enc_grows<T: Lead>(s: Seq<char>) ensures s.len() <= enc::<T>(s).len() <= 4 * s.len() decreases s.len() {
    if s.len() > 0 { enc_grows::<T>(s.drop_last()); T::f_one(s.last()); }
}
// where the k-th character begins
pub open spec fn at<T: Code>(s: Seq<char>, k: int) -> int { enc::<T>(s.take(k)).len() as int }
pub proof fn at_next<T: Lead>(s: Seq<char>, k: int) requires 0 <= k < s.len()
    ensures at::<T>(s, k + 1) == at::<T>(s, k) + T::enc1(s[k]).len(), at::<T>(s, k + 1) <= enc::<T>(s).len(),
        enc::<T>(s).subrange(at::<T>(s, k), at::<T>(s, k + 1)) == T::enc1(s[k])
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s =~= s.take(k + 1) + s.skip(k + 1));
    enc_join::<T>(s.take(k + 1), s.skip(k + 1));
    assert(enc::<T>(s).subrange(at::<T>(s, k), at::<T>(s, k + 1)) =~= T::enc1(s[k]));
}
pub proof fn at_le<T: Lead>(s: Seq<char>, j: int, k: int) requires 0 <= j <= k <= s.len() ensures at::<T>(s, j) + (k - j) <= at::<T>(s, k) decreases k - j {
    if j < k { at_le::<T>(s, j, k - 1); at_next::<T>(s, k - 1); T::f_one(s[k - 1]); }
}
pub proof fn at_end<T: Lead>(s: Seq<char>) ensures at::<T>(s, s.len() as int) == enc::<T>(s).len() { assert(s.take(s.len() as int) =~= s); }
// the character a unit belongs to
pub proof fn holds<T: Lead>(s: Seq<char>, i: int) -> (k: int) requires 0 <= i < enc::<T>(s).len()
    ensures 0 <= k < s.len(), at::<T>(s, k) <= i < at::<T>(s, k + 1) decreases s.len()
{
    let p = s.drop_last();
    if i < enc::<T>(p).len() {
        let k = holds::<T>(p, i);
        assert(s.take(k) =~= p.take(k)); assert(s.take(k + 1) =~= p.take(k + 1));
        k
    } else {
        let k = s.len() - 1;
        assert(s.take(k) =~= p); assert(s.take(k + 1) =~= s);
        k
    }
}
// encodings one of which starts with the other
pub proof fn enc_prefix<T: Lead>(s: Seq<char>, n: Seq<char>)
    requires enc::<T>(n).len() <= enc::<T>(s).len(), enc::<T>(s).take(enc::<T>(n).len() as int) == enc::<T>(n)
    ensures n.len() <= s.len(), s.take(n.len() as int) == n decreases n.len()
{
    if n.len() == 0 { assert(s.take(0) =~= n); }
    else {
        T::f_one(n[0]);
        enc_first::<T>(n);
        if s.len() == 0 { assert(enc::<T>(s).len() == 0); assert(false); }
        enc_first::<T>(s);
        T::f_one(s[0]);
        let (a, b) = (T::enc1(s[0]), T::enc1(n[0]));
        let w = enc::<T>(s);
        assert(w.take(a.len() as int) =~= a);
        assert(w.take(b.len() as int) =~= w.take(enc::<T>(n).len() as int).take(b.len() as int));
        assert(enc::<T>(n).take(b.len() as int) =~= b);
        T::f_two(s[0], n[0], w);
        assert(enc::<T>(s.skip(1)) =~= w.skip(a.len() as int));
        assert(enc::<T>(n.skip(1)) =~= enc::<T>(n).skip(a.len() as int));
        assert(enc::<T>(s.skip(1)).take(enc::<T>(n.skip(1)).len() as int) =~= enc::<T>(n.skip(1)));
        enc_prefix::<T>(s.skip(1), n.skip(1));
        assert(s.take(n.len() as int) =~= n) by {
            assert forall|i: int| 0 <= i < n.len() implies s[i] == n[i] by { if i > 0 { assert(s.skip(1).take(n.len() - 1)[i - 1] == n.skip(1)[i - 1]); } }
        }
    }
}
pub proof fn enc_inj<T: Lead>(s: Seq<char>, n: Seq<char>) requires enc::<T>(s) == enc::<T>(n) ensures s == n {
    assert(enc::<T>(s).take(enc::<T>(n).len() as int) =~= enc::<T>(n));
    enc_prefix::<T>(s, n);
    assert(enc::<T>(n).take(enc::<T>(s).len() as int) =~= enc::<T>(s));
    enc_prefix::<T>(n, s);
    assert(s.take(n.len() as int) =~= s);
}
pub open spec fn occurs(s: Seq<char>, n: Seq<char>, i: int) -> bool { 0 <= i && i + n.len() <= s.len() && s.subrange(i, i + n.len()) == n }
pub open spec fn found<T>(u: Seq<T>, w: Seq<T>, i: int) -> bool { 0 <= i && i + w.len() <= u.len() && u.subrange(i, i + w.len()) == w }
// an occurrence among the characters is one among the units, at the unit where its first character begins
pub proof fn occurs_found<T: Lead>(s: Seq<char>, n: Seq<char>, i: int) requires occurs(s, n, i) ensures found(enc::<T>(s), enc::<T>(n), at::<T>(s, i)) {
    assert(s =~= s.take(i) + n + s.skip(i + n.len()));
    enc_join::<T>(s.take(i) + n, s.skip(i + n.len()));
    enc_join::<T>(s.take(i), n);
    assert(enc::<T>(s).subrange(at::<T>(s, i), at::<T>(s, i) + enc::<T>(n).len()) =~= enc::<T>(n));
}
// and the other way round: an occurrence among the units begins with a character
pub proof fn found_occurs<T: Lead>(s: Seq<char>, n: Seq<char>, i: int) -> (k: int) requires n.len() > 0, found(enc::<T>(s), enc::<T>(n), i)
    ensures occurs(s, n, k), at::<T>(s, k) == i, enc::<T>(s.take(k)) == enc::<T>(s).take(i)
{
    let (u, w) = (enc::<T>(s), enc::<T>(n));
    enc_grows::<T>(n); enc_first::<T>(n); T::f_one(n[0]);
    let k = holds::<T>(s, i);
    at_next::<T>(s, k); T::f_one(s[k]);
    assert(u[i] == u.subrange(i, i + w.len())[0]);
    assert(w[0] == T::enc1(n[0])[0]);
    assert(u[i] == u.subrange(at::<T>(s, k), at::<T>(s, k + 1))[i - at::<T>(s, k)]);
    assert(at::<T>(s, k) == i);
    assert(s =~= s.take(k) + s.skip(k));
    enc_join::<T>(s.take(k), s.skip(k));
    assert(enc::<T>(s.skip(k)).take(w.len() as int) =~= u.subrange(i, i + w.len()));
    enc_prefix::<T>(s.skip(k), n);
    assert(s.subrange(k, k + n.len()) =~= s.skip(k).take(n.len() as int));
    assert(enc::<T>(s.take(k)) =~= u.take(i));
    k
}
pub trait Text: Lead {
    // a well-formed string is the encoding of its characters
    proof fn f_round(u: Seq<Self>) requires Self::ok(u) ensures enc::<Self>(Self::chars(u)) == u;
    proof fn f_ok(s: Seq<char>) ensures Self::ok(enc::<Self>(s)), Self::chars(enc::<Self>(s)) == s, Self::items(enc::<Self>(s)).len() == s.len(), Self::decodes(enc::<Self>(s));
}
impl Lead for u8 {
    open spec fn cont(u: u8) -> bool { 0x80 <= u < 0xc0 }
    proof fn f_one(c: char) { char_range(c); }
    proof fn f_zero(c: char) { char_range(c); }
    proof fn f_two(c: char, d: char, s: Seq<u8>) {
        char_range(c); char_range(d);
        let (a, b) = (enc1_8(c), enc1_8(d));
        assert(a[0] == s.take(a.len() as int)[0] && b[0] == s.take(b.len() as int)[0]);
        assert(a.len() == b.len());
        if a.len() > 1 { assert(a[1] == s[1] && b[1] == s[1]); }
        if a.len() > 2 { assert(a[2] == s[2] && b[2] == s[2]); }
        if a.len() > 3 { assert(a[3] == s[3] && b[3] == s[3]); }
        let (x, y) = (c as u32 as int, d as u32 as int);
        if a.len() == 4 {
            assert(x == (x / 262144) * 262144 + (x / 4096 % 64) * 4096 + (x / 64 % 64) * 64 + x % 64);
            assert(y == (y / 262144) * 262144 + (y / 4096 % 64) * 4096 + (y / 64 % 64) * 64 + y % 64);
        } else if a.len() == 3 {
            assert(x == (x / 4096) * 4096 + (x / 64 % 64) * 64 + x % 64);
            assert(y == (y / 4096) * 4096 + (y / 64 % 64) * 64 + y % 64);
        }
        assert(x == y);
    }
}
impl Text for u8 {
    proof fn f_round(u: Seq<u8>) { }
    proof fn f_ok(s: Seq<char>) {
        let u = enc::<u8>(s);
        assert(enc::<u8>(dec8(u)) == u);
        enc_inj::<u8>(dec8(u), s);
    }
}
impl Lead for u16 {
    open spec fn cont(u: u16) -> bool { low(u) }
    proof fn f_one(c: char) { char_range(c); }
    proof fn f_zero(c: char) { char_range(c); }
    proof fn f_two(c: char, d: char, s: Seq<u16>) {
        char_range(c); char_range(d);
        let (a, b) = (enc1_16(c), enc1_16(d));
        assert(a[0] == s.take(a.len() as int)[0] && b[0] == s.take(b.len() as int)[0]);
        assert(a.len() == b.len());
        if a.len() > 1 { assert(a[1] == s[1] && b[1] == s[1]); }
        assert(c as u32 == d as u32);
    }
}
impl Text for u16 {
    proof fn f_round(u: Seq<u16>) { round16(u); }
    proof fn f_ok(s: Seq<char>) { ok16(s); }
}
pub proof fn round16(u: Seq<u16>) requires all_ok(items16(u)) ensures enc::<u16>(oks(items16(u))) == u decreases u.len() {
    let it = items16(u);
    if u.len() == 0 { assert(oks(it) =~= Seq::<char>::empty()); assert(enc::<u16>(oks(it)) =~= u); }
    else {
        let n: int = if !high(u[0]) && !low(u[0]) { 1 } else { 2 };
        assert(it[0] is Ok);
        let rest = items16(u.skip(n));
        assert(it =~= seq![it[0]] + rest);
        assert(all_ok(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]) is Ok by { assert(it[i + 1] == rest[i]); } }
        round16(u.skip(n));
        assert(oks(it) =~= seq![lossy1(it[0])] + oks(rest));
        enc_join::<u16>(seq![lossy1(it[0])], oks(rest));
        enc_one::<u16>(lossy1(it[0]));
        chr_is(u[0] as int);
        if n == 2 { chr_is(0x10000 + (u[0] - 0xd800) * 1024 + (u[1] - 0xdc00)); }
        assert(enc1_16(lossy1(it[0])) =~= u.take(n));
        assert(u =~= u.take(n) + u.skip(n));
    }
}
pub proof fn ok16(s: Seq<char>) ensures all_ok(items16(enc::<u16>(s))), oks(items16(enc::<u16>(s))) == s, items16(enc::<u16>(s)).len() == s.len() decreases s.len() {
    let u = enc::<u16>(s);
    if s.len() == 0 { assert(oks(items16(u)) =~= s); }
    else {
        enc_first::<u16>(s);
        char_range(s[0]);
        let n = enc1_16(s[0]).len() as int;
        let r = s.skip(1);
        ok16(r);
        assert(u.skip(n) =~= enc::<u16>(r));
        assert(u[0] == enc1_16(s[0])[0]);
        if n == 2 { assert(u[1] == enc1_16(s[0])[1]); }
        let x = s[0] as u32 as int;
        chr_is(x);
        let it = items16(u);
        if n == 2 { assert(0x10000 + (u[0] - 0xd800) * 1024 + (u[1] - 0xdc00) == x); }
        assert(it =~= seq![Ok::<char, DecErr>(s[0])] + items16(enc::<u16>(r)));
        assert(oks(it) =~= seq![s[0]] + oks(items16(enc::<u16>(r))));
        assert(s =~= seq![s[0]] + r);
    }
}
