"""The trusted Verus prelude: what the extracted text is linked against. Integer conversions and operations (exact
machine semantics), panics, Option/Result unwrapping. Everything here is an assumed contract on std."""
INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]
BITS = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32, i64=64, u64=64, i128=128, u128=128, isize=64, usize=64)


def rng(t):
    b = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t[0] == "i" else (0, (1 << b) - 1)


HEAD = """use vstd::prelude::*;
#[allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unused_assignments, non_camel_case_types, unreachable_code)]
mod all {
use vstd::prelude::*;
verus!{
global size_of usize == 8;
"""
TAIL = """
}
}
fn main(){}
"""

# & | ^ without short circuit: proved, put in where the extracted text uses them
BITOPS = """
pub trait VBit: Sized + Copy {
    spec fn s_and(self, o: Self) -> Self; spec fn s_or(self, o: Self) -> Self; spec fn s_xor(self, o: Self) -> Self;
    fn v_and(self, o: Self) -> (r: Self) ensures r == self.s_and(o); fn v_or(self, o: Self) -> (r: Self) ensures r == self.s_or(o); fn v_xor(self, o: Self) -> (r: Self) ensures r == self.s_xor(o);
}
impl VBit for bool {
    open spec fn s_and(self, o: bool) -> bool { self && o } open spec fn s_or(self, o: bool) -> bool { self || o } open spec fn s_xor(self, o: bool) -> bool { self != o }
    fn v_and(self, o: bool) -> (r: bool) { self && o } fn v_or(self, o: bool) -> (r: bool) { self || o } fn v_xor(self, o: bool) -> (r: bool) { self != o }
}
""" + "".join(f"""impl VBit for {t} {{
    open spec fn s_and(self, o: {t}) -> {t} {{ self & o }} open spec fn s_or(self, o: {t}) -> {t} {{ self | o }} open spec fn s_xor(self, o: {t}) -> {t} {{ self ^ o }}
    fn v_and(self, o: {t}) -> (r: {t}) {{ self & o }} fn v_or(self, o: {t}) -> (r: {t}) {{ self | o }} fn v_xor(self, o: {t}) -> (r: {t}) {{ self ^ o }}
}}
""" for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"))

CORE = """
pub trait VAt<T> { spec fn at_items(&self) -> Seq<T>; fn v_at(&self, i: usize, vk: Ghost<bool>) -> (r: T) requires vk@ ==> i < self.at_items().len() ensures i < self.at_items().len(), r == self.at_items()[i as int]; }
impl<T: Copy, const N: usize> VAt<T> for [T; N] { open spec fn at_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_at(&self, i: usize, vk: Ghost<bool>) -> (r: T) { unimplemented!() } }
// ---------------------------------------------------------------- panics: allowed only where the call may be rejected
#[verifier::external_body]
pub fn vpanic(vk: Ghost<bool>) -> ! requires !vk@ { panic!() }
pub trait VUnwrap<T>: Sized {
    spec fn vok(self) -> bool;
    spec fn vval(self) -> T;
    fn p_unwrap(self, vk: Ghost<bool>) -> (r: T) requires vk@ ==> self.vok() ensures self.vok(), r == self.vval();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn vok(self) -> bool { self is Some }
    open spec fn vval(self) -> T { self->0 }
    #[verifier::external_body] fn p_unwrap(self, vk: Ghost<bool>) -> (r: T) { unimplemented!() }
}
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn vok(self) -> bool { self is Ok }
    open spec fn vval(self) -> T { self->Ok_0 }
    #[verifier::external_body] fn p_unwrap(self, vk: Ghost<bool>) -> (r: T) { unimplemented!() }
}
pub struct TryErr {}
pub trait VCast<T>: Sized { spec fn cast_val(self) -> T; fn v_cast(self) -> (r: T) ensures r == VCast::<T>::cast_val(self); }
pub trait VInto<T>: Sized { spec fn into_val(self) -> T; fn v_into(self) -> (r: T) ensures r == VInto::<T>::into_val(self); }
pub trait VTryInto<T>: Sized {
    spec fn try_ok(self) -> bool;
    spec fn try_val(self) -> T;
    fn v_try_into(self) -> (r: Result<T, TryErr>) ensures r is Ok <==> VTryInto::<T>::try_ok(self), r is Ok ==> r->Ok_0 == VTryInto::<T>::try_val(self);
}
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn fits64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
"""


def wrap(t, e):
    lo, hi = rng(t)
    return f"wrap_{t}(({e}) as int)"


def ints(types=INTS):
    o = []
    for t in INTS:
        lo, hi = rng(t)
        o.append(f"pub open spec fn wrap_{t}(x: int) -> int {{ if {lo} <= x <= {hi} {{ x }} else {{ (x - ({lo})) % {hi - lo + 1 if hi - lo + 1 < 1 << 128 else f"({hi - lo} + 1int)"} + ({lo}) }} }}")
    for s in types:
        for t in types:
            ls, hs = rng(s)
            lt, ht = rng(t)
            # conversions: `x as T` becomes VCast::<T>::v_cast(x), Self is the source type
            o.append(f"impl VCast<{t}> for {s} {{ open spec fn cast_val(self) -> {t} {{ {wrap(t, 'self as int')} as {t} }} #[verifier::external_body] fn v_cast(self) -> (r: {t}) {{ self as {t} }} }}")
            if lt <= ls and hs <= ht and not (t in ("isize", "usize") and s in ("u32", "i32", "u64", "i64")):
                o.append(f"impl VInto<{t}> for {s} {{ open spec fn into_val(self) -> {t} {{ self as {t} }} #[verifier::external_body] fn v_into(self) -> (r: {t}) {{ unimplemented!() }} }}")
            o.append(f"impl VTryInto<{t}> for {s} {{ open spec fn try_ok(self) -> bool {{ {lt}int <= self as int <= {ht}int }} open spec fn try_val(self) -> {t} {{ self as {t} }} #[verifier::external_body] fn v_try_into(self) -> (r: Result<{t}, TryErr>) {{ unimplemented!() }} }}")
        o.append(f"impl VCast<{s}> for char {{ open spec fn cast_val(self) -> {s} {{ {wrap(s, 'self as int')} as {s} }} #[verifier::external_body] fn v_cast(self) -> (r: {s}) {{ unimplemented!() }} }}")
        o.append(f"impl VCast<{s}> for bool {{ open spec fn cast_val(self) -> {s} {{ if self {{ 1 }} else {{ 0 }} }} #[verifier::external_body] fn v_cast(self) -> (r: {s}) {{ unimplemented!() }} }}")
    # the value T's own conversion keeps
    meth = []
    for t in types:
        lo, hi = rng(t)
        u = "u" + t[1:]
        fit = lambda e: f"({lo} <= {e} <= {hi})"
        m = []

        def f(name, params, ret, ens, ghost=False, req=""):
            m.append((name, params, ret, ens, req))
        for op, e in (("add", "self + o"), ("sub", "self - o"), ("mul", "self * o")):
            f(f"v_checked_{op}", f"o: {t}", f"Option<{t}>", f"r is Some <==> {fit(e)}, r is Some ==> r->0 as int == {e}")
            f(f"v_wrapping_{op}", f"o: {t}", t, f"r as int == {wrap(t, e)}")
            f(f"v_saturating_{op}", f"o: {t}", t, f"r as int == (if {e} < {lo} {{ {lo}int }} else if {e} > {hi} {{ {hi}int }} else {{ ({e}) as int }})")
        f("v_checked_div", f"o: {t}", f"Option<{t}>", f"r is Some <==> (o != 0 && {fit('tdiv(self as int, o as int)')}), r is Some ==> r->0 as int == tdiv(self as int, o as int)")
        f("v_checked_rem", f"o: {t}", f"Option<{t}>", f"r is Some <==> (o != 0 && {fit('tdiv(self as int, o as int)')}), r is Some ==> r->0 as int == trem(self as int, o as int)")
        f("v_wrapping_div", f"o: {t}, vk: Ghost<bool>", t, f"o != 0, r as int == {wrap(t, 'tdiv(self as int, o as int)')}", req="vk@ ==> o != 0")
        f("v_checked_neg", "", f"Option<{t}>", f"r is Some <==> {fit('-self')}, r is Some ==> r->0 as int == -self")
        f("v_wrapping_neg", "", t, f"r as int == {wrap(t, '-self')}")
        # the least value divided by -1 overflows: it panics in every build
        over = f"!(self == {lo} && o == -1)" if t[0] == "i" else "true"
        f("v_rem_euclid", f"o: {t}, vk: Ghost<bool>", t, f"o != 0, {over}, r as int == self as int % (if o < 0 {{ -o as int }} else {{ o as int }})", req=f"vk@ ==> o != 0 && {over}")
        f("v_div_euclid", f"o: {t}, vk: Ghost<bool>", t, f"o != 0, {over}, r as int == self as int / o as int", req=f"vk@ ==> o != 0 && {over}")
        f("v_min", f"o: {t}", t, "r == (if self <= o { self } else { o })")
        f("v_max", f"o: {t}", t, "r == (if self >= o { self } else { o })")
        if t[0] == "i":
            f("v_unsigned_abs", "", u, "r as int == (if self < 0 { -self as int } else { self as int })")
            f("v_is_negative", "", "bool", "r == (self < 0)")
            f("v_is_positive", "", "bool", "r == (self > 0)")
            f("v_abs", "", t, "r as int == (if self < 0 { -self as int } else { self as int })", req=f"self > {lo}")
            f("v_checked_abs", "", f"Option<{t}>", f"r is Some <==> self > {lo}, r is Some ==> r->0 as int == (if self < 0 {{ -self as int }} else {{ self as int }})")
            f("v_signum", "", t, "r as int == (if self < 0 { -1int } else if self > 0 { 1int } else { 0int })")
        meth.append((t, m))
    for t, m in meth:
        o.append(f"pub trait VNum_{t}: Sized {{ " + " ".join(
            f"fn {n}(self{', ' + p if p else ''}) -> (r: {r});" if not q else f"fn {n}(self{', ' + p if p else ''}) -> (r: {r}) requires __REQ_{t}_{n}__;" for n, p, r, e, q in m) + " }")
    text = "\n".join(o)
    # trait methods with a precondition state it on the trait
    out = [l for l in o if not l.startswith("pub trait VNum_")]
    for t, m in meth:
        out.append(f"pub trait VNum_{t}: Sized {{")
        spec = []
        for n, p, r, e, q in m:
            if q:
                names = "".join(f", {x.split(':')[0].strip()}" for x in p.split(",") if x.strip())
                tys = "".join(f", {x.strip()}" for x in p.split(",") if x.strip())
                out.append(f"  spec fn q_{n}(self{tys}) -> bool;")
                spec.append(f"  open spec fn q_{n}(self{tys}) -> bool {{ {' && '.join('(' + c + ')' for c in q.split(', '))} }}")
                out.append(f"  fn {n}(self{', ' + p if p else ''}) -> (r: {r}) requires self.q_{n}({names[2:]});")
            else:
                out.append(f"  fn {n}(self{', ' + p if p else ''}) -> (r: {r});")
        out.append("}")
        out.append(f"impl VNum_{t} for {t} {{")
        out += spec
        for n, p, r, e, q in m:
            out.append(f"  #[verifier::external_body] fn {n}(self{', ' + p if p else ''}) -> (r: {r}) ensures {e} {{ unimplemented!() }}")
        out.append("}")
    return "\n".join(out)


RENAME = {n: "v_" + n for n in (
    [f"{k}_{o}" for k in ("checked", "wrapping", "saturating") for o in ("add", "sub", "mul")]
    + "checked_div checked_rem wrapping_div checked_neg wrapping_neg rem_euclid div_euclid min max unsigned_abs is_negative is_positive abs checked_abs signum is_sign_negative is_sign_positive into try_into".split())}
RENAME.update(unwrap="p_unwrap", expect="p_unwrap")
GHOST = ["unwrap", "expect", "wrapping_div", "rem_euclid", "div_euclid"]
