"""The assumed contracts on chrono, discharged: chrono's own text (the version the build uses) is extracted on every run and
Verus proves the contracts that verus/shims/chrono.rs states, clause for clause, on the layer above the calendar date.
The calendar date itself (NaiveDate) is a finite domain: what its functions of one date or one number return is enumerated
(calendar/src/main.rs); those of two (adding days, the distance of two dates) are proved from their text on top of that.

What the extraction changes: attributes, comments, `const` and visibility go; try_opt!, Self and the type parameter Tz = Utc are
expanded; trait methods become inherent methods; debug_assert! goes; NonZeroI32 is read as i32; expect(option, "text") loses nothing but its text."""
import concurrent.futures as cf
import json
import os
import re
import time
from .common import *

UNIX = 719_163


def source():
    lock = open(f"{WORK}/dep/Cargo.lock").read()
    v = re.search(r'name = "chrono"\nversion = "([^"]+)"', lock).group(1)
    import glob
    d = glob.glob(os.path.expanduser(f"~/.cargo/registry/src/*/chrono-{v}"))
    return v, d[0]


def shim_contracts():
    """(type, function) -> (requires, ensures) as verus/shims/chrono.rs states them"""
    text = re.sub(r"//[^\n]*", "", open(f"{VERIF}/verus/shims/chrono.rs").read())
    macros = {}
    for m in re.finditer(r"macro_rules! (\w+) \{ \(([^)]*)\) => \{ verus!\{(.*?)\n\} \} \}", text, re.S):
        macros[m[1]] = ([p.split(":")[0].strip() for p in m[2].split(",")], m[3])
    flat = re.sub(r"macro_rules! (\w+) \{ \(([^)]*)\) => \{ verus!\{(.*?)\n\} \} \}", "", text, flags=re.S)
    for m in re.finditer(r"^(\w+)!\{([^}]*)\}", flat, re.M):
        if m[1] in macros:
            ps, body = macros[m[1]]
            for p, a in zip(ps, m[2].split(",")):
                body = body.replace(p, a.strip())
            flat += "\n" + body
    out = {}
    for m in re.finditer(r"^impl (\w+) \{\n(.*?)\n\}", flat, re.M | re.S):
        for f in re.finditer(r"pub fn (\w+)\((.*?)\) -> \(r: ([^{]*?)\)\s*(?:requires (.*?))?\s*(?:ensures (.*?))? \{ unimplemented!\(\) \}", m[2], re.S):
            out[m[1], f[1]] = (f[4], f[5], "vk: Ghost<bool>" in f[2], [p.split(":")[0].strip() for p in f[2].split(",") if p.strip() and "self" not in p and "vk:" not in p])
    return out


def block(src, header):
    m = re.findall(r"^" + header + r" \{\n(.*?)^\}", src, re.M | re.S)
    return "\n".join(m)


def function(src, header, name):
    b = block(src, header) if header else src
    ind = "    " if header else ""
    m = re.findall(rf"^{ind}(?:pub(?:\([a-z]+\))? )?(?:const )?fn ({name}(?:<[^>]*>)?\(.*?)\n{ind}\}}", b, re.M | re.S)
    if len(m) != 1:
        raise LookupError(f"chrono: {header} {name}: {len(m)}")
    return m[0]


D, T, DT, N = "src/time_delta.rs", "src/naive/time/mod.rs", "src/datetime/mod.rs", "src/naive/datetime/mod.rs"
ND = "src/naive/date/mod.rs"
TZ = r"impl<Tz: TimeZone> DateTime<Tz>"
# (file, impl header, function, type in the shim or None, contract of its own, proof at the start)
# own contracts are of chrono's inner functions; a contract from the shim is read out of the shim
ITEMS = [
    (D, None, "div_mod_floor_64", None, "requires other > 0 ensures r.0 == this as int / other as int, r.1 == this as int % other as int", ""),
    (D, "impl TimeDelta", "new", None, "ensures r is Some <==> nanos < 1_000_000_000 && MINN() <= secs * 1_000_000_000 + nanos <= MAXN(), r is Some ==> r->0.n() == secs * 1_000_000_000 + nanos", ""),
    (D, "impl TimeDelta", "try_seconds", None, "ensures r is Some <==> MINN() <= seconds * 1_000_000_000 <= MAXN(), r is Some ==> r->0.n() == seconds * 1_000_000_000", ""),
    (D, "impl TimeDelta", "try_days", None, "ensures r is Some <==> MINN() <= days * NSD() <= MAXN(), r is Some ==> r->0.n() == days * NSD()", ""),
    (D, "impl TimeDelta", "nanoseconds", "Delta", "", "vk_fdiv(nanos as int, 1_000_000_000);"),
    (D, "impl TimeDelta", "microseconds", "Delta", "", "vk_fdiv(microseconds as int, 1_000_000);"),
    (D, "impl TimeDelta", "zero", "Delta", "", ""),
    (D, "impl TimeDelta", "subsec_nanos", None, "ensures r == trem(self.n(), 1_000_000_000), -1_000_000_000 < r < 1_000_000_000", "vk_tdiv(self.secs as int, self.nanos as int);"),
    (D, "impl TimeDelta", "num_seconds", "Delta", "r == tdiv(self.n(), 1_000_000_000)", "vk_tdiv(self.secs as int, self.nanos as int);"),
    (D, "impl TimeDelta", "num_days", "Delta", "r == tdiv(self.n(), NSD())", "vk_tdd(self.n(), 1_000_000_000, 86_400);"),
    (D, "impl TimeDelta", "num_milliseconds", "Delta", "", "vk_sub(self.n(), 1_000_000, 1000);"),
    (D, "impl TimeDelta", "num_microseconds", "Delta", "", "vk_sub(self.n(), 1000, 1_000_000);"),
    (D, "impl TimeDelta", "num_nanoseconds", "Delta", "", "vk_sub(self.n(), 1, 1_000_000_000);"),
    (D, "impl TimeDelta", "checked_add", "Delta", "r is Some <==> MINN() <= self.n() + rhs.n() <= MAXN()", ""),
    (D, "impl TimeDelta", "checked_sub", "Delta", "r is Some <==> MINN() <= self.n() - rhs.n() <= MAXN()", ""),
    (D, "impl TimeDelta", "neg", None, "ensures r.n() == -self.n()", ""),
    (T, "impl NaiveTime", "from_hms_nano_opt", "NaiveTime", "", ""),
    (T, "impl NaiveTime", "from_hms_opt", "NaiveTime", "", ""),
    (T, "impl NaiveTime", "from_hms_milli_opt", "NaiveTime", "", ""),
    (T, "impl NaiveTime", "from_hms_micro_opt", None, "ensures r is Some <==> hmsn_ok(hour as int, min as int, sec as int, micro * 1000), r is Some ==> r->0.n() == tod_ns(hour as int, min as int, sec as int, micro * 1000) && r->0.leap() == (micro >= 1_000_000)", ""),
    (T, "impl NaiveTime", "from_num_seconds_from_midnight_opt", "NaiveTime", "", ""),
    (T, "impl NaiveTime", "overflowing_add_signed", None, "requires !self.leap() ensures r.0.n() == (self.n() + rhs.n()) % NSD(), r.1 == (self.n() + rhs.n()) / NSD() * 86_400, !r.0.leap(), r.1 * 1_000_000_000 <= rhs.n() + NSD(), r.1 * 1_000_000_000 >= rhs.n() - NSD()", "vk_tdiv(rhs.secs as int, rhs.nanos as int); vk_split(self.n() + rhs.n());"),
    (T, "impl NaiveTime", "overflowing_sub_signed", None, "requires !self.leap() ensures r.0.n() == (self.n() - rhs.n()) % NSD(), -r.1 == (self.n() - rhs.n()) / NSD() * 86_400, !r.0.leap(), r.1 * 1_000_000_000 <= rhs.n() + NSD(), r.1 * 1_000_000_000 >= rhs.n() - NSD()", ""),
    (T, "impl NaiveTime", "signed_duration_since", None, "requires !self.leap(), !rhs.leap() ensures r.n() == self.n() - rhs.n()", ""),
    (T, "impl NaiveTime", "hms", None, "ensures r.0 == self.secs / 3600, r.1 == self.secs / 60 % 60, r.2 == self.secs % 60", ""),
    (T, "impl Timelike for NaiveTime", "hour", "NaiveTime", "", "vk_tod(self.secs as int, self.frac as int);"),
    (T, "impl Timelike for NaiveTime", "minute", "NaiveTime", "", "vk_tod(self.secs as int, self.frac as int);"),
    (T, "impl Timelike for NaiveTime", "second", "NaiveTime", "", "vk_tod(self.secs as int, self.frac as int);"),
    (T, "impl Timelike for NaiveTime", "nanosecond", "NaiveTime", "LEAP r == self.frac", "vk_tod(self.secs as int, self.frac as int);"),
    (T, "impl Timelike for NaiveTime", "num_seconds_from_midnight", "NaiveTime", "LEAP r == self.secs", "vk_tod(self.secs as int, self.frac as int);"),
    (N, "impl NaiveDateTime", "new", "NaiveDateTime", "", ""),
    (N, "impl NaiveDateTime", "date", "NaiveDateTime", "LEAP r == self.date", "vk_day(self.date.dno(), self.time.n());"),
    (N, "impl NaiveDateTime", "time", "NaiveDateTime", "LEAP r == self.time", "vk_day(self.date.dno(), self.time.n());"),
    (N, "impl NaiveDateTime", "and_utc", "NaiveDateTime", "", ""),
    (N, "impl NaiveDateTime", "timestamp_nanos_opt", "NaiveDateTime", "", ""),
    (N, "impl NaiveDateTime", "timestamp_nanos", "NaiveDateTime", "", ""),
    (N, "impl NaiveDateTime", "checked_add_signed", None, "requires !self.leap() ensures r is Some <==> DMIN() <= day_of(self.n() + rhs.n()) <= DMAX(), r is Some ==> r->0.n() == self.n() + rhs.n() && !r->0.leap()", "vk_carry(self.date.dno(), self.time.n() + rhs.n());"),
    (N, "impl NaiveDateTime", "checked_sub_signed", None, "requires !self.leap() ensures r is Some <==> DMIN() <= day_of(self.n() - rhs.n()) <= DMAX(), r is Some ==> r->0.n() == self.n() - rhs.n() && !r->0.leap()", "vk_carry(self.date.dno(), self.time.n() - rhs.n());"),
    (N, "impl NaiveDateTime", "signed_duration_since", None, "requires !self.leap(), !rhs.leap() ensures r.n() == self.n() - rhs.n()", ""),
    (T, "impl NaiveTime", "overflowing_add_offset", None, "requires offset.local_minus_utc == 0 ensures r.0 == *self, r.1 == 0", ""),
    (N, "impl NaiveDateTime", "overflowing_add_offset", None, "requires rhs.local_minus_utc == 0 ensures r == self", ""),
    (N, "impl NaiveDateTime", "checked_add_offset", None, "requires rhs.local_minus_utc == 0 ensures r == Some(self)", ""),
] + [(N, "impl Timelike for NaiveDateTime", f, "NaiveDateTime", "", "vk_tod_n(self.date.dno(), self.time.n(), self.time.secs as int, self.time.frac as int);") for f in ("hour", "minute", "second", "nanosecond")
] + [(N, "impl Datelike for NaiveDateTime", f, "NaiveDateTime", "", "vk_day(self.date.dno(), self.time.n());") for f in ("year", "month", "month0", "day", "day0", "weekday")
] + [
    (ND, "impl NaiveDate", "yof", None, "ensures r == self.yof", ""),
    (ND, "impl NaiveDate", "from_yof", None, "ensures r.yof == yof", "!"),
    (ND, "impl NaiveDate", "from_ordinal_and_flags", None, "ensures r == fof(year as int, ordinal as int, flags.0)", "!"),
    (ND, None, "div_mod_floor", None, "requires div > 0 ensures r.0 == val as int / div as int, r.1 == val as int % div as int", ""),
    (ND, "impl NaiveDate", "ordinal", None, "ensures r == self.dno() - jan1(self.dno()) + 1, 1 <= r <= 366", "of_date(self.yof); vk_year_of(self.dno());"),
    (ND, "impl NaiveDate", "signed_duration_since", None, "ensures r.n() == (self.dno() - rhs.dno()) * NSD()", "of_date(self.yof); of_date(rhs.yof); vk_cycle(self.yof); vk_cycle(rhs.yof); cal_total(self.dno()); cal_total(rhs.dno());"),
    (ND, "impl NaiveDate", "add_days", None, "ensures r is Some <==> DMIN() <= self.dno() + days <= DMAX(), r is Some ==> r->0.dno() == self.dno() + days",
     "of_date(self.yof); vk_cycle(self.yof); vk_wrap(cal_y(self.dno()) / 400, g_cycle(cal_y(self.dno()) % 400, self.dno() - jan1(self.dno()) + 1) + days); vk_add(self.yof, days as int); vk_year_of(self.dno()); if jan1(self.dno()) <= self.dno() + days < jan1(self.dno()) + ylen(self.dno()) { vk_ends(self.dno(), self.dno() + days); } if i32::MIN <= self.dno() + days + 719_163 && self.dno() + days + 719_528 <= i32::MAX { of_days(self.dno() + days + 719_163); }"),
    (ND, "impl NaiveDate", "and_time", "NaiveDate", "", ""),
    (ND, "impl NaiveDate", "and_hms_opt", "NaiveDate", "", ""),
    (ND, "impl NaiveDate", "and_hms_milli_opt", "NaiveDate", "", ""),
    (ND, "impl NaiveDate", "and_hms_micro_opt", "NaiveDate", "", ""),
    (ND, "impl NaiveDate", "and_hms_nano_opt", "NaiveDate", "", ""),
    (ND, "impl NaiveDate", "checked_add_signed", None, "ensures r is Some <==> DMIN() <= self.dno() + tdiv(rhs.n(), NSD()) <= DMAX(), r is Some ==> r->0.dno() == self.dno() + tdiv(rhs.n(), NSD())", ""),
    (ND, "impl NaiveDate", "checked_sub_signed", None, "ensures r is Some <==> DMIN() <= self.dno() - tdiv(rhs.n(), NSD()) <= DMAX(), r is Some ==> r->0.dno() == self.dno() - tdiv(rhs.n(), NSD())", ""),
    ("src/offset/fixed.rs", "impl FixedOffset", "east_opt", None, "ensures -86_400 < secs < 86_400 ==> r == Some(FixedOffset { local_minus_utc: secs })", ""),
    ("src/offset/fixed.rs", "impl FixedOffset", "local_minus_utc", None, "ensures r == self.local_minus_utc", ""),
    ("src/offset/utc.rs", "impl Offset for Utc", "fix", None, "ensures r.local_minus_utc == 0", ""),
    ("src/offset/utc.rs", "impl TimeZone for Utc", "from_offset", None, "", ""),
    ("src/offset/utc.rs", "impl TimeZone for Utc", "offset_from_utc_datetime", None, "", ""),
    ("src/offset/mod.rs", "pub trait TimeZone: Sized \\+ Clone", "from_utc_datetime", None, "ensures r.datetime == utc", "Utc"),
    ("src/offset/mod.rs", "pub trait TimeZone: Sized \\+ Clone", "timestamp_nanos", "Utc", "", "Utc"),
    (DT, TZ, "from_naive_utc_and_offset", None, "ensures r.datetime == datetime", ""),
    (DT, TZ, "timezone", None, "", ""),
    (T, "impl Add<FixedOffset> for NaiveTime", "add", None, "requires rhs.local_minus_utc == 0 ensures r == self", "=add_offset"),
    (DT, TZ, "time", "DateTime", "", ""),
    (DT, r"impl<Tz: TimeZone> Sub<DateTime<Tz>> for DateTime<Tz>", "sub", None, "requires !self.leap(), !rhs.leap() ensures r.n() == self.n() - rhs.n()", ""),
    (DT, TZ, "timestamp", "DateTime", "LEAP r == self.datetime.date.dno() * 86_400 + self.datetime.time.secs", "vk_secs(self.datetime.date.dno(), self.datetime.time.secs as int, self.datetime.time.frac as int);"),
    (DT, TZ, "timestamp_subsec_nanos", "DateTime", "LEAP r == self.datetime.time.frac", "vk_tod_n(self.datetime.date.dno(), self.datetime.time.n(), self.datetime.time.secs as int, self.datetime.time.frac as int);"),
    (DT, TZ, "timestamp_subsec_micros", "DateTime", "", ""),
    (DT, TZ, "timestamp_subsec_millis", "DateTime", "", ""),
    (DT, TZ, "timestamp_millis", "DateTime", "", "vk_part(self.n(), 1_000_000, 1000);"),
    (DT, TZ, "timestamp_micros", "DateTime", "", "vk_part(self.n(), 1000, 1_000_000);"),
    (DT, TZ, "timestamp_nanos_opt", "DateTime", "", "vk_stamp(self.datetime.date.dno(), self.datetime.time.secs as int, self.datetime.time.frac as int);"),
    (DT, TZ, "timestamp_nanos", "DateTime", "", ""),
    (DT, TZ, "naive_utc", "DateTime", "", ""),
    (DT, TZ, "naive_local", "DateTime", "", ""),
    (DT, TZ, "overflowing_naive_local", None, "ensures r == self.datetime", ""),
    (DT, TZ, "date_naive", "DateTime", "", ""),
    (DT, TZ, "checked_add_signed", "DateTime", "", "vk_near(self.n() + rhs.n());"),
    (DT, TZ, "checked_sub_signed", "DateTime", "", "vk_near(self.n() - rhs.n());"),
    (DT, TZ, "signed_duration_since", "DateTime", "", ""),
    (DT, r"impl DateTime<Utc>", "from_timestamp", None, "ensures (near(secs * 1_000_000_000) && nsecs < 1_000_000_000) ==> r is Some, r is Some && nsecs < 1_000_000_000 ==> r->0.n() == secs * 1_000_000_000 + nsecs && !r->0.leap()", "vk_near(secs * 1_000_000_000); vk_fdiv(secs as int, 86_400);"),
    (DT, r"impl DateTime<Utc>", "from_timestamp_nanos", None, "ensures r.n() == nanos, !r.leap()", "vk_fdiv(nanos as int, 1_000_000_000);"),
] + [(DT, r"impl<Tz: TimeZone> Timelike for DateTime<Tz>", f, "DateTime", "", "") for f in ("hour", "minute", "second", "nanosecond")
] + [(DT, r"impl<Tz: TimeZone> Datelike for DateTime<Tz>", f, "DateTime", "", "") for f in ("year", "month", "month0", "day", "day0", "weekday")
] + [("src/traits.rs", "pub trait Timelike: Sized", "num_seconds_from_midnight", t, "", f"{t}; tod_parts(self.n());") for t in ("NaiveDateTime", "DateTime")]

TYPES = dict(Delta="TimeDelta")
WF = ["TimeDelta", "NaiveTime", "NaiveDate", "NaiveDateTime", "DateTime"]


def split(s):
    o, d, cur = [], 0, ""
    for c in s:
        d += (c in "([{") - (c in ")]}")
        if c == "," and d == 0:
            o.append(cur.strip())
            cur = ""
        else:
            cur += c
    return [x for x in o + [cur.strip()] if x]


def emit(item, shim, vac=False):
    file, header, name, sty, own, proof = item
    _, d = source()
    src = re.sub(r"^ *//.*\n", "", open(f"{d}/{file}").read(), flags=re.M)
    text = function(src, header, name)
    ty = None
    if header:
        ty = re.search(r"(\w+)(?:<\w+>)?$", header)[1]
        if header.startswith("pub trait"):
            ty, _, proof = proof.partition(";")
    out = name
    raw = proof == "!"  # makes no promise of being a date
    if raw:
        proof = ""
    if proof.startswith("="):
        out, proof = proof[1:], ""
    head, _, body = text.partition("{\n")
    head = re.sub(r"<Tz2: TimeZone>", "", head).replace("impl Borrow<DateTime<Tz2>>", "DateTime").replace("(\n", "(")
    depth, i = 0, head.index("(")
    for j in range(i, len(head)):
        depth += (head[j] == "(") - (head[j] == ")")
        if depth == 0:
            break
    params, ret = head[i + 1:j], head[j + 1:].replace("->", "").strip()
    mono = lambda t: re.sub(r"\bSelf\b", ty or "Self", re.sub(r"DateTime<(Tz|Utc|Self)>", "DateTime", t)).replace("Tz::Offset", "Utc").replace("TimeZone::from_offset", "Utc::from_offset")
    params, ret = mono(params), mono(ret)
    body = mono(re.sub(r" *//.*", "", body)).replace(".borrow()", "").replace("self.datetime.time() + self.offset.fix()", "self.datetime.time().add_offset(self.offset.fix())").replace("-> Tz ", "-> Utc ")
    ret = "Utc" if ret == "Tz" else ret
    names = [p.split(":")[0].strip() for p in split(params)]
    req, ens, vk = [], [], "Ghost(true)"
    for p in split(params):
        n, _, t = p.partition(":")
        n, t = n.strip(), t.strip().lstrip("&")
        if n.lstrip("&") == "self" and ty in WF:
            req.append("self.wf()")
        elif t in WF:
            req.append(f"{n}.wf()")
    if ret in WF and not raw:
        ens.append("r.wf()")
    for w in WF if not raw else ():
        if ret == f"Option<{w}>":
            ens.append("r is Some ==> r->0.wf()")
        if ret.startswith(f"({w},"):
            ens.append("r.0.wf()")
    if sty:
        sname = name if (sty, name) in shim else "v_" + name
        r, e, ghost, ps = shim[sty, sname]
        mine = [n for n in names if n.lstrip("&") != "self"]
        ren = lambda s: re.sub(r"(?<![.\w])(" + "|".join(ps) + r")\b(?!\()", lambda k: mine[ps.index(k[1])], s) if ps else s
        if own.startswith("LEAP"):
            own = own[5:]
            assert r == "!self.leap()"
            ens += [f"!self.leap() ==> ({c})" for c in split(ren(e))]
        else:
            req += split(ren(r or ""))
            ens += split(ren(e or ""))
        ens += [own] if own else []
        if ghost:
            vk = "vk"
            params += ", vk: Ghost<bool>"
    elif own:
        q, _, e = own.partition("ensures")
        req += split(q.replace("requires", ""))
        ens += split(e)
    body = re.sub(r'("[^"\n]*"),?\s*\)', lambda k: f"{k[1]}, {vk})", body)
    body = re.sub(r"debug_assert!\(.*?\);\n", "\n", body)
    body = body.replace("unsafe { NonZeroI32::new_unchecked(yof) }", "yof").replace("self.yof.get()", "self.yof")
    body = body.replace(".expect(", ".p_expect(").replace(".unwrap()", ".p_unwrap()")
    if vk == "vk" and "timestamp_nanos(" in body:
        body = body.replace("timestamp_nanos()", "timestamp_nanos(vk)")
    if vac:
        proof += " assert(false);"
    call = f"proof {{ {proof} }}\n" if proof else ""
    fn = f"pub fn {out}({params}) -> (r: {ret})\n" + (f"  requires {', '.join(req)},\n" if req else "") + (f"  ensures {', '.join(ens)},\n" if ens else "") + f"{{ {call}{body}\n}}"
    return f"impl {ty} {{\n{fn}\n}}" if ty else fn


HEAD = """use vstd::prelude::*;
#[allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments)]
mod all {
use vstd::prelude::*;
macro_rules! try_opt { ($e:expr) => { match $e { Some(v) => v, None => return None } }; }
verus!{
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn fits64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
"""
# assumed: the standard library, and what is enumerated
ASSUMED = """
pub assume_specification [i64::div_euclid] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == a as int / b as int;
pub assume_specification [i64::rem_euclid] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures b > 0 ==> r == a as int % b as int;
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == a as int / b as int;
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures b > 0 ==> r == a as int % b as int;
#[verifier::external_body] pub fn expect<T>(o: Option<T>, msg: &str, vk: Ghost<bool>) -> (r: T) requires vk@ ==> o is Some ensures o is Some, r == o->0 { unimplemented!() }
pub trait VExpect<T>: Sized { spec fn some(self) -> bool; spec fn value(self) -> T; fn p_expect(self, msg: &str, vk: Ghost<bool>) -> (r: T) requires vk@ ==> self.some() ensures self.some(), r == self.value(); fn p_unwrap(self) -> (r: T) requires self.some() ensures r == self.value(); }
impl<T> VExpect<T> for Option<T> { open spec fn some(self) -> bool { self is Some } open spec fn value(self) -> T { self->0 }
  #[verifier::external_body] fn p_expect(self, msg: &str, vk: Ghost<bool>) -> (r: T) { unimplemented!() } #[verifier::external_body] fn p_unwrap(self) -> (r: T) { unimplemented!() } }
"""
MODEL = """
pub open spec fn MINN() -> int { -9_223_372_036_854_775_807_000_000 }
pub open spec fn MAXN() -> int { 9_223_372_036_854_775_807_000_000 }
pub open spec fn DMIN() -> int { -96_465_292 }
pub open spec fn DMAX() -> int { 95_026_236 }
impl Copy for TimeDelta {} impl Clone for TimeDelta { fn clone(&self) -> (r: Self) { *self } }
#[derive(Clone, Copy)] pub struct NaiveTime { pub secs: u32, pub frac: u32 }
#[derive(Clone, Copy)] pub struct NaiveDateTime { pub date: NaiveDate, pub time: NaiveTime }
#[derive(Clone, Copy)] pub struct Utc;
#[derive(Clone, Copy)] pub struct DateTime { pub datetime: NaiveDateTime, pub offset: Utc }
#[derive(Clone, Copy)] pub struct FixedOffset { pub local_minus_utc: i32 }
#[derive(Clone, Copy)] pub struct NaiveDate { pub yof: i32 }
#[derive(Clone, Copy)] pub struct YearFlags(pub u8);
// canon: the representations chrono makes of dates, dno_of: the day each stands for; what chrono's inner functions make of them
// is named here and pinned by what was enumerated
pub uninterp spec fn canon(yof: i32) -> bool;
pub uninterp spec fn dno_of(yof: i32) -> int;
pub uninterp spec fn g_cycle(y: int, o: int) -> int;
pub uninterp spec fn g_year(c: int) -> int;
pub uninterp spec fn g_ord(c: int) -> int;
pub uninterp spec fn g_flags(y: int) -> u8;
pub open spec fn jan1(d: int) -> int { ymd_day(cal_y(d), 1, 1) }
pub open spec fn ylen(d: int) -> int { if leap(cal_y(d)) { 366 } else { 365 } }
pub open spec fn at_ord(yof: i32, o: int) -> i32 { (yof & !0b1_1111_1111_0000i32) | ((o as i32) << 4) }
pub open spec fn fof(y: int, o: int, f: u8) -> Option<NaiveDate> {
    if y < -262_143 || y > 262_142 { None } else if o == 0 || o > 366 { None }
    else { let yof = ((y as i32) << 13) | (((o as u32) << 4) as i32) | (f as i32); if (yof & OL_MASK) <= MAX_OL { Some(NaiveDate { yof }) } else { None } }
}
// ENUMERATED: calendar/src/main.rs evaluates each of these for every date, and every i32
#[verifier::external_body] proof fn of_date(y: i32) requires canon(y) ensures DMIN() <= dno_of(y) <= DMAX(),
    ((y & 0b1_1111_1111_0000i32) >> 4) == dno_of(y) - jan1(dno_of(y)) + 1, // ordinal()
    canon(at_ord(y, 1)), dno_of(at_ord(y, 1)) == jan1(dno_of(y)), // with_ordinal(1)
    y == at_ord(at_ord(y, 1), dno_of(y) - jan1(dno_of(y)) + 1), // with_ordinal(o) of the first of the year
    (cal_y(dno_of(y)) / 400) * 146_097 + g_cycle(cal_y(dno_of(y)) % 400, dno_of(y) - jan1(dno_of(y)) + 1) == dno_of(y) + 719_528 // signed_duration_since the epoch
{ unimplemented!() }
#[verifier::external_body] proof fn of_year(y: i32, d: int) requires canon(y), dno_of(y) == jan1(d), cal_y(dno_of(y)) == cal_y(d), jan1(d) <= d < jan1(d) + ylen(d), DMIN() <= d <= DMAX()
    ensures canon(at_ord(y, d - jan1(d) + 1)), dno_of(at_ord(y, d - jan1(d) + 1)) == d // with_ordinal of the first of the year, every date of the year
{ unimplemented!() }
#[verifier::external_body] proof fn of_days(ce: int) requires i32::MIN <= ce, ce + 365 <= i32::MAX
    ensures ({ let c = (ce + 365) % 146_097; let r = fof((ce + 365) / 146_097 * 400 + g_year(c), g_ord(c), g_flags(g_year(c)));
        (r is Some <==> DMIN() <= ce - 719_163 <= DMAX()) && (r is Some ==> canon(r->0.yof) && dno_of(r->0.yof) == ce - 719_163) }) // from_num_days_from_ce_opt
{ unimplemented!() }
#[verifier::external_body] fn yo_to_cycle(year_mod_400: u32, ordinal: u32) -> (r: u32) requires year_mod_400 < 400, 1 <= ordinal <= 366 ensures r == g_cycle(year_mod_400 as int, ordinal as int) { unimplemented!() }
#[verifier::external_body] fn cycle_to_yo(cycle: u32) -> (r: (u32, u32)) requires cycle < 146_097 ensures r.0 == g_year(cycle as int), r.1 == g_ord(cycle as int), r.0 <= 400 { unimplemented!() }
impl YearFlags { #[verifier::external_body] fn from_year_mod_400(year: i32) -> (r: YearFlags) requires 0 <= year <= 400 ensures r.0 == g_flags(year as int) { unimplemented!() } }
proof fn vk_ord(yof: i32, o: int) requires 1 <= o <= 366 ensures at_ord(at_ord(yof, 1), o) == at_ord(yof, o) {
    let p = o as i32;
    assert((((yof & !0b1_1111_1111_0000i32) | (1i32 << 4)) & !0b1_1111_1111_0000i32) | (p << 4) == (yof & !0b1_1111_1111_0000i32) | (p << 4)) by (bit_vector) requires 1 <= p <= 366;
}
// the year of a date holds it
proof fn vk_year_of(d: int) requires true ensures jan1(d) <= d < jan1(d) + ylen(d), cal_y(jan1(d)) == cal_y(d) {
    cal_total(d);
    vk_in_year(cal(d));
    vk_one_date((cal_y(d), 1, 1), jan1(d));
}
proof fn vk_within(d: int, e: int) requires jan1(d) <= e < jan1(d) + ylen(d) ensures cal_y(e) == cal_y(d), jan1(e) == jan1(d) {
    vk_year_of(d); vk_year_of(e);
    if cal_y(e) < cal_y(d) { vk_years(cal_y(e) + 1, cal_y(d)); years(cal_y(e)); } else if cal_y(e) > cal_y(d) { vk_years(cal_y(d) + 1, cal_y(e)); years(cal_y(d)); }
}
// a date's position in its cycle of 400 years
#[verifier::spinoff_prover] proof fn vk_four(y: int) ensures ymd_day(y, 1, 1) + 719_528 == y / 400 * 146_097 + (y % 400) * 365 + ((y % 400 + 3) / 4 - (y % 400 + 99) / 100 + (y % 400 + 399) / 400) {}
proof fn vk_cycle(yof: i32) requires canon(yof) ensures ({ let d = dno_of(yof); 0 <= g_cycle(cal_y(d) % 400, d - jan1(d) + 1) < 146_097 && 1 <= d - jan1(d) + 1 <= 366 }) {
    let d = dno_of(yof);
    of_date(yof); vk_year_of(d); vk_four(cal_y(d));
}
#[verifier::spinoff_prover] proof fn vk_wrap(d: int, c: int) ensures (d * 146_097 + c) / 146_097 == d + c / 146_097, (d * 146_097 + c) % 146_097 == c % 146_097 {}
proof fn vk_add(y: i32, days: int) requires canon(y), i32::MIN <= days <= i32::MAX
    ensures ({ let d = dno_of(y); let o = d - jan1(d) + 1 + days;
        (1 <= o <= ylen(d) && DMIN() <= d + days <= DMAX()) ==> canon(at_ord(y, o)) && dno_of(at_ord(y, o)) == d + days }) {
    let d = dno_of(y); let o = d - jan1(d) + 1 + days;
    of_date(y); vk_year_of(d);
    if 1 <= o <= ylen(d) && DMIN() <= d + days <= DMAX() { vk_within(d, d + days); vk_ord(y, o); of_year(at_ord(y, 1), d + days); }
}
// chrono's first and last day are the first and last of a year
proof fn vk_ends(d: int, e: int) requires DMIN() <= d <= DMAX(), jan1(d) <= e < jan1(d) + ylen(d) ensures DMIN() <= e <= DMAX() {
    let a = (-262_143int, 1int, 1int); let z = (262_142int, 12int, 31int);
    assert(ymd_day(a.0, 1, 1) == DMIN() && ymd_day(z.0, 12, 31) == DMAX());
    cal_total(d); vk_year_of(d);
    if cal_y(d) < a.0 { vk_in_year(cal(d)); years(cal_y(d)); vk_years(cal_y(d) + 1, a.0); }
    if cal_y(d) > z.0 { vk_in_year(cal(d)); years(z.0); vk_years(z.0 + 1, cal_y(d)); }
    vk_years(a.0, cal_y(d)); vk_years(cal_y(d), z.0);
    vk_in_year((cal_y(d), 12, 31));
    if cal_y(d) < z.0 { vk_years(cal_y(d) + 1, z.0); years(cal_y(d)); vk_in_year(z); }
}
pub struct Weekday { g: Ghost<int> }
impl Weekday { pub closed spec fn sunday0(self) -> int { self.g@ } }
impl TimeDelta { pub open spec fn n(self) -> int { self.secs * 1_000_000_000 + self.nanos } pub open spec fn wf(self) -> bool { 0 <= self.nanos < 1_000_000_000 && MINN() <= self.n() <= MAXN() } }
impl NaiveTime { pub open spec fn n(self) -> int { self.secs * 1_000_000_000 + self.frac } pub open spec fn leap(self) -> bool { self.frac >= 1_000_000_000 } pub open spec fn wf(self) -> bool { self.secs < 86_400 && self.frac < 2_000_000_000 && (self.leap() ==> self.secs % 60 == 59) } }
impl NaiveDate { pub open spec fn dno(self) -> int { dno_of(self.yof) } pub open spec fn dayno(self) -> int { self.dno() } pub open spec fn wf(self) -> bool { canon(self.yof) && DMIN() <= self.dno() <= DMAX() } }
impl NaiveDateTime { pub open spec fn n(self) -> int { self.date.dno() * NSD() + self.time.n() } pub open spec fn leap(self) -> bool { self.time.leap() } pub open spec fn wf(self) -> bool { self.date.wf() && self.time.wf() } pub open spec fn dayno(self) -> int { day_of(self.n()) } }
impl DateTime { pub open spec fn n(self) -> int { self.datetime.n() } pub open spec fn leap(self) -> bool { self.datetime.leap() } pub open spec fn wf(self) -> bool { self.datetime.wf() } pub open spec fn dayno(self) -> int { day_of(self.n()) } }
impl NaiveDate {
    #[verifier::external_body] pub fn from_num_days_from_ce_opt(days: i32) -> (r: Option<NaiveDate>) ensures r is Some <==> DMIN() <= days - 719_163 <= DMAX(), r is Some ==> r->0.dno() == days - 719_163 && r->0.wf() { unimplemented!() }
    #[verifier::external_body] pub fn num_days_from_ce(&self) -> (r: i32) requires self.wf() ensures r == self.dno() + 719_163 { unimplemented!() }
    #[verifier::external_body] pub fn leap_year(&self) -> (r: bool) requires self.wf() ensures r == leap(cal_y(self.dno())) { unimplemented!() }
    #[verifier::external_body] pub fn pred_opt(&self) -> (r: Option<NaiveDate>) { unimplemented!() }
    #[verifier::external_body] pub fn succ_opt(&self) -> (r: Option<NaiveDate>) { unimplemented!() }
    #[verifier::external_body] pub fn v_before_min() -> (r: NaiveDate) { unimplemented!() }
    #[verifier::external_body] pub fn v_after_max() -> (r: NaiveDate) { unimplemented!() }
    __DATE__
}
proof fn vk_fdiv(n: int, b: int) requires b > 0 ensures n == b * (n / b) + n % b, 0 <= n % b < b { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, b); vstd::arithmetic::div_mod::lemma_mod_bound(n, b); }
#[verifier::spinoff_prover] proof fn vk_tdiv(s: int, f: int) requires 0 <= f < 1_000_000_000
    ensures tdiv(s * 1_000_000_000 + f, 1_000_000_000) == (if s < 0 && f > 0 { s + 1 } else { s }), trem(s * 1_000_000_000 + f, 1_000_000_000) == (if s < 0 && f > 0 { f - 1_000_000_000 } else { f }) {}
proof fn vk_tdd(n: int, a: int, b: int) requires a > 0, b > 0 ensures tdiv(tdiv(n, a), b) == tdiv(n, a * b) {
    vstd::arithmetic::mul::lemma_mul_strictly_positive(a, b);
    if n >= 0 { vstd::arithmetic::div_mod::lemma_div_denominator(n, a, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, a); }
    else { vstd::arithmetic::div_mod::lemma_div_denominator(-n, a, b); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(-n, a); }
}
// a whole number of k in n, by the seconds and by the rest
proof fn vk_part(n: int, k: int, m: int) requires k > 0, m > 0, k * m == 1_000_000_000
    ensures n / k == (n / 1_000_000_000) * m + (n % 1_000_000_000) / k {
    let q = n / 1_000_000_000; let r = n % 1_000_000_000;
    vk_fdiv(n, 1_000_000_000);
    assert(n == (q * m) * k + r) by (nonlinear_arith) requires n == 1_000_000_000 * q + r, k * m == 1_000_000_000;
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(r, q * m, k as nat);
}
proof fn vk_sub(n: int, k: int, m: int) requires k > 0, m > 0, k * m == 1_000_000_000
    ensures tdiv(n, k) == tdiv(n, 1_000_000_000) * m + tdiv(trem(n, 1_000_000_000), k), -1_000_000_000 < trem(n, 1_000_000_000) < 1_000_000_000 {
    let a = if n >= 0 { n } else { -n };
    vk_part(a, k, m); vk_fdiv(a, 1_000_000_000);
    assert((-(a / 1_000_000_000)) * m == -((a / 1_000_000_000) * m)) by (nonlinear_arith);
    let z = a % 1_000_000_000;
    vk_fdiv(z, k);
    assert(z == 0 ==> z / k == 0) by (nonlinear_arith) requires z == k * (z / k) + z % k, 0 <= z % k < k, k > 0;
}
#[verifier::spinoff_prover] proof fn vk_tod(s: int, f: int) requires 0 <= s < 86_400
    ensures 0 <= f < 1_000_000_000 ==> ({ let n = s * 1_000_000_000 + f; tod_ok(n) && hour_of(n) == s / 3600 && minute_of(n) == s / 60 % 60 && second_of(n) == s % 60 && subsec_of(n) == f && tod_of(n) / 1_000_000_000 == s && tod_of(n) == n && s / 60 / 60 == s / 3600 }) {
    if 0 <= f < 1_000_000_000 { tod_parts(s * 1_000_000_000 + f); }
}
#[verifier::spinoff_prover] proof fn vk_day(d: int, t: int) requires 0 <= t ensures t < NSD() ==> day_of(d * NSD() + t) == d && tod_of(d * NSD() + t) == t {}
proof fn vk_tod_n(d: int, t: int, s: int, f: int) requires 0 <= s < 86_400, 0 <= f, t == s * 1_000_000_000 + f
    ensures f < 1_000_000_000 ==> ({ let n = d * NSD() + t; tod_ok(n) && hour_of(n) == hour_of(t) && minute_of(n) == minute_of(t) && second_of(n) == second_of(t) && subsec_of(n) == f && tod_of(n) == t && subsec_of(n) == subsec_of(t) }) {
    if f < 1_000_000_000 { tod_parts(d * NSD() + t); vk_tod(s, f); vk_day(d, t); sub_of_day(d * NSD() + t); assert(t % NSD() == t); }
}
#[verifier::spinoff_prover] proof fn vk_secs(d: int, s: int, f: int) requires 0 <= f
    ensures f < 1_000_000_000 ==> ({ let n = d * NSD() + s * 1_000_000_000 + f; n / 1_000_000_000 == d * 86_400 + s && n % 1_000_000_000 == f }) {}
#[verifier::spinoff_prover] proof fn vk_near(n: int) ensures near(n) ==> DMIN() <= day_of(n) <= DMAX() && -DMAX() * 86_400 <= n / 1_000_000_000 <= DMAX() * 86_400 {}
// a day has one date: the enumeration finds is_date of chrono's, so that chrono's is cal's
proof fn vk_years(a: int, b: int) requires a <= b ensures ymd_day(a, 1, 1) <= ymd_day(b, 1, 1) decreases b - a { if a < b { vk_years(a, b - 1); years(b - 1); vk_in_year((b - 1, 12, 31)); } }
proof fn vk_in_year(t: (int, int, int)) requires ymd_valid(t.0, t.1, t.2) ensures ymd_day(t.0, 1, 1) <= ymd_day(t.0, t.1, t.2) <= ymd_day(t.0, 12, 31) {}
proof fn vk_before(t: (int, int, int), u: (int, int, int)) requires ymd_valid(t.0, t.1, t.2), ymd_valid(u.0, u.1, u.2), t.0 < u.0 || t.0 == u.0 && (t.1 < u.1 || t.1 == u.1 && t.2 < u.2)
    ensures ymd_day(t.0, t.1, t.2) < ymd_day(u.0, u.1, u.2) {
    if t.0 < u.0 { vk_in_year(t); vk_in_year(u); years(t.0); vk_years(t.0 + 1, u.0); }
}
proof fn vk_one_date(t: (int, int, int), day: int) requires is_date(t, day) ensures t == cal(day) {
    reveal(cal);
    let u = cal(day);
    assert(is_date(u, day));
    if t != u { if t.0 < u.0 || t.0 == u.0 && (t.1 < u.1 || t.1 == u.1 && t.2 < u.2) { vk_before(t, u); } else { vk_before(u, t); } }
}
// the carry of whole seconds, a multiple of a day, is the day's
#[verifier::spinoff_prover] proof fn vk_carry(d: int, x: int)
    ensures day_of(d * NSD() + x) == d + x / NSD(), (d + x / NSD()) * NSD() + x % NSD() == d * NSD() + x, tdiv((x / NSD() * 86_400) * 1_000_000_000, NSD()) == x / NSD(), tdiv(-(x / NSD() * 86_400) * 1_000_000_000, NSD()) == -(x / NSD()) {
    let q = x / NSD();
    vk_whole(q); vk_whole(-q);
}
proof fn vk_whole(q: int) ensures tdiv(q * 86_400 * 1_000_000_000, NSD()) == q {}
#[verifier::spinoff_prover] proof fn vk_split(x: int) ensures x == (x / NSD() * 86_400) * 1_000_000_000 + x % NSD(), 0 <= x % NSD() < NSD(), (x / 1_000_000_000) / 86_400 == x / NSD() {}
#[verifier::spinoff_prover] proof fn vk_stamp(d: int, s: int, f: int) requires 0 <= f < 2_000_000_000, f >= 1_000_000_000 ==> s % 60 == 59, 0 <= s < 86_400
    ensures ({ let ts = d * 86_400 + s; let n = d * NSD() + (s * 1_000_000_000 + f); n == ts * 1_000_000_000 + f && n == (ts + 1) * 1_000_000_000 + (f - 1_000_000_000) && (fits64(n) ==> if ts < 0 { fits64((ts + 1) * 1_000_000_000) } else { fits64(ts * 1_000_000_000) }) }) {
    let ts = d * 86_400 + s;
    assert(ts % 60 == s % 60);
    if ts < 0 && f >= 1_000_000_000 { assert(ts != -9_223_372_038); }
}
"""


def generate(vac=False):
    v, d = source()
    shim = shim_contracts()
    td = open(f"{d}/{D}").read()
    consts = "\n".join(re.findall(r"^(?:pub\(crate\) )?(const [A-Z_]+: i(?:32|64) = [^;]+;)", td, re.M))
    struct = re.search(r"^pub struct TimeDelta \{\n(.*?)^\}", td, re.M | re.S)[0]
    struct = re.sub(r"//[^\n]*", "", struct).replace(" secs:", " pub secs:").replace(" nanos:", " pub nanos:")
    ends = [f"exec const {k}: TimeDelta ensures {k}.n() == {k}N(), {k}.wf(), {k}.secs == {dict(MIN=-9_223_372_036_854_776, MAX=9_223_372_036_854_775)[k]}, {k}.nanos == {dict(MIN=193_000_000, MAX=807_000_000)[k]} {{ {e} }}" for k, e in re.findall(r"^pub\(crate\) const (MIN|MAX): TimeDelta = (TimeDelta \{.*?^\});", td, re.M | re.S)]
    epoch = re.search(r"const UNIX_EPOCH_DAY: i64 = [^;]+;", open(f"{d}/{DT}").read())[0]
    raw = open(f"{VERIF}/verus/shims/chrono.rs").read()
    specs = raw[:raw.index("pub struct Delta")] + re.search(r"pub open spec fn hmsn_ok.*", raw)[0]
    nd = open(f"{d}/{ND}").read()
    masks = "\n".join("pub " + re.sub(r"^pub\(super\) ", "", re.search(rf"^(?:pub\(super\) )?const {k}: i32 = [^;]+;", nd, re.M)[0]) for k in ("ORDINAL_MASK", "OL_MASK", "MAX_OL", "LEAP_YEAR_MASK") if re.search(rf"^(?:pub\(super\) )?const {k}: i32 = [^;]+;", nd, re.M))
    for k, bits, val in (("MIN", "i32::MIN", -262_143), ("MAX", "i32::MAX", 262_142)):
        e = re.search(rf"^pub\(super\) const {k}_YEAR: i32 = ([^;]+);", nd, re.M)[1]
        masks += f"\nexec const {k}_YEAR: i32 ensures {k}_YEAR == {val} {{ assert(({bits} >> 13) == {-262_144 if k == 'MIN' else 262_143}) by (bit_vector); {e} }}"
    # the epoch's place in its cycle, 719_528 = 4 * 146_097 + yo_to_cycle(370, 1)
    deltas = re.search(r"const YEAR_DELTAS: &\[u8; 401\] = &\[(.*?)\];", nd, re.S)[1]
    deltas = [int(x) for x in re.findall(r"\d+", re.sub(r"//.*", "", deltas))]
    assert len(deltas) == 401 and 4 * 146_097 + 370 * 365 + deltas[370] + 1 - 1 == 719_528, "the table YEAR_DELTAS"
    dates = []
    for (t, f), (r, e, g, ps) in shim.items():
        if t == "NaiveDate" and f in ("year", "month", "month0", "day", "day0", "weekday"):
            dates.append(f"#[verifier::external_body] pub fn {f}(&self) -> (r: {'i32' if f == 'year' else 'Weekday' if f == 'weekday' else 'u32'}) requires self.wf() ensures {e} {{ unimplemented!() }}")
    fns = [(f"{i[1] or ''} {i[2]}", emit(i, shim, vac)) for i in ITEMS]
    text = HEAD + specs + "\n" + ASSUMED + "\n" + consts + "\n" + masks + "\n" + epoch + "\n" + struct + "\n" + "\n".join(ends) + MODEL.replace("__DATE__", "\n    ".join(dates)) + "\n".join(t for _, t in fns).replace("NaiveDate::BEFORE_MIN", "NaiveDate::v_before_min()").replace("NaiveDate::AFTER_MAX", "NaiveDate::v_after_max()") + "\n}\n}\nfn main(){}\n"
    return v, text, len(fns)


def prove(tag, vac=False):
    # the text does not change between runs; the solver's search may: other search orders decide where it gave up
    for k in (0,) if vac else (0, 1, 2):
        r = once(f"{tag}-{k}", vac, k)
        if r[3] == 0:
            break
    return r


def once(tag, vac, k):
    v, text, n = generate(vac)
    p = f"{WORK}/vs/{tag}.rs"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
    try:
        t0 = time.time()
        rc, out, err = run(["verus", p, "--output-json", "--num-threads", "4", "--rlimit", "30", *(("--smt-option", f"smt.random_seed={k}", "--smt-option", f"sat.random_seed={k}") if k else ())], 200, cwd=f"{WORK}/vs")
        try:
            r = json.loads(out[out.index("{"):])["verification-results"]
        except (ValueError, KeyError):
            return v, n, None, None, (err or "")[-600:], time.time() - t0
        return v, n, r.get("verified", 0), r.get("errors", 0), (err or "")[:1500], time.time() - t0
    finally:
        if not os.environ.get("VERUS_KEEP"):
            os.remove(p)


def calendar(tier):
    td = f"{WORK}/ct"
    rc, out, err = run(["cargo", NATIVE_TOOLCHAIN, "build", "--release", "--offline", "--locked", "--target-dir", td], 300, cwd=f"{VERIF}/calendar")
    if rc != 0:
        return None, errors_of(err or "")[-400:]
    rc, out, err = run([f"{td}/release/calendar", tier], 300 if tier == "quick" else 900)
    if rc != 0:
        return None, (out or err or "no answer")[-400:]
    return json.loads(out), ""


def discharge(tier):
    """(evidence, what is still assumed, complaints)"""
    ev, said = {}, []
    tag = f"chrono-{os.getpid()}"
    with cf.ThreadPoolExecutor(3) as pool:
        a, b, c = pool.submit(prove, tag), pool.submit(prove, tag + "-vac", True), pool.submit(calendar, tier)
        try:
            v, n, ok, bad, err, wall = a.result()
            vn, vbad = b.result()[1], b.result()[3]
            good = ok is not None and bad == 0 and vbad == vn
            ev.update(version=v, functions=n, obligations=(ok or 0) + (bad or 0), discharged=ok or 0, wall_s=round(wall, 1), vacuous=None if vbad is None else vn - vbad,
                      back_end="Verus 0.2026.09.13, Z3", text="chrono's own source, extracted on this run (vlib/chrono.py)")
            if not good:
                said.append(f"the proof of chrono's contracts gave no answer: {err}")
        except Exception as e:
            good, v = False, None
            said.append(f"the proof of chrono's contracts gave no answer: {e!r}")
        cal, why = c.result()
        lock = open(f"{VERIF}/calendar/Cargo.lock").read()
        same = v is not None and f'name = "chrono"\nversion = "{v}"' in lock
        ev["calendar"] = cal
        if cal is None or not same:
            said.append("the enumeration of chrono's calendar gave no answer: " + (why or "another version of chrono"))
    return ev, good, cal is not None and same, said


def names():
    out = []
    for file, header, name, *_ in ITEMS:
        m = header and not header.startswith("pub trait") and re.search(r"(\w+)(?:<\w+>)?$", header)
        out.append((m[1] + "::" if m else "") + name)
    return out
