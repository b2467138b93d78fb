"""The assumed contracts on std's integers (verus/prelude.py), discharged on std's own code: each contract's text becomes the
assertions of a Kani harness over every argument, wherever the solver can decide it (addition, subtraction, negation, comparison and
conversion at every width up to 64 bits, multiplication except at u64 and the pointer-sized types, division at 8 bits). stdc/src/text.rs adds the character codecs."""
import re
from .common import *


def translate(e, ret, t):
    """A clause over int, in i128 (or what is wide enough)."""
    e = re.sub(r"(-?\d+) <= ((?:[^<&|]|\([^)]*\))*?) <= (\d+)(?:int)?", r"(\1 <= \2 && \2 <= \3)", e)
    e = re.sub(r"\b(\d+)int\b", r"\1", e).replace("as int", "as i128")
    e = e.replace("r->0", "r.unwrap()").replace("r is Some", "r.is_some()")
    e = re.sub(r"(?<![\w.])self\b", "S", e)
    e = re.sub(r"(?<![\w.])o\b", "O", e)
    e = re.sub(r"(S|O) as i128", r"\1", e)
    if ret == t:
        e = re.sub(r"\br ==", "(r as i128) ==", e)
    return re.sub(r"S % (\(.*\))$", r"S.rem_euclid\1", e).replace("S / O", "S.div_euclid(O)")


def clause(c, ret, t):
    if "<==>" in c:
        a, b = c.split("<==>", 1)
        return f"({translate(a.strip(), ret, t)}) == ({translate(b.strip(), ret, t)})"
    if "==>" in c:
        a, b = c.split("==>", 1)
        return f"!({translate(a.strip(), ret, t)}) || ({translate(b.strip(), ret, t)})"
    return translate(c, ret, t)


def clauses(e):
    r, d, c = [], 0, ""
    for ch in e:
        d += (ch in "([{") - (ch in ")]}")
        if ch == "," and d == 0:
            r.append(c.strip())
            c = ""
        else:
            c += ch
    return r + [c.strip()]


# conversions the contracts allow and std does not have: no code that compiles uses them
NOT_IN_STD = {("u16", "isize"), ("isize", "i64"), ("usize", "u64"), ("u64", "usize"), ("i64", "isize")}


def generate():
    """(text, harness names, contracts stated, contracts left assumed)"""
    import prelude
    types = [t for t in prelude.INTS if "128" not in t]
    bits = prelude.BITS
    out = ["// generated by vlib/stdc.py"]
    wide = lambda t, k: "i128" if k == "cast" or bits[t] == 64 else "i64" if bits[t] == 32 else "i32"
    # the product of two unsigned numbers has twice their bits, and no sign
    wide = lambda t, k, f=wide: {"u16": "i64", "u32": "i128"}[t] if k == "mul" and t in ("u16", "u32") else f(t, k)
    for w in ("i32", "i64", "i128"):
        out.append(f"fn tdiv_{w}(a: {w}, b: {w}) -> {w} {{ if b == 0 {{ 0 }} else {{ a / b }} }}\nfn trem_{w}(a: {w}, b: {w}) -> {w} {{ a - b * tdiv_{w}(a, b) }}")
        for t in types:
            lo, hi = prelude.rng(t)
            if int(w[1:]) > bits[t]:
                out.append(f"fn wrap_{t}_{w}(x: {w}) -> {w} {{ let y = x & {(1 << bits[t]) - 1}; if {lo} <= x && x <= {hi} {{ x }} else if y > {hi} {{ y - {1 << bits[t]} }} else {{ y }} }}")
    at = lambda c, w: re.sub(r"\b(wrap_\w+|tdiv|trem)\(", lambda m: f"{m[1]}_{w}(", c).replace(" as i128", f" as {w}")
    cur, reqs, h, left = None, {}, {}, []
    for l in prelude.ints(types).split("\n"):
        m = re.match(r"impl VNum_(\w+) for", l)
        if m:
            cur, reqs = m[1], {}
            continue
        m = re.match(r"\s*open spec fn q_(\w+)\(self.*?\{ (.*) \}$", l)
        if m:
            reqs[m[1]] = m[2]
            continue
        m = re.match(r"\s*#\[verifier::external_body\] fn (v_\w+)\(self(.*?)\) -> \(r: (.*?)\) ensures (.*) \{ unimplemented!\(\) \}", l)
        if m:
            n, ps, ret, ens = m.groups()
            kind = "div" if re.search("div|rem", n) else "mul" if "mul" in n else "add"
            if kind == "div" and bits[cur] > 8 or kind == "mul" and cur in ("u64", "usize", "isize"):
                left.append(f"{cur}::{n[2:]}")
                continue
            code = f"let r: {ret} = s.{n[2:]}({'o' if 'o:' in ps else ''});"
            for c in clauses(ens):
                # what a returning call shows of its arguments is the precondition
                if not re.fullmatch(r"o != 0|true|!\(self == -?\d+ && o == -1\)", c):
                    code += f" assert!({clause(c, ret, cur)}, \"{n} {cur}\");"
            q = reqs.get(n)
            if q:
                q = q.replace("vk@ ==> ", "")
                assert "==>" not in q
                code = f"if {translate(q, cur, cur)} {{ {code} }}"
            h.setdefault((cur, kind), []).append("{ " + code + " }")
            continue
        m = re.match(r"impl (VCast|VInto|VTryInto)<(\w+)> for (\w+) \{(.*)\}$", l)
        if not m:
            continue
        k, t, s, _ = m.groups()
        lo, hi = prelude.rng(t)
        if s == "bool":
            h.setdefault(("bool", "cast"), []).append(f"{{ let z: bool = kani::any(); assert!(z as {t} == if z {{ 1 }} else {{ 0 }}); }}")
            continue
        if k == "VCast":
            e = re.search(r"cast_val\(self\) -> \w+ \{ (.*?) as \w+ \}", l)[1]
            code = f"assert!((s as {t}) as i128 == {translate(e, t, t)}, \"as {t}\");"
        elif k == "VInto":
            if (s, t) in NOT_IN_STD:
                continue
            code = f"let r: {t} = s.into(); assert!(r as i128 == S, \"into {t}\");"
        else:
            code = f"let r: Result<{t}, _> = s.try_into(); assert!(r.is_ok() == ({lo} <= S && S <= {hi})); assert!(r.is_err() || r.unwrap() as i128 == S, \"try {t}\");"
        h.setdefault((s, "cast"), []).append("{ " + code + " }")
    for (t, k), cs in h.items():
        w = wide(t, k) if t != "bool" else "i128"
        decl = "" if t == "bool" else f"let s: {t} = kani::any(); let o: {t} = kani::any(); let (S, O) = (s as {w}, o as {w});"
        out.append(f"#[cfg(kani)] #[kani::proof] #[allow(non_snake_case, unused)] fn {t}_{k}() {{ {decl}\n  " + "\n  ".join(at(c, w) for c in cs) + "\n}")
    return "\n".join(out), [f"{t}_{k}" for t, k in h], sum(map(len, h.values())), left


def discharge(timeout=300, total=900):
    """(evidence, discharged)"""
    text, names, n, left = generate()
    write_if_changed(f"{WORK}/stdc/lib.rs", "#![allow(unused)]\n" + text + "\n" + open(f"{VERIF}/stdc/src/text.rs").read())
    names += re.findall(r"#\[kani::proof\][^f]*(?:\n[^f]*)*?fn (\w+)\(\)", open(f"{VERIF}/stdc/src/text.rs").read())
    t0 = time.time()
    out_json = f"{WORK}/stdc-{os.getpid()}.json"
    rc, out, err = run(["cargo", "kani", "-Z", "unstable-options", "--harness-timeout", f"{timeout}s", "-j", "4", "--output-format", "terse", "--export-json", out_json],
                       total, cwd=f"{VERIF}/stdc", CARGO_TARGET_DIR=f"{WORK}/kts")
    if not os.path.exists(out_json):
        return dict(back_end="Kani/CBMC", error="no result: " + errors_of(out + "\n" + err)[-300:]), False
    res = json.load(open(out_json))["verification_results"]["results"]
    os.remove(out_json)
    ok = {r["harness_id"].split("::")[-1] for r in res if r["status"] == "Success"}
    obs = [c for r in res for c in (r.get("checks") or []) if c["category"] != "cover"]
    return dict(back_end="Kani/CBMC", text="std's own code: its integer functions by the contracts' text of verus/prelude.py; char's encoders and one step of decode_utf16 and Chars from any state (stdc/src/text.rs)", harnesses=len(names), proved=len(ok & set(names)), not_proved=sorted(set(names) - ok),
                contracts=n, obligations=len(obs), discharged=sum(c["status"] in ("Success", "Unreachable") for c in obs), left_assumed=left, wall_s=round(time.time() - t0, 1)), ok >= set(names)
