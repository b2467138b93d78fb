"""Verus: assembles contracts and extracted text into one file per property, runs the verifier, reads its obligations."""
import importlib, json, os, re, sys, threading, time, concurrent.futures as cf
from .common import *
from . import chrono, stdc

# of verus/shims/chrono.rs, what the proof and the enumeration of chrono leave assumed
CHRONO_LEFT = ["chrono: the contracts on TimeDelta, NaiveTime, NaiveDate, NaiveDateTime and DateTime<Utc> are discharged on chrono's own text (vlib/chrono.py); what its functions of one date or one day number return "
               "is enumerated over the whole domain (calendar/src/main.rs); assumed: the readings of Local::now() and their offset",
               "std::time::Duration, div_euclid and rem_euclid by assumed contracts (verus/shims/chrono.rs, vlib/chrono.py)"]

VER = os.path.join(VERIF, "verus")
sys.path.insert(0, VER)

# messages that say an obligation was generated and not discharged; everything else is not an answer
FAILED = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|arithmetic underflow/overflow|division by zero|"
                    r"invariant not satisfied|decreases not satisfied|bit shift underflow/overflow|assertion failure|loop ensures|"
                    r"might not|unable to prove|requires not satisfied|constructed value may fail|cannot prove|not satisfied")
GAVE_UP = re.compile(r"[Rr]esource limit|rlimit|timed? ?out")


class R:
    def __init__(self):
        self.error = None          # nothing could be decided
        self.fns = {}              # name -> dict(status: proved|failed|undecided|vacuous, failures, why, ms, inlined)
        self.extra = 0             # lemmas verified
        self.wall = 0.0
        self.smt_ms = 0
        self.drop = []
        self.chrono = self.std = None


def expanded():
    """The macro-expanded source of the current tree."""
    dep = derive_manifest()
    for i in range(2):
        rc, out, err = run(["cargo", "+nightly", "rustc", "--offline", "--profile", "check", "--lib", "--target-dir", f"{WORK}/xp", "--", "-Zunpretty=expanded"],
                           300, cwd=dep, CARGO_PROFILE_CHECK_INHERITS="dev")
        if rc is not None and "mod " in out:
            p = f"{WORK}/expanded-{os.getpid()}.rs"
            open(p, "w").write(out)
            return p, None
    return None, "the crate does not expand: " + errors_of(err)


def extractor():
    rc, out, err = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{WORK}/xt"], 400, cwd=f"{VER}/xtract")
    if rc != 0:
        return None, "extractor does not build: " + errors_of(err)
    return f"{WORK}/xt/release/xtract", None


def load(name):
    return importlib.import_module("specs." + name).spec()


def extract(spec, src):
    tool, e = extractor()
    if not tool:
        return None, e
    cfg = dict(spec.get("config", {}))
    cfg["want"] = [f["key"] if "key" in f else f["name"] for f in spec["fns"]]
    cfg["contracted"] = {f.get("call", f["name"]): bool(f.get("mem")) for f in spec["fns"]}
    p = subprocess.run([tool, src], input=json.dumps(cfg), capture_output=True, text=True, timeout=60)
    if p.returncode != 0:
        return None, "extraction failed: " + p.stderr[-500:]
    return json.loads(p.stdout)["functions"], None


def sig(f, x, name):
    """Signature and contract of one function: positional, so parameter names are the code's own."""
    ps = x["params"] if x else [(a, t) for a, t in f["args"]]
    names = [p for p, _ in ps]
    fin = [(f"*final({n})" if i in f.get("outs", []) else n) for i, n in enumerate(names)]
    ins = [n for i, n in enumerate(names) if i not in f.get("outs", [])]
    types = f.get("types", {})
    params = ", ".join(f"{n}: {types.get(i, t)}" for i, (n, t) in enumerate(ps))
    ghost = "vk__: Ghost<bool>" + (f", Tracked(vmem__): Tracked<&mut {f['mem']}>" if f.get("mem") else "")
    sub = lambda s: re.sub(r"\$(\d)", lambda m: names[int(m.group(1))], s)
    m = ", old(vmem__).m, final(vmem__).m" if f.get("mem") else ""
    base = f["name"]
    req = [sub(g) for g in f.get("given", [])]
    ens = []
    if "valid" in f:
        req.append(f"vk__@ ==> {base}__valid({', '.join(ins)})")
        ens.append(f"{base}__valid({', '.join(ins)})")
    if "requires_valid" in f:
        v = sub(f["requires_valid"])
        req.append(f"vk__@ ==> ({v})")
        ens.append(v)
    if "post" in f:
        ens.append(f"{base}__post({', '.join(fin + ['vr__'])}{m})")
    ens += [sub(e) for e in f.get("ensures", [])]
    gen = f.get("generics", "")
    ret = f.get("ret") or (x["ret"] if x else "()")
    return f"fn {name}{gen}({params + ', ' if params else ''}{ghost}) -> (vr__: {ret})\n", req, ens


def specs_of(f):
    ins = ", ".join(f"{a}: {t}" for i, (a, t) in enumerate(f["args"]) if i not in f.get("outs", []))
    allp = ", ".join(f"{a}: {t}" for a, t in f["args"])
    ret = f["retspec"] if "retspec" in f else f.get("ret", "i64")
    m = f", m0: {f['memspec']}, m1: {f['memspec']}" if f.get("mem") else ""
    gen = f.get("generics", "")
    return (f"pub open spec fn {f['name']}__valid{gen}({ins}) -> bool {{ {f.get('valid', 'true')} }}\n"
            f"pub open spec fn {f['name']}__post{gen}({allp + ', ' if allp else ''}r: {ret}{m}) -> bool {{ {f.get('post', 'true')} }}\n")


def body_of(f, x):
    b = x["body"]
    invs = f.get("loops", [])
    names = [p for p, _ in x["params"]]

    def sub(s):
        s = re.sub(r"\$\$(\d)", lambda m: f"vp{m.group(1)}__", s)
        s = re.sub(r"@m(\d)", lambda m: (x["muts"] + ["no_such_local"] * 10)[int(m.group(1))], s)
        s = re.sub(r"@(\d)", lambda m: x["copies"][names[int(m.group(1))]], s)
        return re.sub(r"\$(\d)", lambda m: names[int(m.group(1))], s)
    if invs and not fits(b, x, invs, names, sub, f):
        return None
    for i, inv in enumerate(invs):
        # the loop's own iterator
        it = x.get("iters", {}).get(str(i))
        if it is None:
            return None
        inv = {k: v.replace(f"vit{i}__", "\0") for k, v in inv.items()}
        inv = {k: re.sub(r"vit(\d)__", lambda m: x["iters"].get(m.group(1), m.group(0)), v).replace("\0", it) for k, v in inv.items()}
        mk = re.compile(r"(loop|while)\s+((?:(?!vloop__)[^;])*?)\{\s*vloop__\s*!\s*\(\s*%d\s*\)\s*;" % i, re.S)
        m = mk.search(b)
        if not m:
            return None
        before = f"proof {{ {sub(inv['before'])} }} " if "before" in inv else ""
        b = b[:m.start()] + before + m.group(1) + " " + m.group(2) + "\n" + sub(inv["inv"]).rstrip().rstrip(",") + f", decreases {inv.get('decreases', it + '.s().len()')}\n{{ " + sub(inv.get("proof", "")) + b[m.end():]
    if "vloop__" in b:
        return None

    def closure(m):
        ps, rt, spec, body = (json.loads(m.group(1)), json.loads(m.group(2)), json.loads(m.group(3)), m.group(4))
        return f"|{ps}| -> ({rt}) {re.sub(r'%(\d)', lambda k: names[int(k.group(1))], spec)} {body}"
    b = re.sub(r'vclosure__\s*!\s*\(\s*("(?:[^"\\]|\\.)*")\s*,\s*("(?:[^"\\]|\\.)*")\s*,\s*("(?:[^"\\]|\\.)*")\s*,\s*(\{.*?\})\s*\)', closure, b, flags=re.S)
    b = re.sub(r"vparam(\d)__", lambda m: names[int(m.group(1))], b)
    if invs:
        b = "{ " + " ".join(f"let ghost vp{i}__ = {n};" for i, n in enumerate(names) if i not in f.get("outs", [])) + sub(f.get("ghost", "")) + (" let ghost vm0__ = vmem__.m;" if f.get("mem") else "") + "\n" + b + "}"
    if f.get("start"):
        b = "{ proof { " + sub(f["start"]) + " }\n" + b + "}"
    for pat, rep in f.get("splice", []):
        b = re.sub(pat, rep, b)
    return b


def fits(b, x, invs, names, sub, f):
    """The invariants are about a loop that advances the same pointers: with others, they say nothing about this one."""
    text = " ".join(v for inv in invs for v in inv.values())
    want = {sub(m) for m in re.findall(r"@\d", text)}
    loop = b[b.index("vloop__"):] if "vloop__" in b else ""
    local = set(re.findall(r"let\s+(?:mut\s+)?(\w+)", loop))
    assigned = set(re.findall(r"(?<![\w.*=!<>+\-])(\w+)\s*[-+*/]?=(?![=>])", re.sub(r"let\s+(?:mut\s+)?\w+[^=;]*=", "", loop)))
    lent = set(re.findall(r"&\s*mut\s+(\w+)", loop))
    outs = {names[i] for i in f.get("outs", [])}
    known = want | {sub(m) for m in re.findall(r"@m\d", text)} | outs
    return want <= assigned | lent | outs and assigned - local <= known


def assemble(spec, ex, only=None, vac=False):
    """(text, lines): the whole file; lines maps a line range to the function whose obligations lie there."""
    import prelude
    parts = [prelude.HEAD, prelude.CORE, prelude.ints(spec.get("ints", prelude.INTS))]
    parts += [open(f"{VER}/shims/{s}.rs").read() for s in spec.get("shims", [])]
    # the outside crates' paths
    outside = [open(p).read() for p in (f"{VER}/shims/{s}.x.rs" for s in spec.get("shims", [])) if os.path.exists(p)]
    parts.append("pub mod x {\n    pub use super::*;\n" + "".join(outside) + "}\n")
    parts.append(spec.get("lemmas", ""))
    marks, undec = [], {}
    for f in spec["fns"]:
        parts.append(specs_of(f))
    text = "\n".join(parts)
    for f in spec["fns"]:
        n = f["name"]
        x = ex.get(f.get("key", n))
        why = None
        if x is None or x["error"]:
            why = x["error"] if x else "not extracted"
            x = None
        b = None
        if x is not None:
            if len(x["params"]) != len(f["args"]):
                why, x = "the parameters changed", None
            else:
                b = body_of(f, x)
                if b is None:
                    why = f"loops changed ({x['loops']})"
        if why:
            undec[n] = why
        s, req, ens = sig(f, x, n)
        req, ens = req or ["true"], ens or ["true"]
        attr = "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] " if f.get("loops") else ""
        attr += f.get("attrs", "")
        trusted = b is None or vac or (only is not None and n != only)
        text += "\n"
        a = text.count("\n") + 1
        if not trusted:
            text += f"{attr}pub {s}  requires {', '.join(req)},\n  ensures {', '.join(ens)},\n{b}\n"
            marks.append((a, text.count("\n"), n))
        else:
            text += f"#[verifier::external_body] pub {s}  requires {', '.join(req)},\n  ensures {', '.join(ens)},\n{{ unimplemented!() }}\n"
        if vac and b is not None and (only is None or n == only):
            s2, _, _ = sig(f, x, n + "__vac")
            a = text.count("\n") + 1
            # proved lemmas used by trigger add nothing to what is contradictory
            b = re.sub(r"broadcast use [^;]*;", "", b)
            text += f"{attr}pub {s2}  requires {', '.join(req)}, vk__@,\n  ensures false,\n{b}\n"
            marks.append((a, text.count("\n"), n))
    if not vac and only is None:
        text += "\n" + spec.get("clients", "")
    if "VBit" in text:
        text += prelude.BITOPS
    return text + prelude.TAIL, marks, undec


def verus(text, tag, timeout, extra=()):
    p = f"{WORK}/vs/{tag}.rs"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)
    rc, out, err = run(["verus", p, "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "5", *([] if "--rlimit" in extra else ["--rlimit", "10" if os.environ.get("VERIF_TIER", "quick") == "quick" else "60"]),
                        "--num-threads", "8", *extra], timeout, cwd=f"{WORK}/vs")
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    try:
        js = json.loads(out[out.index("{"):])
    except ValueError:
        js = None
    return rc, js, diags, err


def where(d, marks, path):
    lines = []

    def spans(x):
        for s in x.get("spans", []):
            if os.path.basename(s["file_name"]) == os.path.basename(path):
                lines.append((not s["is_primary"], s["line_start"], (s.get("text") or [{}])[0].get("text", "").strip(), s.get("label")))
        for c in x.get("children", []):
            spans(c)
    spans(d)
    hit = None
    for pri, ln, t, lab in sorted(lines, key=lambda z: z[0]):
        for a, b, n in marks:
            if a <= ln <= b and hit is None:
                hit = n
    # the text of the place and of the clause that failed
    return hit, "; ".join(dict.fromkeys(f"{lab or 'at'}: {t[:160]}" for _, _, t, lab in sorted(lines, key=lambda z: z[0]) if t))


LEMMA_GAVE_UP = "resource limit in a lemma"


def one_file(spec, ex, tag, timeout, only=None, vac=False, extra=()):
    """name -> status for the functions verified in this file, or None when the file was no answer (with the reason)."""
    text, marks, undec = assemble(spec, ex, only, vac)
    rc, js, diags, err = verus(text, tag, timeout, extra)
    res = {n: dict(status="proved", failures=[], why="") for _, _, n in marks}
    if rc is None:
        return None, "verus timed out", undec, 0, 0
    # what rustc itself rejects (it numbers its errors) was not verified at all
    hard = [d for d in diags if d.get("code") or not FAILED.search(d["message"]) and not GAVE_UP.search(d["message"]) and not d["message"].startswith("aborting")]
    if hard or js is None or "verification-results" not in js or js["verification-results"].get("encountered-vir-error"):
        m = "; ".join(d["message"][:200] + " [" + where(d, marks, f"{tag}.rs")[1][:200] + "]" for d in hard[:4]) or err[-400:]
        return None, m, undec, 0, 0
    for d in diags:
        if d["message"].startswith("aborting"):
            continue
        n, at = where(d, marks, f"{tag}.rs")
        if n is None:
            if GAVE_UP.search(d["message"]):
                if vac:
                    continue
                return None, LEMMA_GAVE_UP, undec, 0, 0
            return None, "a lemma is not proved: " + d["message"] + " " + at, undec, 0, 0
        if GAVE_UP.search(d["message"]):
            if res[n]["status"] == "proved":
                res[n].update(status="undecided", why=d["message"])
        else:
            res[n]["status"] = "failed"
            res[n]["failures"].append(dict(obligation=d["message"], where=at))
    tm = js.get("times-ms") or {}
    smt = (tm.get("smt") or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else tm.get("smt", 0)
    per = {}
    try:
        for mod in tm["smt"]["smt-run-module-times"]:
            for fb in mod.get("function-breakdown", []):
                per[fb["function"].split("::")[-1]] = fb.get("time", 0)
    except (KeyError, TypeError):
        pass
    for n in res:
        res[n]["ms"] = per.get(n, 0)
    return res, js["verification-results"].get("verified", 0), undec, smt, len(per)


def run_verus(cfg, tier, broken=lambda: False):
    """broken(): waits for the native search and says whether it found failing inputs."""
    r = R()
    t0 = time.time()
    end = t0 + (560 if tier == "quick" else 2400)

    def one(*a, **k):
        # within the check's time: what does not fit is no answer
        left = end - time.time()
        if left < 5:
            return None, "out of time", {}, 0, 0
        a = list(a)
        a[3] = min(a[3], left)
        return one_file(*a, **k)
    src, e = expanded()
    if not src:
        r.error = e
        return r
    try:
        spec = load(cfg["spec"])
        ex, e = extract(spec, src)
        if e:
            r.error = e
            return r
        tag = f"{cfg['spec']}-{os.getpid()}"
        to = cfg.get("timeout", 240 if tier == "quick" else 900)
        with cf.ThreadPoolExecutor(9) as pool:
            dep = pool.submit(chrono.discharge, tier) if "chrono" in spec.get("shims", []) else None
            std = pool.submit(stdc.discharge) if tier == "thorough" else None
            main = pool.submit(one, spec, ex, tag, to)
            # looking for a contradiction, not for a proof: a short search
            short = ("--rlimit", "5")
            vac = pool.submit(one, spec, ex, tag + "-vac", to, None, True, short)
            res, info, undec, smt, _ = main.result()
            vres, vinfo, _, vsmt, _ = vac.result()
            for k in (1, 2):
                # a lemma does not depend on the code: another search order
                if res is None and info == LEMMA_GAVE_UP and not broken():
                    res, info, undec, smt, _ = one(spec, ex, f"{tag}-l{k}", to, None, False, ("--smt-option", f"smt.random_seed={k}", "--smt-option", f"sat.random_seed={k}", "--rlimit", "30"))
            if res is None and broken():
                r.error = "no answer (a failing input is known): " + str(info)[:400]
                return r
            if res is None:
                # one function outside the dialect must not hide the others
                r.drop.append("the file as a whole was not accepted: " + str(info)[:600])
                names = [f["name"] for f in spec["fns"] if f["name"] not in undec]
                jobs = {n: pool.submit(one, spec, ex, f"{tag}-{i}", to, n) for i, n in enumerate(names)}
                vjobs = {n: pool.submit(one, spec, ex, f"{tag}-{i}-vac", to, n, True, short) for i, n in enumerate(names)}
                res, vres, smt = {}, {}, 0
                for n, j in jobs.items():
                    one_res, why, _, s, _ = j.result()
                    res[n] = one_res[n] if one_res else dict(status="undecided", failures=[], why=str(why))
                    smt += s or 0
                    v, why, _, _, _ = vjobs[n].result()
                    vres.update(v or {})
                info = sum(1 for x in res.values() if x["status"] == "proved")
            bad = [n for n, x in res.items() if x["status"] in ("failed", "undecided")]
            if bad and info is not None and not broken():
                # the solver is incomplete: what another search order proves is proved
                jobs = [pool.submit(one, spec, ex, f"{tag}-s{k}-{i}", min(to, 120), n, False, ("--smt-option", f"smt.random_seed={k}", "--smt-option", f"sat.random_seed={k}"))
                        for i, n in enumerate(bad[:8]) for k in (1, 2)]
                for j in jobs:
                    again = j.result()[0]
                    for n, x in (again or {}).items():
                        if x["status"] == "proved" and res[n]["status"] != "proved":
                            res[n] = x
            r.chrono = dep.result() if dep else None
            r.std = std.result() if std else None
            r.extra = max(0, (info or 0) - sum(1 for x in res.values() if x["status"] == "proved"))
        for n, x in res.items():
            if x["status"] == "proved" and (vres or {}).get(n, {}).get("status") == "proved":
                x.update(status="vacuous", why="false is provable in this function: its contract or an assumed contract contradicts itself")
            x["inlined"] = ex[next(f.get("key", f["name"]) for f in spec["fns"] if f["name"] == n)]["inlined"]
        for n, why in undec.items():
            res[n] = dict(status="undecided", failures=[], why=why, inlined=[])
        r.fns, r.smt_ms = res, smt or 0
        if vres is None:
            r.drop.append("the vacuity run gave no answer: " + str(vinfo)[:300])
        for f in os.listdir(f"{WORK}/vs"):
            if f.startswith(tag) and not os.environ.get("VERUS_KEEP"):
                os.remove(f"{WORK}/vs/{f}")
    finally:
        if not os.environ.get("VERUS_KEEP"):
            os.remove(src)
    r.wall = time.time() - t0
    r.spec = spec
    return r


def judge(check, r, nat):
    if r.error:
        check.undecided.append("verus: " + r.error)
        return
    spec = r.spec
    check.trusted += spec.get("trusted", [])
    check.assumptions += spec.get("assumptions", [])
    proved = 0
    check.verus_failed, check.verus_searched = {n for n, x in r.fns.items() if x["status"] == "failed"}, set()
    for n, x in sorted(r.fns.items()):
        f = next(f for f in spec["fns"] if f["name"] == n)
        check.functions.append(f"verus::{n}" + (f" (inlines {', '.join(sorted(set(x['inlined'])))})" if x.get("inlined") else ""))
        check.obligations += 1
        if x["status"] == "proved":
            proved += 1
            check.discharged += 1
        elif x["status"] == "failed":
            failure(check, f, n, x, nat)
        else:
            check.undecided.append(f"verus {n}: {x['status']}: {x['why'][:400]}")
    check.obligations += r.extra
    check.discharged += r.extra
    for d in r.drop:
        check.undecided.append("verus: " + d)
    if r.std:
        ev, all_ = r.std
        check.cov["std_integers"] = ev
        check.obligations += ev.get("obligations", 0) if all_ else 0
        check.discharged += ev.get("discharged", 0) if all_ else 0
        if not all_:
            check.say("note: the contracts on std's integers were not all discharged on this run:", ev.get("error", ", ".join(ev.get("not_proved", [])))[:300])
    if r.chrono:
        ev, proved_layer, dates, said = r.chrono
        check.cov["chrono"] = ev
        check.trusted += CHRONO_LEFT + ([] if proved_layer else ["NOT discharged on this run: the contracts on chrono's durations, times and instants"]) + ([] if dates else ["NOT enumerated on this run: the contracts on chrono's calendar date"])
        if proved_layer:
            check.functions += [f"chrono::{n}" for n in chrono.names()]
            check.obligations += ev["obligations"]
            check.discharged += ev["discharged"]
        for x in said:
            check.say("note:", x[:300])
    check.cov["verus"] = dict(functions=len(r.fns), proved=proved, lemmas=r.extra, smt_ms=r.smt_ms, wall_s=round(r.wall, 1),
                              back_end="Verus 0.2026.09.13, Z3", unit="one obligation set per function body or lemma (all its requires/ensures/invariants/overflow checks)")


def failure(check, f, n, x, nat):
    desc = "; ".join(f"{k['obligation']} ({k['where'][:200]})" for k in x["failures"][:3])
    check.say("verus: failed obligation", n, desc[:300])
    targets = f.get("targets", [n])
    for v in check.violations:
        if any(v["obligation"].endswith("::" + t) for t in targets):
            v["failed_obligation"] = dict(function=n, failures=x["failures"][:5])
            return
    # look for a failing input with more effort than the routine search
    if nat and nat.bin:
        # what is left of the check's time, shared among the failed obligations
        left = (780 if check.tier == "quick" else 6000) - (time.time() - check.t0)
        n_left = max(1, sum(1 for x in check.verus_failed if x not in check.verus_searched))
        check.verus_searched.add(n)
        ms = max(2000, min(40000 if check.tier == "quick" else 300000, int(1000 * left / n_left)))
        res, broken = nat.search(["~" + t for t in targets], check.seed + 7, ms, harvest())
        for b in broken or []:
            v = check.confirmed(nat, b, found_by="native search for the failed Verus obligation", failed_obligation=dict(function=n, failures=x["failures"][:5]))
            if v:
                check.violations.append(v)
                return
    check.violations.append(dict(obligation=f"verus::{n}", args="", why=desc, raw=None, input=False, found_by="verus",
                                 failed_obligation=dict(function=n, failures=x["failures"][:5]), output=json.dumps(x["failures"])[:4000]))
