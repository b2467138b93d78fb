"""Kani: every harness of a property's contract groups, from the current source, and how each obligation ended."""
import json, os, re
from .common import *

BASE = ["cargo", "kani", "-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options"]


def flags(feature, harnesses, timeout):
    c = BASE + ["--no-default-features", "--features", feature, "--harness-timeout", f"{timeout}s",
                "--output-format", "terse", "-j", "8", "--default-unwind", "70"]
    for h in harnesses:
        c += ["--harness", h]
    return c


class Result:
    def __init__(self):
        self.harnesses = {}   # name -> dict(status, failures, obligations, discharged, solver_s, covers, why)
        self.error = None
        self.wall = 0.0

    def failed(self):
        return {n: h for n, h in self.harnesses.items() if h["status"] == "failed"}


# a failed check of one of these classes says the tool could not decide, not that the property is broken
def undecidable(c):
    cat, d = c.get("category", ""), c.get("description", "")
    return (cat in ("unwind", "unsupported_construct", "recursion", "internal_error", "reachability_check", "sanity_check")
            or "unwinding assertion" in d or "not currently supported" in d or "unsupported" in d
            or "Function with missing definition" in d or "missing definition" in d)


def run_kani(feature, harnesses, timeout=120, total=700, stop=None):
    r = Result()
    t0 = time.time()
    out_json = f"{WORK}/kani-{feature.replace(',', '-')}-{os.getpid()}.json"
    if os.path.exists(out_json):
        os.remove(out_json)
    rc, out, err = run(flags(feature, harnesses, timeout) + ["--export-json", out_json], total, cwd=CONTRACTS, stop=stop,
                       CARGO_TARGET_DIR=f"{WORK}/kt")
    r.wall = time.time() - t0
    if rc is None and stop and stop():
        r.error = "kani was stopped: a failing input is known"
        return r
    if not os.path.exists(out_json):
        r.error = "kani gave no result: " + errors_of(out + "\n" + err)
        return r
    d = json.load(open(out_json))
    os.remove(out_json)
    meta = {m["pretty_name"]: m for m in d.get("harness_metadata", [])}
    stats = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in d.get("cbmc", [])}
    for res in d["verification_results"]["results"]:
        n = res["harness_id"]
        checks = res.get("checks") or []
        should_panic = meta.get(n, {}).get("attributes", {}).get("should_panic", False)
        # a NaN result is a value like any other in Rust, what CBMC notes about one is no obligation
        obs = [c for c in checks if c["category"] not in ("cover", "NaN")]
        nans = [c for c in checks if c["category"] == "NaN" and c["status"] == "Failure"]
        covers = [c for c in checks if c["category"] == "cover"]
        bad = [c for c in obs if c["status"] == "Failure"]
        undec = [c for c in bad if undecidable(c)]
        unk = [c for c in obs if c["status"] in ("Undetermined", "Unknown", "SolverError")]
        unsat = [c for c in covers if c["status"] not in ("Satisfied", "Covered")]
        h = dict(status="", failures=[], obligations=len(obs), discharged=0, wall_ms=res.get("duration_ms"),
                 solver_s=(stats.get(n) or {}).get("runtime_solver_s") or 0.0,
                 covers=len(covers), covers_met=len(covers) - len(unsat), why="")
        h["discharged"] = sum(1 for c in obs if c["status"] in ("Success", "Unreachable"))
        if not checks:
            h["status"], h["why"] = "undecided", "no checks reported (timeout, or the solver gave up)"
        elif should_panic:
            # every call must panic: a panic is the expected failure; reaching the write after the call is not,
            # and neither is arithmetic overflow (it panics in debug builds only)
            real = [c for c in bad if not undecidable(c)]
            came_back = [c for c in real if c["category"] != "assertion"]
            overflow = [c for c in real if re.match(r"attempt to .*overflow", c.get("description", ""))]
            panics = [c for c in real if c["category"] == "assertion" and c not in overflow]
            h["discharged"] += len(panics)
            if undec:
                h["status"], h["why"] = "undecided", undec[0]["description"]
            elif came_back or overflow:
                h["status"], h["failures"] = "failed", came_back + overflow
            elif unsat:
                h["status"], h["why"] = "vacuous", "no argument reaches the call"
            elif panics and not unk:
                h["status"] = "proved"
            elif res["status"] == "Success":
                h["status"] = "proved"
            else:
                h["status"], h["why"] = "undecided", "no panic found and no return found"
        else:
            real = [c for c in bad if not undecidable(c)]
            if real and not undec:
                h["status"], h["failures"] = "failed", real
            elif undec or unk:
                h["status"], h["why"] = "undecided", (undec or unk)[0]["description"]
            elif unsat:
                h["status"], h["why"] = "vacuous", "the assumption admits no returning call"
            elif res["status"] == "Success" or (nans and obs and not bad):
                h["status"] = "proved"
            else:
                h["status"], h["why"] = "undecided", "kani reported failure without a failed check"
        h["failures"] = [dict(description=c["description"], category=c["category"], function=c["function"],
                              location=c.get("location")) for c in h["failures"]]
        r.harnesses[n] = h
    return r


def playback(feature, harness, timeout=200):
    """The verifier's counterexample for one failed harness, as raw little-endian values; None when it gives none."""
    c = BASE + ["-Z", "concrete-playback", "--no-default-features", "--features", feature, "--harness", harness,
                "--exact", "--concrete-playback=print", "--default-unwind", "70"]
    rc, out, err = run(c, timeout, cwd=CONTRACTS, CARGO_TARGET_DIR=f"{WORK}/kt")
    tests = re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
    all_ = []
    for t in tests:
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"(?m)^\s*vec!\[([^\]]*)\]", t)]
        all_.append(",".join("".join(f"{b:02x}" for b in v) for v in vals))
    return all_, out[-4000:]
