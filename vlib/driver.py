import json, os, re, sys, threading, time, traceback
from .common import *
from .native import Native
from . import kani
from .props import PROPS

FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Unrepaired findings: lines `finding: property=<id> match=<regex> :: <what fails>`"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.t0 = time.time()
        self.violations = []      # dict(obligation, replay-data, failing_input)
        self.undecided = []       # strings
        self.bounded = []         # what stood in
        self.cov = {}
        self.assumptions = list(self.cfg.get("assumptions", []))
        self.trusted = ["rustc/MIR lowering of the toolchain the verifier uses", "the compiled dependencies chrono, num, std as linked"]
        self.obligations = self.discharged = 0
        self.functions = []
        self.lazy_done = False

    def say(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---- the engines -------------------------------------------------------------------------------------
    def native(self):
        k = self.cfg.get("native") or self.cfg.get("kani")
        n = Native(k["feature"], k.get("mock", False))
        if not n.build():
            self.undecided.append("the native driver does not compile against the current source: " + n.error[-600:])
            return None, []
        millis = self.cfg.get("search_ms", 4000) * (20 if self.tier == "thorough" else 1)
        res, broken = n.search(k["search"], self.seed, millis, harvest())
        tried = sum(r.get("accepted", 0) + r.get("rejected", 0) for r in res or [])
        self.cov["native_search"] = dict(
            targets=len(res or []), calls=tried, rejected_calls=sum(r.get("rejected", 0) for r in res or []),
            role="replays counterexamples on the real code and validates the contracts and the trusted shims; never counted as proof")
        idle = [r["target"] for r in res or [] if not r.get("broken") and not r.get("accepted") and not r.get("rejected")]
        if idle:
            self.undecided.append("native search reached no judged call for " + ", ".join(idle))
        found = []
        for b in broken:
            v = self.confirmed(n, b, found_by="native search over the contract")
            if v:
                found.append(v)
            else:
                self.undecided.append(f"{b['target']} {b['why']} in the search, but not on replay")
        return n, found

    def kani(self, broken):
        k = self.cfg["kani"]
        t = k["timeout"] * (3 if self.tier == "thorough" else 1)
        hs = k["prefixes"] + (k["lazy"] if self.tier == "thorough" else [])
        return kani.run_kani(k["feature"], hs, timeout=t, total=2400 if self.tier == "thorough" else 700, stop=broken)

    # ---- one run -----------------------------------------------------------------------------------------
    def run(self):
        derive_manifest()
        box = {}

        def guard(name, f):
            try:
                box[name] = f()
            except Exception:
                box[name] = None
                self.undecided.append(f"{name}: internal error: {traceback.format_exc()[-800:]}")

        def broken(wait=True):
            while wait and "native" not in box:
                time.sleep(0.1)
            return bool((box.get("native") or (None, []))[1])
        jobs = [("native", self.native)]
        if self.cfg.get("kani"):
            jobs.append(("kani", lambda: self.kani(lambda: broken(False))))
        if self.cfg.get("verus"):
            from . import verus
            jobs.append(("verus", lambda: verus.run_verus(self.cfg["verus"], self.tier, broken)))
        ts = [threading.Thread(target=guard, args=j) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        nat, found = box.get("native") or (None, [])
        self.violations += found
        cmds = []
        if box.get("kani") is not None:
            self.judge_kani(box["kani"], nat)
            cmds.append("cargo kani -Z function-contracts (CBMC, CaDiCaL)")
        if box.get("verus") is not None:
            self.judge_verus(box["verus"], nat)
            cmds.append("verus (Z3)")
        self.cov.update(obligations=self.obligations, discharged=self.discharged, checker_cmd="; ".join(cmds),
                        trusted_base=sorted(set(self.trusted)), functions_under_contract=sorted(set(self.functions)),
                        undecided=self.undecided, bounded=self.bounded)
        return self.report()

    @staticmethod
    def confirmed(nat, b, **more):
        """The violation a broken call found by the search is, once it breaks again in a process of its own."""
        again = nat.replay(b["target"], b["raw"])
        if again.get("verdict") == "broken":
            return dict(obligation=b["target"], args=again.get("args") or b["args"], why=again.get("why"), raw=b["raw"], input=True, **more)
        h = nat.history(b, f"{WORK}/dict.txt")
        if h:  # it takes the calls before it
            return dict(obligation=b["target"], args=h["args"], why=h["why"], calls_before=h["calls"] - 1, raw_calls=h["raws"],
                        first_call_from=b["from"], input=True, **more)
        return None

    def judge_kani(self, r, nat):
        if r.error:
            self.undecided.append(r.error)
            self.say("kani undecided:", r.error[-400:])
            return
        bnd = self.cfg["kani"]["bounded"]
        solver = 0.0
        proved = 0
        for n, h in sorted(r.harnesses.items()):
            fn = n.rsplit("::", 1)[0]
            is_b = any(re.search(b, n) for b in bnd)
            solver += h["solver_s"]
            if is_b:
                self.bounded.append(dict(harness=n, status=h["status"], why=h["why"], checks=h["obligations"]))
            else:
                self.functions.append(fn)
                self.obligations += h["obligations"]
                self.discharged += h["discharged"]
            if h["status"] == "proved":
                proved += 1
            elif h["status"] in ("undecided", "vacuous"):
                self.undecided.append(f"{n}: {h['status']}: {h['why']}")
            elif h["status"] == "failed":
                self.kani_failure(n, h, nat)
        if not r.harnesses:
            self.undecided.append("kani found no harness")
        self.cov["kani" if "kani" not in self.cov else "kani_histories"] = dict(harnesses=len(r.harnesses), proved=proved, solver_s=round(solver, 3), wall_s=round(r.wall, 1),
                                back_end="CBMC 6.11.0 with CaDiCaL, bit-precise machine arithmetic",
                                covers_met=sum(h["covers_met"] for h in r.harnesses.values()))

    def kani_failure(self, n, h, nat):
        desc = "; ".join(f["description"][:300] for f in h["failures"][:3])
        self.say("kani: failed obligation", n, desc[:300])
        target = n.rsplit("::", 1)[0]
        if any(v["obligation"] == target and v["input"] for v in self.violations):
            for v in self.violations:
                if v["obligation"] == target:
                    v["failed_obligation"] = dict(harness=n, failures=h["failures"][:5])
            return
        confirm = self.cfg.get("confirm")
        raw, text = None, ""
        if nat and nat.bin:
            try:
                vals, text = kani.playback(self.cfg["kani"]["feature"], n)
                for v in vals:
                    a = nat.replay(target, v)
                    if a.get("verdict") == "broken":
                        raw = v
                        self.violations.append(dict(obligation=target, args=a.get("args"), why=a.get("why"), raw=v, input=True,
                                                    found_by="kani counterexample, replayed on the real code",
                                                    failed_obligation=dict(harness=n, failures=h["failures"][:5])))
                        return
            except Exception as e:
                text = repr(e)
        if confirm and re.search(confirm["state_harness"], n):
            # an inductive step over private state failed and the counterexample could not be replayed: the state may be
            # one no call sequence reaches, so the histories decide
            self.undecided.append(f"{n}: failed from a state not confirmed reachable; the history harnesses decide: {desc[:200]}")
            if not self.lazy_done and self.cfg["kani"]["lazy"]:
                self.lazy_done = True
                if self.tier != "thorough":
                    self.judge_kani(kani.run_kani(self.cfg["kani"]["feature"], self.cfg["kani"]["lazy"], timeout=240, total=300), nat)
            return
        self.violations.append(dict(obligation=target, args="", why=desc, raw=None, input=False, found_by="kani",
                                    failed_obligation=dict(harness=n, failures=h["failures"][:5]), output=text))

    def judge_verus(self, r, nat):
        from . import verus
        verus.judge(self, r, nat)

    def report(self):
        listed = known(self.prop)
        fresh = []
        shown = set()
        for v in self.violations:
            text = f"{v['obligation']} {v['args']} {v['why']}"
            hit = next((w for (rx, w) in listed if rx.search(text)), None)
            if hit:
                if hit not in shown:
                    print(f"KNOWN-FINDING: property={self.prop} {hit}")
                    shown.add(hit)
            else:
                fresh.append(v)
        level = self.cfg.get("level", "proof")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(f"{EVID}/{self.prop}.json", "w"), indent=1)
        for u in self.undecided:
            self.say("undecided:", u[:400])
        self.say(f"obligations {self.discharged}/{self.obligations} discharged, {len(self.undecided)} undecided,",
                 f"native calls {self.cov.get('native_search', {}).get('calls', 0)}")
        if not fresh:
            return 0
        fresh.sort(key=lambda v: not v["input"])
        rp = f"{EVID}/replay/{self.prop}.json"
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=self.prop, violations=fresh,
                       how="each entry with raw replays on the real code: .work/bin/<feature> replay <obligation> <raw>; one with raw_calls fails after the calls before it: .work/bin/<feature> calls <obligation> <file of raw_calls>"),
                  open(rp, "w"), indent=1)
        for v in fresh[:5]:
            self.say("broken:", v["obligation"], (v["args"] or "")[:300], "--", (v["why"] or "")[:300])
        tail = "" if fresh[0]["input"] else " no-failing-input-found"
        print(f"VIOLATION property={self.prop} replay={rp}{tail}", flush=True)
        return 1


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Check(prop, tier, seed).run()
