"""The native side: the contracts evaluated against the real compiled code (search and replay)."""
import json, os, re, shutil, threading
from .common import *


class Native:
    def __init__(self, feature, mock=False, profile="release"):
        self.feature, self.mock = feature, mock
        self.bin, self.error = None, None

    def build(self):
        feats = self.feature + (",mock_time" if self.mock else "")
        td = f"{WORK}/nt"
        rc, out, err = run(["cargo", NATIVE_TOOLCHAIN, "build", "--release", "--offline", "--no-default-features",
                            "--features", feats, "--target-dir", td], 400, cwd=CONTRACTS)
        if rc != 0:
            self.error = errors_of(err or "")
            return False
        dst = f"{WORK}/bin/{feats.replace(',', '-')}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(f"{td}/release/contracts", dst + ".new")
        os.replace(dst + ".new", dst)
        self.bin = dst
        return True

    def replay(self, target, raw, timeout=30):
        path = f"{WORK}/raw-{os.getpid()}-{threading.get_ident()}.txt"  # an argument would be too long for some
        try:
            open(path, "w").write(raw)
            rc, out, err = run([self.bin, "replay", target, "@" + path], timeout)
        finally:
            os.remove(path)
        for line in out.splitlines():
            if line.startswith("{"):
                return json.loads(line)
        if rc == 101:  # a panic outside the call and its postcondition: not the code's
            return {"verdict": "no replay"}
        why = "did not return" if rc is None else f"ended the process (status {rc})"
        return {"verdict": "broken", "target": target, "raw": raw, "args": "", "why": why}

    def history(self, b, dictfile):
        """A failing call that does not fail on its own: the calls of the search that lead to it, if they do so again
        in a process of their own; the shortest run of the last calls that suffices."""
        if not b.get("from"):
            return None
        calls = str(max(4 * b.get("tried", 0), 200000))
        got = [self._json([self.bin, "history", b["target"], b["from"], dictfile, calls], 60) for _ in (1, 2)]
        if any(g.get("verdict") != "broken" for g in got) or got[0] != got[1]:
            return None
        raws = got[0]["raws"].split()
        path = f"{WORK}/calls-{os.getpid()}.txt"
        try:
            for n in (2, 3, 4, 8, 16, 64, 256, 1024, 4096):
                open(path, "w").write("\n".join(raws[-n:]) + "\n")
                if self._json([self.bin, "calls", b["target"], path], 30).get("verdict") == "broken":
                    return dict(got[0], raws=raws[-n:])
                if n >= len(raws):
                    break
        finally:
            if os.path.exists(path):
                os.remove(path)
        return dict(got[0], raws=[], seed=b["from"])

    def _json(self, cmd, timeout):
        rc, out, err = run(cmd, timeout)
        for line in (out or "").splitlines():
            if line.startswith("{"):
                return json.loads(line)
        return {}

    def search(self, prefixes, seed, millis, dictfile):
        """(results, broken): one result per target; broken lists the failing calls."""
        res, broken = self._search(prefixes, seed, millis, dictfile, False)
        if res is None:  # crashed or hung: find the call
            res, broken = self._search(prefixes, seed, millis, dictfile, True)
        return res, broken

    def _search(self, prefixes, seed, millis, dictfile, log):
        rc, out, err = run([self.bin, "search", str(seed), str(millis), dictfile, "1" if log else "0", *prefixes],
                           millis / 1000 * 6 + 60 + (120 if log else 0))
        res = [json.loads(l) for l in out.splitlines() if l.startswith("{")]
        broken = [r for r in res if r.get("broken")]
        if rc == 0 or broken:
            return res, broken
        if not log:
            return None, []
        calls = re.findall(r"(?m)^CALL (\S+) (.*)$", err)
        if not calls:
            return res, []
        target, raw = calls[-1]
        why = "did not return" if rc is None else f"ended the process (status {rc})"
        return res, [{"broken": True, "target": target, "args": "(see raw)", "why": why, "raw": raw}]
