"""Shared pieces of the checks: paths, the derived manifest, running commands, literal dictionary."""
import json, os, re, subprocess, sys, time, tomllib, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
CONTRACTS = os.path.join(VERIF, "contracts")
NATIVE_TOOLCHAIN = "+1.80.1"  # panics unwind out of extern "C" here: a panic can be observed and the process goes on


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.pop("RUSTFLAGS", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout, cwd=VERIF, stop=None, **kw):
    """(rc, stdout, stderr); rc is None on timeout, or a minute after stop() became true. The whole process group is ended."""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=env(**kw), start_new_session=True)
    end = time.time() + timeout
    while True:
        try:
            out, err = p.communicate(timeout=max(0.1, min(2, end - time.time()) if stop else end - time.time()))
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            if stop and stop():
                end, stop = min(end, time.time() + 60), None
            elif time.time() >= end:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                return None, out, err


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def derive_manifest():
    """/repo/Cargo.toml as it is now, minus what needs a git dependency, a build script or dev tools; the library
    source is /repo/src itself, in place."""
    text = open(f"{REPO}/Cargo.toml").read()
    kept = []
    for table in re.split(r"(?m)^(?=\[)", text):
        header = table.split("\n", 1)[0].strip()
        if header.startswith("[build-dependencies") or header.startswith("[dev-dependencies") \
                or header.startswith("[[test") or header.startswith("[[bench") or header.startswith("[workspace"):
            continue
        if re.match(r"\[dependencies\.", header) and re.search(r"(?m)^\s*git\s*=", table):
            continue
        if header == "[dependencies]":
            table = re.sub(r"(?m)^.*\{.*\bgit\s*=.*\}.*\n?", "", table)
        if header == "[package]":
            table = re.sub(r"(?m)^(build|autotests)\s*=.*\n", "", table)
            table = table.replace("[package]", "[package]\nbuild = false\nautotests = false", 1)
        if header == "[lib]":
            table = re.sub(r"(?m)^(path|crate-type)\s*=.*\n?", "", table)
            table = table.replace("[lib]", f'[lib]\npath = "{REPO}/src/lib.rs"\ncrate-type = ["rlib"]', 1)
        kept.append(table.rstrip() + "\n\n")
    new = "".join(kept)
    if "[lib]" not in new:
        new += f'[lib]\npath = "{REPO}/src/lib.rs"\n'
    tomllib.loads(new)
    write_if_changed(f"{WORK}/dep/Cargo.toml", new)
    return f"{WORK}/dep"


def sources():
    return sorted(glob.glob(f"{REPO}/src/**/*.rs", recursive=True))


def strip_tests(text):
    i = text.find("#[cfg(test)]")
    return text if i < 0 else text[:i]


def harvest():
    """Integer, float and text literals of the current (non-test) sources: the native search is biased towards them."""
    ints, strs = set(), set()
    for f in sources():
        if "test_time_helpers" in f:
            continue
        t = strip_tests(open(f, errors="replace").read())
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)", t):
            s = m.group(1).replace("_", "")
            try:
                ints.add(int(s, 0) if not re.fullmatch(r"0\d+", s) else int(s))
            except ValueError:
                pass
        # products, shifts and sums of literals
        for m in re.finditer(r"\b\d[\d_]*(?:(?:[iu](?:8|16|32|64|128|size))?\s*(?:\*|<<|\+|-)\s*\d[\d_]*)+", t):
            e = re.sub(r"[iu](?:8|16|32|64|128|size)", "", m.group(0)).replace("_", "")
            try:
                if len(e) < 80:
                    ints.add(abs(eval(re.sub(r"\b0+(?=\d)", "", e)[:80], {}) if "<<" not in e or re.fullmatch(r"\d+\s*<<\s*\d{1,2}", e) else 0))
            except (SyntaxError, ValueError):
                pass
        for m in re.finditer(r"\\u\{([0-9a-fA-F_]+)\}|\\x([0-9a-fA-F]{2})", t):
            ints.add(int(m.group(1) or m.group(2), 16))
        for m in re.finditer(r"\b([ui])(8|16|32|64)::(MAX|MIN)\b", t):
            n = int(m.group(2)) - (m.group(1) == "i")
            ints.add(2**n - 1)
            ints.add(2**n)
        for m in re.finditer(r"b?'(\\?.)'|\"((?:[^\"\\\n]|\\.)*)\"", t):
            s = m.group(1) or m.group(2) or ""
            if len(m.group(1) or '') == 1:
                ints.add(ord(s))
            if 0 < len(s) <= 24 and "\\" not in s:
                strs.add(s)
    path = f"{WORK}/dict.txt"
    write_if_changed(path, "\n".join(str(i) for i in sorted(ints) if i < 2**64) + "\n")
    write_if_changed(f"{WORK}/strings.txt", "\n".join(sorted(strs)) + "\n")
    return path


def errors_of(text, n=1500):
    """The compiler errors in a build log, without the warnings."""
    blocks = re.split(r"\n(?=error|warning)", "\n" + text)
    e = [b.strip() for b in blocks if b.strip().startswith("error")]
    return "\n".join(e)[:n] or text[-n:]
