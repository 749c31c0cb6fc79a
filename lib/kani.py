"""Runs Kani harnesses over the real crates and reads their verdicts."""
import os, re, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Check failures that say "Kani cannot decide", not "the contract is broken".
UNDECIDED = re.compile(r"unwinding assertion|not currently supported|unsupported|recursion unwinding|is not supported|unable to|call to foreign|missing definition", re.I)


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC", "CARGO"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cap-lints=allow"
    return e


def run(harnesses, target, timeout, extra=(), jobs=8):
    cmd = ["cargo", "kani", "--target-dir", target, "-Z", "stubbing", "--output-format", "terse"]
    if jobs:
        cmd += ["-j", str(jobs)]
    cmd += list(extra)
    for h in harnesses:
        cmd += ["--harness", h, ]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "kani"), env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT\n", -1
    return out, rc, time.time() - t, " ".join(cmd)


def parse(out):
    """harness name -> dict(status, checks, failed, unreachable, covers, covers_ok, time, failures)"""
    cur, res, name = {}, {}, None
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[m.group(1)] = m.group(2)
            res[m.group(2)] = dict(status=None, checks=0, failed=0, covers=0, covers_ok=0, time=0.0, failures=[])
            name = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*(.*)", line)
        if m:
            name = cur.get(m.group(1))
            line = m.group(2)
        r = res.get(name)
        if r is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["failed"], r["checks"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covers_ok"], r["covers"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"\s*Failed Checks: (.*)", line)
        if m:
            r["failures"].append(m.group(1).strip())
        m = re.search(r"VERIFICATION:- (\w+)", line)
        if m:
            r["status"] = m.group(1)
        m = re.search(r"Verification Time: ([0-9.]+)s", line)
        if m:
            r["time"] = float(m.group(1))
    return res


def verdict(r):
    """'ok' | 'fail' | 'undecided'"""
    if r["status"] == "SUCCESSFUL":
        return "ok" if r["checks"] > 0 and r["covers"] > 0 and r["covers_ok"] == r["covers"] else "undecided"
    if r["status"] == "FAILED":
        real = [f for f in r["failures"] if not UNDECIDED.search(f)]
        soft = [f for f in r["failures"] if UNDECIDED.search(f)]
        # With an undecided check among the failures, the others may be artefacts of it.
        return "fail" if real and not soft else "undecided"
    return "undecided"


def playback(harness, target, timeout):
    """The counterexample of a failing harness, as a list of hex byte strings in order of use."""
    out, rc, t, cmd = run([harness], target, timeout, extra=["-Z", "concrete-playback", "--concrete-playback=print", "--exact"], jobs=0)
    sets = []
    for m in re.finditer(r"let concrete_vals[^=]*= vec!\[(.*?)\n\s*\];", out, re.S):
        vals = []
        for v in re.finditer(r"^\s*vec!\[([0-9, ]*)\]", m.group(1), re.M):
            vals.append("".join("%02x" % int(b) for b in v.group(1).replace(" ", "").split(",") if b != ""))
        sets.append(vals)
    return sets, out
