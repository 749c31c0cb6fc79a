#!/usr/bin/env python3
"""python3 check.py PROPERTY: decides one property against /repo's current working tree.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  Anything else: no answer.
"""
import json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import kani
from props import PROPS, QUICK_MS, THOROUGH_MS

BUILD = os.path.join(HERE, "build")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def repo_env():
    """The environment the repository itself is built with."""
    e = dict(os.environ)
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE)
    for kv in p.stdout.decode("utf8", "replace").split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e.pop("CARGO_TARGET_DIR", None)
    e["RUSTFLAGS"] = "--cap-lints=allow"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_PROFILE_DEV_DEBUG"] = "false"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_replay():
    tgt = os.path.join(BUILD, "replay")
    p = subprocess.run(["cargo", "build", "--offline", "--target-dir", tgt], cwd=os.path.join(HERE, "replay"), env=repo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return None, p.stdout.decode("utf8", "replace")[-4000:]
    return os.path.join(tgt, "debug", "replay"), ""


class Kani(threading.Thread):
    def __init__(self, spec, timeout):
        threading.Thread.__init__(self, daemon=True)
        self.spec, self.timeout = spec, timeout
        self.out, self.res, self.cmd, self.time = "", {}, "", 0.0

    def run(self):
        if self.spec:
            self.out, rc, self.time, self.cmd = kani.run(self.spec, os.path.join(BUILD, "kani"), self.timeout)
            self.res = kani.parse(self.out)


class Deductive(threading.Thread):
    """Verus units and SQL verification conditions."""
    def __init__(self, units, tier):
        threading.Thread.__init__(self, daemon=True)
        self.units, self.tier, self.res = units, tier, []

    def run(self):
        for u in self.units:
            try:
                import units
                self.res.extend(units.run(u, self.tier, BUILD))
            except Exception as e:  # a fault of the machinery decides nothing
                self.res.append(dict(name=u, backend="?", verdict="undecided", obligations=1, discharged=0, why="%s: %s" % (type(e).__name__, e), time=0.0))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    ms = spec.get("thorough_ms", THOROUGH_MS) if tier == "thorough" else spec.get("quick_ms", QUICK_MS)
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    path = os.path.join(BUILD, "replays", pid + ".txt")
    if os.path.exists(path):
        os.remove(path)

    k = Kani(spec.get("kani", []), 600)
    k.start()
    d = Deductive(spec.get("units", []), tier)
    d.start()
    exe, err = build_replay()
    log("replay harness built" if exe else "replay harness does not build")
    rep = dict(evaluations=0, distinct_nontrivial=0, groups=[], counts={}, samples=[], failed=None)
    violations = []   # (what, confirmed)
    known = []
    if exe:
        p = subprocess.run([exe, "run", pid, str(seed), str(ms), path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            rep = json.loads(p.stdout.decode("utf8", "replace"))
        except ValueError:
            log("replay harness gave no report")
            exe = None
        if rep.get("failed"):
            violations.append(("real code, case %s: %s" % (rep["failed"].get("group"), rep["failed"].get("what")), True))
        log("replay:", rep["evaluations"], "cases,", rep["distinct_nontrivial"], "distinct non-trivial,", "FAILED " + str(rep["failed"]) if rep.get("failed") else "no failure")
        # Known findings: each is demonstrated again; none of them hides another violation.
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                q = subprocess.run([exe, "probe", m.group(2)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if q.returncode == 1:
                    print("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)), flush=True)
                    known.append(m.group(3))
                else:
                    log("known finding no longer reproduces:", m.group(3))

    k.join()
    d.join()
    obligations = discharged = 0
    functions, undecided, solver = [], [], 0.0
    for h, r in sorted(k.res.items()):
        v = kani.verdict(r)
        obligations += r["checks"] + r["covers"]
        if v == "ok":
            discharged += r["checks"] + r["covers_ok"]
        solver += r["time"]
        functions.append(dict(contract=h, backend="kani/cbmc", checks=r["checks"], failed=r["failed"], seconds=round(r["time"], 2), verdict=v))
        if v == "undecided":
            undecided.append("%s: %s" % (h, "; ".join(r["failures"]) or r["status"]))
        if v == "fail":
            what = "Kani contract %s: %s" % (h, "; ".join(r["failures"]))
            log(what)
            short, confirmed, note = h.split("::")[-1], False, ""
            sets, pout = kani.playback(h, os.path.join(BUILD, "kani"), 400)
            for vals in sets:
                if not exe:
                    break
                q = subprocess.run([exe, "contract", short] + vals, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                o = q.stdout.decode("utf8", "replace").strip()
                note += "\ncounterexample values (hex, in order of use): %s\nreplay on the real code: %s contract %s %s\n  -> %s\n" % (vals, exe, short, " ".join(vals), o)
                if q.returncode == 1:
                    confirmed = True
            violations.append((what, confirmed))
            with open(path, "a") as f:
                f.write("\nfailed obligation: %s\n%s\nverifier output:\n%s\n" % (what, note, pout[-3000:]))
    if spec.get("kani") and not k.res:
        undecided.append("kani gave no verdict: " + k.out[-1500:])
    for u in d.res:
        obligations += u["obligations"]
        discharged += u["discharged"]
        solver += u.get("time", 0.0)
        functions.append({a: b for a, b in u.items() if a not in ("output",)})
        if u["verdict"] == "fail":
            what = "%s obligation %s: %s" % (u["backend"], u["name"], u.get("why", ""))
            log(what)
            violations.append((what, False))
            with open(path, "a") as f:
                f.write("\nfailed obligation: %s\nverifier output:\n%s\n" % (what, u.get("output", "")[-4000:]))
        elif u["verdict"] != "ok":
            undecided.append("%s: %s" % (u["name"], u.get("why", "")))

    # An obligation failed and no input shows it yet: look for one with the time that is left.
    extra = int(min(240.0, 800.0 - (time.time() - T0)) * 1000)
    if violations and not any(v[1] for v in violations) and exe and extra > 10000:
        log("looking for a failing input for another %d s" % (extra // 1000))
        p = subprocess.run([exe, "run", pid, str(seed + 7919), str(extra), path + ".more"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            more = json.loads(p.stdout.decode("utf8", "replace"))
        except ValueError:
            more = {}
        if more.get("failed"):
            violations.append(("real code, case %s: %s" % (more["failed"].get("group"), more["failed"].get("what")), True))
            with open(path, "a") as f:
                f.write("\n" + open(path + ".more").read())

    import trust
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=[c for c in [k.cmd] + sorted(set(u.get("cmd", "") for u in d.res)) if c],
        trusted_base=trust.trusted(pid, d.res),
        contracts=functions, solver_seconds=round(solver, 2), undecided=undecided,
        assumption_scan=trust.scan(HERE, PROPS[pid].get("units", []), bool(PROPS[pid].get("kani"))),
        bounded_stand_in=dict(note="bounded, not counted as proved: random cases against the real code", evaluations=rep["evaluations"],
                              distinct_nontrivial=rep["distinct_nontrivial"], rule=trust.RULE, groups=rep["groups"], counts=rep["counts"], milliseconds=ms),
        evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct_nontrivial"], rule=trust.RULE, samples=rep["samples"],
        known_findings=known, violations=[v[0] for v in violations],
    )
    cov["checker_cmd"] = "; ".join(cov["checker_cmd"]) or "none"
    level = "proof" if obligations else "exploration"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - T0, 1)), f, indent=1)
    log("obligations %d, discharged %d, undecided %d" % (obligations, discharged, len(undecided)))
    for u in undecided:
        log("undecided:", u[:600])
    if violations:
        for v in violations:
            log("violated:", v[0][:600])
        conf = any(v[1] for v in violations)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if conf else " no-failing-input-found"), flush=True)
        return 1
    if not exe:
        # nothing ran the real code and the verifiers alone do not cover the property
        print("no answer: the replay harness does not build\n" + err)
        return 2
    return 0


sys.exit(main())
