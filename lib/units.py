"""Verus units: contracts on functions extracted from /repo's current source on every run."""
import importlib.util, json, os, re, subprocess, time
import extract
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRELUDE = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::pervasive::unreached;
"""


class Unit:
    """What a unit module gets: the extractor, and a place to note what it assumes."""
    def __init__(self, root=None, canary=False):
        self.root, self.canary = root, canary
        self.rewrites, self.assumes, self.functions, self.canaries = [], [], [], 0

    def src(self, path):
        return extract.Source(path, self.root)

    def struct(self, src, name, vis="pub ", fields=True):
        t = src.struct(name)
        if fields and t.startswith("struct"):
            t = pub_fields(t)
        return vis + t + "\n"

    def assume(self, text):
        self.assumes.append(text)

    def emit(self, f, spec="", vis="pub "):
        self.functions.append("%s :: %s" % (f.path, f.name))
        self.rewrites += f.rewrites
        t = f.emit(spec, vis)
        if self.canary:
            # vacuity check: with this the function must stop verifying
            i = t.rindex(f.body)
            self.canaries += 1
            h = re.match(r"\{\s*(?:hide\(\w+\);\s*)*", t[i:]).end()
            t = t[:i + h] + " proof { assert(false); } " + t[i + h:]
        return t


def pub_fields(t):
    """Makes the fields of a struct visible to the specifications; no effect at run time."""
    m = extract.mask(t)
    if "{" in m:
        return re.sub(r"(?m)^(\s*)(?:pub(?:\([a-z]+\))?\s+)?([a-z_]\w*\s*:)", r"\1pub \2", t)
    i = m.index("(")
    e = extract.close_of(m, i)
    parts, d, cur = [], 0, ""
    for c in t[i + 1:e]:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        parts.append(cur)
    return t[:i + 1] + ", ".join("pub " + re.sub(r"^\s*pub(\([a-z]+\))?\s+", "", p).strip() for p in parts) + t[e:]


def bail(unit_err="Err(Error::new())"):
    return lambda args: "return " + unit_err


def first_arg(args):
    m, d = extract.mask(args), 0
    for i, c in enumerate(m):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "," and d == 0:
            return args[:i]
    return args


def load(name):
    p = os.path.join(HERE, "units", name + ".py")
    spec = importlib.util.spec_from_file_location("unit_" + name, p)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


SOFT = re.compile(r"resource limit|rlimit|timed out|not supported|unsupported|internal error|could not determine", re.I)
HARD = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|(?:loop )?invariant not satisfied[^\n]*|possible arithmetic[^\n]*|possible division[^\n]*|unreachable[^\n]*|decreases not satisfied[^\n]*|recommendation not met)", re.M)


def verus(path, rlimit, timeout):
    cmd = ["verus", path, "--rlimit", str(rlimit), "--num-threads", "4", "--time"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=os.path.dirname(path), env=dict(os.environ, RUST_MIN_STACK="200000000"))
        out = p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode("utf8", "replace") + "\nerror: timed out\n"
    return out, time.time() - t, " ".join(cmd)


def generate(name, root=None, canary=False):
    u = Unit(root, canary)
    body = load(name).build(u)
    return u, PRELUDE + "verus! {\n" + body + "\n}\nfn main() {}\n"


def run_sql(name, tier, root):
    """SQL verification conditions, discharged by z3."""
    cmd = ["python3-vt", os.path.join(HERE, "lib", "sqlmain.py"), name, root or extract.REPO, "20" if tier == "quick" else "90"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    try:
        res = json.loads(p.stdout.decode("utf8", "replace"))
    except ValueError:
        return [dict(name=name, backend="sql-vc/z3", verdict="undecided", obligations=1, discharged=0, time=0.0, why="no result: " + p.stderr.decode("utf8", "replace")[-1500:])]
    for r in res:
        r.update(backend="sql-vc/z3", cmd=" ".join(cmd))
    return res


def run(name, tier, build, root=None):
    res = dict(name=name, backend="verus/z3", verdict="undecided", obligations=1, discharged=0, why="", time=0.0)
    try:
        if name.startswith("sql_"):
            return run_sql(name, tier, root)
        mod = load(name)
        u, text = generate(name, root)
    except extract.LostAnchor as e:
        res["why"] = "lost anchor: %s" % e
        return [res]
    d = os.path.join(build, "units")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".rs")
    with open(path, "w") as f:
        f.write(text)
    rl = getattr(mod, "RLIMIT", 30)
    out, t, cmd = verus(path, rl if tier == "quick" else rl * 4, 300)
    res.update(time=round(t, 2), cmd=cmd, output=out[-6000:], functions=u.functions, rewrites=u.rewrites, assumes=u.assumes)
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    if not m:
        res["why"] = "the verifier does not take the extracted text: " + " | ".join(re.findall(r"^error[^\n]*", out, re.M)[:3])
        return [res]
    ok, bad = int(m.group(1)), int(m.group(2))
    res.update(obligations=ok + bad, discharged=ok)
    if bad == 0 and ok > 0:
        cu, ctext = generate(name, root, canary=True)
        cpath = os.path.join(d, name + "_canary.rs")
        with open(cpath, "w") as f:
            f.write(ctext)
        cout, ct, _ = verus(cpath, rl, 300)
        cm = re.search(r"verification results:: (\d+) verified, (\d+) errors", cout)
        res["time"] = round(t + ct, 2)
        res["canaries"] = cu.canaries
        if not cm or int(cm.group(2)) < cu.canaries:
            res.update(verdict="undecided", discharged=0, why="vacuous: a function whose body asserts false still verifies")
            return [res]
        res["verdict"] = "ok"
        return [res]
    errs = HARD.findall(out)
    soft = any(SOFT.search(l) for l in out.split("\n") if l.startswith("error"))
    where = re.findall(r"^error: ([^\n]*)\n\s*--> [^\n]*:(\d+):\d+\n(?:[^\n]*\n){1,6}", out, re.M)
    lines = text.split("\n")
    res["why"] = "; ".join("%s: %s" % (w[0], lines[int(w[1]) - 1].strip()) for w in where[:4])
    res["verdict"] = "fail" if errs and not soft else "undecided"
    return [res]


if __name__ == "__main__":
    import sys, json
    for r in run(sys.argv[1], "quick", os.path.join(HERE, "build"), sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != "-v" else None):
        o = r.pop("output", "")
        if r["verdict"] != "ok":
            print(re.split(r"\ntotal-time|\(use --output-json", o)[0])
        if "-v" not in sys.argv:
            r = {k: r.get(k) for k in ("name", "verdict", "why", "obligations", "discharged", "canaries", "time")}
        print(json.dumps(r))
