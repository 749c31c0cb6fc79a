"""What a verdict rests on."""
import os, re

RULE = "a case is a random history or value drawn from VERIF_SEED; non-trivial: it reached the comparison with the specification (its transaction committed or was rejected as specified, its query ran, its precondition held); distinct by input text"

BASE = [
    "rustc, Kani 0.68/CBMC, Verus/Z3 and the z3 solver are correct",
    "SQLite executes SQL as documented",
    "Kani harnesses: std::env::var_os and alloc::fmt::format are stubbed (error texts and environment never influence a contract); the backtrace crate is replaced by a stub",
]


def trusted(pid, res):
    t = list(BASE)
    for u in res:
        for a in u.get("assumes", []):
            if a not in t:
                t.append(a)
    return t


def scan(here, units=None, kani=True):
    """Occurrences of trusted constructs in the specifications of these units (and what they share)."""
    pat = re.compile(r"external_body|\bassume\(|\badmit\(|assume_specification|#\[verifier::external|kani::assume|kani::stub\b|\baxiom\b|uninterp")
    out = {}
    for root in ("kani/src", "shared", "units"):
        for d, _, fs in os.walk(os.path.join(here, root)):
            for f in fs:
                if not f.endswith((".rs", ".py", ".vrs")):
                    continue
                if root == "units" and units is not None and f[:-3] not in units and f[:-3] not in ("types", "rowset", "sqltx"):
                    continue
                if root != "units" and not kani:
                    continue
                for line in open(os.path.join(d, f), errors="replace"):
                    for m in pat.finditer(line):
                        k = "%s: %s" % (os.path.relpath(os.path.join(d, f), here), m.group(0))
                        out[k] = out.get(k, 0) + 1
    return out
