"""python3-vt sqlmain.py UNIT ROOT SECONDS: discharges the SQL verification conditions of a unit."""
import importlib.util, json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import extract, sqlvc


def main():
    name, root, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    spec = importlib.util.spec_from_file_location("unit_" + name, os.path.join(HERE, "units", name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    out = []
    try:
        goals, meta = mod.vcs(lambda p: extract.Source(p, root))
    except (extract.LostAnchor, sqlvc.Unsupported) as e:
        print(json.dumps([dict(name=name, verdict="undecided", obligations=1, discharged=0, time=0.0, why="%s: %s" % (type(e).__name__, e))]))
        return
    seen = {}
    for g, hyps, goal in goals:
        t = time.time()
        v, m = sqlvc.prove(hyps, goal, secs)
        key = tuple(h.get_id() for h in hyps)
        if key not in seen:
            seen[key] = sqlvc.consistent(hyps, min(secs, 8))
        r = dict(name="%s: %s" % (name, g), verdict={"ok": "ok", "fail": "fail", "unknown": "undecided"}[v], obligations=1,
                 discharged=1 if v == "ok" else 0, time=round(time.time() - t, 2), why="" if v == "ok" else "not valid" if v == "fail" else "solver: %s" % m,
                 output=("counterexample:\n%s" % m)[:6000] if v == "fail" else "")
        if v == "ok" and not seen[key]:
            r.update(verdict="undecided", discharged=0, why="vacuous: the hypotheses contradict each other")
        out.append(r)
    if out:
        out[0].update(meta)
    print(json.dumps(out))


main()
