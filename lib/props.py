"""What decides each property: Kani contracts, Verus units, SQL verification conditions, and the
bounded stand-in (replay groups are chosen inside the replay binary by property id)."""

PROPS = {
    "C01": dict(units=["sql_facts", "txcheck"]),
    "C02": dict(units=["sql_log"]),
    "C03": dict(units=["upsert", "labels"]),
    "C04": dict(kani=["c04_"], units=["partitions"]),
    "C05": dict(units=["txcheck", "typecheck"]),
    "C06": dict(kani=["c06_"], units=["sql_card", "txcheck"]),
    "C07": dict(units=["values"]),
    "C08": dict(kani=["c08_"], units=["altset"]),
    "C09": dict(kani=["c09_"]),
    "C10": dict(units=["atomic"]),
    "C11": dict(units=["caches"]),
    "C12": dict(units=["sql_rewind", "timeline"]),
    "C13": dict(units=["observers"]),
    "C14": dict(units=["clauses", "ground", "predicates", "wheres"]),
    "C15": dict(kani=["c15_"]),
    "C16": dict(units=["sqlbuilder"]),
    "C17": dict(units=["projection", "projectors", "shape"]),
    "C18": dict(units=["pull"]),
    "C19": dict(units=["ednprint"]),
    "C20": dict(units=["names", "ednorder"]),
    "C21": dict(units=["vocab"]),
    "C23": dict(units=["builders"]),
}
QUICK_MS = 20000
THOROUGH_MS = 240000
NOT_APPLICABLE = {}
_ALL = ["C%02d" % i for i in range(1, 25)]
NOT_APPLICABLE["C22"] = "convergence of several stores and a remote under all interleavings and failures is a whole-history, distributed property; no contract on one function expresses it and the remote client is network code"
NOT_APPLICABLE["C24"] = "the statement is about thread interleavings; Kani has no thread support and Verus would need permission types the code does not have"
for _p in _ALL:
    if _p not in PROPS and _p not in NOT_APPLICABLE:
        NOT_APPLICABLE[_p] = "check not built yet"
