"""C12: what the SQL of moving transactions off the main timeline does (db/src/timelines.rs)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import extract, sqlvc
from sqlvc import Unsupported, lit

META = dict(
    functions=["db/src/timelines.rs :: rewind_datoms", "db/src/timelines.rs :: move_transactions_to", "db/src/timelines.rs :: collect_ordered_txs_to_move (its query)",
               "db/src/timelines.rs :: is_timeline_empty (its query)", "db/src/db.rs :: V1_STATEMENTS (tables)"],
    assumes=["SQLite executes the statements as the calculus of lib/sqlvc.py has it (relations, three-valued conditions, maximum of a set)",
             "the log of the main timeline is well formed: a fact is added only while it is not there and retracted only while it is, and changes at most once in a transaction (C02, unit sql_log)",
             "before the first rewind the facts are those of the log (C02)",
             "how datoms are indexed is not part of a fact here (index_datoms)"])
F = ("e", "a", "v", "value_type_tag")


def main_timeline(src):
    m = re.search(r"(?:static|const) TIMELINE_MAIN\s*:\s*\w+\s*=\s*(-?\d+)\s*;", src("db/src/lib.rs").text)
    if not m:
        raise extract.LostAnchor("TIMELINE_MAIN")
    return int(m.group(1))


def params(f, n):
    """The parameters of statement n of a function, by the names bound in the source."""
    named = dict(re.findall(r"let (\w+)\s*:[^=;]*=\s*&\[([^\]]*)\];", f.body))
    out = []
    for pos, text in sqlvc.literals(f.body):
        if sqlvc.SQL.match(text):
            rest = f.body[pos:]
            lits = sqlvc.LIT.match(rest)
            tail = rest[lits.end():].lstrip().lstrip(",").lstrip()
            m = re.match(r"&?\[([^\]]*)\]", tail) or None
            if m:
                out.append(m.group(1))
            else:
                k = re.match(r"&?(\w+)", tail)
                out.append(named.get(k.group(1)) if k else None)
    if n >= len(out) or out[n] is None:
        raise Unsupported("parameters of statement %d of %s" % (n, f.name))
    return [p.strip().lstrip("&* ").strip() for p in out[n].split(",") if p.strip()]


def vcs(src):
    s = src("db/src/timelines.rs")
    main = main_timeline(src)
    v1 = src("db/src/db.rs")
    v1 = [t for _, t in sqlvc.literals(v1.text[v1.text.index("V1_STATEMENTS"):v1.text.index("fn set_user_version")]) if t.lstrip().upper().startswith("CREATE")]
    tables, views, unique, dfl = sqlvc.ddl(v1)
    for n in ("datoms", "timelined_transactions"):
        if n not in tables:
            raise extract.LostAnchor("no table " + n)
    D = sqlvc.base_table("datoms", [("rowid", False)] + tables["datoms"])
    L = sqlvc.base_table("timelined_transactions", tables["timelined_transactions"])
    T = z3.Int("tx")
    st = sqlvc.State({"datoms": D, "timelined_transactions": L, "!defaults": dfl})
    f = s.fn("rewind_datoms")
    sqlvc.straight(f)
    arg = re.search(r"(\w+): Entid", f.head).group(1)
    names = {arg: T, "crate::TIMELINE_MAIN": z3.IntVal(main), "TIMELINE_MAIN": z3.IntVal(main)}
    for i, (text, holes) in enumerate(sqlvc.statements(f)):
        if holes:
            raise Unsupported("format arguments in rewind_datoms")
        ps = {}
        for k, p in enumerate(params(f, i)):
            if p not in names:
                raise Unsupported("parameter " + p)
            ps[k + 1] = names[p]
        sqlvc.Eval(st, ps).run(text, [])
    D1 = st.tables["datoms"]

    def logged(fact, tx, added):
        return L(dict({c: lit(x) for c, x in zip(F, fact)}, tx=lit(tx), added=lit(z3.IntVal(added)), timeline=lit(z3.IntVal(main))))

    def quiet(fact, lo, hi, upto):
        """Nothing about the fact strictly between, or up to hi."""
        x = z3.FreshConst(z3.IntSort(), "x")
        inside = z3.And(lo < x, x <= hi if upto else x < hi)
        return z3.ForAll([x], z3.Implies(inside, z3.And(z3.Not(logged(fact, x, 1)), z3.Not(logged(fact, x, 0)))))

    def there(fact, tx, hi, upto):
        return z3.And(logged(fact, tx, 1), tx <= hi if upto else tx < hi, quiet(fact, tx, hi, upto))

    def fact(tag):
        return tuple(z3.Int(tag + c) for c in F)

    def holds(table, fct, tx):
        r = table.fresh("h")
        return sqlvc.quantify(sqlvc.vars_of(r), z3.And(table(r), *([r[c].val == x for c, x in zip(F, fct)] + [r["tx"].val == tx])))

    q, x, y = fact("q"), z3.Int("qx"), z3.Int("qy")
    prev = z3.Function("prev", *([z3.IntSort()] * 6))
    p = prev(*(list(q) + [x]))
    H = []
    a, b = D.fresh("a"), D.fresh("b")
    H.append(z3.ForAll(sqlvc.vars_of(a) + sqlvc.vars_of(b), z3.Implies(z3.And(D(a), D(b), a["rowid"].val == b["rowid"].val), z3.And(*[sqlvc.eqv(a[k], b[k]) for k in a]))))
    r = L.fresh("l")
    H.append(sqlvc.forall(r, z3.Implies(L(r), z3.Or(r["added"].val == 0, r["added"].val == 1))))
    # well-formed log
    H.append(z3.ForAll(list(q) + [x], z3.Not(z3.And(logged(q, x, 1), logged(q, x, 0)))))
    H.append(z3.ForAll(list(q) + [x], z3.Implies(logged(q, x, 0), z3.And(logged(q, p, 1), p < x, quiet(q, p, x, False)))))
    H.append(z3.ForAll(list(q) + [x, y], z3.Implies(z3.And(logged(q, x, 1), logged(q, y, 1), y < x), z3.Not(quiet(q, y, x, False)))))
    # the facts are those of the log up to T
    H.append(z3.ForAll(list(q) + [x], z3.Implies(there(q, x, T, True), holds(D, q, x))))
    d = D.fresh("d")
    H.append(sqlvc.forall(d, z3.Implies(D(d), there(tuple(d[c].val for c in F), d["tx"].val, T, True))))

    g, t = fact("g_"), z3.Int("g_tx")
    out = [("rewinding a transaction leaves the facts of the log before it: none missing", H, z3.Implies(there(g, t, T, False), holds(D1, g, t)))]
    r = D1.fresh("n")
    g1 = tuple(r[c].val for c in F)
    out.append(("rewinding a transaction leaves the facts of the log before it: none besides", H, z3.Implies(D1(r), z3.And(z3.Not(r["tx"].null), there(g1, r["tx"].val, T, False)))))

    # The relabelling.
    f = s.fn("move_transactions_to")
    new = re.search(r"(\w+): Entid\b(?!\])", f.head).group(1)
    N, moved = z3.Int("new_timeline"), z3.Function("moved", z3.IntSort(), z3.BoolSort())
    sts = sqlvc.statements(f)
    if len(sts) != 1:
        raise Unsupported("move_transactions_to has %d statements" % len(sts))
    text, holes = sts[0]
    known = {new: N, "crate::TIMELINE_MAIN": z3.IntVal(main)}
    hs = []
    for h in holes:
        if re.match(r"(crate::)?repeat_values\((\w+)\.len\(\), 1\)$", h):
            hs.append(lambda v: moved(v))
        elif h in known:
            hs.append(known[h])
        else:
            raise Unsupported("format argument " + h)
    st2 = sqlvc.State({"timelined_transactions": L})
    sqlvc.Eval(st2, {}).run(text, hs)
    L1 = st2.tables["timelined_transactions"]
    r = L.fresh("m")
    ours = z3.And(r["timeline"].val == main, moved(r["tx"].val))
    same = L(r)
    put = z3.And(r["timeline"].val == N, moved(r["tx"].val), L(dict(r, timeline=lit(z3.IntVal(main)))))
    out.append(("the moved transactions are under the other timeline, and the rest is as it was", [N != main], L1(r) == z3.Or(z3.And(same, z3.Not(ours)), put)))

    # The transactions that are moved.
    f = s.fn("collect_ordered_txs_to_move")
    start, tl = z3.Int("start"), z3.Int("timeline")
    (text, holes), = sqlvc.statements(f)
    m = re.search(r"&\[([^\]]*)\]", f.body)
    rng, tln = re.search(r"(\w+): RangeFrom<Entid>", f.head).group(1), re.findall(r"(\w+): Entid", f.head)[-1]
    ps = {}
    for k, pn in enumerate(m.group(1).split(",")):
        pn = pn.strip().lstrip("&")
        ps[k + 1] = {rng + ".start": start, tln: tl}.get(pn)
        if ps[k + 1] is None:
            raise Unsupported("parameter " + pn)
    order = re.search(r"\s+ORDER BY (\w+)( ASC| DESC)?\s*$", text, re.I)
    q0 = re.sub(r"\s+GROUP BY \w+", "", text[:order.start()] if order else text)
    rel = sqlvc.Eval(sqlvc.State({"timelined_transactions": L}), ps).run(q0, [])
    x, w = z3.Int("c_tx"), z3.Int("c_tl")
    r = L.fresh("w")
    want = sqlvc.quantify(sqlvc.vars_of(r), z3.And(L(r), r["tx"].val == x, r["timeline"].val == tl, x >= start))
    names = rel.names()
    if len(names) != 2:
        raise Unsupported("the query of collect_ordered_txs_to_move")
    out.append(("the transactions to move are those of the timeline from the first one named", [], rel({names[0]: lit(x), names[1]: lit(w)}) == z3.And(want, w == tl)))
    if re.search(r"\b(sort\w*|reverse|rev)\s*\(", f.body):
        raise Unsupported("collect_ordered_txs_to_move sorts")
    once = bool(re.search(r"\bGROUP BY tx\b", text, re.I)) or bool(re.match(r"\s*SELECT DISTINCT", text, re.I))
    out.append(("the transactions to move come once each, latest first", [], z3.BoolVal(bool(order and order.group(1) == "tx" and (order.group(2) or "").strip().upper() == "DESC" and once))))

    # Whether a timeline is empty.
    f = s.fn("is_timeline_empty")
    (text, holes), = sqlvc.statements(f)
    arg = re.search(r"(\w+): Entid", f.head).group(1)
    if [a.strip().lstrip("&") for a in re.search(r"&\[([^\]]*)\]", f.body).group(1).split(",")] != [arg]:
        raise Unsupported("parameters of is_timeline_empty")
    rel = sqlvc.Eval(sqlvc.State({"timelined_transactions": L}), {1: tl}).run(re.sub(r"\s+GROUP BY \w+", "", text), [])
    r, k = L.fresh("w"), rel.fresh("k")
    out.append(("a timeline is empty if nothing is logged under it", [], sqlvc.exists(k, rel(k)) == sqlvc.exists(r, z3.And(L(r), r["timeline"].val == tl))))
    return out, META
