"""What the SQL of one transaction does (db/src/db.rs: search, update_datoms, insert_transaction)."""
import re
import z3
import extract, sqlvc
from sqlvc import Val, lit, Unsupported

META = dict(
    functions=["db/src/db.rs :: search", "db/src/db.rs :: update_datoms", "db/src/db.rs :: insert_transaction",
               "db/src/db.rs :: materialize_mentat_transaction", "db/src/db.rs :: commit_mentat_transaction", "db/src/db.rs :: begin_tx_application (tables)", "db/src/db.rs :: V1_STATEMENTS (tables)"],
    assumes=["SQLite executes the statements as the calculus of lib/sqlvc.py has it (relations, three-valued conditions, LEFT JOIN, UNION ALL)",
             "SQL equality of two values of one attribute is equality of the values (attributes are typed: C05)",
             "what the search tables hold: the transaction's terms, an attribute in one of them only, one addition per single-valued attribute of an entity, nothing both added and retracted, one row per datom (checked in db/src/tx.rs; units C05/C06)",
             "before the transaction, single-valued attributes have one value, and the value type tag of a datom is that of its attribute (what C05 and C06 keep)",
             "the tables' unique indexes hold of what is stored: a statement that would break one fails, and the transaction with it"])


def body_calls(f, allowed):
    """The calls of a straight-line function, in order."""
    sqlvc.straight(f)
    out = [c for c in re.findall(r"\b(\w+)\s*\(", extract.mask(f.body)) if c not in ("Ok",)]
    for c in out:
        if c not in allowed:
            raise Unsupported("%s calls %s" % (f.name, c))
    return out


class Tx:
    """The state of the store through one transaction."""
    def __init__(self, src):
        s = src("db/src/db.rs")
        v1 = [t for _, t in sqlvc.literals(s.text[s.text.index("V1_STATEMENTS"):s.text.index("fn set_user_version")]) if t.lstrip().upper().startswith("CREATE")]
        bt = s.fn("begin_tx_application", r"impl MentatStoring for rusqlite::Connection")
        tmp = [t for _, t in sqlvc.literals(bt.body) if t.lstrip().upper().startswith("CREATE")]
        self.ddl = sqlvc.ddl(v1 + tmp)
        tables, self.views, self.unique, dfl = self.ddl
        self.t = {}
        for n, cols in tables.items():
            self.t[n] = sqlvc.base_table(n, ([("rowid", False)] if n in ("datoms",) else []) + cols)
        for n in ("exact_searches", "inexact_searches", "search_results", "datoms", "timelined_transactions"):
            if n not in self.t:
                raise extract.LostAnchor("no table " + n)
        self.st = sqlvc.State(dict(self.t, **{"!defaults": dfl}))
        self.st.tables["search_results"] = sqlvc.Table(self.t["search_results"].cols, lambda r: z3.BoolVal(False))
        self.tx = z3.Int("tx")
        self.ev = sqlvc.Eval(self.st, {1: self.tx})
        self.hyps = []
        D, X, I = self.t["datoms"], self.t["exact_searches"], self.t["inexact_searches"]
        self.D, self.X, self.I = D, X, I
        H = self.hyps
        a, b = D.fresh("a"), D.fresh("b")
        H.append(sqlvc.forall({**{"a" + k: v for k, v in a.items()}, **{"b" + k: v for k, v in b.items()}},
                              z3.Implies(z3.And(D(a), D(b), a["rowid"].val == b["rowid"].val), same(a, b))))
        have = {(t, tuple(sorted(c)), w) for t, c, w in self.unique}
        if ("datoms", ("a", "e", "v", "value_type_tag"), None) not in have:
            raise extract.LostAnchor("datoms has no unique index over e, a, v, value_type_tag")
        for t, cols, where in self.unique:
            if t in ("datoms", "inexact_searches"):
                if where and t == "datoms":
                    continue        # indexes on flags: not needed here
                H.append(sqlvc.unique_axiom(self.t[t], cols, where, self.ev))
        # what db/src/tx.rs guarantees of the search tables
        for S in (X, I):
            r, q = S.fresh("r"), S.fresh("q")
            H.append(sqlvc.forall(r, z3.Implies(S(r), z3.Or(r["added0"].val == 0, r["added0"].val == 1))))
            H.append(allof([r, q], z3.Implies(z3.And(S(r), S(q), r["e0"].val == q["e0"].val, r["a0"].val == q["a0"].val, r["v0"].val == q["v0"].val), same(r, q))))
            d = D.fresh("d")
            H.append(allof([r, d], z3.Implies(z3.And(S(r), D(d), r["a0"].val == d["a"].val), r["value_type_tag0"].val == d["value_type_tag"].val)))
            H.append(allof([r, q], z3.Implies(z3.And(S(r), S(q), r["a0"].val == q["a0"].val), z3.And(r["value_type_tag0"].val == q["value_type_tag0"].val, r["flags0"].val == q["flags0"].val))))
        r, q = X.fresh("r"), I.fresh("q")
        H.append(allof([r, q], z3.Implies(z3.And(X(r), I(q)), r["a0"].val != q["a0"].val)))
        # single-valued attributes have one value
        d, c = D.fresh("d"), D.fresh("c")
        H.append(allof([q, d, c], z3.Implies(z3.And(I(q), D(d), D(c), q["a0"].val == d["a"].val, d["a"].val == c["a"].val, d["e"].val == c["e"].val), same(d, c))))

        # the run, as the functions call it
        self.flags = {}
        fs = {n: s.fn(n) for n in ("search", "insert_transaction", "update_datoms")}
        impl = r"impl MentatStoring for rusqlite::Connection"
        order = body_calls(s.fn("materialize_mentat_transaction", impl), fs) + body_calls(s.fn("commit_mentat_transaction", impl), fs)
        self.steps = {}
        bits = self.bit_values(src)
        for n in order:
            sqlvc.straight(fs[n])
            for text, holes in sqlvc.statements(fs[n]):
                hs = []
                for h in holes:
                    m = re.match(r"AttributeBitFlags::(\w+) as u8$", h)
                    if not m or m.group(1) not in bits:
                        raise Unsupported("format argument " + h)
                    hs.append(bits[m.group(1)])
                self.ev.run(text, hs)
            self.steps[n] = dict(self.st.tables)
        self.bits = bits
        for n in fs:
            if n not in self.steps:
                raise Unsupported("%s is not called" % n)

    def bit_values(self, src):
        t = src("core-traits/lib.rs").struct("AttributeBitFlags")
        out = {}
        for n, v in re.findall(r"(\w+) = (1 << \d+|\d+)", t):
            out[n] = eval(v)
        if len(set(out.values())) < 4:
            raise extract.LostAnchor("AttributeBitFlags")
        return out

    # the vocabulary of the contracts
    def add(self, e, a, v):
        return z3.Or(self.searched(self.X, e, a, v, 1), self.searched(self.I, e, a, v, 1))

    def ret(self, e, a, v):
        return z3.Or(self.searched(self.X, e, a, v, 0), self.searched(self.I, e, a, v, 0))

    def searched(self, S, e, a, v, added, flags=None):
        r = S.fresh("s")
        c = [S(r), r["e0"].val == e, r["a0"].val == a, r["added0"].val == added]
        if v is not None:
            c.append(r["v0"].val == v)
        if flags is not None:
            c.append(r["flags0"].val == flags)
        return sqlvc.quantify(sqlvc.vars_of(r), z3.And(*c))

    def replaced(self, e, a, v):
        w = z3.FreshConst(z3.IntSort(), "w")
        return z3.Exists([w], z3.And(w != v, self.searched(self.I, e, a, w, 1)))

    def had(self, e, a, v, table=None):
        d = (table or self.D).fresh("h")
        return sqlvc.quantify(sqlvc.vars_of(d), z3.And((table or self.D)(d), d["e"].val == e, d["a"].val == a, d["v"].val == v))


def same(a, b):
    return z3.And(*[sqlvc.eqv(a[k], b[k]) for k in a])


def allof(rows, body):
    vs = [v for r in rows for v in sqlvc.vars_of(r)]
    return z3.ForAll(vs, body)


def goals(src, which):
    T = Tx(src)
    e, a, v, tag, tx = (z3.Int("g_" + n) for n in ("e", "a", "v", "tag", "tx"))
    after = T.steps["update_datoms"]["datoms"]
    log0 = T.t["timelined_transactions"]
    log1 = T.steps["insert_transaction"]["timelined_transactions"]
    has = T.had(e, a, v)
    then = z3.Or(T.add(e, a, v), z3.And(has, z3.Not(T.ret(e, a, v)), z3.Not(T.replaced(e, a, v))))
    now = T.had(e, a, v, after)
    out = []
    if which == "facts":
        out.append(("the facts afterwards are those added, and those before that were neither retracted nor replaced: none missing", T.hyps, z3.Implies(then, now)))
        out.append(("the facts afterwards are those added, and those before that were neither retracted nor replaced: none besides", T.hyps, z3.Implies(now, then)))
        r = after.fresh("g")
        old = {k: r[k] for k in r}
        kept = sqlvc.exists({"rowid": Val(z3.BoolVal(False), z3.Int("g_rid"))}, T.D(dict(old, rowid=Val(z3.BoolVal(False), z3.Int("g_rid")))))
        bit = lambda n, f: (sqlvc.band(f, z3.IntVal(T.bits[n])) != 0)
        f = z3.FreshConst(z3.IntSort(), "f")
        new = z3.And(r["tx"].val == T.tx, z3.Exists([f], z3.And(
            z3.Or(T.searched(T.X, r["e"].val, r["a"].val, r["v"].val, 1, f), T.searched(T.I, r["e"].val, r["a"].val, r["v"].val, 1, f)),
            (r["index_avet"].val != 0) == bit("IndexAVET", f), (r["index_vaet"].val != 0) == bit("IndexVAET", f),
            (r["index_fulltext"].val != 0) == bit("IndexFulltext", f), (r["unique_value"].val != 0) == bit("UniqueValue", f))))
        out.append(("a fact that was there is kept with its transaction and flags; a new one has this transaction and the flags of its attribute", T.hyps,
                    z3.Implies(after(r), z3.If(T.had(r["e"].val, r["a"].val, r["v"].val), kept, new))))
    if which == "log":
        r = log1.fresh("l")
        ours = z3.And(r["tx"].val == T.tx, r["timeline"].val == 0, z3.Or(
            z3.And(r["added"].val == 1, z3.Not(has), then), z3.And(r["added"].val == 0, has, z3.Not(then))))
        sub = [(e, r["e"].val), (a, r["a"].val), (v, r["v"].val)]
        out.append(("the log grows by exactly what changed: nothing else is written", T.hyps, z3.Implies(log1(r), z3.Or(log0(r), z3.substitute(ours, *sub)))))
        tagged = z3.Or(*[z3.Exists([z3.Int("q_fl"), z3.Int("q_ad"), z3.Int("q_v")], S({"e0": lit(r["e"].val), "a0": lit(r["a"].val), "v0": lit(z3.Int("q_v")), "value_type_tag0": lit(r["value_type_tag"].val), "added0": lit(z3.Int("q_ad")), "flags0": lit(z3.Int("q_fl"))})) for S in (T.X, T.I)])
        out.append(("the log grows by exactly what changed: every change is written", T.hyps, z3.Implies(z3.And(z3.substitute(ours, *sub), tagged), log1(r))))
        out.append(("what the log held it still holds", T.hyps, z3.Implies(log0(r), log1(r))))
        wasadd = z3.And(z3.Not(has), now)
        wasret = z3.And(has, z3.Not(now))
        out.append(("an addition is in the log exactly if the fact is new", T.hyps, z3.Implies(z3.And(T.add(e, a, v), wasadd), haslog(log1, T.tx, e, a, v, 1))))
        out.append(("a retraction is in the log exactly if the fact is gone", T.hyps, z3.Implies(wasret, haslog(log1, T.tx, e, a, v, 0))))
    if which == "card":
        v2 = z3.Int("g_v2")
        single = T_single(T, a)
        out.append(("a single-valued attribute has one value afterwards", T.hyps, z3.Implies(z3.And(single, now, T.had(e, a, v2, after)), v == v2)))
        # values of an attribute keep to its value type
        r = after.fresh("g")
        d = T.D.fresh("d")
        out.append(("facts keep the value type of their attribute", T.hyps, z3.Implies(z3.And(after(r), T.D(d), d["a"].val == r["a"].val, z3.Or(T.searched(T.X, r["e"].val, r["a"].val, None, 1), T.searched(T.I, r["e"].val, r["a"].val, None, 1))), d["value_type_tag"].val == r["value_type_tag"].val)))
    return out, META


def T_single(T, a):
    q = T.I.fresh("q")
    return sqlvc.quantify(sqlvc.vars_of(q), z3.And(T.I(q), q["a0"].val == a))


def haslog(log, tx, e, a, v, added):
    r = log.fresh("l")
    return sqlvc.quantify(sqlvc.vars_of(r), z3.And(log(r), r["tx"].val == tx, r["timeline"].val == 0, r["e"].val == e, r["a"].val == a, r["v"].val == v, r["added"].val == added))
