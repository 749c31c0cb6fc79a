"""Verification conditions of SQL statements.

A strongest-postcondition calculus for the SQL the store runs: statements are taken from the Rust
source on every run, parsed, and turned into first-order formulas over the tables, which are
unbounded relations.  A contract about the state before and after becomes a formula that z3 has to
show valid.  Anything outside the subset raises Unsupported: the unit then decides nothing.

Values are integers (an injective encoding of whatever a column holds; SQL equality is taken to be
equality of values, which the types of attributes guarantee); a nullable column is a flag and a value.
"""
import itertools, re
import z3
import extract


class Unsupported(Exception):
    pass


# ---- tables -------------------------------------------------------------------------------------
class Table:
    """A relation: a list of columns (name, nullable) and a membership formula over their values."""
    def __init__(self, cols, member):
        self.cols, self.member = cols, member

    def names(self):
        return [c[0] for c in self.cols]

    def fresh(self, tag="r"):
        return {n: Val(z3.FreshConst(z3.BoolSort(), tag + "_null_" + n) if nl else z3.BoolVal(False), z3.FreshConst(z3.IntSort(), tag + "_" + n)) for n, nl in self.cols}

    def __call__(self, row):
        return self.member(row)


def base_table(name, cols):
    f = z3.Function(name, *([s for _, nl in cols for s in ([z3.BoolSort(), z3.IntSort()] if nl else [z3.IntSort()])] + [z3.BoolSort()]))
    return Table(cols, lambda row: f(*[x for n, nl in cols for x in ([row[n].null, row[n].val] if nl else [row[n].val])]))


class Val:
    def __init__(self, null, val):
        self.null, self.val = null, val


def lit(n):
    return Val(z3.BoolVal(False), z3.IntVal(n) if isinstance(n, int) else n)


STR = {}


def strlit(s):
    """Distinct strings are distinct values."""
    return lit(-1000000 - STR.setdefault(s, len(STR)))


def eqv(a, b):
    """The same value, or both null."""
    return z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), a.val == b.val))


def vars_of(row):
    return [x for v in row.values() for x in (v.null, v.val) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def exists(row, body):
    vs = vars_of(row)
    return z3.Exists(vs, body) if vs else body


def forall(row, body):
    vs = vars_of(row)
    return z3.ForAll(vs, body) if vs else body


# ---- parsing ------------------------------------------------------------------------------------
TOK = re.compile(r"\s*(?:(?P<num>\d+)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<par>\?\d*)|(?P<hole>\{[^{}]*\})|(?P<str>'(?:[^']|'')*')|(?P<dq>\"[^\"]*\")|(?P<op><>|!=|<=|>=|==|\|\||[-+*/&=<>(),.;]))")
KEYWORDS = set("select distinct from where and or not is null in exists union all left join on as with insert into delete update set values order group by limit between case when then else end max min coalesce typeof asc desc having".split())


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported("SQL text at: " + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        t = m.group(k)
        if k == "id" and t.lower() in KEYWORDS:
            k, t = "kw", t.lower()
        out.append((k, t))
    return out + [("eof", "")]


class Parser:
    def __init__(self, text, holes=()):
        self.t, self.i = tokens(text), 0
        self.holes = list(holes)
        self.nparam = 0

    def peek(self, *ws):
        k, t = self.t[self.i]
        return (k in ("kw", "op")) and t in ws

    def take(self, *ws):
        if self.peek(*ws):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, w):
        if not self.take(w):
            raise Unsupported("expected %s, found %s" % (w, self.t[self.i][1]))

    def ident(self):
        k, t = self.t[self.i]
        if k != "id" and not (k == "dq") and not (k == "kw" and t in ("end",)):
            raise Unsupported("expected a name, found %s" % t)
        self.i += 1
        return t.strip('"')

    def table_name(self):
        n = self.ident()
        if self.take("."):
            n = self.ident()
        return n

    def hole(self):
        if not self.holes:
            raise Unsupported("a hole without an argument")
        return self.holes.pop(0)

    # expressions
    def expr(self):
        a = self.conj()
        while self.take("or"):
            a = ("or", a, self.conj())
        return a

    def conj(self):
        a = self.neg()
        while self.take("and"):
            a = ("and", a, self.neg())
        return a

    def neg(self):
        if self.take("not"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        a = self.order()
        while True:
            if self.take("is"):
                n = self.take("not")
                if self.take("null"):
                    r = ("isnull", a)
                else:
                    r = ("is", a, self.order())
                a = ("not", r) if n else r
            elif self.peek("=", "==", "<>", "!="):
                o = self.take("=", "==", "<>", "!=")
                b = self.order()
                a = ("=", a, b) if o in ("=", "==") else ("<>", a, b)
            elif self.peek("in") or (self.peek("not") and self.t[self.i + 1] == ("kw", "in")):
                n = self.take("not")
                self.need("in")
                if self.take("("):
                    if self.peek("select"):
                        r = ("inq", a, self.select())
                    else:
                        es = [self.expr()]
                        while self.take(","):
                            es.append(self.expr())
                        r = ("inl", a, es)
                    self.need(")")
                elif self.t[self.i][0] == "hole":
                    self.i += 1
                    r = ("inset", a, self.hole())
                else:
                    r = ("inq", a, ("table", self.table_name()))
                a = ("not", r) if n else r
            elif self.take("between"):
                lo = self.order()
                self.need("and")
                a = ("and", ("<=", lo, a), ("<=", a, self.order()))
            else:
                return a

    def order(self):
        a = self.bits()
        while self.peek("<", "<=", ">", ">="):
            o = self.take("<", "<=", ">", ">=")
            b = self.bits()
            a = (o, a, b) if o in ("<", "<=") else ({">": "<", ">=": "<="}[o], b, a)
        return a

    def bits(self):
        a = self.add()
        while self.take("&"):
            a = ("&", a, self.add())
        return a

    def add(self):
        a = self.prim()
        while self.peek("+", "-"):
            a = (self.take("+", "-"), a, self.prim())
        return a

    def prim(self):
        k, t = self.t[self.i]
        if k == "num":
            self.i += 1
            return ("lit", int(t))
        if k == "str":
            self.i += 1
            return ("str", t[1:-1].replace("''", "'"))
        if k == "par":
            self.i += 1
            if t == "?":
                self.nparam += 1
                return ("param", self.nparam)
            return ("param", int(t[1:]))
        if k == "hole":
            self.i += 1
            return ("val", self.hole())
        if self.take("("):
            if self.peek("select"):
                r = ("scalar", self.select())
            else:
                r = self.expr()
            self.need(")")
            return r
        if self.take("exists"):
            self.need("(")
            r = ("exists", self.select())
            self.need(")")
            return r
        if self.take("null"):
            return ("null",)
        if self.peek("max", "min", "coalesce", "typeof"):
            f = self.take("max", "min", "coalesce", "typeof")
            self.need("(")
            es = [self.expr()]
            while self.take(","):
                es.append(self.expr())
            self.need(")")
            return (f,) + tuple(es)
        if self.take("case"):
            ws, el = [], ("null",)
            while self.take("when"):
                c = self.expr()
                self.need("then")
                ws.append((c, self.expr()))
            if self.take("else"):
                el = self.expr()
            self.need("end")
            return ("case", ws, el)
        n = self.ident()
        if self.take("."):
            return ("col", n, self.ident())
        return ("col", None, n)

    # queries
    def select(self):
        parts = [self.core()]
        while self.take("union"):
            self.take("all")
            parts.append(self.core())
        if self.take("order"):      # a set has no order
            self.need("by")
            while True:
                self.expr()
                self.take("asc", "desc")
                if not self.take(","):
                    break
        if self.take("limit"):
            return ("limit", ("union", parts), self.expr())
        return ("union", parts)

    def core(self):
        self.need("select")
        self.take("distinct")
        cols = []
        while True:
            if self.take("*"):
                cols.append(("*", None))
            else:
                e = self.expr()
                n = None
                if self.take("as") or self.t[self.i][0] == "id":
                    n = self.ident()
                elif e[0] == "col":
                    n = e[2]
                cols.append((e, n))
            if not self.take(","):
                break
        srcs, where = [], None
        if self.take("from"):
            srcs.append(("cross",) + self.source() + (None,))
            while True:
                if self.take(","):
                    srcs.append(("cross",) + self.source() + (None,))
                elif self.take("left"):
                    self.need("join")
                    s = self.source()
                    self.need("on")
                    srcs.append(("left",) + s + (self.expr(),))
                else:
                    break
        if self.take("where"):
            where = self.expr()
        if self.peek("group", "having"):
            raise Unsupported("GROUP BY")
        return (cols, srcs, where)

    def source(self):
        if self.take("("):
            q = self.select()
            self.need(")")
            n = None
        else:
            q = ("table", self.table_name())
            n = q[1]
        if self.take("as"):
            n = self.ident()
        elif self.t[self.i][0] == "id":
            n = self.ident()
        return (q, n)

    def statement(self):
        ctes = []
        if self.take("with"):
            while True:
                n = self.ident()
                cols = None
                if self.take("("):
                    cols = [self.ident()]
                    while self.take(","):
                        cols.append(self.ident())
                    self.need(")")
                self.need("as")
                self.need("(")
                ctes.append((n, cols, self.select()))
                self.need(")")
                if not self.take(","):
                    break
        if self.take("insert"):
            self.need("into")
            t = self.table_name()
            cols = None
            if self.take("("):
                cols = [self.ident()]
                while self.take(","):
                    cols.append(self.ident())
                self.need(")")
            r = ("insert", t, cols, self.select())
        elif self.take("delete"):
            self.need("from")
            t = self.table_name()
            r = ("delete", t, self.expr() if self.take("where") else None)
        elif self.take("update"):
            t = self.table_name()
            self.need("set")
            sets = []
            while True:
                c = self.ident()
                self.need("=")
                sets.append((c, self.expr()))
                if not self.take(","):
                    break
            r = ("update", t, sets, self.expr() if self.take("where") else None)
        else:
            r = ("select", self.select())
        self.take(";")
        if self.t[self.i][0] != "eof":
            raise Unsupported("left over: " + " ".join(t for _, t in self.t[self.i:self.i + 6]))
        return ctes, r


# ---- meaning ------------------------------------------------------------------------------------
band = z3.Function("band", z3.IntSort(), z3.IntSort(), z3.IntSort())
typeof = z3.Function("typeof", z3.IntSort(), z3.IntSort())


class State:
    """The tables at a point of a run, and the parameters of the statement at hand."""
    def __init__(self, tables):
        self.tables = dict(tables)
        self.side = []          # facts about aggregates

    def copy(self):
        s = State(self.tables)
        s.side = self.side
        return s


class Eval:
    def __init__(self, state, params):
        self.s, self.params = state, params

    def table(self, name, ctes):
        if name in ctes:
            return ctes[name]
        if name in self.s.tables:
            return self.s.tables[name]
        raise Unsupported("no table " + name)

    # three-valued: (is true, is false)
    def cond(self, e, scopes, ctes):
        k = e[0]
        if k == "and":
            a, b = self.cond(e[1], scopes, ctes), self.cond(e[2], scopes, ctes)
            return z3.And(a[0], b[0]), z3.Or(a[1], b[1])
        if k == "or":
            a, b = self.cond(e[1], scopes, ctes), self.cond(e[2], scopes, ctes)
            return z3.Or(a[0], b[0]), z3.And(a[1], b[1])
        if k == "not":
            a = self.cond(e[1], scopes, ctes)
            return a[1], a[0]
        if k == "isnull":
            v = self.val(e[1], scopes, ctes)
            return v.null, z3.Not(v.null)
        if k == "is":
            f = eqv(self.val(e[1], scopes, ctes), self.val(e[2], scopes, ctes))
            return f, z3.Not(f)
        if k in ("=", "<>", "<", "<="):
            a, b = self.val(e[1], scopes, ctes), self.val(e[2], scopes, ctes)
            known = z3.And(z3.Not(a.null), z3.Not(b.null))
            f = {"=": a.val == b.val, "<>": a.val != b.val, "<": a.val < b.val, "<=": a.val <= b.val}[k]
            return z3.And(known, f), z3.And(known, z3.Not(f))
        if k == "inset":
            v = self.val(e[1], scopes, ctes)
            f = e[2](v.val) if callable(e[2]) else z3.Or([v.val == x for x in e[2]])
            return z3.And(z3.Not(v.null), f), z3.And(z3.Not(v.null), z3.Not(f))
        if k == "inl":
            v = self.val(e[1], scopes, ctes)
            f = z3.Or([v.val == self.val(x, scopes, ctes).val for x in e[2]])
            return z3.And(z3.Not(v.null), f), z3.And(z3.Not(v.null), z3.Not(f))
        if k == "inq":
            v = self.val(e[1], scopes, ctes)
            q = self.query(e[2], scopes, ctes)
            if len(q.cols) != 1:
                raise Unsupported("IN of several columns")
            n, nl = q.cols[0]
            f = z3.And(z3.Not(v.null), q({n: Val(z3.BoolVal(False), v.val)}))
            # a null in the list would make it unknown rather than false; only ever asked positively
            return f, (z3.Not(f) if not nl else z3.BoolVal(False))
        if k == "exists":
            q = self.query(e[1], scopes, ctes)
            r = q.fresh("x")
            f = exists(r, q(r))
            return f, z3.Not(f)
        v = self.val(e, scopes, ctes)
        return z3.And(z3.Not(v.null), v.val != 0), z3.And(z3.Not(v.null), v.val == 0)

    def val(self, e, scopes, ctes):
        k = e[0]
        if k == "lit":
            return lit(e[1])
        if k == "str":
            return strlit(e[1])
        if k == "val":
            return e[1] if isinstance(e[1], Val) else lit(e[1])
        if k == "null":
            return Val(z3.BoolVal(True), z3.IntVal(0))
        if k == "param":
            p = self.params.get(e[1])
            if p is None:
                raise Unsupported("no parameter %d" % e[1])
            return p if isinstance(p, Val) else lit(p)
        if k == "col":
            for sc in reversed(scopes):
                hits = [row[e[2]] for n, row in sc if (e[1] is None or n == e[1]) and e[2] in row]
                if len(hits) > 1:
                    raise Unsupported("ambiguous column " + e[2])
                if hits:
                    return hits[0]
            raise Unsupported("no column %s" % e[2])
        if k == "&":
            a, b = self.val(e[1], scopes, ctes), self.val(e[2], scopes, ctes)
            return Val(z3.Or(a.null, b.null), band(a.val, b.val))
        if k in ("+", "-"):
            a, b = self.val(e[1], scopes, ctes), self.val(e[2], scopes, ctes)
            return Val(z3.Or(a.null, b.null), a.val + b.val if k == "+" else a.val - b.val)
        if k == "coalesce":
            vs = [self.val(x, scopes, ctes) for x in e[1:]]
            r = vs[-1]
            for v in reversed(vs[:-1]):
                r = Val(z3.And(v.null, r.null), z3.If(v.null, r.val, v.val))
            return r
        if k == "typeof":
            v = self.val(e[1], scopes, ctes)
            return Val(z3.BoolVal(False), typeof(v.val))
        if k == "case":
            r = self.val(e[2], scopes, ctes)
            for c, x in reversed(e[1]):
                t = self.cond(c, scopes, ctes)[0]
                v = self.val(x, scopes, ctes)
                r = Val(z3.If(t, v.null, r.null), z3.If(t, v.val, r.val))
            return r
        if k == "scalar":
            return self.scalar(e[1], scopes, ctes)
        # a condition used as a value: 0, 1 or null
        t, f = self.cond(e, scopes, ctes)
        return Val(z3.simplify(z3.And(z3.Not(t), z3.Not(f))), z3.If(t, z3.IntVal(1), z3.IntVal(0)))

    def scalar(self, q, scopes, ctes):
        """The value of a scalar subquery: its only row, or the maximum of a set of values."""
        if q[0] == "union" and len(q[1]) == 1:
            cols, srcs, where = q[1][0]
            if len(cols) == 1 and cols[0][0][0] in ("max", "min", "+") :
                e = cols[0][0]
                plus = None
                if e[0] == "+" and e[1][0] in ("max", "min"):
                    e, plus = e[1], e[2]
                if e[0] not in ("max", "min"):
                    raise Unsupported("scalar subquery")
                inner = ("union", [([(e[1], "x")], srcs, where)])
                rel = self.query(inner, scopes, ctes)
                member = lambda x: rel({rel.cols[0][0]: Val(z3.BoolVal(False), x)})
                m, x = z3.FreshConst(z3.IntSort(), "agg"), z3.FreshConst(z3.IntSort(), "x")
                some = z3.Exists([x], member(x))
                le = (x <= m) if e[0] == "max" else (x >= m)
                # m is functional in the row at hand: the caller quantifies it with `pending`
                self.pending.append((m, z3.And(z3.Implies(some, z3.And(member(m), z3.ForAll([x], z3.Implies(member(x), le)))), z3.Implies(z3.Not(some), m == 0))))
                v = m
                if plus is not None:
                    v = m + self.val(plus, scopes, ctes).val
                return Val(z3.Not(some), v)
        rel = self.query(q, scopes, ctes)
        if len(rel.cols) != 1:
            raise Unsupported("scalar subquery of several columns")
        n = rel.cols[0][0]
        m = z3.FreshConst(z3.IntSort(), "sc")
        x = z3.FreshConst(z3.IntSort(), "x")
        some = z3.Exists([x], rel({n: Val(z3.BoolVal(False), x)}))
        self.pending.append((m, z3.And(z3.Implies(some, rel({n: Val(z3.BoolVal(False), m)})), z3.Implies(z3.Not(some), m == 0))))
        return Val(z3.Not(some), m)

    pending = None

    def query(self, q, scopes, ctes):
        if q[0] == "table":
            return self.table(q[1], ctes)
        if q[0] == "limit":
            raise Unsupported("LIMIT in a subquery")
        parts = [self.core(c, scopes, ctes) for c in q[1]]
        if len(parts) == 1:
            return parts[0]
        first = parts[0]
        cols = [(n, any(p.cols[i][1] for p in parts)) for i, (n, _) in enumerate(first.cols)]

        def member(row):
            out = []
            for p in parts:
                r = {}
                guard = []
                for (n, _), (pn, pnl) in zip(cols, p.cols):
                    r[pn] = row[n] if pnl else Val(z3.BoolVal(False), row[n].val)
                    if not pnl:
                        guard.append(z3.Not(row[n].null))
                out.append(z3.And(*(guard + [p(r)])))
            return z3.Or(*out)
        return Table(cols, member)

    def core(self, c, scopes, ctes):
        cols, srcs, where = c
        # shape of the result, from one symbolic row
        rels = [(kind, self.query(q, scopes, ctes), alias, on) for kind, q, alias, on in srcs]
        names = []
        for e, n in cols:
            if e == "*":
                for kind, rel, alias, on in rels:
                    names += [(("col", alias, m), m) for m in rel.names() if m != "rowid"]
            else:
                names.append((e, n or "c%d" % len(names)))

        def nullable(e):
            """Whether a column of the result may be null, conservatively."""
            if e[0] in ("lit", "str", "val", "param", "is", "isnull", "exists", "typeof"):
                return False
            if e[0] == "not":
                return nullable(e[1])
            if e[0] == "&":
                return nullable(e[1]) or nullable(e[2])
            if e[0] == "col":
                for kind, rel, alias, on in rels:
                    if (e[1] is None or alias == e[1]) and e[2] in rel.names():
                        return kind == "left" or dict(rel.cols)[e[2]]
                return True     # an outer column: it may be null there
            if e[0] == "coalesce":
                return all(nullable(x) for x in e[1:])
            return True
        out = [(n, nullable(e)) for e, n in names]

        def member(row):
            scope, conds, bound = [], [], {}
            for i, (kind, rel, alias, on) in enumerate(rels):
                r = rel.fresh("%s%d" % (alias or "q", i))
                if kind == "cross":
                    conds.append(rel(r))
                    scope.append((alias, r))
                else:
                    match = self.cond(on, scopes + [scope + [(alias, r)]], ctes)[0]
                    # either a match, or no row matches and the columns are null
                    r2 = rel.fresh("n%d" % i)
                    match2 = self.cond(on, scopes + [scope + [(alias, r2)]], ctes)[0]
                    none = z3.Not(exists(r2, z3.And(rel(r2), match2)))
                    isnull = z3.FreshConst(z3.BoolSort(), "nomatch")
                    conds.append(z3.Or(z3.And(isnull, none), z3.And(z3.Not(isnull), rel(r), match)))
                    nr = {k: Val(z3.Or(isnull, v.null), v.val) for k, v in r.items()}
                    scope.append((alias, nr))
                    bound["!%d" % i] = Val(z3.BoolVal(False), isnull)
                for k, v in r.items():
                    bound["%d.%s" % (i, k)] = v
            saved, self.pending = self.pending, []
            try:
                full = scopes + [scope]
                if where is not None:
                    conds.append(self.cond(where, full, ctes)[0])
                for (e, n), (_, nl) in zip(names, out):
                    v = self.val(e, full, ctes)
                    conds.append(eqv(row[n], v))
                extra = self.pending
            finally:
                self.pending = saved
            # the columns whose value the result fixes need no quantifier of their own
            vs, body = vars_of(bound) + [m for m, _ in extra], z3.And(*(conds + [f for _, f in extra]))
            return quantify(vs, body)
        return Table(out, member)

    def run(self, text, holes=()):
        """Executes a statement; returns what a SELECT gives."""
        into_state = self.s
        self = Eval(self.s.copy(), self.params)     # what it reads is the state before it
        ctes_, st = Parser(text, holes).statement()
        ctes = {}
        self.pending = []
        for n, cols, q in ctes_:
            rel = self.query(q, [], ctes)
            if cols:
                rel = rename(rel, cols)
            ctes[n] = rel
        if st[0] == "select":
            q = st[1]
            if q[0] == "limit":
                q = q[1]
            return self.query(q, [], ctes)
        name = st[1]
        if name not in self.s.tables:
            raise Unsupported("no table " + name)
        t = self.s.tables[name]
        if st[0] == "insert":
            q = self.query(st[3], [], ctes)
            cols = [c for c in t.cols if c[0] != "rowid"]
            into = st[2] or [c[0] for c in cols]
            if len(into) != len(q.cols):
                raise Unsupported("INSERT of %d columns into %d" % (len(q.cols), len(into)))
            defaults = self.s.tables.get("!defaults", {}).get(name, {})

            def member(row, t=t):
                r = {}
                guard = []
                for c, (qn, qnl) in zip(into, q.cols):
                    r[qn] = row[c] if qnl else Val(z3.BoolVal(False), row[c].val)
                    guard.append(z3.Not(row[c].null) if not qnl else z3.BoolVal(True))
                for c, nl in cols:
                    if c not in into:
                        d = defaults.get(c)
                        if d is None:
                            raise Unsupported("no default for " + c)
                        guard.append(z3.And(z3.Not(row[c].null), row[c].val == d))
                old = row
                if "rowid" in t.names():
                    rid = z3.FreshConst(z3.IntSort(), "rid")
                    was = z3.Exists([rid], t(dict(row, rowid=lit(rid))))
                else:
                    was = t(row)
                return z3.Or(was, z3.And(*(guard + [q(r)])))
            into_state.tables[name] = Table(cols, member)
        elif st[0] == "delete":
            def member(row, t=t):
                if st[2] is None:
                    return z3.BoolVal(False)
                saved, self.pending = self.pending, []
                c = self.cond(st[2], [[(name, row)]], ctes)[0]
                if self.pending:
                    raise Unsupported("aggregate in DELETE")
                self.pending = saved
                return z3.And(t(row), z3.Not(c))
            into_state.tables[name] = Table(t.cols, member)
        else:
            def member(row, t=t):
                def w(r):
                    return self.cond(st[3], [[(name, r)]], ctes)[0] if st[3] is not None else z3.BoolVal(True)
                x = t.fresh("u")
                new = dict(x)
                for c, e in st[2]:
                    if c not in x:
                        raise Unsupported("no column " + c)
                    new[c] = self.val(e, [[(name, x)]], ctes)
                moved = quantify(vars_of(x), z3.And(t(x), w(x), *[eqv(row[c], new[c]) for c in t.names()]))
                return z3.Or(z3.And(t(row), z3.Not(w(row))), moved)
            into_state.tables[name] = Table(t.cols, member)
        return None


def quantify(vs, body):
    """Existential, with variables that an equation determines replaced by what they equal."""
    vs = list({v.get_id(): v for v in vs}.values())
    conj = []

    def flat(f):
        if z3.is_and(f):
            for c in f.children():
                flat(c)
        else:
            conj.append(f)
    flat(z3.simplify(body, elim_and=False))
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(conj):
            if z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    hit = [v for v in vs if v.eq(x)]
                    if hit and not occurs(x, y):
                        conj = [z3.substitute(f, (x, y)) for j, f in enumerate(conj) if j != i]
                        vs = [v for v in vs if not v.eq(x)]
                        changed = True
                        break
            if changed:
                break
    body = z3.And(*conj) if conj else z3.BoolVal(True)
    return z3.Exists(vs, body) if vs else body


def occurs(x, t):
    if x.eq(t):
        return True
    if z3.is_quantifier(t):
        return occurs(x, t.body())
    return any(occurs(x, c) for c in t.children())


def rename(rel, cols):
    old = rel.names()
    return Table([(n, nl) for n, (_, nl) in zip(cols, rel.cols)], lambda row: rel({o: row[n] for o, n in zip(old, cols)}))


# ---- taking the statements from the source ------------------------------------------------------
LIT = re.compile(r'(?P<raw>r(?P<h>#*)"(?P<rt>.*?)"(?P=h))|"(?P<t>(?:\\.|[^"\\])*)"', re.S)


def unescape(t):
    t = re.sub(r"\\\n\s*", "", t)
    return t.replace('\\"', '"').replace("\\n", "\n").replace("\\\\", "\\")


def literals(body):
    """The string literals of a function body, in order."""
    out = []
    for m in extract.TOK.finditer(body):
        t = m.group(0)
        l = LIT.fullmatch(t[1:] if t.startswith('b"') else t)
        if l:
            out.append((m.start(), l.group("rt") if l.group("raw") else unescape(l.group("t"))))
    return out


SQL = re.compile(r"^\s*(SELECT|INSERT|DELETE|UPDATE|WITH|CREATE)\b", re.I)


def statements(fn):
    """The SQL literals of a function, in order, with the arguments of the format! they stand in."""
    out = []
    m = extract.mask(fn.body)
    for pos, text in literals(fn.body):
        if not SQL.match(text):
            continue
        holes = []
        # the innermost bracket around the literal
        d, j = 0, pos - 1
        while j >= 0:
            if m[j] in ")]}":
                d += 1
            elif m[j] in "([{":
                d -= 1
                if d < 0:
                    break
            j -= 1
        if j >= 0 and re.search(r"format!\s*$", m[:j]):
            e = extract.close_of(m, j)
            args = split_args(fn.body[j + 1:e])
            holes = [a.strip() for a in args[1:] if a.strip()]
        out.append((text, holes))
    return out


def split_args(t):
    m, d, out, cur = extract.mask(t), 0, [], ""
    for c, r in zip(m, t):
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += r
    return out + [cur]


def straight(fn, allow=()):
    """A function whose statements run one after another."""
    for w in re.findall(r"\b(if|for|while|loop|match|return)\b", extract.mask(fn.body)):
        if w not in allow:
            raise Unsupported("%s is not straight-line: %s" % (fn.name, w))


TYPES = dict()


def ddl(texts):
    """Tables, views, unique indexes and defaults of CREATE statements."""
    tables, views, unique, defaults = {}, {}, [], {}
    for t in texts:
        t = " ".join(t.split())
        m = re.match(r"CREATE TABLE (?:temp\.)?(\w+) \((.*)\)$", t, re.I)
        if m:
            cols, dfl = [], {}
            for c in m.group(2).split(","):
                w = c.split()
                nn = "NOT NULL" in c.upper()
                cols.append((w[0], not nn))
                k = re.search(r"DEFAULT (\d+)", c, re.I)
                if k:
                    dfl[w[0]] = int(k.group(1))
            tables[m.group(1)] = cols
            defaults[m.group(1)] = dfl
            continue
        m = re.match(r"CREATE VIEW (\w+) AS (SELECT .*)$", t, re.I)
        if m:
            views[m.group(1)] = m.group(2)
            continue
        m = re.match(r"CREATE UNIQUE INDEX (?:IF NOT EXISTS )?(?:temp\.)?\w+ ON (?:temp\.)?(\w+) ?\(([^)]*)\)(?: WHERE (.*))?$", t, re.I)
        if m:
            unique.append((m.group(1), [c.strip() for c in m.group(2).split(",")], m.group(3)))
    return tables, views, unique, defaults


def unique_axiom(t, cols, where, ev):
    """No two rows agree on the columns of a unique index."""
    a, b = t.fresh("ua"), t.fresh("ub")
    conds = [t(a), t(b)] + [z3.And(z3.Not(a[c].null), z3.Not(b[c].null), a[c].val == b[c].val) for c in cols]
    if where:
        p = Parser(where)
        w = p.expr()
        conds += [ev.cond(w, [[("t", a)]], {})[0], ev.cond(w, [[("t", b)]], {})[0]]
    return z3.ForAll(vars_of(a) + vars_of(b), z3.Implies(z3.And(*conds), z3.And(*[eqv(a[c], b[c]) for c in t.names()])))


def prove(hyps, goal, timeout=60):
    """Three attempts with different settings: z3 is quick or does not come back."""
    for seed, tuned in ((0, True), (3, True), (0, False)):
        s = z3.SimpleSolver() if tuned else z3.Solver()
        if tuned:
            s.set("auto_config", False)
            s.set("qi.eager_threshold", 100.0)
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", seed)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        if r != z3.unknown:
            break
    return ("ok", None) if r == z3.unsat else ("fail", s.model()) if r == z3.sat else ("unknown", s.reason_unknown())


def consistent(hyps, timeout=20):
    """The hypotheses of an obligation must not be contradictory: not shown contradictory in the time."""
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for h in hyps:
        s.add(h)
    return s.check() != z3.unsat
