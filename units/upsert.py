"""C03: upsert resolution (db/src/upsert_resolution.rs)."""
import units
T = units.load("types")

SPEC = """
pub type M = Map<TempId, KnownEntid>;
pub type F = TermWithTempIds;

// What a term says once the tempids the map knows are replaced.
pub open spec fn re(m: M, e: Either<KnownEntid, TempIdHandle>) -> Either<KnownEntid, TempIdHandle> {
    match e { Left(n) => Left(n), Right(t) => if m.contains_key(*t) { Left(m[*t]) } else { Right(t) } }
}
pub open spec fn rv(m: M, v: Either<TypedValue, TempIdHandle>) -> Either<TypedValue, TempIdHandle> {
    match v { Left(x) => Left(x), Right(t) => if m.contains_key(*t) { Left(TypedValue::Ref(m[*t].0)) } else { Right(t) } }
}
pub open spec fn subst(m: M, t: F) -> F {
    match t { Term::AddOrRetract(op, e, a, v) => Term::AddOrRetract(op, re(m, e), a, rv(m, v)) }
}
pub open spec fn f_e(m: M) -> spec_fn(UpsertE) -> F { |u: UpsertE| subst(m, Term::AddOrRetract(OpType::Add, Right(u.0), u.1, Left(u.2))) }
pub open spec fn f_ev(m: M) -> spec_fn(UpsertEV) -> F { |u: UpsertEV| subst(m, Term::AddOrRetract(OpType::Add, Right(u.0), u.1, Right(u.2))) }
pub open spec fn f_t(m: M) -> spec_fn(F) -> F { |t: F| subst(m, t) }
pub open spec fn f_w() -> spec_fn(TermWithoutTempIds) -> F { |t: TermWithoutTempIds| wrap(t) }
pub open spec fn wrap(t: TermWithoutTempIds) -> F { match t { Term::AddOrRetract(op, e, a, v) => Term::AddOrRetract(op, Left(e), a, Left(v)) } }

// A complex upsert whose value the map knows asks the store again, as a simple one.
pub open spec fn turn(m: M) -> spec_fn(UpsertEV) -> Option<UpsertE> { |u: UpsertEV| if m.contains_key(*u.2) { Some(UpsertE(u.0, u.1, TypedValue::Ref(m[*u.2].0))) } else { None } }
pub open spec fn some_e() -> spec_fn(UpsertE) -> Option<UpsertE> { |u: UpsertE| Some(u) }
pub open spec fn turns(s: Seq<UpsertE>, u: UpsertE) -> nat { cnt(s, some_e(), Some(u)) }
// Everything the populations say, counted, with the map's tempids replaced.
pub open spec fn says(m: M, g: Generation, x: F) -> nat {
    cnt(g.upserts_e@, f_e(m), x) + cnt(g.upserts_ev@, f_ev(m), x) + cnt(g.allocations@, f_t(m), x)
        + cnt(g.upserted@, f_w(), x) + cnt(g.resolved@, f_w(), x)
}
pub open spec fn no_tempid(t: F) -> bool { match t { Term::AddOrRetract(_, Left(_), _, Left(_)) => true, _ => false } }
pub open spec fn wf(g: Generation) -> bool {
    forall|i: int| 0 <= i < g.allocations@.len() ==> !no_tempid(#[trigger] g.allocations@[i])
}
// Every tempid an addition still waits for is one the map knows.
pub open spec fn adds_known(m: M, g: Generation) -> bool {
    forall|i: int| 0 <= i < g.allocations@.len() ==> match #[trigger] g.allocations@[i] { Term::AddOrRetract(op, _, _, _) => op == OpType::Add ==> no_tempid(subst(m, g.allocations@[i])) }
}
pub open spec fn final_says(p: FinalPopulations, x: F) -> nat { cnt(p.upserted@, f_w(), x) + cnt(p.resolved@, f_w(), x) + cnt(p.allocated@, f_w(), x) }
pub open spec fn f_id() -> spec_fn(F) -> F { |t: F| t }
pub open spec fn f_e0() -> spec_fn(UpsertE) -> F { |u: UpsertE| Term::AddOrRetract(OpType::Add, Right(u.0), u.1, Left(u.2)) }
pub open spec fn f_ev0() -> spec_fn(UpsertEV) -> F { |u: UpsertEV| Term::AddOrRetract(OpType::Add, Right(u.0), u.1, Right(u.2)) }
// The terms as given, wherever they were put.
pub open spec fn from_says(g: Generation, inert: Seq<F>, x: F) -> nat {
    cnt(g.upserts_e@, f_e0(), x) + cnt(g.upserts_ev@, f_ev0(), x) + cnt(g.allocations@, f_id(), x) + cnt(inert, f_id(), x)
}
pub open spec fn unique_identity(s: Schema, a: Entid) -> bool { s.attrs().contains_key(a) && s.attrs()[a].unique == Some(attribute::Unique::Identity) }
pub open spec fn uq_post(s: Schema, a: Entid, q: Result<bool>) -> bool { match q { Ok(b) => b == unique_identity(s, a), Err(_) => !s.attrs().contains_key(a) } }
// Only additions to unique-identity attributes may upsert; every such addition of a tempid has its turn.
pub open spec fn placed(s: Schema, g: Generation) -> bool {
    (forall|i: int| 0 <= i < g.upserts_e@.len() ==> unique_identity(s, (#[trigger] g.upserts_e@[i]).1))
    && (forall|i: int| 0 <= i < g.upserts_ev@.len() ==> unique_identity(s, (#[trigger] g.upserts_ev@[i]).1))
    && (forall|i: int| 0 <= i < g.allocations@.len() ==> match #[trigger] g.allocations@[i] {
        Term::AddOrRetract(op, Right(_), a, _) => op == OpType::Add ==> !unique_identity(s, a), _ => true })
}
pub open spec fn known(m: M, t: TempIdHandle) -> bool { m.contains_key(*t) }
// Nothing that waits could be resolved by the map, except that a complex upsert whose value resolved
// gets a turn as a simple one.
pub open spec fn stuck(m: M, g: Generation) -> bool {
    (forall|i: int| 0 <= i < g.allocations@.len() ==> subst(m, #[trigger] g.allocations@[i]) == g.allocations@[i])
    && (forall|i: int| 0 <= i < g.upserts_ev@.len() ==> !known(m, (#[trigger] g.upserts_ev@[i]).0) && !known(m, g.upserts_ev@[i].2))
}
"""


def deref(f):
    """Verus has no & patterns: the map hands out the (Copy) entid itself."""
    f.sub(r"Some\(&(\w+)\)", r"Some(\1)", "get() is modelled by value, KnownEntid is Copy", count=0, minimum=0)


def build(u):
    s = u.src("db/src/upsert_resolution.rs")
    out = T.errors(u) + T.values(u) + T.terms(u) + T.COUNT
    out += u.struct(s, "UpsertE") + u.struct(s, "UpsertEV") + u.struct(s, "Generation") + u.struct(s, "FinalPopulations")
    out += """
impl Generation { pub fn default() -> (r: Generation)
  ensures r.upserts_e@.len() == 0, r.upserts_ev@.len() == 0, r.allocations@.len() == 0, r.upserted@.len() == 0, r.resolved@.len() == 0
  { Generation { upserts_e: Vec::new(), upserts_ev: Vec::new(), allocations: Vec::new(), upserted: Vec::new(), resolved: Vec::new() } } }
impl FinalPopulations { pub fn default() -> (r: FinalPopulations)
  ensures r.upserted@.len() == 0, r.resolved@.len() == 0, r.allocated@.len() == 0
  { FinalPopulations { upserted: Vec::new(), resolved: Vec::new(), allocated: Vec::new() } } }
"""
    u.assume("the derived Default of Generation and FinalPopulations is the empty one")
    u.assume("Schema is an uninterpreted map from attribute entids to Attribute; require_attribute_for_entid reads it")
    out += "pub mod attribute { pub use super::Unique; }\n#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(u.src("core-traits/lib.rs"), "Unique")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(u.src("core-traits/lib.rs"), "ValueType")
    out += u.struct(u.src("core-traits/lib.rs"), "Attribute") + """
#[verifier::external_body] pub struct Schema { m: () }
impl Schema {
  pub uninterp spec fn attrs(&self) -> Map<Entid, Attribute>;
  #[verifier::external_body] pub fn require_attribute_for_entid(&self, a: Entid) -> (r: Result<&Attribute>)
    ensures match r { Ok(x) => self.attrs().contains_key(a) && *x == self.attrs()[a], Err(_) => !self.attrs().contains_key(a) }
  { unimplemented!() }
}
"""
    out += SPEC
    evolve = s.fn("evolve_one_step", r"impl\s+Generation\b").ret("next_")
    evolve.macro("unreachable", lambda a: "unreached()", "proved unreachable")

    deref(evolve)
    M = "temp_id_map@"
    done = ["cnt(self.upserted@, f_w(), x) + cnt(self.resolved@, f_w(), x)"]
    specs = []
    for i, (field, f) in enumerate([("upserts_e", "f_e(%s)" % M), ("upserts_ev", "f_ev(%s)" % M), ("allocations", "f_t(%s)" % M)]):
        it = "it%d" % i
        wait = ["0nat", "cnt(it1.seq().take(it1.index@), turn(%s), Some(u))" % M, "cnt(self.upserts_ev@, turn(%s), Some(u))" % M][i]
        now = done[-1] + " + cnt(%s.seq().take(%s.index@), %s, x)" % (it, it, f)
        specs.append(dict(
            name=it,
            before="proof { assert(self.%s@.take(0) =~= Seq::empty()); }" % field,
            invariant="invariant wf(self), wf(next), stuck(%s, next), %s.seq() == self.%s@,\n forall|x: F| #[trigger] says(%s, next, x) == %s, forall|u: UpsertE| #[trigger] turns(next.upserts_e@, u) == %s," % (M, it, field, M, now, wait),
            start="let ghost g0 = next; proof { cnt_take(%s.seq(), %s.index@, %s); %s }" % (it, it, f, "cnt_take(it1.seq(), it1.index@, turn(%s));" % M if i == 1 else ""),
            end="proof { assert forall|x: F| #[trigger] says(%s, next, x) == says(%s, g0, x) + cnt(%s.seq().take(%s.index@ + 1), %s, x) - cnt(%s.seq().take(%s.index@), %s, x) by {} }" % (M, M, it, it, f, it, it, f)
                + (" proof { assert forall|u: UpsertE| #[trigger] turns(next.upserts_e@, u) == turns(g0.upserts_e@, u) + cnt(it1.seq().take(it1.index@ + 1), turn(%s), Some(u)) - cnt(it1.seq().take(it1.index@), turn(%s), Some(u)) by {} }" % (M, M) if i == 1 else ""),
            after="proof { assert(self.%s@.take(self.%s@.len() as int) =~= self.%s@); }" % (field, field, field),
        ))
        done.append(done[-1] + " + cnt(self.%s@, %s, x)" % (field, f))
    evolve.annotate(specs)
    gen = u.emit(evolve, """
        requires wf(self)
        ensures wf(next_), stuck(temp_id_map@, next_),
            forall|x: F| says(temp_id_map@, next_, x) == says(temp_id_map@, self, x),
            forall|u: UpsertE| turns(next_.upserts_e@, u) == cnt(self.upserts_ev@, turn(temp_id_map@), Some(u)),
    """)

    fin = s.fn("into_final_populations", r"impl\s+Generation\b").ret("r")
    deref(fin)
    fin.macro("unreachable", lambda a: "unreached()", "proved unreachable")
    fin.macro("bail", units.bail(), "errors are opaque")
    fin.macro("assert", lambda a: "if !(%s) { unreached::<()>() }" % units.first_arg(a), "a panic, proved unreachable")
    now = "cnt(self.upserted@, f_w(), x) + cnt(self.resolved@, f_w(), x) + cnt(it.seq().take(it.index@), f_t(temp_id_map@), x)"
    fin.annotate([dict(
        name="it",
        before="proof { assert(self.allocations@.take(0) =~= Seq::empty()); }",
        invariant="""invariant wf(self), it.seq() == self.allocations@, adds_known(temp_id_map@, self),
            populations.upserted@ == self.upserted@, populations.resolved@ == self.resolved@,
            forall|i: int| 0 <= i < it.index@ ==> no_tempid(subst(temp_id_map@, #[trigger] self.allocations@[i])),
            forall|x: F| #[trigger] final_says(populations, x) == %s,""" % now,
        start="""let ghost g0 = populations; let ghost term0 = term;
            proof { assert(self.allocations@[it.index@] == term0); cnt_take(it.seq(), it.index@, f_t(temp_id_map@)); }""",
        end="""proof { assert forall|x: F| #[trigger] final_says(populations, x) == final_says(g0, x)
            + cnt(it.seq().take(it.index@ + 1), f_t(temp_id_map@), x) - cnt(it.seq().take(it.index@), f_t(temp_id_map@), x) by {} }""",
        after="proof { assert(self.allocations@.take(self.allocations@.len() as int) =~= self.allocations@); }",
    )])
    gen += u.emit(fin, """
        requires wf(self), self.upserts_e@.len() == 0, self.upserts_ev@.len() == 0, adds_known(temp_id_map@, self),
        ensures match r {
            Ok(p) => (forall|x: F| final_says(p, x) == says(temp_id_map@, self, x)),
            // refused only for a retraction whose tempid stands for nothing
            Err(_) => exists|i: int| 0 <= i < self.allocations@.len() && !no_tempid(subst(temp_id_map@, #[trigger] self.allocations@[i])),
        },
        r is Ok <==> (forall|i: int| 0 <= i < self.allocations@.len() ==> no_tempid(subst(temp_id_map@, #[trigger] self.allocations@[i]))),
    """)

    can = s.fn("can_evolve", r"impl\s+Generation\b").ret("r")
    gen += u.emit(can, "ensures r == (self.upserts_e@.len() > 0)")

    avs = s.fn("temp_id_avs", r"impl\s+Generation\b").ret("r")
    avs.sub(r"&UpsertE\(ref (\w+), ref (\w+), ref (\w+)\)", r"UpsertE(\1, \2, \3)", "Verus has no ref patterns", minimum=0)
    avs.sub(r"in &self\.upserts_e", "in self.upserts_e.iter()", "same iterator", minimum=0)
    avs.annotate([dict(name="it", invariant="""invariant it.seq().len() == self.upserts_e@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.upserts_e@[i],
        temp_id_avs@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] temp_id_avs@[i]).0 == self.upserts_e@[i].0 && temp_id_avs@[i].1 == (self.upserts_e@[i].1, self.upserts_e@[i].2),""")])
    gen += u.emit(avs, """ensures r@.len() == self.upserts_e@.len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.upserts_e@[i].0 && r@[i].1 == (self.upserts_e@[i].1, self.upserts_e@[i].2),""")

    frm = s.fn("from", r"impl\s+Generation\b").ret("r")
    frm.subhead(r"from<I>\(terms: I,", "from(terms: Vec<TermWithTempIds>,", "one iterable type")
    frm.subhead(r"where\s+I: IntoIterator<Item = TermWithTempIds>,", "", "one iterable type")
    frm.sub(r"terms\.into_iter\(\)", "terms", "Vec iterates by itself")
    frm.sub(r"\|(\w+): Entid\| -> Result<bool> \{", r"|\1: Entid| -> (q: Result<bool>) ensures uq_post(*schema, \1, q) {", "the closure's contract")
    deref(frm)
    now = "cnt(it.seq().take(it.index@), f_id(), x)"
    frm.annotate([dict(
        name="it",
        before="proof { assert(terms@.take(0) =~= Seq::empty()); }",
        invariant="""invariant it.seq() == terms@, wf(generation), placed(*schema, generation),
            forall|a: Entid| #[trigger] is_unique.requires((a,)),
            forall|a: Entid, q: Result<bool>| #[trigger] is_unique.ensures((a,), q) ==> uq_post(*schema, a, q),
            generation.upserted@.len() == 0, generation.resolved@.len() == 0,
            forall|i: int| 0 <= i < inert@.len() ==> no_tempid(#[trigger] inert@[i]),
            forall|x: F| #[trigger] from_says(generation, inert@, x) == %s,""" % now,
        start="""let ghost g0 = generation; let ghost i0 = inert@;
            proof { cnt_take(it.seq(), it.index@, f_id()); }""",
        end="""proof { assert forall|x: F| #[trigger] from_says(generation, inert@, x) == from_says(g0, i0, x)
            + cnt(it.seq().take(it.index@ + 1), f_id(), x) - cnt(it.seq().take(it.index@), f_id(), x) by {} }""",
        after="proof { assert(terms@.take(terms@.len() as int) =~= terms@); }",
    )])
    gen += u.emit(frm, """
        ensures match r {
            Ok((g, inert)) => wf(g) && placed(*schema, g) && g.upserted@.len() == 0 && g.resolved@.len() == 0
                && (forall|i: int| 0 <= i < inert@.len() ==> no_tempid(#[trigger] inert@[i]))
                && (forall|x: F| from_says(g, inert@, x) == cnt(terms@, f_id(), x)),
            Err(_) => true,
        },
    """)
    return out + "impl Generation {\n" + gen + "}\n"
