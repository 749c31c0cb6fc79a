"""C23: what the builders hand over (transaction/src/entity_builder.rs, src/query_builder.rs,
query-algebrizer/src/clauses/inputs.rs)."""
import re
import units, extract
T = units.load("types")

# The conversions happen at the call sites: the parameters are already of the types the generics convert to.
PLAIN = [("E", "EntityPlace<TypedValue>"), ("A", "AttributePlace"), ("V", "ValuePlace<TypedValue>"), ("I", "Text"), ("T", "TypedValue")]


def plain(f, also=()):
    """Drops the conversion generics of a head and the .into() of its parameters."""
    head = f.head
    # several generics of one function: take all the ones that only carry Into
    m = re.search(r"fn \w+<([\w, ]+)>", head)
    if not m:
        raise extract.LostAnchor("%s: %s has no conversion generics" % (f.path, f.name))
    names = [x.strip() for x in m.group(1).split(",")]
    types = {}
    for n in names:
        w = re.search(r"\b%s: Into<(.*?)>,?\s*(?=\w+: Into|$)" % n, head[head.index("where"):] if "where" in head else "", re.S)
        if not w:
            raise extract.LostAnchor("%s: %s: %s is not a conversion" % (f.path, f.name, n))
        types[n] = w.group(1)
    head = re.sub(r"(fn \w+)<[\w, ]+>", r"\1", head, count=1)
    head = head[:head.index("where")].rstrip()
    params = []
    for n, t in types.items():
        t = {"String": "Text", "ValueRc<TempId>": "ValueRc<TempId>"}.get(t, t)
        for p in re.findall(r"(\w+): %s\b" % n, head):
            params.append(p)
        head = re.sub(r": %s\b" % n, ": " + t, head)
    for p in params:
        f.body = re.sub(r"\b%s\.into\(\)" % p, p, f.body)
    f.head = head
    f.rewrites.append("%s: generics that only convert the arguments (Into) are taken as already converted" % f.name)
    return f


def build(u):
    b, ent = u.src("transaction/src/entity_builder.rs"), u.src("edn/src/entities.rs")
    tl, qb, qi, core = u.src("transaction/src/lib.rs"), u.src("src/query_builder.rs"), u.src("query-algebrizer/src/clauses/inputs.rs"), u.src("core-traits/lib.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",)) + T.text(u)
    u.assume("the conversions into entity, attribute and value places (From impls) and the parser produce the same places for the same thing: not modelled here")
    out += """
#[verifier::external_body] pub struct PlainSymbol { x: () }
pub uninterp spec fn symbol_of(s: Seq<u8>) -> PlainSymbol;
impl PlainSymbol { #[verifier::external_body] pub fn plain(s: &Text) -> (r: PlainSymbol) ensures r == symbol_of(s@) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapNotation<V> { x: V }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Values<V> { x: V }
""" + u.struct(ent, "TempId").replace("String", "Text") + u.struct(ent, "EntidOrIdent") + u.struct(ent, "AttributePlace")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "LookupRef") + u.struct(ent, "TxFunction")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "EntityPlace")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "ValuePlace").replace("Vector(Vec<ValuePlace<V>>)", "Vector(Values<V>)")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "Entity")
    u.assume("the derived Clone of EntityPlace returns an equal value; an InternSet is the set of what was interned in it")
    out += """
impl Clone for EntityPlace<TypedValue> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct InternSet<T> { x: T }
impl InternSet<TempId> {
  pub uninterp spec fn view(&self) -> Set<TempId>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<TempId>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn intern(&mut self, t: TempId) -> (r: ValueRc<TempId>) ensures *r == t, final(self)@ == old(self)@.insert(t) { unimplemented!() }
}
pub open spec fn named(t: TempId, name: Seq<u8>) -> bool { t matches TempId::External(n) && n@ == name }
pub open spec fn term(op: OpType, e: EntityPlace<TypedValue>, a: AttributePlace, v: ValuePlace<TypedValue>) -> Entity<TypedValue> { Entity::AddOrRetract { op, e, a, v } }
pub type Terms = (Vec<Entity<TypedValue>>, InternSet<TempId>);
// What every builder promises: the terms, in the order in which they were given, and nothing else.
pub trait BuildTerms: Sized {
  spec fn terms(&self) -> Seq<Entity<TypedValue>>;
  spec fn target(&self) -> int;
  fn named_tempid(&mut self, name: Text) -> (r: ValueRc<TempId>)
    ensures final(self).terms() == old(self).terms(), final(self).target() == old(self).target(), named(*r, name@);
  fn describe(self, entity: EntityPlace<TypedValue>) -> (r: EntityBuilder<Self>)
    ensures r.builder == self, r.entity == entity;
  fn describe_tempid(self, name: &Text) -> (r: EntityBuilder<Self>)
    ensures r.builder.terms() == self.terms(), r.builder.target() == self.target(),
        r.entity matches EntityPlace::TempId(t) && named(*t, name@);
  fn add(&mut self, e: EntityPlace<TypedValue>, a: AttributePlace, v: ValuePlace<TypedValue>) -> (r: Result<()>)
    ensures r is Ok, final(self).target() == old(self).target(), final(self).terms() == old(self).terms().push(term(OpType::Add, e, a, v));
  fn retract(&mut self, e: EntityPlace<TypedValue>, a: AttributePlace, v: ValuePlace<TypedValue>) -> (r: Result<()>)
    ensures r is Ok, final(self).target() == old(self).target(), final(self).terms() == old(self).terms().push(term(OpType::Retract, e, a, v));
}
""" + u.struct(b, "TermBuilder") + "#[verifier::reject_recursive_types(T)]\n" + u.struct(b, "EntityBuilder")

    def methods(src, within, names, post=lambda n: "", fix=lambda f: f):
        o = ""
        for n in names:
            f = src.fn(n, within)
            if re.search(r"fn \w+<", f.head):
                f = plain(f)
            f.sub(r"&str", "&Text", "text", count=0, minimum=0)
            f.head = f.head.replace("&str", "&Text")
            f.sub(r"\bname\.into\(\)", "name", "already converted", count=0, minimum=0)
            f.sub(r"\bname\.to_string\(\)", "name.to_owned()", "the same text", count=0, minimum=0)
            f.sub(r"named_tempid\(name\)", "named_tempid(name)" if n != "describe_tempid" else "named_tempid(name.to_owned())", "conversion into a String", count=0, minimum=0)
            f.sub(r"self\.describe\((\w+)\)", r"self.describe(EntityPlace::TempId(\1))", "conversion of a tempid into an entity place", count=0, minimum=0)
            f.sub(r"describe\(EntityPlace::TempId\(entity\)\)", "describe(entity)", "already a place", count=0, minimum=0)
            f = fix(f)
            if re.search(r"\(mut self\b", f.head):
                f.head = f.head.replace("(mut self", "(self")
                f.body = re.sub(r"^\s*\{", "{ let mut self_ = self;", re.sub(r"\bself\b", "self_", f.body), count=1)
                f.rewrites.append("%s: `mut self` -> a local" % f.name)
            if "->" in f.head:
                f.ret("r")
            o += u.emit(f, post(n), vis="" if "for" in within.split("impl")[1] and " for " in within else "pub ")
        return o
    TR = ["named_tempid", "describe_tempid", "describe", "add", "retract"]
    out += "impl BuildTerms for TermBuilder {\nopen spec fn terms(&self) -> Seq<Entity<TypedValue>> { self.terms@ }\nopen spec fn target(&self) -> int { 0 }\n" + methods(b, r"impl BuildTerms for TermBuilder", TR) + "}\n"

    def tb(n):
        return {"build": "ensures r is Ok, r->Ok_0.0@ == self.terms@, r->Ok_0.1 == self.tempids",
                "new": "ensures r.terms@ == Seq::<Entity<TypedValue>>::empty(), r.tempids@ == Set::<TempId>::empty()",
                "is_empty": "ensures r == (self.terms@.len() == 0)",
                "numbered_tempid": "ensures *r == TempId::Internal(id), final(self).terms@ == old(self).terms@",
                "lookup_ref": "ensures r.a == a && r.v == v",
                "tx_function": "ensures r.op == symbol_of(op@)"}[n]
    out += "impl TermBuilder {\n" + methods(b, r"impl TermBuilder\b", ["build", "new", "is_empty", "numbered_tempid", "lookup_ref", "tx_function"], tb) + "}\n"

    def eb(n):
        op = "Add" if n == "add" else "Retract"
        return {"finish": "ensures r.0 == self.builder, r.1 == self.entity"}.get(n, """
        ensures r is Ok, final(self).entity == old(self).entity, final(self).builder.target() == old(self).builder.target(),
            final(self).builder.terms() == old(self).builder.terms().push(term(OpType::%s, old(self).entity, a, v))""" % op)
    out += "impl<T> EntityBuilder<T> where T: BuildTerms {\n" + methods(b, r"impl<T> EntityBuilder<T>", ["finish", "add", "retract"], eb) + "}\n"

    # Handing over: what is transacted is what was built, and nothing is committed unless that worked.
    u.assume("transact_entities is under contract elsewhere (C01-C10); here it is a relation between the terms and its result")
    out += """
#[verifier::external_body] pub struct TxReport { x: () }
pub struct InProgress { pub id: int, pub given: Ghost<Seq<Seq<Entity<TypedValue>>>>, pub worked: Ghost<bool> }
pub uninterp spec fn commits(p: InProgress) -> bool;
pub uninterp spec fn outcome(p: InProgress, terms: Seq<Entity<TypedValue>>) -> Result<TxReport>;
pub open spec fn after(p: InProgress, terms: Seq<Entity<TypedValue>>) -> InProgress { InProgress { id: p.id, given: Ghost(p.given@.push(terms)), worked: Ghost(outcome(p, terms) is Ok) } }
impl InProgress {
  #[verifier::external_body] pub fn transact_entities(&mut self, terms: Vec<Entity<TypedValue>>) -> (r: Result<TxReport>)
    ensures *final(self) == after(*old(self), terms@), r == outcome(*old(self), terms@) { unimplemented!() }
  // Only what worked is ever committed.
  #[verifier::external_body] pub fn commit(self) -> (r: Result<()>)
    requires self.worked@
    ensures r is Ok <==> commits(self) { unimplemented!() }
"""
    def chain(f):
        # x.and_then(|pat| body) -> match x { Ok(pat) => body, Err(e) => Err(e) }
        for _ in range(3):
            m = re.search(r"((?:self\s*)?[\w.]*?\b(?:builder\s*\.build\(\)|in_progress\s*\.transact_builder\([^()]*\)))\s*\.and_then\(\|((?:\([^|]*\)|\w+))\| ", f.body, re.S)
            if not m:
                break
            o = f.body.index(".and_then(", m.end(1)) + len(".and_then")
            e = extract.close_of(extract.mask(f.body), o)
            body = f.body[m.end():e]
            f.body = f.body[:m.start()] + "(match %s { Ok(%s) => { %s }, Err(e_) => Err(e_) })" % (m.group(1), m.group(2), body) + f.body[e + 1:]
            f.rewrites.append("%s: and_then with a closure -> match" % f.name)
        return f
    f = chain(tl.fn("transact_builder", r"impl<'a, 'c> InProgress<'a, 'c>").ret("r"))
    out += u.emit(f, "ensures *final(self) == after(*old(self), builder.terms@), r == outcome(*old(self), builder.terms@)") + "}\n"
    out += u.struct(b, "InProgressBuilder").replace("<'a, 'c>", "")
    W = r"impl<'a, 'c> BuildTerms for InProgressBuilder<'a, 'c>"

    def strip(f):
        f.head = f.head.replace("<'a, 'c>", "")
        f.body = f.body.replace("InProgress<'a, 'c>", "InProgress")
        return chain(f)
    out += "impl BuildTerms for InProgressBuilder {\nopen spec fn terms(&self) -> Seq<Entity<TypedValue>> { self.builder.terms@ }\nopen spec fn target(&self) -> int { self.in_progress.id }\n" + methods(b, W, TR, fix=strip) + "}\n"

    def ipb(n):
        return {"new": "ensures r.in_progress == in_progress, r.builder.terms@ == Seq::<Entity<TypedValue>>::empty()",
                "transact": "ensures r.0 == after(self.in_progress, self.builder.terms@), r.1 == outcome(self.in_progress, self.builder.terms@)",
                "commit": """ensures r is Ok ==> r == outcome(self.in_progress, self.builder.terms@) && commits(after(self.in_progress, self.builder.terms@)),
                    r is Err ==> outcome(self.in_progress, self.builder.terms@) is Err || !commits(after(self.in_progress, self.builder.terms@))"""}[n]
    out += "impl InProgressBuilder {\n" + methods(b, r"impl<'a, 'c> InProgressBuilder<'a, 'c>", ["new", "transact", "commit"], ipb, fix=strip) + "}\n"

    def epb(n):
        return ipb(n).replace("self.", "self.builder.")
    out += "impl EntityBuilder<InProgressBuilder> {\n" + methods(b, r"impl<'a, 'c> EntityBuilder<InProgressBuilder<'a, 'c>>", ["transact", "commit"], epb, fix=strip) + "}\n"
    out += inputs(u, qb, qi, core)
    return out


def inputs(u, qb, qi, core):
    u.assume("value_type() of a TypedValue names its variant; Variable::from_valid_name gives the variable of that name; TypedValue::instant gives the instant so many microseconds after 1970")
    out = "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, "ValueType") + """
pub open spec fn type_of(v: TypedValue) -> ValueType { match v {
    TypedValue::Ref(_) => ValueType::Ref, TypedValue::Boolean(_) => ValueType::Boolean, TypedValue::Long(_) => ValueType::Long, TypedValue::Double(_) => ValueType::Double,
    TypedValue::Instant(_) => ValueType::Instant, TypedValue::String(_) => ValueType::String, TypedValue::Keyword(_) => ValueType::Keyword, TypedValue::Uuid(_) => ValueType::Uuid } }
#[verifier::external_body] pub struct Variable { x: () }
pub uninterp spec fn var(name: Seq<u8>) -> Variable;
impl Variable {
  #[verifier::external_body] pub fn from_valid_name(n: &Text) -> (r: Variable) ensures r == var(n@) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Variable) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn instant_of(micros: int) -> TypedValue;
impl TypedValue {
  #[verifier::external_body] pub fn value_type(&self) -> (r: ValueType) ensures r == type_of(*self) { unimplemented!() }
  #[verifier::external_body] pub fn instant(micros: i64) -> (r: TypedValue) ensures r == instant_of(micros as int), type_of(r) == ValueType::Instant { unimplemented!() }
}
""" + u.struct(qi, "QueryInputs") + """
// The types of the bound values are known to the query.
pub open spec fn consistent(q: QueryInputs) -> bool { forall|v: Variable| #[trigger] q.values@.contains_key(v) ==> q.types@.contains_key(v) && q.types@[v] == type_of(q.values@[v]) }
impl QueryInputs {
"""
    f = qi.fn("new", r"impl QueryInputs\b").ret("r")
    f.macro("bail", units.bail(), "errors are opaque")
    f.sub(r"in values\.iter\(\)", "in es.iter()", "the entries of the map", minimum=0)
    f.sub(r"for \((\w+), (\w+)\) in ([^{]*?)\{", r"for e_ in \3{ let \1 = e_.0; let \2 = e_.1;", "the pair taken apart inside")
    loops = f.loops()
    if len(loops) != 1 or "es.iter()" not in f.body:
        raise extract.LostAnchor("QueryInputs::new: the loop over the values")
    f.annotate([dict(name="it", kind="for", before="let ghost all = values@; let ghost given = types@; let es = values.entries(); let ghost pairs = es@.map_values(|p: (&Variable, &TypedValue)| (*p.0, *p.1)); proof { assert(pairs.len() == es@.len()); }",
        invariant="""
        invariant pairs == es@.map_values(|p: (&Variable, &TypedValue)| (*p.0, *p.1)), entries_of(all, pairs), it.seq().len() == es@.len(), all == values@,
            forall|i: int| 0 <= i < es@.len() ==> *(#[trigger] it.seq()[i]) == es@[i],
            forall|i: int| 0 <= i < it.index@ ==> agrees(given, #[trigger] pairs[i]),
            forall|i: int| 0 <= i < it.index@ ==> types@.contains_key((#[trigger] pairs[i]).0) && types@[pairs[i].0] == type_of(pairs[i].1),
            forall|k: Variable| #[trigger] given.contains_key(k) ==> types@.contains_key(k),
            forall|k: Variable| #[trigger] types@.contains_key(k) ==> given.contains_key(k) || all.contains_key(k),
            forall|k: Variable| #[trigger] types@.contains_key(k) && given.contains_key(k) ==> types@[k] == given[k],
            forall|k: Variable| #[trigger] types@.contains_key(k) && !given.contains_key(k) ==> exists|i: int| 0 <= i < it.index@ && (#[trigger] pairs[i]).0 == k,""",
        start="""proof { assert(*it.seq()[it.index@] == es@[it.index@]); assert(pairs[it.index@] == (*es@[it.index@].0, *es@[it.index@].1)); assert(all.contains_key(pairs[it.index@].0));
            let k_ = pairs[it.index@].0; assert(all[k_] == pairs[it.index@].1); assert(types@.contains_key(k_) ==> given.contains_key(k_)) by {
                if types@.contains_key(k_) && !given.contains_key(k_) { let i = choose|i: int| 0 <= i < it.index@ && (#[trigger] pairs[i]).0 == k_; assert(pairs[i].0 == pairs[it.index@].0); } }
            assert(types@.contains_key(k_) && types@[k_] != type_of(pairs[it.index@].1) ==> !agrees(given, (k_, all[k_]))); }""")])
    f.sub(r"Ok\(QueryInputs \{ types, values \}\)", """proof { assert forall|k: Variable| #[trigger] all.contains_key(k) implies agrees(given, (k, all[k])) && types@.contains_key(k) && types@[k] == type_of(all[k]) by {
            let i = choose|i: int| 0 <= i < pairs.len() && (#[trigger] pairs[i]).0 == k; assert(pairs[i] == (k, all[k])); } }
        Ok(QueryInputs { types, values })""", "proof", minimum=0)
    out = out.replace("impl QueryInputs {\n", "// A given type is the type of the value, if there is one.\npub open spec fn agrees(types: Map<Variable, ValueType>, p: (Variable, TypedValue)) -> bool { types.contains_key(p.0) ==> types[p.0] == type_of(p.1) }\nimpl QueryInputs {\n")
    out += "#[verifier::loop_isolation(false)]\n" + u.emit(f, """
        ensures r is Ok ==> consistent(r->Ok_0) && r->Ok_0.values@ == values@
                && forall|k: Variable| #[trigger] types@.contains_key(k) ==> r->Ok_0.types@.contains_key(k) && r->Ok_0.types@[k] == types@[k],
            r is Ok ==> forall|k: Variable| #[trigger] r->Ok_0.types@.contains_key(k) ==> types@.contains_key(k) || values@.contains_key(k),
            // only a disagreement is an error
            (forall|k: Variable| #[trigger] values@.contains_key(k) ==> agrees(types@, (k, values@[k]))) ==> r is Ok,
    """) + "}\n"

    # The query builder.
    u.assume("running a query is opaque; here it is a relation between the text, the inputs and the answer")
    out += """
#[verifier::external_body] pub struct QueryOutput { x: () }
#[verifier::external_body] pub struct InProgressRead { x: () }
#[verifier::external_body] pub struct Store { x: () }
pub uninterp spec fn answer(s: Store, q: Seq<u8>, types: Map<Variable, ValueType>, values: Map<Variable, TypedValue>) -> Result<QueryOutput>;
pub uninterp spec fn of(r: InProgressRead) -> Store;
pub uninterp spec fn ident(s: Store, k: Keyword) -> Option<i64>;
impl Store {
  #[verifier::external_body] pub fn begin_read(&mut self) -> (r: Result<InProgressRead>) ensures *final(self) == *old(self), r is Ok ==> of(r->Ok_0) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn entid_(&self, k: &Keyword) -> (r: Option<KnownEntid>) ensures (match r { Some(e) => Some(e.0), None => None }) == ident(*self, *k) { unimplemented!() }
}
impl InProgressRead {
  #[verifier::external_body] pub fn q_once(&self, q: &Text, i: QueryInputs) -> (r: Result<QueryOutput>) requires consistent(i) ensures r == answer(of(*self), q@, i.types@, i.values@) { unimplemented!() }
}
#[verifier::external_body] pub fn take_values_(m: &mut BTreeMap<Variable, TypedValue>) -> (r: BTreeMap<Variable, TypedValue>) ensures r == *old(m), final(m)@ == Map::<Variable, TypedValue>::empty() { unimplemented!() }
#[verifier::external_body] pub fn take_types_(m: &mut BTreeMap<Variable, ValueType>) -> (r: BTreeMap<Variable, ValueType>) ensures r == *old(m), final(m)@ == Map::<Variable, ValueType>::empty() { unimplemented!() }
""" + u.struct(qb, "QueryBuilder").replace("String", "Text") + """
pub open spec fn binds(a: QueryBuilder, b: QueryBuilder, name: Seq<u8>, v: TypedValue) -> bool {
    b.query == a.query && *b.store == *a.store && b.types@ == a.types@ && b.values@ == a.values@.insert(var(name), v)
}
impl<'a> QueryBuilder<'a> {
"""
    W = r"impl<'a> QueryBuilder<'a>"
    for n, v in [("bind_value", "value"), ("bind_ref", "TypedValue::Ref(value)"), ("bind_long", "TypedValue::Long(value)"), ("bind_instant", "instant_of(value as int)"), ("bind_type", None)]:
        f = qb.fn(n, W)
        if re.search(r"fn \w+<", f.head):
            f = plain(f)
        f.head = f.head.replace("&str", "&Text")
        f.head = re.sub(r"-> &mut Self", "", f.head)
        f.body = re.sub(r"\bself\s*\}\s*$", "}", f.body)
        f.rewrites.append("%s: the builder it returns (itself) is dropped" % n)
        spec = "ensures binds(*old(self), *final(self), var@, %s)" % v if v else "ensures final(self).query == old(self).query, *final(self).store == *old(self).store, final(self).values@ == old(self).values@, final(self).types@ == old(self).types@.insert(crate::var(var@), value_type)"
        out += u.emit(f, spec)
    f = qb.fn("execute", W).ret("r")
    f.sub(r"::std::mem::take\(&mut self\.values\)", "take_values_(&mut self.values)", "std::mem::take")
    f.sub(r"::std::mem::take\(&mut self\.types\)", "take_types_(&mut self.types)", "std::mem::take")
    f.sub(r"\.map_err\(\|(\w+)\| (?:\1|\1\.into\(\))\)", "", "conversion of the error", count=0, minimum=0)
    out += u.emit(f, """
        ensures final(self).query == old(self).query,
            // the answer of the store as it is, for exactly these inputs
            r is Ok ==> exists|types: Map<Variable, ValueType>| #[trigger] answer(*old(self).store, old(self).query@, types, old(self).values@) == r
                && (forall|k: Variable| #[trigger] old(self).types@.contains_key(k) ==> types.contains_key(k) && types[k] == old(self).types@[k])
                && (forall|k: Variable| #[trigger] types.contains_key(k) ==> old(self).types@.contains_key(k) || old(self).values@.contains_key(k)),
    """)
    return out + "}\n"
