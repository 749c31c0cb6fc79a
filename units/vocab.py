"""C21: what ensuring vocabularies reads, decides and transacts (src/vocabulary.rs)."""
import re
import units, extract
T = units.load("types")
RLIMIT = 60

# What each of the keywords of the core schema stands for in the specification.
CORE = dict(version=("db.schema", "version"), ident=("db", "ident"), attr=("db.schema", "attribute"), card=("db", "cardinality"),
            fulltext=("db", "fulltext"), index=("db", "index"), component=("db", "isComponent"), vtype=("db", "valueType"),
            unique=("db", "unique"), nohist=("db", "noHistory"))
VALUES = dict(many=("db.cardinality", "many"), one=("db.cardinality", "one"), uident=("db.unique", "identity"), uvalue=("db.unique", "value"))

SPEC = """
pub type Pair = (Keyword, Attribute);
pub struct Voc { pub entity: Entid, pub version: int, pub attributes: Seq<(Entid, Attribute)> }
pub open spec fn sv(v: Vocabulary) -> Voc { Voc { entity: v.entity, version: v.version as int, attributes: v.attributes@ } }
// What a vocabulary says about an attribute.
pub open spec fn found(s: Seq<(Entid, Attribute)>, e: Entid) -> Option<Attribute> decreases s.len() {
    if s.len() == 0 { None } else { match found(s.drop_last(), e) { Some(a) => Some(a), None => if s.last().0 == e { Some(s.last().1) } else { None } } }
}
proof fn found_stays(s: Seq<(Entid, Attribute)>, e: Entid, k: int)
    requires 0 <= k <= s.len(), found(s.take(k), e) is Some
    ensures found(s, e) == found(s.take(k), e) decreases s.len() - k
{ if k < s.len() { assert(s.take(k + 1).drop_last() =~= s.take(k)); found_stays(s, e, k + 1); } else { assert(s.take(k) =~= s); } }
pub open spec fn said(s: St, v: Voc, k: Keyword) -> Option<Attribute> { match entid_of(s, k) { Some(e) => found(v.attributes, e), None => None } }
// The attributes of the vocabulary entity in the store: those of its values that are attributes.
pub open spec fn attributes_in(s: St, vs: Seq<TypedValue>) -> Seq<(Entid, Attribute)> decreases vs.len() {
    if vs.len() == 0 { seq![] } else { let p = attributes_in(s, vs.drop_last());
        match vs.last() { TypedValue::Ref(e) => match attr_of(s, e) { Some(a) => p.push((e, a)), None => p }, _ => p } }
}
pub open spec fn version_ok(v: i64) -> bool { 1 <= v <= 0xffff_ffff }
// The vocabulary of that name in the store: None when it cannot be told.
pub open spec fn stored(s: St, name: Keyword) -> Option<Option<Voc>> {
    match entid_of(s, name) { None => Some(None), Some(e) => match value_of(s, e, k_version()) {
        None => None, Some(None) => Some(None),
        Some(Some(TypedValue::Long(v))) => if !version_ok(v) { None } else { match values_of(s, e, k_attr()) { None => None,
            Some(vs) => Some(Some(Voc { entity: e, version: v as int, attributes: attributes_in(s, vs) })) } },
        Some(Some(_)) => None } }
}
// An attribute with another definition under the same name and version.
pub open spec fn differs(s: St, v: Voc, p: Pair) -> bool { said(s, v, p.0) matches Some(a) && a != p.1 }
pub open spec fn conflict(s: St, v: Voc, ps: Seq<Pair>) -> bool { exists|i: int| 0 <= i < ps.len() && differs(s, v, #[trigger] ps[i]) }
pub open spec fn missing(s: St, v: Voc, ps: Seq<Pair>) -> Seq<Pair> decreases ps.len() {
    if ps.len() == 0 { seq![] } else { let m = missing(s, v, ps.drop_last()); if said(s, v, ps.last().0) is None { m.push(ps.last()) } else { m } }
}
pub open spec fn deref(s: Seq<&Pair>) -> Seq<Pair> { s.map_values(|p: &Pair| *p) }
proof fn deref_push(s: Seq<&Pair>, p: &Pair) ensures deref(s.push(p)) == deref(s).push(*p) { assert(deref(s.push(p)) =~= deref(s).push(*p)); }
// What checking a definition against the store says.
pub open spec fn checks(s: St, d: Definition, r: Result<VocabularyCheck>) -> bool {
    if d.version == 0 { r is Err } else { match stored(s, d.name) {
        None => r is Err,
        Some(None) => r matches Ok(VocabularyCheck::NotPresent),
        Some(Some(v)) =>
            if v.version < d.version { r matches Ok(VocabularyCheck::PresentButNeedsUpdate { older_version }) && sv(older_version) == v }
            else if v.version > d.version { r matches Ok(VocabularyCheck::PresentButTooNew { newer_version }) && sv(newer_version) == v }
            else if conflict(s, v, d.attributes@) { r is Err }
            else if missing(s, v, d.attributes@).len() == 0 { r matches Ok(VocabularyCheck::Present) }
            else { r matches Ok(VocabularyCheck::PresentButMissingAttributes { attributes }) && deref(attributes@) == missing(s, v, d.attributes@) } } }
}
// ---- what is transacted
pub type Bag = Multiset<Entity<TypedValue>>;
pub open spec fn place(e: Entid) -> EntidOrIdent { EntidOrIdent::Entid(e) }
pub open spec fn term(op: OpType, e: EntityPlace<TypedValue>, a: Keyword, v: ValuePlace<TypedValue>, s: St) -> Entity<TypedValue> {
    Entity::AddOrRetract { op, e, a: AttributePlace::Entid(place(entid_of(s, a)->0)), v } }
pub open spec fn add(s: St, e: EntityPlace<TypedValue>, a: Keyword, v: ValuePlace<TypedValue>) -> Entity<TypedValue> { term(OpType::Add, e, a, v, s) }
pub open spec fn atom(v: TypedValue) -> ValuePlace<TypedValue> { ValuePlace::Atom(v) }
pub open spec fn refer(e: Entid) -> ValuePlace<TypedValue> { ValuePlace::Entid(place(e)) }
pub open spec fn schema_tmp() -> EntityPlace<TypedValue> { EntityPlace::TempId(tmp("s"@)) }
// An ident names an attribute of the core schema, something, a type.
pub open spec fn is_attr(s: St, k: Keyword) -> bool { entid_of(s, k) matches Some(e) && attr_of(s, e) is Some }
pub open spec fn existing_unique(s: St, k: Keyword) -> Option<Unique> { match entid_of(s, k) { Some(e) => match attr_of(s, e) { Some(a) => a.unique, None => None }, None => None } }
pub open spec fn unique_value(s: St, u: Unique) -> ValuePlace<TypedValue> { match u { Unique::Identity => refer(entid_of(s, k_uident())->0), Unique::Value => refer(entid_of(s, k_uvalue())->0) } }
// Everything an attribute's definition says, said outright: absence is not negation.
pub open spec fn about(s: St, b: Bag, p: Pair) -> Bag {
    let t = EntityPlace::<TypedValue>::TempId(tmp(shown(p.0)));
    let all = b.insert(add(s, t, k_ident(), atom(kwval(p.0))))
        .insert(add(s, schema_tmp(), k_attr(), ValuePlace::TempId(tmp(shown(p.0)))))
        .insert(add(s, t, k_vtype(), refer(type_entid(s, p.1.value_type)->0)))
        .insert(add(s, t, k_card(), refer(entid_of(s, if p.1.multival { k_many() } else { k_one() })->0)))
        .insert(add(s, t, k_index(), atom(TypedValue::Boolean(p.1.index))))
        .insert(add(s, t, k_fulltext(), atom(TypedValue::Boolean(p.1.fulltext))))
        .insert(add(s, t, k_component(), atom(TypedValue::Boolean(p.1.component))))
        .insert(add(s, t, k_nohist(), atom(TypedValue::Boolean(p.1.no_history))));
    match (p.1.unique, existing_unique(s, p.0)) {
        (Some(u), _) => all.insert(add(s, t, k_unique(), unique_value(s, u))),
        (None, Some(u)) => all.insert(term(OpType::Retract, t, k_unique(), unique_value(s, u), s)),
        (None, None) => all }
}
pub open spec fn described(s: St, name: Keyword, version: int, ps: Seq<Pair>) -> Bag decreases ps.len() {
    if ps.len() == 0 { Multiset::empty().insert(add(s, schema_tmp(), k_version(), atom(TypedValue::Long(version as i64)))).insert(add(s, schema_tmp(), k_ident(), atom(kwval(name)))) }
    else { about(s, described(s, name, version, ps.drop_last()), ps.last()) }
}
pub open spec fn types_known(s: St, ps: Seq<Pair>) -> bool { forall|i: int| 0 <= i < ps.len() ==> #[trigger] type_entid(s, ps[i].1.value_type) is Some }
// ---- the steps
pub open spec fn transacts(s: Option<St>, d: Definition, ps: Seq<Pair>) -> Option<St> { match s { None => None, Some(s) =>
    if core_known(s) && types_known(s, ps) { applied(s, described(s, d.name, d.version as int, ps)) } else { None } } }
pub open spec fn hooked(s: Option<St>, h: Hook, v: Voc) -> Option<St> { match s { None => None, Some(s) => after_hook(s, h, v) } }
pub open spec fn upgraded(s: Option<St>, d: Definition, from: Voc) -> Option<St> { hooked(transacts(hooked(s, d.pre, from), d, d.attributes@), d.post, from) }
// What has been done is all that has been done.
pub open spec fn does(r: Result<VocabularyOutcome>, was: St, now: St, want: Option<St>, o: VocabularyOutcome) -> bool {
    if want is Some { r == Ok::<VocabularyOutcome, Error>(o) && Some(now) == want } else { r is Err } }
pub open spec fn outcome_of(c: VocabularyCheck) -> VocabularyOutcome { match c { VocabularyCheck::NotPresent => VocabularyOutcome::Installed,
    VocabularyCheck::PresentButNeedsUpdate { older_version } => VocabularyOutcome::Upgraded, VocabularyCheck::PresentButMissingAttributes { attributes } => VocabularyOutcome::InstalledMissingAttributes, _ => VocabularyOutcome::Existed } }
"""

MANY = """
// ---- several at once
pub type Item<'a> = (Keyword, (&'a Definition, VocabularyCheck<'a>));
pub open spec fn refused(s: St, d: Definition) -> bool { forall|r: Result<VocabularyCheck>| #[trigger] checks(s, d, r) ==> r is Err || r->Ok_0 is PresentButTooNew }
pub open spec fn wants(s: St, d: Definition) -> bool { forall|r: Result<VocabularyCheck>| #[trigger] checks(s, d, r) ==> r is Ok && (r->Ok_0 is NotPresent || r->Ok_0 is PresentButNeedsUpdate || r->Ok_0 is PresentButMissingAttributes) }
pub open spec fn presented(s: St, d: Definition) -> bool { forall|r: Result<VocabularyCheck>| #[trigger] checks(s, d, r) ==> r matches Ok(VocabularyCheck::Present) }
pub open spec fn any_refused(s: St, ds: Seq<Definition>) -> bool { exists|i: int| 0 <= i < ds.len() && refused(s, #[trigger] ds[i]) }
proof fn one_of(s: St, d: Definition, r: Result<VocabularyCheck>)
    requires checks(s, d, r)
    ensures refused(s, d) <==> r is Err || r->Ok_0 is PresentButTooNew, presented(s, d) <==> r matches Ok(VocabularyCheck::Present),
        wants(s, d) <==> !refused(s, d) && !presented(s, d)
{ }
// One of the definitions of that name that need work.
pub open spec fn wanted(s: St, ds: Seq<Definition>, k: Keyword, d: Definition) -> bool { exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i] == d && d.name == k && wants(s, d) }
pub open spec fn wanted_name(s: St, ds: Seq<Definition>, k: Keyword) -> bool { exists|i: int| 0 <= i < ds.len() && #[trigger] ds[i].name == k && wants(s, ds[i]) }
pub open spec fn item_ok(s: St, ds: Seq<Definition>, k: Keyword, x: (&Definition, VocabularyCheck)) -> bool { wanted(s, ds, k, *x.0) && checks(s, *x.0, Ok(x.1)) }
pub open spec fn work_ok<'a>(s: St, ds: Seq<Definition>, m: Map<Keyword, (&'a Definition, VocabularyCheck<'a>)>) -> bool {
  &&& forall|k: Keyword| #[trigger] m.contains_key(k) ==> item_ok(s, ds, k, m[k])
  &&& forall|k: Keyword| #[trigger] wanted_name(s, ds, k) ==> m.contains_key(k)
}
pub open spec fn existed(s: St, ds: Seq<Definition>) -> Map<Keyword, VocabularyOutcome> decreases ds.len() {
    if ds.len() == 0 { Map::empty() } else if presented(s, ds.last()) { existed(s, ds.drop_last()).insert(ds.last().name, VocabularyOutcome::Existed) } else { existed(s, ds.drop_last()) } }
pub type Outs = Map<Keyword, VocabularyOutcome>;
pub type Step = (Option<St>, Outs);
pub open spec fn step(x: Step, k: Keyword, s: Option<St>, o: VocabularyOutcome) -> Step { (s, x.1.insert(k, o)) }
// First what is absent is installed, then what is old is upgraded, then what is incomplete is completed.
pub open spec fn installs(x: Step, m: Seq<Item>) -> Step decreases m.len() {
    if m.len() == 0 { x } else { let p = installs(x, m.drop_last()); match m.last().1.1 { VocabularyCheck::NotPresent => step(p, m.last().0, transacts(p.0, *m.last().1.0, m.last().1.0.attributes@), VocabularyOutcome::Installed), _ => p } } }
pub open spec fn older<'a>(m: Seq<Item<'a>>) -> Seq<(&'a Definition, Vocabulary)> decreases m.len() {
    if m.len() == 0 { seq![] } else { match m.last().1.1 { VocabularyCheck::PresentButNeedsUpdate { older_version } => older(m.drop_last()).push((m.last().1.0, older_version)), _ => older(m.drop_last()) } } }
pub open spec fn incomplete<'a>(m: Seq<Item<'a>>) -> Seq<(&'a Definition, Vec<&'a Pair>)> decreases m.len() {
    if m.len() == 0 { seq![] } else { match m.last().1.1 { VocabularyCheck::PresentButMissingAttributes { attributes } => incomplete(m.drop_last()).push((m.last().1.0, attributes)), _ => incomplete(m.drop_last()) } } }
pub open spec fn upgrades(x: Step, u: Seq<(&Definition, Vocabulary)>) -> Step decreases u.len() {
    if u.len() == 0 { x } else { let p = upgrades(x, u.drop_last()); step(p, u.last().0.name, upgraded(p.0, *u.last().0, sv(u.last().1)), VocabularyOutcome::Upgraded) } }
pub open spec fn completes(x: Step, u: Seq<(&Definition, Vec<&Pair>)>) -> Step decreases u.len() {
    if u.len() == 0 { x } else { let p = completes(x, u.drop_last()); step(p, u.last().0.name, transacts(p.0, *u.last().0, deref(u.last().1@)), VocabularyOutcome::InstalledMissingAttributes) } }
pub open spec fn whole(s: St, out: Outs, src: SourceId, m: Seq<Item>) -> Step {
    let x = completes(upgrades(installs((before_all(s, src), out), m), older(m)), incomplete(m));
    (match x.0 { None => None, Some(s) => after_all(s, src) }, x.1)
}
proof fn installs_stuck(x: Step, m: Seq<Item>, k: int)
    requires 0 <= k <= m.len(), installs(x, m.take(k)).0 is None ensures installs(x, m).0 is None decreases m.len() - k
{ if k < m.len() { assert(m.take(k + 1).drop_last() =~= m.take(k)); assert(m.take(k + 1).last() == m[k]); installs_stuck(x, m, k + 1); } else { assert(m.take(k) =~= m); } }
proof fn upgrades_stuck(x: Step, m: Seq<(&Definition, Vocabulary)>, k: int)
    requires 0 <= k <= m.len(), upgrades(x, m.take(k)).0 is None ensures upgrades(x, m).0 is None decreases m.len() - k
{ if k < m.len() { assert(m.take(k + 1).drop_last() =~= m.take(k)); assert(m.take(k + 1).last() == m[k]); upgrades_stuck(x, m, k + 1); } else { assert(m.take(k) =~= m); } }
proof fn completes_stuck(x: Step, m: Seq<(&Definition, Vec<&Pair>)>, k: int)
    requires 0 <= k <= m.len(), completes(x, m.take(k)).0 is None ensures completes(x, m).0 is None decreases m.len() - k
{ if k < m.len() { assert(m.take(k + 1).drop_last() =~= m.take(k)); assert(m.take(k + 1).last() == m[k]); completes_stuck(x, m, k + 1); } else { assert(m.take(k) =~= m); } }
"""


def keywords(u, s):
    """The lazy statics, as functions; what each is is read from the source."""
    out = ""
    st = re.findall(r"static\s+ref\s+(\w+)\s*:\s*Keyword\s*=\s*(?:kw!\(\s*:([\w.]+)/([\w.]+)\s*\)|Keyword::namespaced\(\s*\"([\w.]+)\"\s*,\s*\"([\w.]+)\"\s*\))\s*;", s.text)
    if not st:
        raise extract.LostAnchor("src/vocabulary.rs: no keywords")
    for n, a, b, c, d in st:
        out += 'pub fn %s() -> (r: Keyword) ensures r == kwd("%s"@, "%s"@) { keyword("%s", "%s") }\n' % (n, a or c, b or d, a or c, b or d)
    for n, (a, b) in list(CORE.items()) + list(VALUES.items()) + [("core", ("db.schema", "core"))]:
        out += 'pub open spec fn k_%s() -> Keyword { kwd("%s"@, "%s"@) }\n' % (n, a, b)
    out += "pub open spec fn core_known(s: St) -> bool { %s }\n" % " && ".join(["is_attr(s, k_%s())" % n for n in CORE] + ["entid_of(s, k_%s()) is Some" % n for n in VALUES])
    return out, [x[0] for x in st]


def build(u):
    s, ent, core = u.src("src/vocabulary.rs"), u.src("edn/src/entities.rs"), u.src("core-traits/lib.rs")
    out = "use vstd::multiset::Multiset;\n" + T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",)) + T.text(u)
    u.assume("what the store answers to a lookup (C14-C18) and does with transacted terms (C01-C13) are functions of its state and of what it is given; the order of the terms of one transaction does not matter")
    u.assume("every map can be enumerated; the derived PartialEq and Clone of Attribute, Vocabulary and Keyword mean equality")
    u.assume("the hooks of a definition and of a source of vocabularies do what they like to the store, as functions of its state")
    core.derives("Attribute", ["PartialEq", "Eq"])
    for n in ("ValueType", "Unique"):
        out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, n)
    out += "#[derive(PartialEq, Eq, Structural)]\n" + u.struct(core, "Attribute").replace("attribute::Unique", "Unique")
    out += """
#[verifier::external_body] pub struct PlainSymbol { x: () }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapNotation<V> { x: V }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Values<V> { x: V }
#[verifier::external_body] pub struct TempId { x: () }
pub type Version = u32;
""" + u.struct(ent, "EntidOrIdent") + u.struct(ent, "AttributePlace")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "LookupRef") + u.struct(ent, "TxFunction")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "EntityPlace")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "ValuePlace").replace("Vector(Vec<ValuePlace<V>>)", "Vector(Values<V>)")
    out += "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "Entity")
    hook = r"fn\(&mut InProgress<'_, '_>, &Vocabulary\) -> Result<\(\)>"
    d = u.struct(s, "Definition")
    if len(re.findall(hook, d)) != 2:
        raise extract.LostAnchor("src/vocabulary.rs: the hooks of Definition")
    out += re.sub(hook, "Hook", d) + u.struct(s, "Vocabulary") + u.struct(s, "VocabularyCheck") + u.struct(s, "VocabularyOutcome")
    out += """
#[verifier::external_body] pub struct St { x: () }
#[verifier::external_body] pub struct Hook { x: () }
#[verifier::external_body] pub struct SourceId { x: () }
pub uninterp spec fn kwd(ns: Seq<char>, n: Seq<char>) -> Keyword;
pub uninterp spec fn kwval(k: Keyword) -> TypedValue;
pub uninterp spec fn shown(k: Keyword) -> Seq<char>;
pub uninterp spec fn tmp(n: Seq<char>) -> ValueRc<TempId>;
// What the store says.
pub uninterp spec fn entid_of(s: St, k: Keyword) -> Option<Entid>;
pub uninterp spec fn attr_of(s: St, e: Entid) -> Option<Attribute>;
pub uninterp spec fn type_entid(s: St, t: ValueType) -> Option<Entid>;
pub uninterp spec fn value_of(s: St, e: Entid, a: Keyword) -> Option<Option<TypedValue>>;
pub uninterp spec fn values_of(s: St, e: Entid, a: Keyword) -> Option<Seq<TypedValue>>;
// What it becomes; None when it refuses.
pub uninterp spec fn applied(s: St, b: Bag) -> Option<St>;
pub uninterp spec fn after_hook(s: St, h: Hook, v: Voc) -> Option<St>;
pub uninterp spec fn before_all(s: St, src: SourceId) -> Option<St>;
pub uninterp spec fn after_all(s: St, src: SourceId) -> Option<St>;
#[verifier::external_body] pub fn keyword(ns: &str, n: &str) -> (r: Keyword) ensures r == kwd(ns@, n@) { unimplemented!() }
#[verifier::external_body] pub fn keyword_value(k: &Keyword) -> (r: TypedValue) ensures r == kwval(*k) { unimplemented!() }
impl Clone for Keyword { #[verifier::external_body] fn clone(&self) -> (r: Keyword) ensures r == *self { unimplemented!() } }
impl Clone for Attribute { #[verifier::external_body] fn clone(&self) -> (r: Attribute) ensures r == *self { unimplemented!() } }
impl Keyword { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == shown(*self) { unimplemented!() } }
// The conversions at the call sites of the builder (From impls of edn::entities and core_traits).
pub trait ToEntity: Sized { spec fn e(self) -> EntityPlace<TypedValue>; }
impl ToEntity for EntityPlace<TypedValue> { open spec fn e(self) -> EntityPlace<TypedValue> { self } }
impl ToEntity for ValueRc<TempId> { open spec fn e(self) -> EntityPlace<TypedValue> { EntityPlace::TempId(self) } }
impl ToEntity for KnownEntid { open spec fn e(self) -> EntityPlace<TypedValue> { EntityPlace::Entid(place(self.0)) } }
pub trait ToValue: Sized { spec fn v(self) -> ValuePlace<TypedValue>; }
impl ToValue for TypedValue { open spec fn v(self) -> ValuePlace<TypedValue> { ValuePlace::Atom(self) } }
impl ToValue for ValueRc<TempId> { open spec fn v(self) -> ValuePlace<TypedValue> { ValuePlace::TempId(self) } }
impl ToValue for KnownEntid { open spec fn v(self) -> ValuePlace<TypedValue> { ValuePlace::Entid(place(self.0)) } }
pub trait ToEntid: Sized { spec fn id(self) -> Entid; fn to_entid(self) -> (r: Entid) ensures r == self.id(); }
impl ToEntid for KnownEntid { open spec fn id(self) -> Entid { self.0 } fn to_entid(self) -> (r: Entid) { self.0 } }
impl ToEntid for Entid { open spec fn id(self) -> Entid { self } fn to_entid(self) -> (r: Entid) { self } }
#[verifier::external_body] pub struct InternSet { x: () }
#[verifier::external_body] pub struct TermVec { x: () }
impl TermVec { pub uninterp spec fn view(&self) -> Bag; }
pub type Terms = (TermVec, InternSet);
#[verifier::external_body] pub struct TxReport { x: () }
#[verifier::external_body] pub struct TermBuilder { x: () }
#[verifier::external_body] pub struct EntityBuilder { x: () }
pub open spec fn made(op: OpType, e: EntityPlace<TypedValue>, a: KnownEntid, v: ValuePlace<TypedValue>) -> Entity<TypedValue> { Entity::AddOrRetract { op, e, a: AttributePlace::Entid(place(a.0)), v } }
impl TermBuilder {
  pub uninterp spec fn view(&self) -> Bag;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<Entity<TypedValue>>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn describe_tempid(self, n: &str) -> (r: EntityBuilder) ensures r@ == self@, r.entity() == EntityPlace::<TypedValue>::TempId(tmp(n@)) { unimplemented!() }
  #[verifier::external_body] pub fn named_tempid(&mut self, n: String) -> (r: ValueRc<TempId>) ensures final(self)@ == old(self)@, r == tmp(n@) { unimplemented!() }
  #[verifier::external_body] pub fn add<E: ToEntity, V: ToValue>(&mut self, e: E, a: KnownEntid, v: V) -> (r: Result<()>) ensures r is Ok, final(self)@ == old(self)@.insert(made(OpType::Add, e.e(), a, v.v())) { unimplemented!() }
  #[verifier::external_body] pub fn retract<E: ToEntity, V: ToValue>(&mut self, e: E, a: KnownEntid, v: V) -> (r: Result<()>) ensures r is Ok, final(self)@ == old(self)@.insert(made(OpType::Retract, e.e(), a, v.v())) { unimplemented!() }
  #[verifier::external_body] pub fn build(self) -> (r: Result<Terms>) ensures r is Ok, r->Ok_0.0@ == self@ { unimplemented!() }
}
impl EntityBuilder {
  pub uninterp spec fn view(&self) -> Bag;
  pub uninterp spec fn entity(&self) -> EntityPlace<TypedValue>;
  #[verifier::external_body] pub fn add<V: ToValue>(&mut self, a: KnownEntid, v: V) -> (r: Result<()>) ensures r is Ok, final(self).entity() == old(self).entity(), final(self)@ == old(self)@.insert(made(OpType::Add, old(self).entity(), a, v.v())) { unimplemented!() }
  #[verifier::external_body] pub fn retract<V: ToValue>(&mut self, a: KnownEntid, v: V) -> (r: Result<()>) ensures r is Ok, final(self).entity() == old(self).entity(), final(self)@ == old(self)@.insert(made(OpType::Retract, old(self).entity(), a, v.v())) { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: (TermBuilder, EntityPlace<TypedValue>)) ensures r.0@ == self@, r.1 == self.entity() { unimplemented!() }
}
impl Clone for Vocabulary { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures sv(r) == sv(*self) { unimplemented!() } }
impl Clone for EntityPlace<TypedValue> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn same_tempid(t: &ValueRc<TempId>) -> (r: ValueRc<TempId>) ensures r == *t { unimplemented!() }
// The transaction underway.
#[verifier::external_body] pub struct InProgress { x: () }
impl InProgress {
  pub uninterp spec fn view(&self) -> St;
  #[verifier::external_body] pub fn entid_for_type(&self, t: ValueType) -> (r: Option<KnownEntid>) ensures match r { Some(k) => type_entid(self@, t) == Some(k.0), None => type_entid(self@, t) is None } { unimplemented!() }
  #[verifier::external_body] pub fn get_entid(&self, k: &Keyword) -> (r: Option<KnownEntid>) ensures match r { Some(e) => entid_of(self@, *k) == Some(e.0), None => entid_of(self@, *k) is None } { unimplemented!() }
  #[verifier::external_body] pub fn attribute_for_entid<E: ToEntid>(&self, e: E) -> (r: Option<&Attribute>) ensures match r { Some(a) => attr_of(self@, e.id()) == Some(*a), None => attr_of(self@, e.id()) is None } { unimplemented!() }
  #[verifier::external_body] pub fn attribute_for_ident(&self, k: &Keyword) -> (r: Option<(&Attribute, KnownEntid)>)
    ensures match r { Some(p) => entid_of(self@, *k) == Some(p.1.0) && attr_of(self@, p.1.0) == Some(*p.0), None => !is_attr(self@, *k) } { unimplemented!() }
  #[verifier::external_body] pub fn lookup_value_for_attribute<E: ToEntid>(&self, e: E, a: &Keyword) -> (r: Result<Option<TypedValue>>)
    ensures match r { Ok(x) => value_of(self@, e.id(), *a) == Some(x), Err(_) => value_of(self@, e.id(), *a) is None } { unimplemented!() }
  #[verifier::external_body] pub fn lookup_values_for_attribute<E: ToEntid>(&self, e: E, a: &Keyword) -> (r: Result<Vec<TypedValue>>)
    ensures match r { Ok(x) => values_of(self@, e.id(), *a) == Some(x@), Err(_) => values_of(self@, e.id(), *a) is None } { unimplemented!() }
  #[verifier::external_body] pub fn transact_entities(&mut self, terms: TermVec) -> (r: Result<TxReport>)
    ensures match r { Ok(_) => applied(old(self)@, terms@) == Some(final(self)@), Err(_) => applied(old(self)@, terms@) is None } { unimplemented!() }
}
impl Hook { #[verifier::external_body] pub fn call(&self, ip: &mut InProgress, from: &Vocabulary) -> (r: Result<()>)
    ensures match r { Ok(_) => after_hook(old(ip)@, *self, sv(*from)) == Some(final(ip)@), Err(_) => after_hook(old(ip)@, *self, sv(*from)) is None } { unimplemented!() } }
pub fn unreachable_() requires false {}
#[verifier::external_body] pub fn borrowed(v: &Vec<Pair>) -> (r: Vec<&Pair>) ensures deref(r@) == v@ { unimplemented!() }
"""
    kws, names = keywords(u, s)
    out += kws + SPEC + MANY

    def tidy(f):
        for n in names:
            f.body = re.sub(r"\b%s\b(?!\()" % n, n + "()", f.body)
        f.head = f.head.replace("InProgress<'_, '_>", "InProgress").replace("<'definition>", "<'definition>")
        f.macro("bail", units.bail(), "errors are opaque")
        f.body = extract.map_macro(f.body, "unreachable", lambda a: "unreachable_()")
        f.body = errs(f.body)
        return f

    def errs(t):
        # MentatError::X(..) carries what it likes
        while True:
            m = extract.mask(t)
            h = re.search(r"\bMentatError::\w+", m)
            if not h:
                return t
            e = h.end()
            if m[e:e + 1] == "(":
                e = extract.close_of(m, e) + 1
            t = t[:h.start()] + "Error::new()" + t[e:]

    def generic(f, name="T"):
        f.subhead(r"(fn \w+)<T>", r"\1", "InProgress for any store")
        return f

    out += "impl Definition {\n"
    for n in ("pre", "post"):
        f = tidy(s.fn(n, r"impl Definition\b").ret("r"))
        f.sub(r"\(self\.(pre|post)\)\((\w+), (\w+)\)", r"self.\1.call(\2, \3)", "the call of a hook")
        out += u.emit(f, "ensures match r { Ok(_) => after_hook(old(ip)@, self.%s, sv(*from)) == Some(final(ip)@), Err(_) => after_hook(old(ip)@, self.%s, sv(*from)) is None }" % (n, n), vis="pub ").replace("fn %s(" % n, "fn run_%s(" % n, 1)
    out += "}\nimpl InProgress {\n"
    for n, what in (("core_type", "type_entid(self@, t) == Some({0}.0)|type_entid(self@, t) is None"), ("core_entid", "entid_of(self@, *ident) == Some({0}.0)|entid_of(self@, *ident) is None"), ("core_attribute", "is_attr(self@, *ident) && entid_of(self@, *ident) == Some({0}.0)|!is_attr(self@, *ident)")):
        f = tidy(s.fn(n, r"impl<T> HasCoreSchema for T").ret("r"))
        f.body = okor(f.body, f)
        a, b = what.split("|")
        out += u.emit(f, "ensures match r { Ok(k) => %s, Err(_) => %s }" % (a.format("k"), b))
    out += "}\nimpl Vocabulary {\n"
    f = s.fn("find", r"impl Vocabulary\b").ret("r")
    f.subhead(r"fn find<T>", "fn find<T: ToEntid>", "conversion into an entid")
    f.subhead(r"where\s+T: Into<Entid>,?", "", "conversion into an entid")
    f.sub(r"\bentid\.into\(\)", "entid.to_entid()", "conversion into an entid", minimum=0)
    f.sub(r"self\s*\.attributes\s*\.iter\(\)\s*\.find\(\|&&\((\w+), _\)\| ([^|]*?)\)\s*\.map\(\|&\(_, ref (\w+)\)\| \3\)",
          r"""let mut i_: usize = 0;
        while i_ < self.attributes.len() invariant to_find == entid.id(), i_ <= self.attributes@.len(), found(self.attributes@.take(i_ as int), to_find) is None decreases self.attributes@.len() - i_ {
            let \1 = self.attributes[i_].0;
            proof { assert(self.attributes@.take(i_ as int + 1).drop_last() =~= self.attributes@.take(i_ as int)); }
            if \2 { proof { assert(self.attributes@.take(i_ as int + 1).last() == self.attributes@[i_ as int]); found_stays(self.attributes@, to_find, i_ as int + 1); } return Some(&self.attributes[i_].1); }
            i_ = i_ + 1;
        }
        proof { assert(self.attributes@.take(i_ as int) =~= self.attributes@); }
        None""", "find, as the loop it stands for")
    out += u.emit(f, "ensures match r { Some(a) => found(self.attributes@, entid.id()) == Some(*a), None => found(self.attributes@, entid.id()) is None }")
    out += "}\nimpl InProgress {\n"
    # reading
    f = tidy(s.fn("read_vocabulary_named", r"impl<T> HasVocabularies for T").ret("r"))
    f.sub(r"\bentid\.into\(\)", "entid.to_entid()", "conversion into an entid", count=0, minimum=0)
    f.sub(r"u32::max_value\(\)", "u32::MAX", "the same constant", minimum=0)
    m = re.search(r"let attributes = self\s*\.lookup_values_for_attribute\((\w+), ([^;]*?)\)\?\s*\.into_iter\(\)\s*\.filter_map\(\|(\w+)\| \{", f.body)
    if not m:
        raise extract.LostAnchor("read_vocabulary_named: the attributes")
    o = f.body.index(".filter_map(", m.start()) + len(".filter_map")
    e = extract.close_of(extract.mask(f.body), o)
    body = f.body[m.end():f.body.rindex("}", 0, e)].strip()
    col = re.match(r"\s*\.collect\(\);", f.body[e + 1:])
    k = re.match(r"if let TypedValue::Ref\((\w+)\) = (\w+) \{\s*self\.attribute_for_entid\((\w+)\)\.cloned\(\)\.map\(\|(\w+)\| (.*?)\)\s*\} else \{\s*None\s*\}$", body, re.S)
    if not col or not k:
        raise extract.LostAnchor("read_vocabulary_named: what becomes of each value")
    x, src, y, w, made = k.groups()
    loop = """let vals_ = self.lookup_values_for_attribute(%s, %s)?;
        let mut attributes: Vec<(Entid, Attribute)> = Vec::new(); let mut i_: usize = 0;
        while i_ < vals_.len() invariant i_ <= vals_@.len(), attributes@ == attributes_in(self@, vals_@.take(i_ as int)) decreases vals_@.len() - i_ {
            let %s = &vals_[i_];
            proof { assert(vals_@.take(i_ as int + 1).drop_last() =~= vals_@.take(i_ as int)); }
            i_ = i_ + 1;
            if let TypedValue::Ref(%s) = %s { let %s = *%s; match self.attribute_for_entid(%s) { Some(%s) => { let %s = %s.clone(); attributes.push(%s); } None => {} } }
        }
        proof { assert(vals_@.take(i_ as int) =~= vals_@); }
""" % (m.group(1), m.group(2), m.group(3), x, src, x, x, y, w, w, w, made)
    f.body = f.body[:m.start()] + loop + f.body[e + 1 + col.end():]
    f.rewrites.append("read_vocabulary_named: filter_map, as the loop it stands for")
    out += u.emit(f, "ensures match r { Ok(Some(v)) => stored(self@, *name) == Some(Some(sv(v))), Ok(None) => stored(self@, *name) == Some(None::<Voc>), Err(_) => stored(self@, *name) is None }")
    # checking
    W = r"pub trait VersionedStore"
    f = tidy(s.fn("verify_core_schema", W).ret("r"))
    out += u.emit(f, "ensures r is Ok <==> (stored(self@, k_core()) matches Some(Some(v)) && v.version == CORE_SCHEMA_VERSION)")
    f = tidy(s.fn("check_vocabulary", W).ret("r"))
    f.sub(r"for (\w+) in definition\.attributes\.iter\(\) \{", r"""let mut i_: usize = 0; let ghost ps_ = definition.attributes@;
        while i_ < definition.attributes.len()
          invariant ps_ == definition.attributes@, stored(self@, definition.name) == Some(Some(sv(vocabulary))), vocabulary.version == definition.version, definition.version != 0, i_ <= ps_.len(), deref(missing@) == crate::missing(self@, sv(vocabulary), ps_.take(i_ as int)), missing@.len() == deref(missing@).len(),
            forall|j: int| 0 <= j < i_ ==> !differs(self@, sv(vocabulary), #[trigger] ps_[j])
          decreases ps_.len() - i_
        { let \1 = &definition.attributes[i_]; i_ = i_ + 1;
          proof { assert(ps_.take(i_ as int).drop_last() =~= ps_.take(i_ as int - 1)); deref_push(missing@, \1); if differs(self@, sv(vocabulary), ps_[i_ as int - 1]) { assert(conflict(self@, sv(vocabulary), ps_)); } }
          let ghost was_ = missing@;""", "for with continue -> while")
    f.sub(r"if missing\.is_empty\(\) \{", "proof { assert(ps_.take(i_ as int) =~= ps_); } if missing.is_empty() {", "ghost")
    f.sub(r"let mut missing: ([^=;]*)= vec!\[\];", r"let mut missing: \1= Vec::new(); proof { assert(deref(missing@) =~= Seq::<Pair>::empty()); }", "ghost")
    out += u.emit(f, "ensures checks(self@, *definition, r)")
    out += "}\nimpl Definition {\n"
    # describing
    f = tidy(s.fn("description_for_attributes", r"impl Definition\b").ret("r"))
    f.head = re.sub(r"fn description_for_attributes<'s, T, R>\(\s*&'s self,\s*attributes: &\[R\],\s*via: &T,?\s*\)", "fn description_for_attributes(&self, attributes: &Vec<&Pair>, via: &InProgress)", f.head)
    f.head = re.sub(r"where.*$", "", f.head, flags=re.S)
    if "via: &InProgress" not in f.head:
        raise extract.LostAnchor("description_for_attributes: its parameters")
    f.rewrites.append("description_for_attributes: for the transaction underway and borrowed pairs (Borrow of a pair is the pair)")
    f.sub(r"let (\w+): TypedValue = ([\w.]+)\.clone\(\)\.into\(\);", r"let \1: TypedValue = keyword_value(&\2);", "conversion of a keyword into a value", count=0)
    f.sub(r"keyword_value\(&(\w+)\);", r"keyword_value(\1);", "already a reference", count=0, minimum=0)
    f.sub(r"for ref (\w+) in attributes\.iter\(\) \{\s*let &\(ref (\w+), ref (\w+)\) = \1\.borrow\(\);", r"for \1 in attributes.iter() { let \2 = &\1.0; let \3 = &\1.1;", "the pair taken apart")
    f.sub(r"tempid\.clone\(\)", "same_tempid(&tempid)", "the handle, cloned", count=0)
    f.sub(r"via\s*\.attribute_for_ident\((\w+)\)\s*\.and_then\(\|\((\w+), _\)\| ([^()]*?)\)", r"(match via.attribute_for_ident(\1) { Some(p_) => { let \2 = p_.0; \3 } None => None })", "and_then with a closure -> match", minimum=0)
    f.sub(r"\.map_err\(\|(\w+)\| \1\)", "", "the same error", minimum=0)
    f.annotate([dict(name="it", kind="for", before="let ghost all_ = deref(attributes@); let ghost s_ = via@;",
        invariant="""invariant it.seq().map_values(|p: &&Pair| *p) == attributes@, it.seq().len() == attributes@.len(), all_ == deref(attributes@), s_ == via@, core_known(s_),
            schema == schema_tmp(), a_version.0 == entid_of(s_, k_version())->0, a_ident.0 == entid_of(s_, k_ident())->0, a_attr.0 == entid_of(s_, k_attr())->0, a_cardinality.0 == entid_of(s_, k_card())->0,
            a_fulltext.0 == entid_of(s_, k_fulltext())->0, a_index.0 == entid_of(s_, k_index())->0, a_is_component.0 == entid_of(s_, k_component())->0, a_value_type.0 == entid_of(s_, k_vtype())->0,
            a_unique.0 == entid_of(s_, k_unique())->0, a_no_history.0 == entid_of(s_, k_nohist())->0, v_cardinality_many.0 == entid_of(s_, k_many())->0, v_cardinality_one.0 == entid_of(s_, k_one())->0,
            v_unique_identity.0 == entid_of(s_, k_uident())->0, v_unique_value.0 == entid_of(s_, k_uvalue())->0,
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] type_entid(s_, all_[i].1.value_type) is Some,
            builder@ == described(s_, self.name, self.version as int, all_.take(it.index@ as int))""",
        start="let ghost k_ = it.index@ as int; let ghost was_ = builder@; proof { assert(*r == all_[k_]); assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); }",
        end="proof { assert(builder@ =~= about(s_, was_, all_[k_])); }",
        after="proof { assert(all_.take(attributes@.len() as int) =~= all_); }")])
    out += u.emit(f, """ensures r is Ok <==> core_known(via@) && types_known(via@, deref(attributes@)),
        r is Ok ==> r->Ok_0.0@ == described(via@, self.name, self.version as int, deref(attributes@))""")
    f = tidy(s.fn("description", r"impl Definition\b").ret("r"))
    f.subhead(r"fn description<T>\(&self, via: &T\)", "fn description(&self, via: &InProgress)", "for the transaction underway")
    f.head = re.sub(r"where.*$", "", f.head, flags=re.S)
    f.sub(r"self\.description_for_attributes\(self\.attributes\.as_slice\(\), via\)", "{ let all_ = borrowed(&self.attributes); self.description_for_attributes(&all_, via) }", "Borrow")
    out += u.emit(f, """ensures r is Ok <==> core_known(via@) && types_known(via@, self.attributes@),
        r is Ok ==> r->Ok_0.0@ == described(via@, self.name, self.version as int, self.attributes@)""")
    out += "}\nimpl InProgress {\n"
    W = r"impl<'a, 'c> VocabularyMechanics for InProgress<'a, 'c>"
    for n, want, o in (("install_vocabulary", "transacts(Some(old(self)@), *definition, definition.attributes@)", "Installed"),
                       ("install_attributes_for", "transacts(Some(old(self)@), *definition, deref(attributes@))", "InstalledMissingAttributes"),
                       ("upgrade_vocabulary", "upgraded(Some(old(self)@), *definition, sv(from_version))", "Upgraded")):
        f = tidy(s.fn(n, W).ret("r"))
        f.sub(r"let \((\w+), _\w*\) = ([^;]*);", r"let pair_ = \2; let \1 = pair_.0;", "the pair taken apart", minimum=0)
        f.sub(r"definition\.(pre|post)\(", r"definition.run_\1(", "a method named as a field", count=0, minimum=0)
        out += u.emit(f, "ensures does(r, old(self)@, final(self)@, %s, VocabularyOutcome::%s)" % (want, o))
    W = r"impl<'a, 'c> VersionedStore for InProgress<'a, 'c>"
    f = tidy(s.fn("ensure_vocabulary", W).ret("r"))
    out += u.emit(f, """ensures match stored(old(self)@, definition.name) {
            _ if definition.version == 0 => r is Err && final(self)@ == old(self)@,
            None => r is Err && final(self)@ == old(self)@,
            // Absent: exactly its attributes and version.
            Some(None) => does(r, old(self)@, final(self)@, transacts(Some(old(self)@), *definition, definition.attributes@), VocabularyOutcome::Installed),
            Some(Some(v)) =>
                // Older: upgraded, with its hooks once each. Newer: refused.
                if v.version < definition.version { does(r, old(self)@, final(self)@, upgraded(Some(old(self)@), *definition, v), VocabularyOutcome::Upgraded) }
                else if v.version > definition.version || conflict(old(self)@, v, definition.attributes@) { r is Err && final(self)@ == old(self)@ }
                // The same: nothing but what is missing.
                else if missing(old(self)@, v, definition.attributes@).len() == 0 { r == Ok::<VocabularyOutcome, Error>(VocabularyOutcome::Existed) && final(self)@ == old(self)@ }
                else { does(r, old(self)@, final(self)@, transacts(Some(old(self)@), *definition, missing(old(self)@, v, definition.attributes@)), VocabularyOutcome::InstalledMissingAttributes) }
        }""")
    out += "}\n"
    return out.replace("CORE_SCHEMA_VERSION", str(core_version(u))) + many(u, s, tidy)


def core_version(u):
    t = u.src("db/src/bootstrap.rs").text
    m = re.search(r"CORE_SCHEMA_VERSION: u32 = (\d+);", t)
    if not m:
        raise extract.LostAnchor("db/src/bootstrap.rs: CORE_SCHEMA_VERSION")
    return int(m.group(1))


def okor(t, f):
    """x.ok_or_else(|| e) and x.ok_or_else(|| e).map(|pat| v), as matches."""
    m = re.search(r"(self\.\w+\(\w+\))\s*\.ok_or_else\(\|\| Error::new\(\)\)\s*(?:\.map\(\|\(_, (\w+)\)\| (\w+)\))?", t, re.S)
    if not m:
        raise extract.LostAnchor("src/vocabulary.rs: %s" % f.name)
    f.rewrites.append("%s: ok_or_else with a closure -> match" % f.name)
    if m.group(2):
        new = "match %s { Some(p_) => { let %s = p_.1; Ok(%s) } None => Err(Error::new()) }" % (m.group(1), m.group(2), m.group(3))
    else:
        new = "match %s { Some(x_) => Ok(x_), None => Err(Error::new()) }" % m.group(1)
    return t[:m.start()] + "(" + new + ")" + t[m.end():]


def many(u, s, tidy):
    out = u.struct(s, "CheckedVocabularies")
    out += """
#[verifier::external_body] pub struct VocabularySource { x: () }
impl VocabularySource {
  pub uninterp spec fn id(&self) -> SourceId;
  pub uninterp spec fn defs(&self) -> Seq<Definition>;
  #[verifier::external_body] pub fn definitions(&mut self) -> (r: Vec<Definition>) ensures r@ == old(self).defs(), final(self).id() == old(self).id() { unimplemented!() }
  #[verifier::external_body] pub fn pre(&mut self, ip: &mut InProgress, w: &CheckedVocabularies) -> (r: Result<()>)
    ensures final(self).id() == old(self).id(), match r { Ok(_) => before_all(old(ip)@, old(self).id()) == Some(final(ip)@), Err(_) => before_all(old(ip)@, old(self).id()) is None } { unimplemented!() }
  #[verifier::external_body] pub fn post(&mut self, ip: &mut InProgress) -> (r: Result<()>)
    ensures final(self).id() == old(self).id(), match r { Ok(_) => after_all(old(ip)@, old(self).id()) == Some(final(ip)@), Err(_) => after_all(old(ip)@, old(self).id()) is None } { unimplemented!() }
}
impl<'a> CheckedVocabularies<'a> {
  pub fn default() -> (r: Self) ensures r.items@ == Map::<Keyword, (&'a Definition, VocabularyCheck<'a>)>::empty() { CheckedVocabularies { items: BTreeMap::new() } }
"""
    W = r"impl<'a> CheckedVocabularies<'a>"
    out += u.emit(tidy(s.fn("add", W)), "ensures final(self).items@ == old(self).items@.insert(definition.name, (definition, check))")
    out += u.emit(tidy(s.fn("is_empty", W)).ret("r"), "ensures r == (self.items@.dom() =~= Set::<Keyword>::empty())") + "}\n" + PROOF
    f = tidy(s.fn("ensure_vocabularies", r"impl<'a, 'c> VersionedStore for InProgress<'a, 'c>").ret("r"))
    f.subhead(r"&mut dyn VocabularySource", "&mut VocabularySource", "one source standing for any")
    # c @ A | c @ B { .. } => { .. }
    m = re.search(r"\b(\w+) @ VocabularyCheck", f.body)
    if m:
        c = m.group(1)
        f.body = re.sub(r"\b%s @ (VocabularyCheck::\w+(?:\s*\{\s*\.\.\s*\})?)" % c, r"\1", f.body)
        o = f.body.index("{", re.compile(r"=>").search(f.body, m.start()).end())
        f.body = f.body[:o + 1] + " let %s = check_;" % c + f.body[o + 1:]
        f.sub(r"match (self\.check_vocabulary\(definition\)\?) \{", r"let check_ = \1; match check_ {", "a name for what is matched")
    f.sub(r"for (\w+) in definitions\.iter\(\) \{", r"for \1 in definitions.iter() {", "")
    f.sub(r"for \((\w+), \((\w+), (\w+)\)\) in work\.items\.into_iter\(\) \{", r"let ghost mp_ = work.items@; let all_ = work.items.into_entries(); let ghost m_ = all_@; for e_ in all_ { let \1 = e_.0; let \2 = e_.1.0; let \3 = e_.1.1;", "the entry taken apart; iteration over a map")
    f.sub(r"for \((\w+), (\w+)\) in update \{", r"let ghost up_ = update@; for e_ in update { let \1 = e_.0; let \2 = e_.1;", "the pair taken apart")
    f.sub(r"for \((\w+), (\w+)\) in missing \{", r"let ghost mi_ = missing@; for e_ in missing { let \1 = e_.0; let \2 = e_.1;", "the pair taken apart")
    com = """src_ == vocabularies.id(), s0_ == old(self)@, !any_refused(s0_, ds_), !all_presented(s0_, ds_), x0_ == (before_all(s0_, src_), existed(s0_, ds_)), work_ok(s0_, ds_, mp_), entries_of(mp_, m_), src_ == old(vocabularies).id(), ds_ == old(vocabularies).defs(),"""
    f.annotate([
        dict(name="it", kind="for", before="let ghost ds_ = definitions@; let ghost s0_ = self@; let ghost src_ = vocabularies.id();",
             invariant="""invariant it.seq().map_values(|p: &Definition| *p) == ds_, it.seq().len() == ds_.len(), s0_ == old(self)@, self@ == s0_, src_ == vocabularies.id(), src_ == old(vocabularies).id(), ds_ == old(vocabularies).defs(),
                work_ok(s0_, ds_.take(it.index@ as int), work.items@), out@ == existed(s0_, ds_.take(it.index@ as int)), forall|j: int| 0 <= j < it.index@ ==> !refused(s0_, #[trigger] ds_[j])""",
             start="let ghost k_ = it.index@ as int; proof { assert(*definition == ds_[k_]); assert(ds_.take(k_ + 1).drop_last() =~= ds_.take(k_)); assert(ds_.take(k_ + 1).last() == ds_[k_]); every(s0_, ds_[k_]); } let ghost was_ = work.items@;",
             end="proof { if presented(s0_, ds_[k_]) { work_same(s0_, ds_, k_, was_); } else { work_more(s0_, ds_, k_, was_, definition, work.items@[definition.name].1); } }",
             after="proof { assert(ds_.take(ds_.len() as int) =~= ds_); not_refused(s0_, ds_); emptiness(s0_, ds_, work.items@); } let ghost x0_ = (before_all(s0_, src_), existed(s0_, ds_)); proof { before_fails(s0_, ds_, src_, work.items@); }"),
        dict(name="it", kind="for", invariant="invariant %s it.seq() == m_, update@ == older(m_.take(it.index@ as int)), missing@ == incomplete(m_.take(it.index@ as int)), installs(x0_, m_.take(it.index@ as int)) == (Some(self@), out@)" % com,
             before="proof { assert(m_.take(0) =~= Seq::<Item>::empty()); }",
             start="let ghost k_ = it.index@ as int; proof { assert(e_ == m_[k_]); assert(m_.take(k_ + 1).drop_last() =~= m_.take(k_)); assert(m_.take(k_ + 1).last() == m_[k_]); assert(mp_.contains_key(m_[k_].0)); assert(item_ok(s0_, ds_, m_[k_].0, m_[k_].1)); if installs(x0_, m_.take(k_ + 1)).0 is None { install_fails(s0_, ds_, src_, mp_, m_, k_ + 1); } }",
             after="proof { assert(m_.take(m_.len() as int) =~= m_); } let ghost x1_ = (Some(self@), out@);"),
        dict(name="it", kind="for", before="proof { assert(up_.take(0) =~= Seq::<(&Definition, Vocabulary)>::empty()); }",
             invariant="invariant %s x1_ == installs(x0_, m_), up_ == older(m_), missing@ == incomplete(m_), it.seq() == up_, upgrades(x1_, up_.take(it.index@ as int)) == (Some(self@), out@)" % com,
             start="let ghost k_ = it.index@ as int; proof { assert(e_ == up_[k_]); assert(up_.take(k_ + 1).drop_last() =~= up_.take(k_)); assert(up_.take(k_ + 1).last() == up_[k_]); if upgrades(x1_, up_.take(k_ + 1)).0 is None { upgrade_fails(s0_, ds_, src_, mp_, m_, k_ + 1); } }",
             after="proof { assert(up_.take(up_.len() as int) =~= up_); } let ghost x2_ = (Some(self@), out@);"),
        dict(name="it", kind="for", before="proof { assert(mi_.take(0) =~= Seq::<(&Definition, Vec<&Pair>)>::empty()); }",
             invariant="invariant %s x1_ == installs(x0_, m_), x2_ == upgrades(x1_, older(m_)), mi_ == incomplete(m_), it.seq() == mi_, completes(x2_, mi_.take(it.index@ as int)) == (Some(self@), out@)" % com,
             start="let ghost k_ = it.index@ as int; proof { assert(e_ == mi_[k_]); assert(mi_.take(k_ + 1).drop_last() =~= mi_.take(k_)); assert(mi_.take(k_ + 1).last() == mi_[k_]); if completes(x2_, mi_.take(k_ + 1)).0 is None { complete_fails(s0_, ds_, src_, mp_, m_, k_ + 1); } }",
             after="proof { assert(mi_.take(mi_.len() as int) =~= mi_); let w_ = whole(s0_, existed(s0_, ds_), src_, m_); if w_.0 is None { assert(plan(s0_, ds_, mp_, m_)); assert(failed(s0_, ds_, src_)); } else { assert(plan(s0_, ds_, mp_, m_)); } }"),
    ])
    f.sub(r"Ok\(out\)\s*\}\s*$", "proof { assert(plan(s0_, ds_, mp_, m_)); assert(whole(s0_, existed(s0_, ds_), src_, m_) == (Some(self@), out@)); assert(succeeded(s0_, ds_, src_, out@, self@)); } Ok(out) }", "ghost")
    f.sub(r"if work\.is_empty\(\) \{", "if work.is_empty() { proof { assert(all_presented(s0_, ds_)); }", "ghost", minimum=0)
    out += "impl InProgress {\n" + u.emit(f, """
        ensures
            // Refused as a whole, and nothing done, if any of them is.
            any_refused(old(self)@, old(vocabularies).defs()) ==> r is Err && final(self)@ == old(self)@,
            // All there: nothing is done, the source's hooks included.
            all_presented(old(self)@, old(vocabularies).defs()) ==> r is Ok && final(self)@ == old(self)@ && r->Ok_0@ == existed(old(self)@, old(vocabularies).defs()),
            !any_refused(old(self)@, old(vocabularies).defs()) && !all_presented(old(self)@, old(vocabularies).defs()) ==> match r {
                Ok(o) => succeeded(old(self)@, old(vocabularies).defs(), old(vocabularies).id(), o@, final(self)@),
                Err(_) => failed(old(self)@, old(vocabularies).defs(), old(vocabularies).id()) },
    """) + "}\n"
    return out


PROOF = """
pub type Work<'a> = Map<Keyword, (&'a Definition, VocabularyCheck<'a>)>;
pub open spec fn all_presented(s: St, ds: Seq<Definition>) -> bool { forall|i: int| 0 <= i < ds.len() ==> presented(s, #[trigger] ds[i]) }
pub open spec fn plan(s: St, ds: Seq<Definition>, mp: Work, m: Seq<Item>) -> bool { work_ok(s, ds, mp) && entries_of(mp, m) }
pub open spec fn failed(s: St, ds: Seq<Definition>, src: SourceId) -> bool { exists|mp: Work, m: Seq<Item>| #[trigger] plan(s, ds, mp, m) && whole(s, existed(s, ds), src, m).0 is None }
pub open spec fn succeeded(s: St, ds: Seq<Definition>, src: SourceId, o: Outs, now: St) -> bool { exists|mp: Work, m: Seq<Item>| #[trigger] plan(s, ds, mp, m) && whole(s, existed(s, ds), src, m) == (Some(now), o) }
proof fn every(s: St, d: Definition)
    ensures forall|r: Result<VocabularyCheck>| #[trigger] checks(s, d, r) ==> (refused(s, d) <==> r is Err || r->Ok_0 is PresentButTooNew) && (presented(s, d) <==> r matches Ok(VocabularyCheck::Present)) && (wants(s, d) <==> !refused(s, d) && !presented(s, d))
{ assert forall|r: Result<VocabularyCheck>| #[trigger] checks(s, d, r) implies (refused(s, d) <==> r is Err || r->Ok_0 is PresentButTooNew) && (presented(s, d) <==> r matches Ok(VocabularyCheck::Present)) && (wants(s, d) <==> !refused(s, d) && !presented(s, d)) by { one_of(s, d, r); } }
proof fn not_refused(s: St, ds: Seq<Definition>) requires forall|j: int| 0 <= j < ds.len() ==> !refused(s, #[trigger] ds[j]) ensures !any_refused(s, ds) { }
proof fn work_same(s: St, ds: Seq<Definition>, k: int, m: Work)
    requires 0 <= k < ds.len(), work_ok(s, ds.take(k), m), !wants(s, ds[k])
    ensures work_ok(s, ds.take(k + 1), m)
{ names_step(s, ds, k); }
proof fn names_step(s: St, ds: Seq<Definition>, k: int)
    requires 0 <= k < ds.len()
    ensures forall|x: Keyword| #[trigger] wanted_name(s, ds.take(k + 1), x) <==> wanted_name(s, ds.take(k), x) || (x == ds[k].name && wants(s, ds[k])),
        forall|x: Keyword, d: Definition| #[trigger] wanted(s, ds.take(k + 1), x, d) <==> wanted(s, ds.take(k), x, d) || (d == ds[k] && x == ds[k].name && wants(s, ds[k]))
{
    let a = ds.take(k); let b = ds.take(k + 1);
    assert forall|x: Keyword| #[trigger] wanted_name(s, b, x) <==> wanted_name(s, a, x) || (x == ds[k].name && wants(s, ds[k])) by {
        if wanted_name(s, a, x) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].name == x && wants(s, a[i]); assert(b[i].name == x); }
        if x == ds[k].name && wants(s, ds[k]) { assert(b[k].name == x); }
        if wanted_name(s, b, x) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].name == x && wants(s, b[i]); if i < k { assert(a[i].name == x); } }
    }
    assert forall|x: Keyword, d: Definition| #[trigger] wanted(s, b, x, d) <==> wanted(s, a, x, d) || (d == ds[k] && x == ds[k].name && wants(s, ds[k])) by {
        if wanted(s, a, x, d) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == d && d.name == x && wants(s, d); assert(b[i] == d); }
        if d == ds[k] && x == ds[k].name && wants(s, ds[k]) { assert(b[k] == d); }
        if wanted(s, b, x, d) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == d && d.name == x && wants(s, d); if i < k { assert(a[i] == d); } }
    }
}
proof fn work_more(s: St, ds: Seq<Definition>, k: int, m: Work, d: &Definition, c: VocabularyCheck)
    requires 0 <= k < ds.len(), work_ok(s, ds.take(k), m), wants(s, ds[k]), *d == ds[k], checks(s, *d, Ok(c))
    ensures work_ok(s, ds.take(k + 1), m.insert(d.name, (d, c)))
{
    names_step(s, ds, k);
    let n = m.insert(d.name, (d, c));
    assert forall|x: Keyword| #[trigger] n.contains_key(x) implies item_ok(s, ds.take(k + 1), x, n[x]) by {
        if x != d.name { assert(m.contains_key(x)); assert(item_ok(s, ds.take(k), x, m[x])); assert(wanted(s, ds.take(k), x, *m[x].0)); assert(wanted(s, ds.take(k + 1), x, *m[x].0)); } else { assert(wanted(s, ds.take(k + 1), x, *d)); }
    }
}
// There is work exactly when not all are there.
proof fn emptiness(s: St, ds: Seq<Definition>, m: Work)
    requires work_ok(s, ds, m), !any_refused(s, ds), forall|i: int| 0 <= i < ds.len() ==> (wants(s, #[trigger] ds[i]) <==> !refused(s, ds[i]) && !presented(s, ds[i]))
    ensures (m.dom() =~= Set::<Keyword>::empty()) <==> all_presented(s, ds)
{
    if m.dom() =~= Set::<Keyword>::empty() {
        assert forall|i: int| 0 <= i < ds.len() implies presented(s, #[trigger] ds[i]) by { if !presented(s, ds[i]) { assert(wanted_name(s, ds, ds[i].name)); assert(m.contains_key(ds[i].name)); } }
    }
    if all_presented(s, ds) {
        assert forall|k: Keyword| !m.contains_key(k) by { if m.contains_key(k) { assert(item_ok(s, ds, k, m[k])); let d = *m[k].0; let i = choose|i: int| 0 <= i < ds.len() && #[trigger] ds[i] == d && d.name == k && wants(s, d); assert(presented(s, ds[i])); } }
    }
}
proof fn none_left(s: St, ds: Seq<Definition>, src: SourceId, mp: Work, m: Seq<Item>, x: Step, at: int)
    requires plan(s, ds, mp, m), x.0 is None,
        at == 0 ==> x == installs((before_all(s, src), existed(s, ds)), m),
        at == 1 ==> x == upgrades(installs((before_all(s, src), existed(s, ds)), m), older(m)),
        at == 2 ==> x == completes(upgrades(installs((before_all(s, src), existed(s, ds)), m), older(m)), incomplete(m)),
        0 <= at <= 2,
    ensures failed(s, ds, src)
{
    let a = installs((before_all(s, src), existed(s, ds)), m); let b = upgrades(a, older(m));
    if at == 0 { assert(older(m).take(0) =~= Seq::<(&Definition, Vocabulary)>::empty()); upgrades_stuck(a, older(m), 0); }
    if at <= 1 { assert(incomplete(m).take(0) =~= Seq::<(&Definition, Vec<&Pair>)>::empty()); completes_stuck(b, incomplete(m), 0); }
    assert(whole(s, existed(s, ds), src, m).0 is None);
}
proof fn install_fails(s: St, ds: Seq<Definition>, src: SourceId, mp: Work, m: Seq<Item>, k: int)
    requires plan(s, ds, mp, m), 0 <= k <= m.len(), installs((before_all(s, src), existed(s, ds)), m.take(k)).0 is None
    ensures failed(s, ds, src)
{ installs_stuck((before_all(s, src), existed(s, ds)), m, k); none_left(s, ds, src, mp, m, installs((before_all(s, src), existed(s, ds)), m), 0); }
proof fn upgrade_fails(s: St, ds: Seq<Definition>, src: SourceId, mp: Work, m: Seq<Item>, k: int)
    requires plan(s, ds, mp, m), 0 <= k <= older(m).len(), upgrades(installs((before_all(s, src), existed(s, ds)), m), older(m).take(k)).0 is None
    ensures failed(s, ds, src)
{ let a = installs((before_all(s, src), existed(s, ds)), m); upgrades_stuck(a, older(m), k); none_left(s, ds, src, mp, m, upgrades(a, older(m)), 1); }
proof fn complete_fails(s: St, ds: Seq<Definition>, src: SourceId, mp: Work, m: Seq<Item>, k: int)
    requires plan(s, ds, mp, m), 0 <= k <= incomplete(m).len(), completes(upgrades(installs((before_all(s, src), existed(s, ds)), m), older(m)), incomplete(m).take(k)).0 is None
    ensures failed(s, ds, src)
{ let b = upgrades(installs((before_all(s, src), existed(s, ds)), m), older(m)); completes_stuck(b, incomplete(m), k); none_left(s, ds, src, mp, m, completes(b, incomplete(m)), 2); }
// A map has some enumeration.
pub axiom fn enumerated(m: Work) ensures exists|s: Seq<Item>| #[trigger] entries_of(m, s);
proof fn before_fails(s: St, ds: Seq<Definition>, src: SourceId, mp: Work)
    requires work_ok(s, ds, mp)
    ensures before_all(s, src) is None ==> failed(s, ds, src)
{ if before_all(s, src) is None { enumerated(mp); let m = choose|m: Seq<Item>| #[trigger] entries_of(mp, m); assert(m.take(0) =~= Seq::<Item>::empty()); assert(plan(s, ds, mp, m)); install_fails(s, ds, src, mp, m, 0); } }
"""
