"""C18: what a pull pattern fetches and under which names (query-pull/src/lib.rs), and how the pulled
maps find their way into the results (query-projector/src/pull.rs)."""
import re
import units, extract
T, R = units.load("types"), units.load("rowset")


def build(u):
    s, q, pl, core = u.src("query-pull/src/lib.rs"), u.src("edn/src/query.rs"), u.src("query-projector/src/pull.rs"), u.src("core-traits/lib.rs")
    c = u.src("db/src/cache.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",))
    u.assume("keywords compare by value; Rc handles are what they point to; Keyword::namespaced is a function of its two texts")
    u.assume("a schema maps idents to entids, entids to idents and knows its attributes, as its accessors say (C08 replays that they agree)")
    u.assume("make_cache_for_entities_and_attributes caches, for the attributes specified and the entities given, what the store holds, and nothing for an entity that has no value (the cache's own functions: C11; its SQL: replayed)")
    u.assume("the handles of the maps being built are not shared, so Rc::get_mut succeeds")
    out += """
impl Clone for Keyword { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn keyword_of(ns: Seq<char>, n: Seq<char>) -> Keyword;
#[verifier::external_body] pub fn namespaced(ns: &str, n: &str) -> (r: Keyword) ensures r == keyword_of(ns@, n@) { unimplemented!() }
#[verifier::external_body] pub fn same_keyword(a: &Keyword, b: &Keyword) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn rc<T>(k: T) -> (r: ValueRc<T>) ensures *r == k { unimplemented!() }
#[verifier::external_body] pub fn rc_of<T>(k: &ValueRc<T>) -> (r: ValueRc<T>) ensures r == *k { unimplemented!() }
#[verifier::external_body] pub fn opt_rc_of<T>(k: &Option<ValueRc<T>>) -> (r: Option<ValueRc<T>>) ensures r == *k { unimplemented!() }
#[verifier::external_body] pub fn empty_rc_map() -> (r: ValueRc<StructuredMap>) ensures r.m() == Map::<ValueRc<Keyword>, Binding>::empty() { unimplemented!() }
#[verifier::external_body] pub struct Connection { x: () }
#[verifier::external_body] pub struct Schema { x: () }
impl Clone for Binding { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn ident_of(s: Schema, e: Entid) -> Option<ValueRc<Keyword>>;
pub uninterp spec fn entid_of(s: Schema, k: ValueRc<Keyword>) -> Option<Entid>;
pub uninterp spec fn attributes_of(s: Schema) -> Set<Entid>;
impl Schema {
  #[verifier::external_body] pub fn get_ident(&self, e: Entid) -> (r: Option<&Keyword>)
    ensures r is Some <==> ident_of(*self, e) is Some, r is Some ==> *r->Some_0 == *(ident_of(*self, e)->Some_0) { unimplemented!() }
  #[verifier::external_body] pub fn get_entid(&self, k: &ValueRc<Keyword>) -> (r: Option<Entid>) ensures r == entid_of(*self, *k) { unimplemented!() }
  #[verifier::external_body] pub fn attribute_ids(&self) -> (r: Vec<&Entid>) ensures members_of(attributes_of(*self), r@.map_values(|p: &Entid| *p)) { unimplemented!() }
}
#[verifier::external_body] pub struct StructuredMap { x: () }
impl StructuredMap { pub uninterp spec fn m(&self) -> Map<ValueRc<Keyword>, Binding>; }
pub struct Attribute { pub fulltext: bool }
impl Schema { #[verifier::external_body] pub fn attribute_for_entid(&self, e: Entid) -> (r: Option<&Attribute>) ensures r is Some <==> attributes_of(*self).contains(e) { unimplemented!() } }
""" + u.struct(core, "Binding") + u.struct(q, "PullConcreteAttribute").replace("Rc<", "ValueRc<") + u.struct(q, "NamedPullAttribute").replace("Rc<", "ValueRc<") + u.struct(q, "PullAttributeSpec") + u.struct(c, "AttributeSpec") + """
pub type PullResults = BTreeMap<Entid, ValueRc<StructuredMap>>;
pub type Names = BTreeMap<Entid, BTreeSet<ValueRc<Keyword>>>;
pub open spec fn specifies(sp: AttributeSpec, a: Entid) -> bool { match sp { AttributeSpec::All => true, AttributeSpec::Specified { fts, non_fts } => fts@.contains(a) || non_fts@.contains(a) } }
impl AttributeSpec { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// What the store holds for an attribute of an entity: a value, or all of them.
pub uninterp spec fn stored(db: Connection, s: Schema, a: Entid, e: Entid) -> Option<Binding>;
#[verifier::external_body] pub struct AttributeCaches { x: () }
#[verifier::external_body] pub struct AttributeCache { x: () }
pub uninterp spec fn cached(c: AttributeCaches, s: Schema, a: Entid) -> Option<AttributeCache>;
pub uninterp spec fn held(c: AttributeCache, e: Entid) -> Option<Binding>;
pub open spec fn looked_up(c: AttributeCaches, s: Schema, a: Entid, e: Entid) -> Option<Binding> { match cached(c, s, a) { Some(k) => held(k, e), None => None } }
impl AttributeCache { #[verifier::external_body] pub fn binding_for_e(&self, e: Entid) -> (r: Option<Binding>) ensures r == held(*self, e) { unimplemented!() } }
impl AttributeCaches {
  #[verifier::external_body] pub fn make_cache_for_entities_and_attributes(schema: &Schema, db: &Connection, attrs: AttributeSpec, entities: &Vec<Entid>) -> (r: Result<AttributeCaches>)
    ensures r is Ok ==> forall|a: Entid, e: Entid| specifies(attrs, a) && entities@.contains(e) ==> #[trigger] looked_up(r->Ok_0, *schema, a, e) == stored(*db, *schema, a, e),
      r is Ok ==> forall|a: Entid| !attributes_of(*schema).contains(a) ==> #[trigger] cached(r->Ok_0, *schema, a) is None,
      forall|a: Entid, x: Entid| !attributes_of(*schema).contains(a) ==> #[trigger] stored(*db, *schema, a, x) is None { unimplemented!() }
  #[verifier::external_body] pub fn forward_attribute_cache_for_attribute(&self, schema: &Schema, a: Entid) -> (r: Option<&AttributeCache>)
    ensures r is Some <==> cached(*self, *schema, a) is Some, r is Some ==> *r->Some_0 == cached(*self, *schema, a)->Some_0 { unimplemented!() }
}
// A name joins an attribute's.
#[verifier::external_body] pub fn add_name(m: &mut Names, a: Entid, n: ValueRc<Keyword>)
  ensures final(m)@.dom() == old(m)@.dom().insert(a), named(final(m)@, a) == named(old(m)@, a).insert(n),
    forall|x: Entid| x != a ==> #[trigger] named(final(m)@, x) == named(old(m)@, x) { unimplemented!() }
pub open spec fn named(m: Map<Entid, BTreeSet<ValueRc<Keyword>>>, a: Entid) -> Set<ValueRc<Keyword>> { if m.contains_key(a) { m[a]@ } else { Set::empty() } }
// An entity's map, and a value in it.
pub open spec fn map_of(m: Map<Entid, ValueRc<StructuredMap>>, e: Entid) -> Map<ValueRc<Keyword>, Binding> { if m.contains_key(e) { m[e].m() } else { Map::empty() } }
#[verifier::external_body] pub fn ensure_map(m: &mut PullResults, e: Entid)
  ensures final(m)@.dom() == old(m)@.dom().insert(e), map_of(final(m)@, e) == map_of(old(m)@, e), forall|x: Entid| #![auto] x != e ==> map_of(final(m)@, x) == map_of(old(m)@, x) { unimplemented!() }
#[verifier::external_body] pub fn put(m: &mut PullResults, e: Entid, n: ValueRc<Keyword>, b: Binding)
  requires old(m)@.contains_key(e)
  ensures final(m)@.dom() == old(m)@.dom(), map_of(final(m)@, e) == map_of(old(m)@, e).insert(n, b), forall|x: Entid| #![auto] x != e ==> map_of(final(m)@, x) == map_of(old(m)@, x) { unimplemented!() }

// The pattern's own words: which attribute it mentions, under which name.
pub open spec fn db_id() -> ValueRc<Keyword> { std::sync::Arc::new(keyword_of("db"@, "id"@)) }
pub open spec fn id_name(sp: PullAttributeSpec) -> Option<ValueRc<Keyword>> {
  match sp { PullAttributeSpec::Wildcard => None, PullAttributeSpec::Attribute(n) => match n.attribute {
    PullConcreteAttribute::Ident(i) => if *i == keyword_of("db"@, "id"@) { Some(match n.alias { Some(x) => x, None => i }) } else { None },
    PullConcreteAttribute::Entid(_) => None } }
}
pub open spec fn mention(s: Schema, sp: PullAttributeSpec) -> Option<(Entid, ValueRc<Keyword>)> {
  match sp { PullAttributeSpec::Wildcard => None, PullAttributeSpec::Attribute(n) => match n.attribute {
    PullConcreteAttribute::Ident(i) => if *i == keyword_of("db"@, "id"@) { None } else { match entid_of(s, i) { Some(e) => Some((e, match n.alias { Some(x) => x, None => i })), None => None } },
    PullConcreteAttribute::Entid(e) => match n.alias { Some(x) => Some((e, x)), None => match ident_of(s, e) { Some(x) => Some((e, x)), None => None } } } }
}
pub open spec fn nameless(s: Schema, sp: PullAttributeSpec) -> bool {
  sp matches PullAttributeSpec::Attribute(n) && (n.attribute matches PullConcreteAttribute::Entid(e) && n.alias is None && ident_of(s, e) is None)
}
pub open spec fn says(s: Schema, p: Seq<PullAttributeSpec>, a: Entid, n: ValueRc<Keyword>) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] mention(s, p[i]) == Some((a, n)) }
pub open spec fn mentions(s: Schema, p: Seq<PullAttributeSpec>, a: Entid) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] mention(s, p[i])) is Some && mention(s, p[i])->Some_0.0 == a }
pub open spec fn wild(p: Seq<PullAttributeSpec>) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == PullAttributeSpec::Wildcard }
pub open spec fn by_wildcard(s: Schema, p: Seq<PullAttributeSpec>, a: Entid) -> bool { wild(p) && attributes_of(s).contains(a) && !mentions(s, p, a) }
// What a pattern asks for: every attribute it mentions under the names it gives, and with a wildcard every other one under its ident.
pub open spec fn asks(s: Schema, p: Seq<PullAttributeSpec>, a: Entid, n: ValueRc<Keyword>) -> bool { says(s, p, a, n) || (by_wildcard(s, p, a) && ident_of(s, a) == Some(n)) }
pub open spec fn asks_id(p: Seq<PullAttributeSpec>, n: ValueRc<Keyword>) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] id_name(p[i]) == Some(n) }
pub open spec fn twice_id(p: Seq<PullAttributeSpec>) -> bool { exists|i: int, j: int| 0 <= i < j < p.len() && (#[trigger] id_name(p[i])) is Some && (#[trigger] id_name(p[j])) is Some }
pub open spec fn unnameable(s: Schema, p: Seq<PullAttributeSpec>) -> bool {
  ||| exists|i: int| 0 <= i < p.len() && nameless(s, #[trigger] p[i])
  ||| exists|a: Entid| #[trigger] by_wildcard(s, p, a) && ident_of(s, a) is None
}
pub open spec fn by_ident(s: Schema, a: Entid, names: Set<ValueRc<Keyword>>) -> bool { ident_of(s, a) is Some && names =~= Set::empty().insert(ident_of(s, a)->Some_0) }
proof fn step(s: Schema, p: Seq<PullAttributeSpec>, k: int)
  requires 0 <= k < p.len()
  ensures forall|a: Entid, n: ValueRc<Keyword>| #[trigger] says(s, p.take(k + 1), a, n) <==> says(s, p.take(k), a, n) || mention(s, p[k]) == Some((a, n)),
    forall|a: Entid| #[trigger] mentions(s, p.take(k + 1), a) <==> mentions(s, p.take(k), a) || (mention(s, p[k]) is Some && mention(s, p[k])->Some_0.0 == a),
    forall|n: ValueRc<Keyword>| #[trigger] asks_id(p.take(k + 1), n) <==> asks_id(p.take(k), n) || id_name(p[k]) == Some(n),
    wild(p.take(k + 1)) <==> wild(p.take(k)) || p[k] == PullAttributeSpec::Wildcard,
{
  let q = p.take(k); let r = p.take(k + 1);
  assert forall|a: Entid, n: ValueRc<Keyword>| #[trigger] says(s, r, a, n) <==> says(s, q, a, n) || mention(s, p[k]) == Some((a, n)) by {
    if says(s, q, a, n) { let i = choose|i: int| 0 <= i < q.len() && mention(s, q[i]) == Some((a, n)); assert(mention(s, r[i]) == Some((a, n))); }
    if mention(s, p[k]) == Some((a, n)) { assert(mention(s, r[k]) == Some((a, n))); }
    if says(s, r, a, n) { let i = choose|i: int| 0 <= i < r.len() && mention(s, r[i]) == Some((a, n)); if i < k { assert(mention(s, q[i]) == Some((a, n))); } }
  }
  assert forall|a: Entid| #[trigger] mentions(s, r, a) <==> mentions(s, q, a) || (mention(s, p[k]) is Some && mention(s, p[k])->Some_0.0 == a) by {
    if mentions(s, q, a) { let i = choose|i: int| 0 <= i < q.len() && mention(s, q[i]) is Some && mention(s, q[i])->Some_0.0 == a; assert(mention(s, r[i]) is Some); }
    if mention(s, p[k]) is Some { assert(mention(s, r[k]) is Some); }
    if mentions(s, r, a) { let i = choose|i: int| 0 <= i < r.len() && mention(s, r[i]) is Some && mention(s, r[i])->Some_0.0 == a; if i < k { assert(mention(s, q[i]) is Some); } }
  }
  assert forall|n: ValueRc<Keyword>| #[trigger] asks_id(r, n) <==> asks_id(q, n) || id_name(p[k]) == Some(n) by {
    if asks_id(q, n) { let i = choose|i: int| 0 <= i < q.len() && id_name(q[i]) == Some(n); assert(id_name(r[i]) == Some(n)); }
    if id_name(p[k]) == Some(n) { assert(id_name(r[k]) == Some(n)); }
    if asks_id(r, n) { let i = choose|i: int| 0 <= i < r.len() && id_name(r[i]) == Some(n); if i < k { assert(id_name(q[i]) == Some(n)); } }
  }
  if wild(q) { let i = choose|i: int| 0 <= i < q.len() && q[i] == PullAttributeSpec::Wildcard; assert(r[i] == PullAttributeSpec::Wildcard); }
  if p[k] == PullAttributeSpec::Wildcard { assert(r[k] == PullAttributeSpec::Wildcard); }
  if wild(r) { let i = choose|i: int| 0 <= i < r.len() && r[i] == PullAttributeSpec::Wildcard; if i < k { assert(q[i] == PullAttributeSpec::Wildcard); } }
}
"""
    out += u.struct(s, "Puller").replace("cache::", "")
    g = c.fn("specified", r"impl AttributeSpec\b").ret("r")
    g.sub(r"for attr in attrs\.iter\(\)", "let all_ = attrs.entries(); let ghost m_ = all_@.map_values(|p: &Entid| *p); for attr in all_", "the members, each once")
    g.annotate([dict(name="it", invariant="""invariant members_of(attrs@, m_), m_ == it.seq().map_values(|p: &Entid| *p),
        forall|a: Entid| #[trigger] fts@.contains(a) || non_fts@.contains(a) <==> attributes_of(*schema).contains(a) && exists|j: int| 0 <= j < it.index@ && #[trigger] m_[j] == a,""",
        start="let ghost f0 = fts@; let ghost n0 = non_fts@; proof { assert(m_[it.index@ as int] == *attr); }",
        end="""proof { assert forall|a: Entid| #[trigger] fts@.contains(a) || non_fts@.contains(a) <==> attributes_of(*schema).contains(a) && exists|j: int| 0 <= j < it.index@ + 1 && #[trigger] m_[j] == a by {
          assert(m_[it.index@ as int] == *attr); pushed(f0, *attr, a); pushed(n0, *attr, a);
          if a != *attr && exists|j: int| 0 <= j < it.index@ + 1 && #[trigger] m_[j] == a { let j = choose|j: int| 0 <= j < it.index@ + 1 && #[trigger] m_[j] == a; assert(j < it.index@); } } }""",
        after="")])
    out += """
proof fn pushed(s: Seq<Entid>, x: Entid, a: Entid) ensures s.push(x).contains(a) <==> s.contains(a) || a == x
{ if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(s.push(x)[i] == a); } if a == x { assert(s.push(x)[s.len() as int] == a); } if s.push(x).contains(a) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == a; if i < s.len() { assert(s[i] == a); } } }
impl AttributeSpec {
""" + u.emit(g, "ensures forall|a: Entid| #[trigger] specifies(r, a) <==> attrs@.contains(a) && attributes_of(*schema).contains(a)  // nothing is left out") + "}\n"
    f = s.fn("prepare", r"impl Puller\b").ret("r")
    m = re.search(r"let lookup_name = \|i: &Entid\| \{(.*?)\};", f.body, re.S)
    if not m:
        raise extract.LostAnchor("query-pull: lookup_name")
    body = m.group(1)
    b2, n = re.subn(r"\.map\(\|ident\| (.*?)\)\s*\.ok_or_else\(\|\| .*?\)\s*$", r"{ Some(ident) => Ok(\1), None => Err(Error::new()) }", body.strip(), flags=re.S)
    if n != 1:
        raise extract.LostAnchor("query-pull: lookup_name")
    b2 = re.sub(r"ValueRc::new\(", "rc(", b2)
    f.sub(r"let lookup_name = \|i: &Entid\| \{.*?\};", "", "the closure as a function")
    out += """pub fn lookup_name(schema: &Schema, i: &Entid) -> (r: Result<ValueRc<Keyword>>)
  ensures r is Ok <==> ident_of(*schema, *i) is Some, r is Ok ==> r->Ok_0 == ident_of(*schema, *i)->Some_0
{ match %s }
""" % b2
    f.sub(r"\blookup_name\(", "lookup_name(schema, ", "the closure as a function", count=0)
    f.sub(r"(let mut names: [^;]*?= )Default::default\(\)", r"\1BTreeMap::new()", "empty")
    f.sub(r"(let mut attrs: [^;]*?= )Default::default\(\)", r"\1BTreeSet::new()", "empty")
    f.sub(r"::std::rc::Rc::new\(Keyword::namespaced\((\"\w+\"), (\"\w+\")\)\)", r"rc(namespaced(\1, \2))", "Keyword::namespaced")
    f.sub(r"\bref (?=\w)", "", "default binding modes", count=0)
    f.sub(r"alias\.as_ref\(\)\.map\(\|(?:ref )?r\| r\.to_value_rc\(\)\)", "opt_rc_of(alias)", "the same handle")
    f.sub(r"i\.as_ref\(\) == db_id\.as_ref\(\)", "same_keyword(i, &db_id)", "comparison by value")
    f.sub(r"return Err\(PullError::\w+\)", "return Err(Error::new())", "what an Err carries is not modelled", count=0)
    f.sub(r"alias\.unwrap_or_else\(\|\| (\w+)\.to_value_rc\(\)\)", r"(match alias { Some(x_) => x_, None => rc_of(&\1) })", "unwrap_or_else as a match", count=0)
    f.sub(r"alias\.map\(Ok\)\.unwrap_or_else\(\|\| (lookup_name\(schema, \w+\))\)\?", r"(match alias { Some(x_) => x_, None => \1? })", "unwrap_or_else as a match")
    f.sub(r"names\.entry\(([\w.*()]+?)\)\.or_default\(\)\.insert\(", r"add_name(&mut names, \1, ", "entry().or_default().insert()", count=0)
    f.sub(r"entid\.into\(\)", "entid", "already an Entid", count=0, minimum=0)
    f.sub(r"rc_of\(&i\)", "rc_of(i)", "a reference", count=0, minimum=0)
    f.sub(r"cache::", "", "", count=0, minimum=0)
    f.sub(r"in schema\.attribute_map\.keys\(\)", "in schema.attribute_ids()", "the attributes, each once")
    f.sub(r"for id in schema\.attribute_ids\(\)", "let all_ids = schema.attribute_ids(); let ghost ids0 = all_ids@.map_values(|p: &Entid| *p); for id in all_ids", "names what the loop goes over")
    f.annotate([dict(name="it", invariant="""invariant
        forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(names@, a).contains(n) <==> says(*schema, attributes@.take(it.index@ as int), a, n),
        forall|a: Entid| #[trigger] names@.contains_key(a) <==> mentions(*schema, attributes@.take(it.index@ as int), a),
        attrs@ =~= names@.dom(), *db_id == keyword_of("db"@, "id"@),
        wildcard == wild(attributes@.take(it.index@ as int)),
        forall|n: ValueRc<Keyword>| #[trigger] asks_id(attributes@.take(it.index@ as int), n) ==> db_id_alias == Some(n),
        db_id_alias is Some ==> asks_id(attributes@.take(it.index@ as int), db_id_alias->Some_0),""",
                     start="proof { step(*schema, attributes@, it.index@ as int); if db_id_alias is Some && id_name(*attr) is Some { ids_twice(attributes@, it.index@ as int, db_id_alias->Some_0); } assert(*attr == attributes@[it.index@ as int]); if nameless(*schema, *attr) { assert(nameless(*schema, attributes@[it.index@ as int])); } }",
                     end="proof { assert(names@.dom() =~= attrs@); assert forall|a: Entid| #[trigger] names@.contains_key(a) <==> mentions(*schema, attributes@.take(it.index@ + 1), a) by {}; assert forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(names@, a).contains(n) <==> says(*schema, attributes@.take(it.index@ + 1), a, n) by {}; }",
                     before="proof { assert(attributes@.take(0) =~= Seq::empty()); }",
                     after="let ghost names0 = names@; proof { assert(attributes@.take(attributes@.len() as int) =~= attributes@); }"),
                dict(name="iw", invariant="""invariant members_of(attributes_of(*schema), ids0), ids0 == iw.seq().map_values(|p: &Entid| *p), wild(attributes@),
        forall|a: Entid| #[trigger] names0.contains_key(a) <==> mentions(*schema, attributes@, a),
        forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(names0, a).contains(n) <==> says(*schema, attributes@, a, n),
        attrs@ =~= names@.dom(),
        forall|a: Entid| #[trigger] names@.contains_key(a) <==> names0.contains_key(a) || exists|j: int| 0 <= j < iw.index@ && #[trigger] ids0[j] == a,
        forall|a: Entid| #![trigger named(names@, a)] names0.contains_key(a) ==> named(names@, a) == named(names0, a),
        forall|a: Entid| #![trigger named(names@, a)] names@.contains_key(a) && !names0.contains_key(a) ==> by_ident(*schema, a, named(names@, a)),""",
                     start="let ghost nb = names@; proof { assert(ids0[iw.index@ as int] == *id); assert(attributes_of(*schema).contains(*id)); if !names0.contains_key(*id) { assert(by_wildcard(*schema, attributes@, *id)); } }",
                     end="proof { assert(names@.dom() =~= attrs@); if !nb.contains_key(*id) { assert(named(nb, *id) =~= Set::empty()); assert(named(names@, *id) =~= set![ident_of(*schema, *id)->Some_0]); }  assert forall|a: Entid| #[trigger] names@.contains_key(a) <==> names0.contains_key(a) || exists|j: int| 0 <= j < iw.index@ + 1 && #[trigger] ids0[j] == a by { if a != *id { assert(names@.contains_key(a) == nb.contains_key(a)); if exists|j: int| 0 <= j < iw.index@ + 1 && #[trigger] ids0[j] == a { let j = choose|j: int| 0 <= j < iw.index@ + 1 && #[trigger] ids0[j] == a; assert(j < iw.index@); } } } assert forall|a: Entid| #![trigger named(names@, a)] names@.contains_key(a) && !names0.contains_key(a) implies by_ident(*schema, a, named(names@, a)) by { if a == *id && !nb.contains_key(a) { assert(ident_of(*schema, a) is Some); } else { assert(nb.contains_key(a)); assert(named(names@, a) == named(nb, a)); } } }",
                     after="proof { assert forall|a: Entid| #[trigger] by_wildcard(*schema, attributes@, a) implies names@.contains_key(a) && !names0.contains_key(a) by { let i = choose|i: int| 0 <= i < ids0.len() && ids0[i] == a; } assert forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(names@, a).contains(n) <==> asks(*schema, attributes@, a, n) by { if names@.contains_key(a) && !names0.contains_key(a) { let j = choose|j: int| 0 <= j < ids0.len() && ids0[j] == a; assert(attributes_of(*schema).contains(a)); assert(by_wildcard(*schema, attributes@, a)); if says(*schema, attributes@, a, n) { assert(named(names0, a).contains(n)); } } else { assert(named(names@, a) == named(names0, a)); } } }")])
    out += """
proof fn ids_twice(p: Seq<PullAttributeSpec>, k: int, n: ValueRc<Keyword>)
  requires 0 <= k < p.len(), id_name(p[k]) is Some, asks_id(p.take(k), n)
  ensures twice_id(p)
{ let i = choose|i: int| 0 <= i < p.take(k).len() && id_name(p.take(k)[i]) == Some(n); assert(id_name(p[i]) is Some); }
"""
    out += "impl Puller {\n" + u.emit(f, """ensures
        r is Ok ==> forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(r->Ok_0.attributes@, a).contains(n) <==> asks(*schema, attributes@, a, n),
        r is Ok ==> forall|a: Entid| #[trigger] specifies(r->Ok_0.attribute_spec, a) <==> r->Ok_0.attributes@.contains_key(a) && attributes_of(*schema).contains(a),
        r is Ok ==> forall|n: ValueRc<Keyword>| #[trigger] asks_id(attributes@, n) <==> r->Ok_0.db_id_alias == Some(n),
        r is Err ==> twice_id(attributes@) || unnameable(*schema, attributes@),""")
    
    # pull: rows of the caches into maps
    out += """}

// What an entity's map says: its id under the name asked for, and what the store holds of each attribute under each of its names.
pub open spec fn told(db: Connection, s: Schema, p: Puller, n: ValueRc<Keyword>, e: Entid, b: Binding) -> bool {
  ||| p.db_id_alias == Some(n) && b == Binding::Scalar(TypedValue::Ref(e))
  ||| exists|a: Entid| #[trigger] from_attribute(db, s, p, a, n, e, b)
}
pub open spec fn from_attribute(db: Connection, s: Schema, p: Puller, a: Entid, n: ValueRc<Keyword>, e: Entid, b: Binding) -> bool { named(p.attributes@, a).contains(n) && stored(db, s, a, e) == Some(b) }
pub open spec fn tells(db: Connection, s: Schema, p: Puller, n: ValueRc<Keyword>, e: Entid) -> bool { exists|b: Binding| #[trigger] told(db, s, p, n, e, b) }
pub open spec fn well_made(p: Puller, s: Schema) -> bool { forall|a: Entid| #[trigger] specifies(p.attribute_spec, a) <==> p.attributes@.contains_key(a) && attributes_of(s).contains(a) }
// So far: the entities named, and of the attributes the first ones.
pub open spec fn so_far(p: Puller, ents: Seq<Entid>, c: AttributeCaches, s: Schema, es: Seq<(Entid, BTreeSet<ValueRc<Keyword>>)>, k: int, m: Map<Entid, ValueRc<StructuredMap>>) -> bool {
  &&& forall|e: Entid, n: ValueRc<Keyword>| #![trigger map_of(m, e).contains_key(n)] map_of(m, e).contains_key(n) <==> ents.contains(e) && (p.db_id_alias == Some(n) || exists|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e))
  &&& forall|e: Entid, n: ValueRc<Keyword>| #![trigger map_of(m, e)[n]] map_of(m, e).contains_key(n) ==>
        (p.db_id_alias == Some(n) && map_of(m, e)[n] == Binding::Scalar(TypedValue::Ref(e))) || exists|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(map_of(m, e)[n])
}
pub open spec fn gave(c: AttributeCaches, s: Schema, x: (Entid, BTreeSet<ValueRc<Keyword>>), n: ValueRc<Keyword>, e: Entid) -> bool { x.1@.contains(n) && looked_up(c, s, x.0, e) is Some }
// Within one attribute: of its entities the first ones are done; within one entity, of its names.
pub open spec fn in_attr(m0: Map<Entid, ValueRc<StructuredMap>>, m: Map<Entid, ValueRc<StructuredMap>>, names: Set<ValueRc<Keyword>>, c: AttributeCache, done: Seq<Entid>) -> bool {
  forall|e: Entid| #![trigger map_of(m, e)] map_of(m, e) =~= with_names(map_of(m0, e), if done.contains(e) { held(c, e) } else { None }, names)
}
pub open spec fn with_names(m: Map<ValueRc<Keyword>, Binding>, b: Option<Binding>, names: Set<ValueRc<Keyword>>) -> Map<ValueRc<Keyword>, Binding> {
  match b { None => m, Some(v) => Map::new(m.dom() + names, |n: ValueRc<Keyword>| if names.contains(n) { v } else { m[n] }) }
}
"""
    f = s.fn("pull", r"impl Puller\b").ret("r")
    f.subhead(r"pub fn pull<E>|fn pull<E>", "fn pull", "the entities as the vector they are collected into")
    f.subhead(r"entities: E,", "entities: Vec<Entid>,", "the entities as the vector they are collected into")
    f.subhead(r"where\s+E: IntoIterator<Item = Entid>,?", "", "the entities as the vector they are collected into")
    f.subhead(r"rusqlite::", "", "opaque")
    f.sub(r"let entities: Vec<Entid> = entities\.into_iter\(\)\.collect\(\);", "", "the entities as the vector they are collected into")
    f.sub(r"cache::AttributeCaches", "AttributeCaches", "")
    f.sub(r"let mut maps = BTreeMap::new\(\)", "let mut maps: PullResults = BTreeMap::new()", "its type")
    ENTRY = r"let r = maps\s*\.entry\(\*e\)\s*\.or_insert_with\(\|\| ValueRc::new\(StructuredMap::default\(\)\)\);\s*let m = ValueRc::get_mut\(r\)\.unwrap\(\);"
    f.sub(ENTRY, "ensure_map(&mut maps, *e);", "entry().or_insert_with() and get_mut", count=0)
    f.sub(r"\bm\.insert\(", "put(&mut maps, *e, ", "insert into the entity's map", count=0)
    f.sub(r"(alias|name|binding)\.clone\(\)", lambda h: {"alias": "rc_of(alias)", "name": "rc_of(name)", "binding": "binding.clone()"}[h.group(1)], "the same handle", count=0)
    f.sub(r"if let Some\(ref alias\) = self\.db_id_alias", "if let Some(alias) = &self.db_id_alias", "default binding modes")
    f.sub(r"for \(names, cache\) in self\.attributes\.iter\(\)\.filter_map\(\|\(a, names\)\| \{\s*caches\s*\.forward_attribute_cache_for_attribute\(schema, \*a\)\s*\.map\(\|cache\| \(names, cache\)\)\s*\}\) \{(.*)\}(\s*Ok\(maps\))",
          r"let pairs_ = self.attributes.entries(); let ghost es = pairs_@.map_values(|p: (&Entid, &BTreeSet<ValueRc<Keyword>>)| (*p.0, *p.1)); let mut i_: usize = 0; while i_ < pairs_.len() { let a = pairs_[i_].0; let names = pairs_[i_].1; if let Some(cache) = caches.forward_attribute_cache_for_attribute(schema, *a) {\1} /*next*/ i_ = i_ + 1; }\2",
          "filter_map as the loop it stands for")
    f.sub(r"for name in names \{", "for name in names.entries() {", "the members, each once")
    f.annotate([
        dict(name="ie", invariant="""invariant entities@.len() == ie.seq().len(), forall|j: int| 0 <= j < ie.seq().len() ==> *(#[trigger] ie.seq()[j]) == entities@[j],
          self.db_id_alias == Some(*alias),
          forall|e: Entid, n: ValueRc<Keyword>| #![trigger map_of(maps@, e).contains_key(n)] map_of(maps@, e).contains_key(n) <==> entities@.take(ie.index@ as int).contains(e) && *alias == n,
          forall|e: Entid, n: ValueRc<Keyword>| #![trigger map_of(maps@, e)[n]] map_of(maps@, e).contains_key(n) ==> map_of(maps@, e)[n] == Binding::Scalar(TypedValue::Ref(e)),
          forall|e: Entid| #[trigger] maps@.contains_key(e) ==> entities@.contains(e),""",
             start="let ghost m0 = maps@; proof { took(entities@, ie.index@ as int); assert(entities@.contains(*e)); }",
             end="proof { assert forall|x: Entid| x != *e implies #[trigger] map_of(maps@, x) == map_of(m0, x) by {} assert(map_of(maps@, *e) == map_of(m0, *e).insert(*alias, Binding::Scalar(TypedValue::Ref(*e)))); }",
             after="proof { assert(entities@.take(entities@.len() as int) =~= entities@); }", before="proof { assert(entities@.take(0) =~= Seq::empty()); }"),
        dict(kind="while", invariant="""invariant i_ <= pairs_@.len(), es == pairs_@.map_values(|p: (&Entid, &BTreeSet<ValueRc<Keyword>>)| (*p.0, *p.1)), entries_of(self.attributes@, es),
          so_far(*self, entities@, caches, *schema, es, i_ as int, maps@),
          forall|e: Entid| #[trigger] maps@.contains_key(e) ==> entities@.contains(e),
          decreases pairs_@.len() - i_,""",
             before="proof { assert(so_far(*self, entities@, caches, *schema, es, 0, maps@)); }",
             start="let ghost mk = maps@; let ghost kk = i_ as int; proof { assert(es[i_ as int] == (*pairs_@[i_ as int].0, *pairs_@[i_ as int].1)); }",
             end="proof { next_attr(*self, entities@, caches, *schema, es, kk, mk, maps@); }",
             after="proof { let pr = *self; assert forall|e: Entid, n: ValueRc<Keyword>| entities@.contains(e) implies (#[trigger] map_of(maps@, e).contains_key(n) <==> tells(*db, *schema, pr, n, e)) by { told_once(*db, *schema, pr, entities@, caches, es, maps@, n, e); } assert forall|e: Entid, n: ValueRc<Keyword>| entities@.contains(e) && map_of(maps@, e).contains_key(n) implies told(*db, *schema, pr, n, e, #[trigger] map_of(maps@, e)[n]) by { told_once(*db, *schema, pr, entities@, caches, es, maps@, n, e); } }"),
        dict(name="ie", invariant="""invariant entities@.len() == ie.seq().len(), forall|j: int| 0 <= j < ie.seq().len() ==> *(#[trigger] ie.seq()[j]) == entities@[j],
          in_attr(mk, maps@, names@, *cache, entities@.take(ie.index@ as int)),
          forall|e: Entid| #[trigger] maps@.contains_key(e) ==> entities@.contains(e),""",
             start="let ghost me = maps@; proof { took(entities@, ie.index@ as int); assert(entities@.contains(*e)); }",
             end="proof { next_entity(mk, me, maps@, names@, *cache, entities@, ie.index@ as int); }",
             after="proof { assert(entities@.take(entities@.len() as int) =~= entities@); }",
             before="proof { assert(entities@.take(0) =~= Seq::empty()); assert(in_attr(mk, maps@, names@, *cache, entities@.take(0))); }"),
        dict(name="iN", invariant="""invariant maps@.contains_key(*e), ns_ == iN.seq().map_values(|p: &ValueRc<Keyword>| *p), members_of(names@, ns_),
          forall|e: Entid| #[trigger] maps@.contains_key(e) ==> entities@.contains(e),
          forall|x: Entid| x != *e ==> #[trigger] map_of(maps@, x) == map_of(me, x),
          map_of(maps@, *e) =~= with_names(map_of(me, *e), Some(binding), set_of(ns_.take(iN.index@ as int))),""",
             start="let ghost mn = map_of(maps@, *e); proof { assert(ns_[iN.index@ as int] == *name); let t = ns_.take(iN.index@ as int); assert(ns_.take(iN.index@ + 1) =~= t.push(*name)); assert(t.push(*name).drop_last() =~= t); assert(set_of(ns_.take(iN.index@ + 1)) == set_of(t).insert(*name)); name_joins(map_of(me, *e), binding, set_of(t), *name); }",
             end="proof { assert(map_of(maps@, *e) =~= mn.insert(*name, binding)); assert(map_of(maps@, *e) =~= with_names(map_of(me, *e), Some(binding), set_of(ns_.take(iN.index@ + 1)))); }",
             before="proof { assert(ns_.take(0) =~= Seq::empty()); assert(set_of(Seq::<ValueRc<Keyword>>::empty()) =~= Set::empty()); assert(map_of(maps@, *e) =~= with_names(map_of(me, *e), Some(binding), Set::empty())); }",
             after="proof { assert(ns_.take(ns_.len() as int) =~= ns_); all_of(ns_); assert(set_of(ns_) =~= names@); }"),
    ])
    f.sub(r"(proof \{ assert\(ns_\.take\(0\))", r"let names_ = names.entries(); let ghost ns_ = names_@.map_values(|p: &ValueRc<Keyword>| *p); \1", "names what the loop goes over")
    f.sub(r"for name in iN:\s+names\.entries\(\)", "for name in iN: names_", "names what the loop goes over")
    out += """
pub open spec fn set_of(s: Seq<ValueRc<Keyword>>) -> Set<ValueRc<Keyword>> decreases s.len() { if s.len() == 0 { Set::empty() } else { set_of(s.drop_last()).insert(s.last()) } }
proof fn all_of(s: Seq<ValueRc<Keyword>>) ensures forall|x: ValueRc<Keyword>| #[trigger] set_of(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
  decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); all_of(d); assert forall|x: ValueRc<Keyword>| #[trigger] set_of(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x by {
    if set_of(d).contains(x) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == x; assert(s[i] == x); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; if i < d.len() { assert(d[i] == x); } } } } }
proof fn name_joins(m: Map<ValueRc<Keyword>, Binding>, b: Binding, s: Set<ValueRc<Keyword>>, n: ValueRc<Keyword>)
  ensures with_names(m, Some(b), s.insert(n)) =~= with_names(m, Some(b), s).insert(n, b)
{}
proof fn took(s: Seq<Entid>, k: int)
  requires 0 <= k < s.len()
  ensures forall|x: Entid| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k]
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert forall|x: Entid| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k] by { pushed(s.take(k), s[k], x); } }
proof fn next_entity(m0: Map<Entid, ValueRc<StructuredMap>>, me: Map<Entid, ValueRc<StructuredMap>>, m: Map<Entid, ValueRc<StructuredMap>>, names: Set<ValueRc<Keyword>>, c: AttributeCache, ents: Seq<Entid>, k: int)
  requires 0 <= k < ents.len(), in_attr(m0, me, names, c, ents.take(k)),
    forall|x: Entid| x != ents[k] ==> #[trigger] map_of(m, x) == map_of(me, x),
    map_of(m, ents[k]) =~= with_names(map_of(me, ents[k]), held(c, ents[k]), names),
  ensures in_attr(m0, m, names, c, ents.take(k + 1))
{
  took(ents, k);
  assert forall|e: Entid| #![trigger map_of(m, e)] map_of(m, e) =~= with_names(map_of(m0, e), if ents.take(k + 1).contains(e) { held(c, e) } else { None }, names) by {
    assert(map_of(me, e) =~= with_names(map_of(m0, e), if ents.take(k).contains(e) { held(c, e) } else { None }, names));
    assert(ents.take(k + 1).contains(e) <==> ents.take(k).contains(e) || e == ents[k]);
  }
}
proof fn next_attr(p: Puller, ents: Seq<Entid>, c: AttributeCaches, s: Schema, es: Seq<(Entid, BTreeSet<ValueRc<Keyword>>)>, k: int, m0: Map<Entid, ValueRc<StructuredMap>>, m: Map<Entid, ValueRc<StructuredMap>>)
  requires 0 <= k < es.len(), so_far(p, ents, c, s, es, k, m0),
    match cached(c, s, es[k].0) { Some(x) => in_attr(m0, m, es[k].1@, x, ents), None => m == m0 },
  ensures so_far(p, ents, c, s, es, k + 1, m)
{
  assert forall|e: Entid, n: ValueRc<Keyword>| #![trigger map_of(m, e).contains_key(n)] #![trigger map_of(m, e)[n]] (map_of(m, e).contains_key(n) <==> ents.contains(e) && (p.db_id_alias == Some(n) || exists|j: int| 0 <= j < k + 1 && #[trigger] gave(c, s, es[j], n, e)))
     && (map_of(m, e).contains_key(n) ==>
        (p.db_id_alias == Some(n) && map_of(m, e)[n] == Binding::Scalar(TypedValue::Ref(e))) || exists|j: int| 0 <= j < k + 1 && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(map_of(m, e)[n])) by {
    assert(map_of(m0, e).contains_key(n) || !map_of(m0, e).contains_key(n));
    let v0 = map_of(m0, e)[n];
    let g = gave(c, s, es[k], n, e);
    if cached(c, s, es[k].0) is Some {
      let x = cached(c, s, es[k].0)->Some_0;
      assert(map_of(m, e) =~= with_names(map_of(m0, e), if ents.contains(e) { held(x, e) } else { None }, es[k].1@));
    }
    if exists|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e) { let j = choose|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e); assert(j < k + 1); }
    if map_of(m0, e).contains_key(n) && exists|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(v0) { let j = choose|j: int| 0 <= j < k && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(v0); assert(j < k + 1); }
    if exists|j: int| 0 <= j < k + 1 && #[trigger] gave(c, s, es[j], n, e) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] gave(c, s, es[j], n, e); assert(j == k || j < k); }
  }
}
proof fn told_once(db: Connection, s: Schema, p: Puller, ents: Seq<Entid>, c: AttributeCaches, es: Seq<(Entid, BTreeSet<ValueRc<Keyword>>)>, m: Map<Entid, ValueRc<StructuredMap>>, n: ValueRc<Keyword>, e: Entid)
  requires so_far(p, ents, c, s, es, es.len() as int, m), ents.contains(e), well_made(p, s), entries_of(p.attributes@, es),
    forall|a: Entid, x: Entid| specifies(p.attribute_spec, a) && ents.contains(x) ==> #[trigger] looked_up(c, s, a, x) == stored(db, s, a, x),
    forall|a: Entid| !attributes_of(s).contains(a) ==> #[trigger] cached(c, s, a) is None,
    forall|a: Entid, x: Entid| !attributes_of(s).contains(a) ==> #[trigger] stored(db, s, a, x) is None,
  ensures map_of(m, e).contains_key(n) <==> tells(db, s, p, n, e), map_of(m, e).contains_key(n) ==> told(db, s, p, n, e, map_of(m, e)[n])
{
  assert forall|a: Entid| p.attributes@.contains_key(a) implies #[trigger] looked_up(c, s, a, e) == stored(db, s, a, e) by { assert(specifies(p.attribute_spec, a) <==> attributes_of(s).contains(a)); if !attributes_of(s).contains(a) { assert(cached(c, s, a) is None); assert(stored(db, s, a, e) is None); } }
  if map_of(m, e).contains_key(n) {
    let v = map_of(m, e)[n];
    if exists|j: int| 0 <= j < es.len() && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(v) {
      let j = choose|j: int| 0 <= j < es.len() && #[trigger] gave(c, s, es[j], n, e) && looked_up(c, s, es[j].0, e) == Some(v);
      assert(p.attributes@.contains_key(es[j].0)); assert(from_attribute(db, s, p, es[j].0, n, e, v));
    }
    assert(told(db, s, p, n, e, v));
  }
  if tells(db, s, p, n, e) {
    let b = choose|b: Binding| #[trigger] told(db, s, p, n, e, b);
    if exists|a: Entid| #[trigger] from_attribute(db, s, p, a, n, e, b) {
      let a = choose|a: Entid| #[trigger] from_attribute(db, s, p, a, n, e, b);
      assert(p.attributes@.contains_key(a));
      let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 == a;
      assert(gave(c, s, es[j], n, e));
    }
    assert(map_of(m, e).contains_key(n));
  }
}
"""
    out += "impl Puller {\n" + u.emit(f, """requires well_made(*self, *schema)
      ensures r is Ok ==> forall|e: Entid, n: ValueRc<Keyword>| entities@.contains(e) ==> (#[trigger] map_of(r->Ok_0@, e).contains_key(n) <==> tells(*db, *schema, *self, n, e)),
        r is Ok ==> forall|e: Entid, n: ValueRc<Keyword>| entities@.contains(e) && map_of(r->Ok_0@, e).contains_key(n) ==> told(*db, *schema, *self, n, e, #[trigger] map_of(r->Ok_0@, e)[n]),
        r is Ok ==> forall|e: Entid| #[trigger] r->Ok_0@.contains_key(e) ==> entities@.contains(e),""")
    out += "}\n"
    # the consumers: which entities are pulled, and where their maps go
    q2 = u.src("query-projector/src/projectors/pull_two_stage.rs")
    rel, lib = u.src("query-projector/src/relresult.rs"), u.src("query-projector/src/lib.rs")
    u.assume("a Ref in a binding and the Entid of the same column of the same row are the same (from_sql_value_pair of a ref: C07)")
    out += R.rowset(u) + R.grid() + u.struct(pl, "PullIndices").replace("pub(crate)", "pub") + "impl Clone for PullIndices { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for PullIndices {}\n"
    out += u.struct(pl, "PullTemplate").replace("pub(crate)", "pub") + u.struct(pl, "PullOperation").replace("pub(crate)", "pub").replace("(Vec<", "(pub Vec<").replace("(pub pub", "(pub")
    out += u.struct(pl, "PullConsumer").replace("pub(crate)", "pub")
    out += "#[verifier::reject_recursive_types(T)]\n" + u.struct(rel, "RelResult") + u.struct(lib, "QueryResults") + u.struct(lib, "QueryOutput")
    out += """
#[verifier::external_body] pub struct FindSpec { x: () }
pub type Rc<T> = std::sync::Arc<T>;
#[verifier::external_body] pub fn clone_of<T>(k: &T) -> (r: T) ensures r == *k { unimplemented!() }
#[verifier::external_body] pub fn nth_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
impl BTreeSet<Entid> { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<Entid>) ensures members_of(self@, r@) { unimplemented!() } }
#[verifier::external_body] pub fn single(e: Entid) -> (r: Vec<Entid>) ensures r@ == seq![e], r@.contains(e) { unimplemented!() }
// A puller made for a pattern.
pub open spec fn made_for(q: Puller, s: Schema, p: Seq<PullAttributeSpec>) -> bool {
  &&& forall|a: Entid, n: ValueRc<Keyword>| #[trigger] named(q.attributes@, a).contains(n) <==> asks(s, p, a, n)
  &&& well_made(q, s)
  &&& forall|n: ValueRc<Keyword>| #[trigger] asks_id(p, n) <==> q.db_id_alias == Some(n)
}
// A map says of an entity exactly what the pattern asks for.
pub open spec fn says_of(db: Connection, s: Schema, q: Puller, e: Entid, m: Map<ValueRc<Keyword>, Binding>) -> bool {
  &&& forall|n: ValueRc<Keyword>| #[trigger] m.contains_key(n) <==> tells(db, s, q, n, e)
  &&& forall|n: ValueRc<Keyword>| m.contains_key(n) ==> told(db, s, q, n, e, #[trigger] m[n])
}
pub open spec fn kept<'s>(c: PullConsumer<'s>) -> bool { c.ordered@.no_duplicates() && forall|x: Entid| #[trigger] c.entities@.contains(x) <==> c.ordered@.contains(x) }
pub open spec fn with_entity(o: Seq<Entid>, e: Entid) -> Seq<Entid> { if o.contains(e) { o } else { o.push(e) } }
// The entities of a column, each at its first appearance.
pub open spec fn first_seen(rows: Seq<Row>, i: usize) -> Seq<Entid> decreases rows.len() { if rows.len() == 0 { Seq::empty() } else { with_entity(first_seen(rows.drop_last(), i), entity_at(rows.last(), i)) } }
pub open spec fn answered<'s>(c: PullConsumer<'s>, db: Connection) -> bool { well_made(c.puller, *c.schema) && (forall|e: Entid| #[trigger] c.entities@.contains(e) ==> says_of(db, *c.schema, c.puller, e, map_of(c.results@, e))) && forall|e: Entid| #[trigger] c.results@.contains_key(e) ==> c.entities@.contains(e) }
pub open spec fn same_but_entities<'s>(a: PullConsumer<'s>, b: PullConsumer<'s>) -> bool { a.puller == b.puller && a.schema == b.schema && a.indices == b.indices && a.results == b.results }
// The binding of an entity gives way to its map.
pub open spec fn replaced<'s>(c: PullConsumer<'s>, b: Binding, r: Binding) -> bool {
  match b { Binding::Scalar(TypedValue::Ref(e)) => r matches Binding::Map(x) && x.m() == map_of(c.results@, e), _ => r == b }
}
pub open spec fn maps_in_order(o: Seq<Entid>, m: Map<Entid, ValueRc<StructuredMap>>) -> Seq<Binding> decreases o.len() {
  if o.len() == 0 { Seq::empty() } else { let d = maps_in_order(o.drop_last(), m); if m.contains_key(o.last()) { d.push(Binding::Map(m[o.last()])) } else { d } }
}
"""
    LT = [(r"<'a>", ""), (r"rusqlite::Row<'a>|rusqlite::Row\b", "Row"), (r"rusqlite::Connection", "Connection")]

    def meth(src, name, within, post, fix=None, ann=None):
        f = src.fn(name, within)
        f.head = re.sub(r"<'a>", "", f.head)
        f.head = re.sub(r"rusqlite::", "", f.head)
        f.head = f.head.replace("pub(crate) ", "")
        if "->" in f.head:
            f.ret("r")
        if fix:
            fix(f)
        f.annotate(ann or [])
        return u.emit(f, post)
    W = r"impl<'schema> PullConsumer<'schema>"
    out += "impl PullIndices {\n" + meth(pl, "zero", r"impl PullIndices\b", "ensures r.sql_index == 0, r.output_index == 0") + "}\n"
    out += "impl<'schema> PullConsumer<'schema> {\n"
    def fresh(f):
        f.sub(r"entities: Default::default\(\)", "entities: BTreeSet::new()", "empty")
        f.sub(r"ordered: Default::default\(\)", "ordered: Vec::new()", "empty")
        f.sub(r"results: Default::default\(\)", "results: BTreeMap::new()", "empty")
    FRESH = "kept(%s), %s.ordered@.len() == 0, %s.entities@ =~= Set::empty(), %s.results@ =~= Map::empty(), *%s.schema == *schema"
    out += meth(pl, "for_puller", W, "ensures r.puller == puller, r.indices == indices, " + FRESH % (("r",) * 5), fresh)
    MADE = """ensures r is Ok ==> made_for(r->Ok_0.puller, *schema, %s) && r->Ok_0.indices %s && kept(r->Ok_0) && r->Ok_0.ordered@.len() == 0 && r->Ok_0.results@ =~= Map::empty() && *r->Ok_0.schema == *schema,
          r is Err ==> twice_id(%s) || unnameable(*schema, %s)"""
    CL = lambda f: f.sub(r"(template\.op\.0|operation\.0)\.clone\(\)", r"clone_of(&\1)", "clone")
    out += meth(pl, "for_template", W, MADE % ("template.op.0@", "== template.indices", "template.op.0@", "template.op.0@"), CL)
    out += meth(pl, "for_operation", W, MADE % ("operation.0@", "== (PullIndices { sql_index: 0, output_index: 0 })", "operation.0@", "operation.0@"), CL)
    def coll(f):
        f.sub(r"let entity = row\.get\((.*?)\)\.unwrap\(\);", r"let entity = row.get_entid(\1); let ghost o0 = self.ordered@;", "Row::get of an entid")
        f.sub(r"\n\s*entity\s*\}\s*$", "\n proof { pushed(o0, entity, entity); assert forall|x: Entid| #[trigger] self.entities@.contains(x) <==> self.ordered@.contains(x) by { pushed(o0, entity, x); } } entity\n}", "a proof before the result")
    out += meth(pl, "collect_entity", W, """requires kept(*old(self))
        ensures r == entity_at(*row, old(self).indices.sql_index), same_but_entities(*final(self), *old(self)), kept(*final(self)), final(self).ordered@ == with_entity(old(self).ordered@, r)""", coll)
    out += meth(pl, "pull", W, """requires well_made(old(self).puller, *old(self).schema)
        ensures r is Ok ==> answered(*final(self), *sqlite), final(self).puller == old(self).puller, final(self).schema == old(self).schema, final(self).indices == old(self).indices, final(self).ordered == old(self).ordered, final(self).entities == old(self).entities""",
        lambda f: f.sub(r"self\.entities\.iter\(\)\.cloned\(\)\.collect\(\);", "self.entities.to_vec(); let ghost es_ = entities@; proof { assert forall|e: Entid| self.entities@.contains(e) implies es_.contains(e) by { let i = choose|i: int| 0 <= i < es_.len() && es_[i] == e; } assert forall|e: Entid| es_.contains(e) implies self.entities@.contains(e) by { let i = choose|i: int| 0 <= i < es_.len() && es_[i] == e; } }", "the members, each once"))
    def expd(f):
        f.prologue("let n_ = bindings.len();")
        f.subhead(r"bindings: &mut \[Binding\]", "bindings: &mut Vec<Binding>, base: usize", "a row within the values, by its offset")
        f.sub(r"let Binding::Scalar\(TypedValue::Ref\(id\)\) = bindings\[(self\.indices\.output_index)\]", r"let Some(id) = ref_of(&bindings[base + \1])", "the pattern as a function")
        f.sub(r"bindings\[(self\.indices\.output_index)\] =\s*(.*?);", r"bindings.set(base + \1, \2);", "assignment to an element", count=0)
        f.sub(r"self\.results\.get\(&id\)\.cloned\(\)", "opt_clone(self.results.get(&id))", "cloned")
        f.sub(r"ValueRc::new\(Default::default\(\)\)", "empty_rc_map()", "an empty map")
    out += meth(pl, "expand", W, """requires base + self.indices.output_index < old(bindings)@.len()
        ensures final(bindings)@.len() == old(bindings)@.len(),
          forall|i: int| 0 <= i < old(bindings)@.len() && i != base + self.indices.output_index ==> final(bindings)@[i] == #[trigger] old(bindings)@[i],
          replaced(*self, old(bindings)@[base + self.indices.output_index], final(bindings)@[base + self.indices.output_index])""", expd)
    def icr(f):
        f.sub(r"self\.ordered\s*\.iter\(\)\s*\.filter_map\(\|e\| (.*?)\)\s*\.map\(Binding::Map\)\s*\.collect\(\)", r"let mut vals_: Vec<Binding> = Vec::new(); let mut i_: usize = 0; while i_ < self.ordered.len() { let e = &self.ordered[i_]; if let Some(x_) = \1 { vals_.push(Binding::Map(x_)); } i_ = i_ + 1; } vals_", "filter_map, map and collect as the loop they stand for")
        f.sub(r"self\.results\.get\(e\)\.cloned\(\)", "opt_clone(self.results.get(e))", "cloned")
    out += meth(pl, "into_coll_results", W, "ensures r@ == maps_in_order(self.ordered@, self.results@)", icr, [dict(kind="while", invariant="invariant i_ <= self.ordered@.len(), vals_@ == maps_in_order(self.ordered@.take(i_ as int), self.results@), decreases self.ordered@.len() - i_,",
        start="proof { assert(self.ordered@.take(i_ + 1).drop_last() =~= self.ordered@.take(i_ as int)); }", before="", after="proof { assert(self.ordered@.take(self.ordered@.len() as int) =~= self.ordered@); }")])
    out += """}
#[verifier::external_body] pub fn opt_clone<T>(o: Option<&ValueRc<T>>) -> (r: Option<ValueRc<T>>) ensures r is Some <==> o is Some, o is Some ==> r->Some_0 == *(o->Some_0) { unimplemented!() }
pub fn ref_of(b: &Binding) -> (r: Option<Entid>) ensures r == (match *b { Binding::Scalar(TypedValue::Ref(e)) => Some(e), _ => None::<Entid> }) { match b { Binding::Scalar(TypedValue::Ref(e)) => Some(*e), _ => None } }
"""
    
    # the projectors of queries that pull
    for n in ("ScalarTwoStagePullProjector", "TupleTwoStagePullProjector", "RelTwoStagePullProjector", "CollTwoStagePullProjector"):
        out += u.struct(q2, n)
    out += """
pub open spec fn row_bound(ts: Seq<TypedIndex>, r: Row, vals: Seq<Binding>) -> bool { vals.len() == ts.len() && forall|j: int| 0 <= j < ts.len() ==> looked(#[trigger] ts[j], r) == Some(vals[j]) }
pub open spec fn laid(ts: Seq<TypedIndex>, rows: Seq<Row>, vals: Seq<Binding>) -> bool {
  &&& vals.len() == rows.len() * ts.len()
  &&& forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < ts.len() ==> looked(ts[j], rows[i]) == Some(vals[#[trigger] cell(ts.len(), i, j)])
}
proof fn lay(ts: Seq<TypedIndex>, rows: Seq<Row>, k: int, v0: Seq<Binding>, v1: Seq<Binding>)
  requires 0 <= k < rows.len(), laid(ts, rows.take(k), v0), v1.len() == v0.len() + ts.len(), v1.take(v0.len() as int) =~= v0,
    forall|j: int| 0 <= j < ts.len() ==> looked(#[trigger] ts[j], rows[k]) == Some(v1[v0.len() + j])
  ensures laid(ts, rows.take(k + 1), v1)
{
  let w = ts.len();
  assert((k + 1) * (w as int) == k * (w as int) + w) by (nonlinear_arith);
  assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < w implies looked(ts[j], rows.take(k + 1)[i]) == Some(v1[#[trigger] cell(w, i, j)]) by {
    if i < k { cells(w, k, i, j); assert(rows.take(k)[i] == rows[i]); assert(v1.take(v0.len() as int)[cell(w, i, j)] == v0[cell(w, i, j)]); }
    else { assert(cell(w, i, j) == v0.len() + j); assert(looked(ts[j], rows[k]) == Some(v1[v0.len() + j])); }
  }
}
// The layout of a query that pulls (project_elements, C17): each pull has its own column, whose template finds the entity's id.
pub open spec fn wired(ts: Seq<TypedIndex>, ps: Seq<PullTemplate>) -> bool {
  &&& forall|p: int| 0 <= p < ps.len() ==> (#[trigger] ps[p]).indices.output_index < ts.len()
  &&& forall|p: int, q: int| 0 <= p < ps.len() && 0 <= q < ps.len() && p != q ==> (#[trigger] ps[p]).indices.output_index != (#[trigger] ps[q]).indices.output_index
  &&& forall|p: int, r: Row| 0 <= p < ps.len() && looked(ts[ps[p].indices.output_index as int], r) is Some ==> looked(ts[ps[p].indices.output_index as int], r) == Some(Binding::Scalar(TypedValue::Ref(#[trigger] entity_at(r, ps[p].indices.sql_index))))
}
pub open spec fn matched<'s>(cs: Seq<PullConsumer<'s>>, ps: Seq<PullTemplate>, s: Schema) -> bool { cs.len() == ps.len() && forall|p: int| 0 <= p < ps.len() ==> consumer_of(#[trigger] cs[p], ps[p], s) }
pub open spec fn consumer_of<'s>(c: PullConsumer<'s>, p: PullTemplate, s: Schema) -> bool { made_for(c.puller, s, p.op.0@) && c.indices == p.indices && kept(c) && *c.schema == s }
pub open spec fn heard<'s>(c: PullConsumer<'s>, rows: Seq<Row>) -> bool { forall|i: int| 0 <= i < rows.len() ==> c.entities@.contains(entity_at(#[trigger] rows[i], c.indices.sql_index)) }
// What a query that pulls shows of a row: under each pull the entity's map, elsewhere what the template finds.
pub open spec fn map_shown(db: Connection, s: Schema, p: Seq<PullAttributeSpec>, e: Entid, b: Binding) -> bool { b matches Binding::Map(x) && exists|q: Puller| made_for(q, s, p) && #[trigger] says_of(db, s, q, e, x.m()) }
pub open spec fn shown(db: Connection, s: Schema, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, r: Row, j: int, b: Binding) -> bool {
  &&& forall|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).indices.output_index == j ==> map_shown(db, s, ps[p].op.0@, entity_at(r, ps[p].indices.sql_index), b)
  &&& (forall|p: int| 0 <= p < ps.len() ==> (#[trigger] ps[p]).indices.output_index != j) ==> looked(ts[j], r) == Some(b)
}
// A value after the first consumers have passed.
pub open spec fn after<'s>(cs: Seq<PullConsumer<'s>>, k: int, j: int, v0: Binding, v: Binding) -> bool {
  &&& forall|p: int| 0 <= p < k && (#[trigger] cs[p]).indices.output_index == j ==> replaced(cs[p], v0, v)
  &&& (forall|p: int| 0 <= p < k ==> (#[trigger] cs[p]).indices.output_index != j) ==> v == v0
}
proof fn passes<'s>(cs: Seq<PullConsumer<'s>>, k: int, j: int, v0: Binding, v1: Binding, v2: Binding)
  requires 0 <= k < cs.len(), after(cs, k, j, v0, v1), forall|p: int, q: int| 0 <= p < cs.len() && 0 <= q < cs.len() && p != q ==> (#[trigger] cs[p]).indices.output_index != (#[trigger] cs[q]).indices.output_index,
    if cs[k].indices.output_index == j { replaced(cs[k], v1, v2) } else { v2 == v1 }
  ensures after(cs, k + 1, j, v0, v2)
{ assert(forall|p: int| 0 <= p < k && cs[k].indices.output_index == j ==> (#[trigger] cs[p]).indices.output_index != j); }
proof fn shows<'s>(db: Connection, s: Schema, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, cs: Seq<PullConsumer<'s>>, rows: Seq<Row>, i: int, j: int, v0: Binding, v: Binding)
  requires wired(ts, ps), matched(cs, ps, s), forall|p: int| 0 <= p < cs.len() ==> answered(#[trigger] cs[p], db) && heard(cs[p], rows), 0 <= i < rows.len(), 0 <= j < ts.len(),
    looked(ts[j], rows[i]) == Some(v0), after(cs, cs.len() as int, j, v0, v)
  ensures shown(db, s, ts, ps, rows[i], j, v)
{
  assert forall|p: int| 0 <= p < ps.len() && (#[trigger] ps[p]).indices.output_index == j implies map_shown(db, s, ps[p].op.0@, entity_at(rows[i], ps[p].indices.sql_index), v) by {
    let e = entity_at(rows[i], ps[p].indices.sql_index);
    assert(consumer_of(cs[p], ps[p], s) && answered(cs[p], db) && heard(cs[p], rows));
    assert(cs[p].entities@.contains(e));
    assert(v0 == Binding::Scalar(TypedValue::Ref(e)));
    assert(replaced(cs[p], v0, v));
    assert(says_of(db, s, cs[p].puller, e, map_of(cs[p].results@, e)));
  }
  assert((forall|p: int| 0 <= p < ps.len() ==> (#[trigger] ps[p]).indices.output_index != j) ==> forall|p: int| 0 <= p < cs.len() ==> (#[trigger] cs[p]).indices.output_index != j) by {
    assert(forall|p: int| 0 <= p < cs.len() ==> consumer_of(#[trigger] cs[p], ps[p], s));
  }
}
#[verifier::external_body] pub fn rc_ref<T>(k: &Rc<T>) -> (r: Rc<T>) ensures r == *k { unimplemented!() }
pub open spec fn pulled_coll(db: Connection, s: Schema, p: Seq<PullAttributeSpec>, o: Seq<Entid>, v: Seq<Binding>) -> bool {
  exists|q: Puller, m: Map<Entid, ValueRc<StructuredMap>>| made_for(q, s, p) && v == maps_in_order(o, m) && #[trigger] all_say(db, s, q, o, m)
}
pub open spec fn all_say(db: Connection, s: Schema, q: Puller, o: Seq<Entid>, m: Map<Entid, ValueRc<StructuredMap>>) -> bool { forall|e: Entid| o.contains(e) ==> says_of(db, s, q, e, #[trigger] map_of(m, e)) }
"""
    HEAD = [(r"fn project<'stmt, 's>", "fn project"), (r"&'s rusqlite::Connection", "&Connection"), (r"mut rows: Rows<'stmt>", "rows_in: Rows")]
    BUILD = r"let pull_consumers: Result<Vec<PullConsumer>> = self\s*\.pulls\s*\.iter\(\)\s*\.map\(\|op\| PullConsumer::for_template\(schema, op\)\)\s*\.collect\(\);\s*let mut pull_consumers = pull_consumers\?;"
    B_INV = dict(kind="while", invariant="""invariant io_ <= self.pulls@.len(), pull_consumers@.len() == io_, forall|p: int| 0 <= p < io_ ==> consumer_of(#[trigger] pull_consumers@[p], self.pulls@[p], *schema), decreases self.pulls@.len() - io_,""")
    C_INV = """invariant ic_ <= pull_consumers@.len(), matched(pull_consumers@, self.pulls@, *schema),
          forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() ==> heard(pull_consumers@[p], %s),
          forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < ic_ ==> pull_consumers@[p].entities@.contains(entity_at(*row, pull_consumers@[p].indices.sql_index)),
          decreases pull_consumers@.len() - ic_,"""
    P_INV = dict(kind="while", invariant="""invariant iq_ <= pull_consumers@.len(), matched(pull_consumers@, self.pulls@, *schema),
          forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() ==> heard(pull_consumers@[p], %s),
          forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < iq_ ==> answered(pull_consumers@[p], *sqlite),
          decreases pull_consumers@.len() - iq_,""")
    E_INV = """invariant ie_ <= pull_consumers@.len(), base_ + self.templates@.len() <= %(v)s@.len(), %(v)s@.len() == vals0.len(), matched(pull_consumers@, self.pulls@, *schema), wired(self.templates@, self.pulls@),
          forall|i: int| 0 <= i < vals0.len() && !(base_ <= i < base_ + self.templates@.len()) ==> %(v)s@[i] == #[trigger] before_[i],
          forall|j: int| 0 <= j < self.templates@.len() ==> after(pull_consumers@, ie_ as int, j, vals0[base_ + j], #[trigger] %(v)s@[base_ + j]),
          decreases pull_consumers@.len() - ie_,"""
    E_START = """let ghost v1_ = %(v)s@; proof { assert(consumer_of(pull_consumers@[ie_ as int], self.pulls@[ie_ as int], *schema)); assert(self.pulls@[ie_ as int].indices.output_index < self.templates@.len()); }"""
    E_END = """proof { assert forall|j: int| 0 <= j < self.templates@.len() implies after(pull_consumers@, ie_ as int, j, vals0[base_ + j], #[trigger] %(v)s@[base_ + j]) by {
            assert forall|p: int, q: int| 0 <= p < pull_consumers@.len() && 0 <= q < pull_consumers@.len() && p != q implies (#[trigger] pull_consumers@[p]).indices.output_index != (#[trigger] pull_consumers@[q]).indices.output_index by { assert(consumer_of(pull_consumers@[p], self.pulls@[p], *schema)); assert(consumer_of(pull_consumers@[q], self.pulls@[q], *schema)); }
            assert(v1_[base_ + j] == v1_[base_ + j]);
            passes(pull_consumers@, ie_ - 1, j, vals0[base_ + j], v1_[base_ + j], %(v)s@[base_ + j]); } }"""

    def two_stage(name, post, ann, methods=""):
        f = q2.fn("project", r"impl Projector for %s\b" % name).ret("r")
        for a, b in HEAD:
            f.subhead(a, b, "no lifetimes")
        f.prologue("let mut rows = rows_in; let ghost all = rows_in@;")
        f.sub(r"self\.spec\.clone\(\)", "rc_ref(&self.spec)", "the same spec")
        f.sub(BUILD, "let mut pull_consumers: Vec<PullConsumer> = Vec::new(); let mut io_: usize = 0; while io_ < self.pulls.len() { let op = &self.pulls[io_]; let c_ = PullConsumer::for_template(schema, op)?; pull_consumers.push(c_); io_ = io_ + 1; }", "map and collect as the loop they stand for", minimum=0)
        f.sub(r"for p in pull_consumers\.iter_mut\(\) \{\s*p\.collect_entity\(&?row\);\s*\}", "let mut ic_: usize = 0; while ic_ < pull_consumers.len() { let p = nth_mut(&mut pull_consumers, ic_); p.collect_entity(row); ic_ = ic_ + 1; }", "iter_mut as the loop it stands for", minimum=0)
        f.sub(r"for p in pull_consumers\.iter_mut\(\) \{\s*p\.pull\(sqlite\)\?;\s*\}", "let mut iq_: usize = 0; while iq_ < pull_consumers.len() { let p = nth_mut(&mut pull_consumers, iq_); p.pull(sqlite)?; iq_ = iq_ + 1; }", "iter_mut as the loop it stands for", minimum=0)
        f.sub(r"for bindings in values\.chunks_mut\(width\) \{\s*for p in pull_consumers\.iter\(\) \{\s*p\.expand\(bindings\);\s*\}\s*\}", "let ghost vals0 = values@; let mut base_: usize = 0; while base_ < values.len() { let mut ie_: usize = 0; while ie_ < pull_consumers.len() { let p = &pull_consumers[ie_]; p.expand(&mut values, base_); ie_ = ie_ + 1; } base_ = base_ + width; }", "chunks_mut as the loop it stands for", minimum=0)
        f.sub(r"for p in pull_consumers\.into_iter\(\) \{\s*p\.expand\(&mut bindings\);\s*\}", "let ghost vals0 = bindings@; let base_: usize = 0; let ghost before_ = bindings@; let mut ie_: usize = 0; while ie_ < pull_consumers.len() { let p = &pull_consumers[ie_]; p.expand(&mut bindings, 0); ie_ = ie_ + 1; }", "into_iter as the loop it stands for", minimum=0)
        f.sub(r"while let Some\((\w+)\) = rows\.next\(\)\? \{(.*?)\n        \}\n", r"loop { let next_ = rows.next()?; if next_.is_none() { break; } let \1 = next_.unwrap();\2\n }\n", "while let as the loop it stands for", minimum=0)
        f.sub(r"Vec<_>", "Vec<Binding>", "its type", count=0, minimum=0)
        f.sub(r"Vec::with_capacity\(5 \* width\)", "Vec::new()", "capacity is no content", minimum=0)
        f.sub(r"collect_entity\(&row\)", "collect_entity(row)", "a reference", minimum=0)
        f.sub(r"let entity: Entid = row\.get\((\d+)\)\.unwrap\(\);", r"let entity: Entid = row.get_entid(\1);", "Row::get of an entid", minimum=0)
        f.sub(r"let m = Binding::Map\(", "proof { assert(says_of(*sqlite, *schema, self.puller, entity, map_of(bindings@, entity))); }\nlet m = Binding::Map(", "a proof", minimum=0)
        f.sub(r"once\(entity\)", "single(entity)", "one entity", minimum=0)
        f.sub(r"bindings\s*\.get\(&entity\)\s*\.cloned\(\)\s*\.unwrap_or_else\(Default::default\)", "(match bindings.get(&entity) { Some(m_) => rc_ref(m_), None => empty_rc_map() })", "cloned, or an empty map", minimum=0)
        f.annotate(ann)
        return "impl %s {\n" % name + methods + u.emit(f, post) + "}\n"
    P = units.load("projectors")
    out += two_stage("ScalarTwoStagePullProjector", """requires well_made(self.puller, *schema)
      ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Scalar(x) && (match x { None => rows_in@.len() == 0,
          Some(b) => rows_in@.len() > 0 && (b matches Binding::Map(m) && says_of(*sqlite, *schema, self.puller, entity_at(rows_in@[0], 0), m.m())) }))""", [])
    out += two_stage("TupleTwoStagePullProjector", """requires wired(self.templates@, self.pulls@)
      ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Tuple(x) && (match x { None => rows_in@.len() == 0,
          Some(b) => rows_in@.len() > 0 && b@.len() == self.templates@.len() && forall|j: int| 0 <= j < b@.len() ==> shown(*sqlite, *schema, self.templates@, self.pulls@, rows_in@[0], j, #[trigger] b@[j]) }))""",
        [B_INV, dict(kind="while", invariant=C_INV % "Seq::<Row>::empty()",
                     start="let ghost cs_ = pull_consumers@; proof { assert(consumer_of(pull_consumers@[ic_ as int], self.pulls@[ic_ as int], *schema)); }",
                     end="proof { collected(cs_, pull_consumers@, self.pulls@, *schema, ic_ - 1, *row, Seq::empty()); }"),
         dict(P_INV, invariant=P_INV["invariant"] % "seq![*row]", before="proof { assert forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() implies heard(pull_consumers@[p], seq![*row]) by {} }",
              start="let ghost cs_ = pull_consumers@; proof { assert(consumer_of(pull_consumers@[iq_ as int], self.pulls@[iq_ as int], *schema)); }",
              end="proof { asked(cs_, pull_consumers@, self.pulls@, *schema, iq_ - 1, *sqlite, seq![*row]); }"),
         dict(kind="while", invariant=(E_INV % {"v": "bindings"}).replace("invariant ", "invariant base_ == 0, before_.len() == vals0.len(), ", 1), start=E_START % {"v": "bindings"}, end=E_END % {"v": "bindings"},
              before="proof { assert forall|j: int| 0 <= j < self.templates@.len() implies after(pull_consumers@, 0, j, vals0[base_ + j], #[trigger] bindings@[base_ + j]) by {} }",
              after="proof { assert forall|j: int| 0 <= j < bindings@.len() implies shown(*sqlite, *schema, self.templates@, self.pulls@, all[0], j, #[trigger] bindings@[j]) by { assert(bindings@[base_ + j] == bindings@[j]); assert(looked(self.templates@[j], *row) == Some(vals0[j])); shows(*sqlite, *schema, self.templates@, self.pulls@, pull_consumers@, seq![*row], 0, j, vals0[j], bindings@[j]); } }"),
         ], P.bindings(u, q2, "TupleTwoStagePullProjector"))
    out += two_stage("RelTwoStagePullProjector", """requires wired(self.templates@, self.pulls@), self.templates@.len() == self.len, 0 < self.len < usize::MAX
      ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Rel(x) && x.width == self.len && x.values@.len() == rows_in@.len() * (self.len as nat)
          && forall|i: int, j: int| 0 <= i < rows_in@.len() && 0 <= j < self.len ==> shown(*sqlite, *schema, self.templates@, self.pulls@, rows_in@[i], j, x.values@[#[trigger] cell(self.len as nat, i, j)]))""",
        [B_INV,
         dict(kind="loop", invariant="""invariant_except_break 0 <= k <= all.len(), rows@ =~= all.skip(k), laid(self.templates@, all.take(k), values@),
            forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() ==> heard(pull_consumers@[p], all.take(k)),
          invariant self.templates@.len() == self.len, 0 < self.len < usize::MAX, width == self.len, matched(pull_consumers@, self.pulls@, *schema),
          ensures laid(self.templates@, all, values@), forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() ==> heard(pull_consumers@[p], all),
          decreases rows@.len(),""", before="let ghost mut k: int = 0; proof { assert(all.take(0).len() == 0); assert(all.skip(0) =~= all); }",
              start="let ghost v0_ = values@; proof { if k == all.len() { assert(all.take(k) =~= all); } }",
              end="proof { lay(self.templates@, all, k, v0_, values@); assert forall|p: int| #![trigger pull_consumers@[p]] 0 <= p < pull_consumers@.len() implies heard(pull_consumers@[p], all.take(k + 1)) by { assert(heard(pull_consumers@[p], all.take(k))); assert forall|i: int| 0 <= i < k + 1 implies pull_consumers@[p].entities@.contains(entity_at(#[trigger] all.take(k + 1)[i], pull_consumers@[p].indices.sql_index)) by { if i < k { assert(all.take(k)[i] == all[i]); } } } k = k + 1; }"),
         dict(kind="while", invariant=C_INV % "all.take(k)",
                     start="let ghost cs_ = pull_consumers@; proof { assert(consumer_of(pull_consumers@[ic_ as int], self.pulls@[ic_ as int], *schema)); }",
                     end="proof { collected(cs_, pull_consumers@, self.pulls@, *schema, ic_ - 1, *row, all.take(k)); }"),
         dict(P_INV, invariant=P_INV["invariant"] % "all",
              start="let ghost cs_ = pull_consumers@; proof { assert(consumer_of(pull_consumers@[iq_ as int], self.pulls@[iq_ as int], *schema)); }",
              end="proof { asked(cs_, pull_consumers@, self.pulls@, *schema, iq_ - 1, *sqlite, all); }"),
         dict(kind="while", invariant="""invariant 0 <= rw_ <= all.len(), base_ == rw_ * (width as int), width == self.len, self.templates@.len() == self.len, 0 < self.len, values@.len() == vals0.len(), vals0.len() == all.len() * (width as nat), matched(pull_consumers@, self.pulls@, *schema), wired(self.templates@, self.pulls@),
              forall|i: int, j: int| 0 <= i < rw_ && 0 <= j < width ==> after(pull_consumers@, pull_consumers@.len() as int, j, vals0[cell(width as nat, i, j)], values@[#[trigger] cell(width as nat, i, j)]),
              forall|i: int| base_ <= i < vals0.len() ==> values@[i] == #[trigger] vals0[i],
              decreases values@.len() - base_,""",
              before="let ghost mut rw_: int = 0;",
              start="""let ghost before_ = values@; proof {
                assert(rw_ < all.len() && base_ + width <= values@.len()) by (nonlinear_arith) requires base_ == rw_ * (width as int), base_ < values@.len(), values@.len() == all.len() * (width as int), width > 0, rw_ >= 0, rw_ <= all.len();
                assert forall|j: int| 0 <= j < self.templates@.len() implies after(pull_consumers@, 0, j, vals0[base_ + j], #[trigger] values@[base_ + j]) by { assert(values@[base_ + j] == vals0[base_ + j]); } }""",
              end="""proof {
                assert((rw_ + 1) * (width as int) == rw_ * (width as int) + width) by (nonlinear_arith);
                assert forall|i: int, j: int| 0 <= i < rw_ + 1 && 0 <= j < width implies after(pull_consumers@, pull_consumers@.len() as int, j, vals0[cell(width as nat, i, j)], values@[#[trigger] cell(width as nat, i, j)]) by {
                  cells(width as nat, all.len() as int, i, j);
                  if i < rw_ { cells(width as nat, rw_, i, j); assert(values@[cell(width as nat, i, j)] == before_[cell(width as nat, i, j)]); } else { assert(cell(width as nat, i, j) == rw_ * (width as int) + j); assert(values@[(base_ - width) + j] == values@[cell(width as nat, i, j)]); } }
                assert forall|i: int| base_ <= i < vals0.len() implies values@[i] == #[trigger] vals0[i] by { assert(values@[i] == before_[i]); }
                rw_ = rw_ + 1; }""",
              after="""proof { assert(rw_ == all.len()) by (nonlinear_arith) requires rw_ * (width as int) >= all.len() * (width as int), rw_ <= all.len(), width > 0;
                assert forall|i: int, j: int| 0 <= i < all.len() && 0 <= j < self.len implies shown(*sqlite, *schema, self.templates@, self.pulls@, all[i], j, values@[#[trigger] cell(self.len as nat, i, j)]) by {
                  assert(looked(self.templates@[j], all[i]) == Some(vals0[cell(self.len as nat, i, j)])); shows(*sqlite, *schema, self.templates@, self.pulls@, pull_consumers@, all, i, j, vals0[cell(self.len as nat, i, j)], values@[cell(self.len as nat, i, j)]); } }"""),
         dict(kind="while", invariant=(E_INV % {"v": "values"}).replace("invariant ", "invariant before_.len() == vals0.len(), ", 1), start=E_START % {"v": "values"}, end=E_END % {"v": "values"}),
         ], P.bindings_into(u, q2, "RelTwoStagePullProjector"))
    out += two_stage("CollTwoStagePullProjector", """ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Coll(x) && pulled_coll(*sqlite, *schema, self.pull.0@, first_seen(rows_in@, 0), x@))""",
        [dict(kind="loop", invariant="""invariant_except_break 0 <= k <= all.len(), rows@ =~= all.skip(k), pull_consumer.ordered@ == first_seen(all.take(k), 0),
          invariant kept(pull_consumer), made_for(pull_consumer.puller, *schema, self.pull.0@), *pull_consumer.schema == *schema, pull_consumer.indices.sql_index == 0,
          ensures pull_consumer.ordered@ == first_seen(all, 0),
          decreases rows@.len(),""", before="let ghost mut k: int = 0; proof { assert(all.take(0).len() == 0); assert(all.skip(0) =~= all); assert(pull_consumer.ordered@ =~= first_seen(all.take(0), 0)); }",
              start="proof { if k == all.len() { assert(all.take(k) =~= all); } }",
              end="proof { assert(all.take(k + 1).drop_last() =~= all.take(k)); k = k + 1; }",
              after="")])
    out = out.replace("let out = pull_consumer.into_coll_results();", "proof { assert forall|e: Entid| first_seen(all, 0).contains(e) implies says_of(*sqlite, *schema, pull_consumer.puller, e, #[trigger] map_of(pull_consumer.results@, e)) by { assert(pull_consumer.ordered@.contains(e)); assert(pull_consumer.entities@.contains(e)); } assert(all_say(*sqlite, *schema, pull_consumer.puller, first_seen(all, 0), pull_consumer.results@)); }\nlet out = pull_consumer.into_coll_results();")
    out += """
proof fn collected<'s>(c0: Seq<PullConsumer<'s>>, c1: Seq<PullConsumer<'s>>, ps: Seq<PullTemplate>, s: Schema, k: int, row: Row, rows: Seq<Row>)
  requires matched(c0, ps, s), 0 <= k < c0.len(), c1 == c0.update(k, c1[k]), same_but_entities(c1[k], c0[k]), kept(c1[k]), c1[k].ordered@ == with_entity(c0[k].ordered@, entity_at(row, c0[k].indices.sql_index)),
    forall|p: int| #![trigger c0[p]] 0 <= p < c0.len() ==> heard(c0[p], rows),
    forall|p: int| #![trigger c0[p]] 0 <= p < k ==> c0[p].entities@.contains(entity_at(row, c0[p].indices.sql_index)),
  ensures matched(c1, ps, s), forall|p: int| #![trigger c1[p]] 0 <= p < c1.len() ==> heard(c1[p], rows),
    forall|p: int| #![trigger c1[p]] 0 <= p < k + 1 ==> c1[p].entities@.contains(entity_at(row, c1[p].indices.sql_index)),
{
  let e = entity_at(row, c0[k].indices.sql_index);
  assert(consumer_of(c0[k], ps[k], s));
  assert forall|x: Entid| c0[k].entities@.contains(x) || x == e implies c1[k].entities@.contains(x) by { pushed(c0[k].ordered@, e, x); }
  assert forall|p: int| #![trigger c1[p]] 0 <= p < c1.len() implies heard(c1[p], rows) && consumer_of(c1[p], ps[p], s) by { assert(consumer_of(c0[p], ps[p], s)); assert(heard(c0[p], rows)); }
  assert forall|p: int| #![trigger c1[p]] 0 <= p < k + 1 implies c1[p].entities@.contains(entity_at(row, c1[p].indices.sql_index)) by { if p < k { assert(c1[p] == c0[p]); } }
}
proof fn asked<'s>(c0: Seq<PullConsumer<'s>>, c1: Seq<PullConsumer<'s>>, ps: Seq<PullTemplate>, s: Schema, k: int, db: Connection, rows: Seq<Row>)
  requires matched(c0, ps, s), 0 <= k < c0.len(), c1 == c0.update(k, c1[k]), answered(c1[k], db), c1[k].puller == c0[k].puller, c1[k].schema == c0[k].schema, c1[k].indices == c0[k].indices, c1[k].ordered == c0[k].ordered, c1[k].entities == c0[k].entities,
    forall|p: int| #![trigger c0[p]] 0 <= p < c0.len() ==> heard(c0[p], rows),
    forall|p: int| #![trigger c0[p]] 0 <= p < k ==> answered(c0[p], db),
  ensures matched(c1, ps, s), forall|p: int| #![trigger c1[p]] 0 <= p < c1.len() ==> heard(c1[p], rows),
    forall|p: int| #![trigger c1[p]] 0 <= p < k + 1 ==> answered(c1[p], db),
{
  assert forall|p: int| #![trigger c1[p]] 0 <= p < c1.len() implies heard(c1[p], rows) && consumer_of(c1[p], ps[p], s) by { assert(consumer_of(c0[p], ps[p], s)); assert(heard(c0[p], rows)); }
  assert forall|p: int| #![trigger c1[p]] 0 <= p < k + 1 implies answered(c1[p], db) by { if p < k { assert(c1[p] == c0[p]); assert(answered(c0[p], db)); } }
}
"""
    return out
