"""C05: the literals an attribute takes (edn/src/types.rs, db/src/db.rs, db/src/schema.rs, db/src/internal_types.rs)."""
import re
import units, extract
T = units.load("types")

SPEC = """
#[verifier::external_body] pub struct Str { x: () }
#[verifier::external_body] pub struct BigInt { x: () }
#[verifier::external_body] pub struct PlainSymbol { x: () }
#[verifier::external_body] pub struct NamespacedSymbol { x: () }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Many<T> { x: T }
impl Clone for DateTime<Utc> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for DateTime<Utc> {}
impl Clone for OrderedFloat<f64> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for OrderedFloat<f64> {}
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for Uuid {}
impl Str { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: TypedValue) ensures r matches TypedValue::String(t) && *t == self { unimplemented!() } }
impl Keyword { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: TypedValue) ensures r matches TypedValue::Keyword(t) && *t == self { unimplemented!() } }
// The instant with everything below the microsecond cut off (From<DateTime<Utc>> for TypedValue; see unit values).
pub uninterp spec fn micro(d: DateTime<Utc>) -> DateTime<Utc>;
impl DateTime<Utc> { #[verifier::external_body] pub fn into(self) -> (r: TypedValue) ensures r == TypedValue::Instant(micro(self)) { unimplemented!() } }
#[verifier::external_body] pub fn children<A, B>(v: Many<A>) -> (r: Many<B>) { unimplemented!() }
#[verifier::external_body] pub fn from_text(s: &Str) -> Keyword { unimplemented!() }
pub open spec fn type_of(v: TypedValue) -> ValueType { match v { TypedValue::Ref(_) => ValueType::Ref, TypedValue::Boolean(_) => ValueType::Boolean, TypedValue::Instant(_) => ValueType::Instant, TypedValue::Long(_) => ValueType::Long,
    TypedValue::Double(_) => ValueType::Double, TypedValue::String(_) => ValueType::String, TypedValue::Uuid(_) => ValueType::Uuid, TypedValue::Keyword(_) => ValueType::Keyword } }
#[verifier::external_body] pub struct Schema { x: () }
impl Schema {
  pub uninterp spec fn idents(&self) -> Map<Keyword, Entid>;
  // The schema's ident_map.
  #[verifier::external_body] pub fn ident_map_get(&self, k: &Keyword) -> (r: Option<Entid>) ensures r == (if self.idents().contains_key(*k) { Some(self.idents()[*k]) } else { None }) { unimplemented!() }
}
// What the documentation says a literal means for an attribute of type t.
pub open spec fn reads(v: SpannedValue, t: ValueType, s: Schema, r: TypedValue) -> bool { match (t, v, r) {
    (ValueType::Boolean, SpannedValue::Boolean(a), TypedValue::Boolean(b)) => a == b,
    (ValueType::Long, SpannedValue::Integer(a), TypedValue::Long(b)) => a == b,
    (ValueType::Double, SpannedValue::Float(a), TypedValue::Double(b)) => a == b,
    (ValueType::String, SpannedValue::Text(a), TypedValue::String(b)) => a == *b,
    (ValueType::Uuid, SpannedValue::Uuid(a), TypedValue::Uuid(b)) => a == b,
    (ValueType::Instant, SpannedValue::Instant(a), TypedValue::Instant(b)) => b == micro(a),
    (ValueType::Keyword, SpannedValue::Keyword(a), TypedValue::Keyword(b)) => a == *b,
    (ValueType::Ref, SpannedValue::Integer(a), TypedValue::Ref(b)) => a == b,
    (ValueType::Ref, SpannedValue::Keyword(a), TypedValue::Ref(b)) => s.idents().contains_key(a) && s.idents()[a] == b,
    _ => false } }
pub open spec fn literal(v: SpannedValue, t: ValueType, s: Schema) -> bool { match (t, v) {
    (ValueType::Boolean, SpannedValue::Boolean(_)) | (ValueType::Long, SpannedValue::Integer(_)) | (ValueType::Double, SpannedValue::Float(_)) | (ValueType::String, SpannedValue::Text(_))
    | (ValueType::Uuid, SpannedValue::Uuid(_)) | (ValueType::Instant, SpannedValue::Instant(_)) | (ValueType::Keyword, SpannedValue::Keyword(_)) | (ValueType::Ref, SpannedValue::Integer(_)) => true,
    (ValueType::Ref, SpannedValue::Keyword(k)) => s.idents().contains_key(k), _ => false } }
pub open spec fn plain(v: SpannedValue, w: Value) -> bool { match (v, w) {
    (SpannedValue::Boolean(a), Value::Boolean(b)) => a == b, (SpannedValue::Integer(a), Value::Integer(b)) => a == b, (SpannedValue::Instant(a), Value::Instant(b)) => a == b,
    (SpannedValue::Float(a), Value::Float(b)) => a == b, (SpannedValue::Text(a), Value::Text(b)) => a == b, (SpannedValue::Uuid(a), Value::Uuid(b)) => a == b, (SpannedValue::Keyword(a), Value::Keyword(b)) => a == b,
    (SpannedValue::Nil, Value::Nil) | (SpannedValue::BigInteger(_), Value::BigInteger(_)) | (SpannedValue::PlainSymbol(_), Value::PlainSymbol(_)) | (SpannedValue::NamespacedSymbol(_), Value::NamespacedSymbol(_))
    | (SpannedValue::Vector(_), Value::Vector(_)) | (SpannedValue::List(_), Value::List(_)) | (SpannedValue::Set(_), Value::Set(_)) | (SpannedValue::Map(_), Value::Map(_)) => true,
    _ => false } }
pub open spec fn typed(w: Value) -> bool { w is Boolean || w is Instant || w is Integer || w is Uuid || w is Float || w is Text || w is Keyword }
pub open spec fn as_typed(w: Value, r: TypedValue) -> bool { match (w, r) {
    (Value::Boolean(a), TypedValue::Boolean(b)) => a == b, (Value::Instant(a), TypedValue::Instant(b)) => b == micro(a), (Value::Integer(a), TypedValue::Long(b)) => a == b, (Value::Uuid(a), TypedValue::Uuid(b)) => a == b,
    (Value::Float(a), TypedValue::Double(b)) => a == b, (Value::Text(a), TypedValue::String(b)) => a == *b, (Value::Keyword(a), TypedValue::Keyword(b)) => a == *b, _ => false } }
"""


def opaque(t):
    t = re.sub(r"\bString\b(?=\s*\))", "Str", t)
    t = re.sub(r"(Vec|LinkedList|BTreeSet)<(\w+)>", r"Many<\2_>", t)
    t = re.sub(r"BTreeMap<(\w+), \w+>", r"Many<\1_>", t)
    return re.sub(r"\bsymbols::", "", t)


def build(u):
    ed, db, sc, it, core = (u.src(p) for p in ("edn/src/types.rs", "db/src/db.rs", "db/src/schema.rs", "db/src/internal_types.rs", "core-traits/lib.rs"))
    out = T.errors(u) + T.values(u).replace("ValueRc<String>", "ValueRc<Str>").replace("#[verifier::external_body] pub struct Utc", "#[verifier::external_body] #[derive(Copy, Clone)] pub struct Utc")
    u.assume("the elements of EDN collections are opaque: no collection is the value of an attribute here")
    u.assume("a schema's ident_map is a map from keywords to entids")
    out += "#[verifier::external_body] pub struct Value_ { x: () }\n#[verifier::external_body] pub struct ValueAndSpan_ { x: () }\n"
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, "ValueType")
    out += opaque(u.struct(ed, "Value")) + opaque(u.struct(ed, "SpannedValue")) + u.struct(ed, "Span") + u.struct(ed, "ValueAndSpan") + SPEC
    out += "impl Clone for ValueAndSpan { #[verifier::external_body] fn clone(&self) -> (r: ValueAndSpan) ensures r == *self { unimplemented!() } }\n"
    vt = core.fn("value_type", r"impl TypedValue\b").ret("r")
    out += "impl TypedValue {\n" + u.emit(vt, "ensures r == type_of(*self)") + "}\n"
    f = ed.fn("from", r"impl From<SpannedValue> for Value").ret("r")
    f.sub(r"(\w+)\s*\.into_iter\(\)\s*\.map\(\|[^|]*\|[^;=]*?\)\s*\.collect\(\)", r"children(\1)", "the elements of collections are opaque", count=0, minimum=0)
    f.head = f.head.replace("fn from(", "fn value_of(")
    out += u.emit(f, "ensures plain(%s, r)" % re.search(r"\((\w+):", f.head).group(1))
    f = ed.fn("without_spans", r"impl ValueAndSpan\b").ret("r")
    f.sub(r"self\.inner\.into\(\)", "value_of(self.inner)", "which conversion into() is", minimum=0)
    out += "impl ValueAndSpan {\n" + u.emit(f, "ensures plain(self.inner, r)") + "}\n"
    W = r"impl TypedSQLValue for TypedValue"
    f = db.fn("from_edn_value", W).ret("r")
    f.sub(r"\bref (\w+)", r"\1", "matching by reference", count=0, minimum=0)
    a = re.search(r"\((\w+):", f.head).group(1)
    out += "impl TypedValue {\n" + u.emit(f, "ensures match r { Some(w_) => as_typed(*%s, w_), None => !typed(*%s) }" % (a, a)) + "}\n"
    f = u.src("core/src/lib.rs").fn("get_raw_entid", r"impl Schema\b").ret("r")
    f.sub(r"self\.ident_map\.get\((&?\w+)\)\.(copied|cloned)\(\)", r"self.ident_map_get(\1)", "the map by its contract", minimum=0)
    f.sub(r"self\.ident_map\.get\((&?\w+)\)\.map\(\|\w+\| \*\w+\)", r"self.ident_map_get(\1)", "the map by its contract", minimum=0)
    a = re.search(r"(\w+): &Keyword", f.head).group(1)
    out += "impl Schema {\n" + u.emit(f, "ensures r == (if self.idents().contains_key(*%s) { Some(self.idents()[*%s]) } else { None })" % (a, a))
    f = u.src("core/src/lib.rs").fn("get_entid", r"impl HasSchema for Schema").ret("r")
    f.sub(r"self\.get_raw_entid\((\w+)\)\.map\(KnownEntid\)", r"match self.get_raw_entid(\1) { Some(e_) => Some(KnownEntid(e_)), None => None }", "map as the match it stands for", minimum=0)
    a = re.search(r"(\w+): &Keyword", f.head).group(1)
    out += u.emit(f, "ensures r == (if self.idents().contains_key(*%s) { Some(KnownEntid(self.idents()[*%s])) } else { None })" % (a, a))
    f = sc.fn("require_entid", r"impl SchemaBuilding for Schema").ret("r")
    f.sub(r"self\s*\.get_entid\((&?\w+)\)\s*\.ok_or_else\(\|\| [^}]*\)", r"match self.get_entid(\1) { Some(k_) => Ok(k_), None => Err(Error::new()) }", "errors are opaque", minimum=0)
    f.subhead(r"symbols::", "", "paths")
    a = re.search(r"(\w+): &Keyword", f.head).group(1)
    out += u.emit(f, "ensures match r { Ok(k_) => self.idents().contains_key(*%s) && k_.0 == self.idents()[*%s], Err(_) => !self.idents().contains_key(*%s) }" % (a, a, a))
    f = sc.fn("to_typed_value", r"impl SchemaTypeChecking for Schema").ret("r")
    f.macro("bail", units.bail(), "errors are opaque")
    f.sub(r"\bref (\w+)", r"\1", "matching by reference", count=0, minimum=0)
    f.sub(r"self\.require_entid\((&?\w+)\)\s*\.map\(\|(\w+)\| \2\.into\(\)\)", r"match self.require_entid(\1) { Ok(k_) => Ok(TypedValue::Ref(k_.0)), Err(e_) => Err(e_) }", "map as the match it stands for; KnownEntid into TypedValue", minimum=0)
    f.subhead(r"edn::", "", "paths")
    v, t = re.search(r"(\w+): &ValueAndSpan", f.head).group(1), re.search(r"(\w+): ValueType", f.head).group(1)
    out += u.emit(f, "ensures match r { Ok(w_) => reads(%s.inner, %s, *self, w_) && type_of(w_) == %s, Err(_) => !literal(%s.inner, %s, *self) }" % (v, t, t, v, t)) + "}\n"
    f = it.fn("into_typed_value", r"impl TransactableValue for ValueAndSpan").ret("r")
    s, t = re.search(r"(\w+): &Schema", f.head).group(1), re.search(r"(\w+): ValueType", f.head).group(1)
    out += "impl ValueAndSpan {\n" + u.emit(f, "ensures match r { Ok(w_) => reads(self.inner, %s, *%s, w_) && type_of(w_) == %s, Err(_) => !literal(self.inner, %s, *%s) }" % (t, s, t, t, s)) + "}\n"
    f = it.fn("into_typed_value", r"impl TransactableValue for TypedValue").ret("r")
    f.macro("bail", units.bail(), "errors are opaque")
    t = re.search(r"(\w+): ValueType", f.head).group(1)
    out += "impl TypedValue {\n" + u.emit(f, "ensures match r { Ok(w_) => w_ == self && type_of(w_) == %s, Err(_) => type_of(self) != %s }" % (t, t)) + "}\n"
    # Nothing is a literal for a type without meaning something, and it means one thing.
    out += """
proof fn one_meaning(v: SpannedValue, t: ValueType, s: Schema, a: TypedValue, b: TypedValue) requires reads(v, t, s, a), reads(v, t, s, b)
  ensures literal(v, t, s), type_of(a) == t, type_of(b) == t,
    !(t is String || t is Keyword) ==> a == b,
    (a matches TypedValue::String(x) ==> (b matches TypedValue::String(y) && *x == *y)), (a matches TypedValue::Keyword(x) ==> (b matches TypedValue::Keyword(y) && *x == *y)) {}
"""
    return out
