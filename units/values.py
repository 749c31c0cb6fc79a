"""C07: what is stored for a value, and reading it back (db/src/db.rs, db/src/lib.rs, edn/src/types.rs)."""
import re
import units, extract
T = units.load("types")

SPEC = """
#[verifier::external_body] pub struct Real { x: () }
#[verifier::external_body] pub struct Bytes { x: () }
#[verifier::external_body] pub struct Bytes16 { x: () }
pub axiom fn text_ext(a: ValueRc<Text>, b: ValueRc<Text>) requires (*a)@ == (*b)@ ensures a == b;
pub uninterp spec fn bits(d: OrderedFloat<f64>) -> Real;
pub uninterp spec fn of_bits(r: Real) -> OrderedFloat<f64>;
pub broadcast axiom fn float_bits(d: OrderedFloat<f64>) ensures #[trigger] of_bits(bits(d)) == d;
impl OrderedFloat<f64> { #[verifier::external_body] pub fn into_inner(&self) -> (r: Real) ensures r == bits(*self) { unimplemented!() } }
impl Clone for OrderedFloat<f64> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for OrderedFloat<f64> {}
impl Clone for DateTime<Utc> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for DateTime<Utc> {}
impl Clone for Uuid { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for Uuid {}
impl Real { #[verifier::external_body] pub fn into(self) -> (r: OrderedFloat<f64>) ensures r == of_bits(self) { unimplemented!() } }
pub uninterp spec fn of_uuid(u: Uuid) -> Bytes;
pub uninterp spec fn to_uuid(b: Bytes16) -> Uuid;
pub uninterp spec fn as16(b: Bytes) -> Option<Bytes16>;
pub broadcast axiom fn uuid_bytes(u: Uuid) ensures as16(#[trigger] of_uuid(u)) is Some, to_uuid(as16(of_uuid(u)).unwrap()) == u;
impl Uuid { #[verifier::external_body] pub fn as_bytes(&self) -> (r: Bytes) ensures r == of_uuid(*self) { unimplemented!() }
  #[verifier::external_body] pub fn from_bytes(b: Bytes16) -> (r: Uuid) ensures r == to_uuid(b) { unimplemented!() } }
#[verifier::external_body] pub fn sixteen(b: &Bytes) -> (r: std::result::Result<Bytes16, ()>) ensures match r { Ok(x) => as16(*b) == Some(x), Err(_) => as16(*b) is None } { unimplemented!() }

// Instants: seconds since 1970 and nanoseconds within the second.
impl DateTime<Utc> { pub uninterp spec fn secs(&self) -> int; pub uninterp spec fn nanos(&self) -> int;
  #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) ensures r == self.secs(), -8_300_000_000_000 <= r < 8_300_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn timestamp_subsec_micros(&self) -> (r: u32) ensures r == self.nanos() / 1000, 0 <= self.nanos() < 1_000_000_000 { unimplemented!() } }
impl DateTime<Utc> { #[verifier::external_body] pub fn nanosecond(&self) -> (r: u32) requires 0 <= self.nanos() < 1_000_000_000 ensures r == self.nanos() { unimplemented!() } }
#[verifier::external_body] pub fn with_nanosecond(d: DateTime<Utc>, n: u32) -> (r: DateTime<Utc>) requires n < 1_000_000_000 ensures r.secs() == d.secs(), r.nanos() == n { unimplemented!() }
pub axiom fn instant_ext(a: DateTime<Utc>, b: DateTime<Utc>) requires a.secs() == b.secs(), a.nanos() == b.nanos() ensures a == b;
#[verifier::external_body] pub fn utc_timestamp(s: i64, n: u32) -> (r: DateTime<Utc>) requires -8_300_000_000_000 <= s < 8_300_000_000_000, n < 1_000_000_000 ensures r.secs() == s, r.nanos() == n { unimplemented!() }
#[verifier::external_body] pub fn div_euclid(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == (a as int) / (b as int) { unimplemented!() }
#[verifier::external_body] pub fn rem_euclid(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == (a as int) % (b as int) { unimplemented!() }
pub open spec fn micros(d: DateTime<Utc>) -> int { d.secs() * 1_000_000 + d.nanos() / 1000 }
pub open spec fn whole_micros(d: DateTime<Utc>) -> bool { d.nanos() % 1000 == 0 && 0 <= d.nanos() < 1_000_000_000 && -8_300_000_000_000 <= d.secs() < 8_300_000_000_000 }
pub open spec fn in_range(t: int) -> bool { -8_300_000_000_000_000_000 <= t < 8_300_000_000_000_000_000 }

// Keywords: a namespace, or none, and a name, neither with the characters that delimit them.
pub open spec fn clean(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x3a && s[i] != 0x2f }
impl Keyword { pub uninterp spec fn ns(&self) -> Option<Seq<u8>>; pub uninterp spec fn nm(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn plain(n: &Text) -> (r: Keyword) requires n@.len() > 0 ensures r.ns() is None, r.nm() == n@ { unimplemented!() }
  #[verifier::external_body] pub fn namespaced(s: &Text, n: &Text) -> (r: Keyword) requires s@.len() > 0, n@.len() > 0 ensures r.ns() == Some(s@), r.nm() == n@ { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r@ == printed(*self) { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: TypedValue) ensures r == TypedValue::Keyword(ValueRc::new(self)) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Keyword) ensures r == *self { unimplemented!() }
  pub fn as_ref(&self) -> (r: &Keyword) ensures *r == *self { self } }
pub axiom fn keyword_ext(a: ValueRc<Keyword>, b: ValueRc<Keyword>) requires a.ns() == b.ns(), a.nm() == b.nm() ensures a == b;
pub open spec fn printed(k: Keyword) -> Seq<u8> { match k.ns() { Some(n) => seq![0x3au8] + n + seq![0x2fu8] + k.nm(), None => seq![0x3au8] + k.nm() } }
pub open spec fn ok_keyword(k: Keyword) -> bool { clean(k.nm()) && (k.ns() matches Some(n) ==> clean(n)) }
impl Text {
  #[verifier::external_body] pub fn into(self) -> (r: TypedValue) ensures r == TypedValue::String(ValueRc::new(self)) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() }
  #[verifier::external_body] pub fn strip_prefix(&self, c: u8) -> (r: Option<&Text>) ensures match r { Some(t) => self@.len() > 0 && self@[0] == c && t@ == self@.subrange(1, self@.len() as int), None => self@.len() == 0 || self@[0] != c } { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, c: u8) -> (r: bool) ensures r == self@.contains(c) { unimplemented!() }
}

// What is stored.
pub enum Sql { Null, Integer(i64), Real(Real), Text(Text), Blob(Bytes) }
pub trait IntoSql { spec fn sql(&self) -> Sql; fn into_sql(&self) -> (r: Sql) ensures r == self.sql(); }
impl IntoSql for i64 { open spec fn sql(&self) -> Sql { Sql::Integer(*self) } fn into_sql(&self) -> (r: Sql) { Sql::Integer(*self) } }
impl IntoSql for i32 { open spec fn sql(&self) -> Sql { Sql::Integer(*self as i64) } fn into_sql(&self) -> (r: Sql) { Sql::Integer(*self as i64) } }
impl IntoSql for bool { open spec fn sql(&self) -> Sql { Sql::Integer(if *self { 1 } else { 0 }) } fn into_sql(&self) -> (r: Sql) { Sql::Integer(if *self { 1 } else { 0 }) } }
impl IntoSql for Text { open spec fn sql(&self) -> Sql { Sql::Text(*self) } fn into_sql(&self) -> (r: Sql) { Sql::Text(self.clone()) } }
impl IntoSql for Real { open spec fn sql(&self) -> Sql { Sql::Real(*self) } #[verifier::external_body] fn into_sql(&self) -> (r: Sql) { unimplemented!() } }
impl IntoSql for Bytes { open spec fn sql(&self) -> Sql { Sql::Blob(*self) } #[verifier::external_body] fn into_sql(&self) -> (r: Sql) { unimplemented!() } }
pub open spec fn tag(t: ValueType) -> i32 { match t { ValueType::Ref => 0, ValueType::Boolean => 1, ValueType::Instant => 4, ValueType::Long => 5, ValueType::Double => 5, ValueType::String => 10, ValueType::Uuid => 11, ValueType::Keyword => 13 } }
pub open spec fn type_of(v: TypedValue) -> ValueType { match v { TypedValue::Ref(_) => ValueType::Ref, TypedValue::Boolean(_) => ValueType::Boolean, TypedValue::Instant(_) => ValueType::Instant, TypedValue::Long(_) => ValueType::Long,
    TypedValue::Double(_) => ValueType::Double, TypedValue::String(_) => ValueType::String, TypedValue::Uuid(_) => ValueType::Uuid, TypedValue::Keyword(_) => ValueType::Keyword } }
// s is what is stored for v.
pub open spec fn stores(v: TypedValue, s: Sql) -> bool { match v {
    TypedValue::Ref(x) => s == Sql::Integer(x), TypedValue::Long(x) => s == Sql::Integer(x),
    TypedValue::Boolean(b) => s == Sql::Integer(if b { 1 } else { 0 }),
    TypedValue::Instant(d) => s == Sql::Integer(micros(d) as i64) && in_range(micros(d)),
    TypedValue::Double(d) => s == Sql::Real(bits(d)),
    TypedValue::String(t) => s matches Sql::Text(x) && x@ == (*t)@,
    TypedValue::Keyword(k) => s matches Sql::Text(x) && x@ == printed(*k),
    TypedValue::Uuid(u) => s == Sql::Blob(of_uuid(u)) } }
pub open spec fn ok(v: TypedValue) -> bool { match v { TypedValue::Instant(d) => whole_micros(d), TypedValue::Keyword(k) => ok_keyword(*k), _ => true } }

pub open spec fn got(r: Result<TypedValue>) -> TypedValue { match r { Ok(v) => v, Err(_) => TypedValue::Boolean(false) } }
// Splitting printed keywords.
pub open spec fn sep(c: u8) -> bool { c == 0x3a || c == 0x2f }
pub open spec fn split(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else { let p = split(s.drop_last()); if sep(s.last()) { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) } } }
proof fn split_some(s: Seq<u8>) ensures split(s).len() > 0 decreases s.len() { if s.len() > 0 { split_some(s.drop_last()); } }
proof fn split_clean(a: Seq<u8>, b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> !sep(#[trigger] b[i])
    ensures split(a + b) =~= split(a).drop_last().push(split(a).last() + b) decreases b.len()
{ split_some(a); if b.len() > 0 { let c = b.drop_last(); split_clean(a, c); assert((a + b).drop_last() =~= a + c); assert((split(a).last() + c).push(b.last()) =~= split(a).last() + b); } else { assert(a + b =~= a); assert(split(a).last() + b =~= split(a).last()); } }
proof fn split_sep(a: Seq<u8>, c: u8) requires sep(c) ensures split(a.push(c)) == split(a).push(Seq::empty()) { assert(a.push(c).drop_last() =~= a); }
proof fn split_keyword(n: Seq<u8>, m: Seq<u8>) requires clean(n), clean(m) ensures split(seq![0x3au8] + n + seq![0x2fu8] + m) =~= seq![Seq::<u8>::empty(), n, m]
{
    let e = Seq::<u8>::empty(); assert(e.push(0x3a) =~= seq![0x3au8]); split_sep(e, 0x3a); assert(split(e) =~= seq![e]);
    let a = seq![0x3au8]; split_clean(a, n); let b = a + n; assert(e + n =~= n); assert(split(b) =~= seq![e, n]);
    split_sep(b, 0x2f); assert(b.push(0x2f) =~= b + seq![0x2fu8]); let c = b + seq![0x2fu8]; assert(split(c) =~= seq![e, n, e]); split_clean(c, m); assert(e + m =~= m);
}
#[verifier::external_body] pub struct Pieces { x: () }
impl Pieces { pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
  #[verifier::external_body] pub fn next<'a>(&'a mut self) -> (r: Option<Text>)
    ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
      old(self).rest().len() > 0 ==> r is Some && r.unwrap()@ == old(self).rest()[0] && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int) { unimplemented!() } }
#[verifier::external_body] pub fn split_keyword_text(s: &Text) -> (r: Pieces) ensures r.rest() == split(s@) { unimplemented!() }
// Two values that are stored alike under one tag are one value.
pub proof fn apart(v: TypedValue, w: TypedValue, s: Sql) requires ok(v), ok(w), stores(v, s), stores(w, s), tag(type_of(v)) == tag(type_of(w)) ensures v == w
{ match (v, w) {
    (TypedValue::Instant(a), TypedValue::Instant(b)) => { instant_of(a, b); }
    (TypedValue::Double(a), TypedValue::Double(b)) => { float_bits(a); float_bits(b); }
    (TypedValue::String(a), TypedValue::String(b)) => { text_ext(a, b); }
    (TypedValue::Uuid(a), TypedValue::Uuid(b)) => { uuid_bytes(a); uuid_bytes(b); }
    (TypedValue::Keyword(a), TypedValue::Keyword(b)) => { keyword_of(a, b); }
    _ => {} } }
proof fn instant_of(a: DateTime<Utc>, b: DateTime<Utc>) requires whole_micros(a), whole_micros(b), micros(a) == micros(b) ensures a == b
{ let x = a.nanos() / 1000; let y = b.nanos() / 1000; assert(0 <= x < 1_000_000 && 0 <= y < 1_000_000); assert(a.secs() == b.secs()) by (nonlinear_arith) requires a.secs() * 1_000_000 + x == b.secs() * 1_000_000 + y, 0 <= x < 1_000_000, 0 <= y < 1_000_000; instant_ext(a, b); }
proof fn keyword_of(a: ValueRc<Keyword>, b: ValueRc<Keyword>) requires ok_keyword(*a), ok_keyword(*b), printed(*a) == printed(*b) ensures a == b
{
    if a.ns() is Some { split_keyword(a.ns().unwrap(), a.nm()); } else { one(a.nm()); }
    if b.ns() is Some { split_keyword(b.ns().unwrap(), b.nm()); } else { one(b.nm()); }
    if a.ns() is Some && b.ns() is Some { let s = kw_split(a); assert(s[1] == a.ns().unwrap() && s[2] == a.nm()); assert(s[1] == b.ns().unwrap() && s[2] == b.nm()); }
    if a.ns() is None && b.ns() is None { let s = kw_split(a); assert(s[1] == a.nm()); assert(s[1] == b.nm()); }
    keyword_ext(a, b);
}
spec fn kw_split(a: ValueRc<Keyword>) -> Seq<Seq<u8>> { split(printed(*a)) }
proof fn one(m: Seq<u8>) requires clean(m) ensures split(seq![0x3au8] + m) =~= seq![Seq::<u8>::empty(), m]
{ let e = Seq::<u8>::empty(); assert(e.push(0x3a) =~= seq![0x3au8]); split_sep(e, 0x3a); split_clean(seq![0x3au8], m); assert(e + m =~= m); assert(split(e) =~= seq![e]); }
pub open spec fn of_a_value(s: Sql, t: i32) -> bool { exists|v: TypedValue| #![trigger ok(v)] ok(v) && stores(v, s) && t == tag(type_of(v)) }
"""


def build(u):
    db, lib, edn = u.src("db/src/db.rs"), u.src("db/src/lib.rs"), u.src("edn/src/types.rs")
    out = "use std::cmp::Ordering;\n" + T.errors(u) + T.text(u) + T.values(u).replace("ValueRc<String>", "ValueRc<Text>").replace("#[verifier::external_body] pub struct Utc", "#[verifier::external_body] #[derive(Copy, Clone)] pub struct Utc")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(u.src("core-traits/lib.rs"), "ValueType")
    u.assume("SQLite gives back the storage class and value it was given (no column affinity interferes); doubles are stored with their bits")
    u.assume("chrono: an instant is its seconds and nanoseconds; its seconds are at most 8.3e12 from 1970; leap seconds are not modelled")
    u.assume("a keyword's namespace and name contain neither ':' nor '/' (what the parser accepts); it is its parts; an opaque text is its bytes")
    out += SPEC.replace("ValueRc::new(self)", "arc(self)")
    out += "pub open spec fn arc<X>(x: X) -> ValueRc<X> { ValueRc::new(x) }\n"
    out = out.replace("pub open spec fn arc<X>(x: X) -> ValueRc<X> { ValueRc::new(x) }\n", "").replace("ensures r == TypedValue::Keyword(arc(self))", "ensures r matches TypedValue::Keyword(k) && *k == self").replace("ensures r == TypedValue::String(arc(self))", "ensures r matches TypedValue::String(t) && *t == self")

    f = edn.fn("from_micros", r"impl FromMicros for DateTime<Utc>").ret("r")
    f.sub(r"Utc\.timestamp\(", "utc_timestamp(", "chrono")
    f.sub(r"(\w+)\.(div|rem)_euclid\(([^()]*)\)", r"\2_euclid(\1, \3)", "Euclidean division", count=0, minimum=0)
    f.head = f.head.replace("Self", "DateTime<Utc>").replace("from_micros", "dt_from_micros")
    f.prologue("proof { assert(%(a)s as int == ((%(a)s as int) / 1_000_000) * 1_000_000 + (%(a)s as int) %% 1_000_000); }" % dict(a=re.search(r"(\w+): i64", f.head).group(1)))
    arg = re.search(r"(\w+): i64", f.head).group(1)
    out += u.emit(f, "requires in_range(%s as int) ensures micros(r) == %s, r.nanos() %% 1000 == 0, whole_micros(r)" % (arg, arg))
    f = edn.fn("to_micros", r"impl ToMicros for DateTime<Utc>").ret("r")
    out += "impl DateTime<Utc> {\n" + u.emit(f, "ensures r == micros(*self), in_range(r as int)") + "}\n"

    core = u.src("core-traits/lib.rs")
    f = core.fn("microsecond_precision", r"impl MicrosecondPrecision for DateTime<Utc>").ret("r")
    f.sub(r"self\.with_nanosecond\((\w+)\)\.expect\([^()]*\)", r"with_nanosecond(self, \1)", "chrono; a valid nanosecond gives an instant", minimum=0)
    out += "impl DateTime<Utc> {\n" + u.emit(f, "requires 0 <= self.nanos() < 1_000_000_000 ensures micros(r) == micros(self), r.nanos() % 1000 == 0, 0 <= r.nanos() < 1_000_000_000, r.secs() == self.secs()")
    f = core.fn("from", r"impl From<DateTime<Utc>> for TypedValue").ret("r")
    f.head = f.head.replace("fn from(", "fn typed_instant(")
    a = re.search(r"\((\w+):", f.head).group(1)
    out += u.emit(f, "requires 0 <= %s.nanos() < 1_000_000_000 ensures r matches TypedValue::Instant(w_) && micros(w_) == micros(%s) && w_.secs() == %s.secs() && w_.nanos() %% 1000 == 0" % (a, a, a)) + "}\n"

    f = lib.fn("to_namespaced_keyword").ret("r")
    m = re.search(r"let (\w+) = \[':', '/'\];", f.body)
    if not m:
        raise extract.LostAnchor("to_namespaced_keyword: the delimiters")
    f.sub(r"let \w+ = \[':', '/'\];", "", "the delimiters are part of split")
    f.sub(r"s\.split\(&%s\[\.\.\]\)" % m.group(1), "split_keyword_text(s)", "splitting at ':' and '/'")
    f.sub(r'\(Some\(""\), ', "(Some(first_), ", "a literal pattern as a guard")
    f.sub(r"None\) =>", "None) if first_.is_empty() =>", "a literal pattern as a guard")
    f.sub(r"symbols::", "", "paths", count=0, minimum=0)
    f.sub(r"Keyword::namespaced\((\w+), (\w+)\)", r"Keyword::namespaced(&\1, &\2)", "owned pieces", count=0, minimum=0)
    f.sub(r"(\w+)\.ok_or_else\(\|\| .*\)\s*\}\s*$", r"match \1 { Some(k) => Ok(k), None => Err(Error::new()) } }", "errors are opaque")
    f.head = f.head.replace("&str", "&Text").replace("symbols::", "")
    f.prologue("""proof { assert forall|k: Keyword| ok_keyword(k) && k.ns() is Some && printed(k) == s@ implies #[trigger] split(printed(k)) =~= seq![Seq::<u8>::empty(), k.ns().unwrap(), k.nm()] by { split_keyword(k.ns().unwrap(), k.nm()); } }""")
    out += u.emit(f, "requires exists|k: Keyword| #![trigger ok_keyword(k)] ok_keyword(k) && k.ns() is Some && printed(k) == s@ ensures forall|k: Keyword| #![trigger ok_keyword(k)] ok_keyword(k) && k.ns() is Some && printed(k) == s@ ==> (r matches Ok(w_) && w_.ns() == k.ns() && w_.nm() == k.nm())")

    W = r"impl TypedSQLValue for TypedValue"
    f = db.fn("to_sql_value_pair", W).ret("r")
    f.sub(r"\.into\(\)", ".into_sql()", "conversion to a stored value", count=0)
    f.sub(r"\bref (\w+)", r"\1", "matching by reference", count=0, minimum=0)
    f.sub(r"\.as_str\(\)|\.to_vec\(\)", "", "as_str, to_vec", count=0, minimum=0)
    f.head = f.head.replace("ToSqlOutput", "Sql")
    out += "impl TypedValue {\n" + u.emit(f, "requires ok(*self) ensures stores(*self, r.0), r.1 == tag(type_of(*self))")
    f = db.fn("from_sql_value_pair", W).ret("r")
    f.sub(r"rusqlite::types::Value::", "Sql::", "what is stored", count=0)
    f.head = f.head.replace("rusqlite::types::Value", "Sql")
    f.sub(r"DateTime::<Utc>::from_micros\(", "dt_from_micros(", "paths", minimum=0)
    f.sub(r"(\w+)\.as_slice\(\)\.try_into\(\)", r"sixteen(&\1)", "sixteen bytes", minimum=0)
    f.sub(r"strip_prefix\(':'\)", "strip_prefix(0x3a)", "an ASCII character", minimum=0)
    f.sub(r"contains\('/'\)", "contains(0x2f)", "an ASCII character", minimum=0)
    f.sub(r"edn::Keyword::", "Keyword::", "paths", count=0, minimum=0)
    f.sub(r"to_namespaced_keyword\(&(\w+)\)\.map\(\|(\w+)\| \2\.into\(\)\)", r"match to_namespaced_keyword(&\1) { Ok(k) => Ok(k.into()), Err(e) => Err(e) }", "map as the match it stands for", minimum=0)
    f.macro("bail", units.bail(), "errors are opaque")
    f.prologue("""proof { broadcast use {float_bits, uuid_bytes};
        assert forall|v: TypedValue| #![trigger ok(v)] ok(v) && stores(v, value) && value_type_tag == tag(type_of(v)) implies match (v, value) {
            (TypedValue::Keyword(k), Sql::Text(t)) => ok_keyword(*k) && (k.ns() is None ==> t@.subrange(1, t@.len() as int) =~= k.nm() && !k.nm().contains(0x2f)) && (k.ns() is Some ==> t@.subrange(1, t@.len() as int).contains(0x2f)),
            _ => true } by {
          match (v, value) { (TypedValue::Keyword(k), Sql::Text(t)) => { if k.ns() is Some { let n = k.ns().unwrap(); assert(t@.subrange(1, t@.len() as int)[n.len() as int] == 0x2f); } } _ => {} } }
      }""")
    # What comes out is what went in: by the values that could have been stored.
    f.body = "{ let ghost s0 = value; let r_ = " + f.body + ";" + """
      proof { broadcast use {float_bits, uuid_bytes};
        assert forall|v: TypedValue| #![trigger ok(v)] ok(v) && stores(v, s0) && value_type_tag == tag(type_of(v)) implies (r_ matches Ok(w_) && w_ == v) by {
          match (v, got(r_)) {
            (TypedValue::Instant(a), TypedValue::Instant(b)) => { instant_of(a, b); }
            (TypedValue::String(a), TypedValue::String(b)) => { text_ext(a, b); }
            (TypedValue::Keyword(a), TypedValue::Keyword(b)) => { if a.ns() is Some { assert(b.ns() == a.ns()); } keyword_ext(a, b); }
            _ => {} } } }
      r_ }"""
    f.body = f.body.replace("return Err(Error::new())", "Err(Error::new())")
    out += u.emit(f, "requires of_a_value(value, value_type_tag) ensures forall|v: TypedValue| #![trigger ok(v)] ok(v) && stores(v, value) && value_type_tag == tag(type_of(v)) ==> (r matches Ok(w_) && w_ == v)")
    out += "}\n"

    # The tag and storage class by which queries tell types apart.
    st = u.src("core/src/sql_types.rs")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(st, "SQLTypeAffinity") + "pub type ValueTypeTag = i32;\n"
    f = st.fn("sql_representation", r"impl SQLValueType for ValueType").ret("r")
    out += "impl ValueType {\n" + u.emit(f, """ensures r.0 == tag(*self),
        r.1 is None ==> forall|t: ValueType| #[trigger] tag(t) == tag(*self) ==> t == *self,
        *self is Long ==> r.1 == Some(SQLTypeAffinity::Integer), *self is Double ==> r.1 == Some(SQLTypeAffinity::Real)""") + "}\n"
    return out
