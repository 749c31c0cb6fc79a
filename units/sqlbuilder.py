"""C16: values reach SQL as literals of numbers or as parameters bound to exactly them (sql/src/lib.rs)."""
import re
import units, extract
T = units.load("types")


def common(f):
    f.sub(r"self\.arg_prefix\.as_str\(\)", "&self.arg_prefix", "as_str", count=0, minimum=0)
    f.sub(r"\b(\w+)\.as_str\(\)", r"&\1", "as_str", count=0, minimum=0)
    f.sub(r"rusqlite::types::Value::", "Bound::", "what a parameter is bound to", count=0, minimum=0)
    f.sub(r"Rc::new\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)", r"\1", "Rc is transparent", count=0, minimum=0)
    f.sub(r"Rc<Bound>|Rc<rusqlite::types::Value>", "Bound", "Rc is transparent", count=0, minimum=0)
    f.subhead(r"Rc<rusqlite::types::Value>", "Bound", "Rc is transparent") if "Rc<" in f.head else None
    f.head = f.head.replace("&str", "&Text").replace("-> String", "-> Text").replace("String)", "Text)")
    return f


def build(u):
    s = u.src("sql/src/lib.rs")
    out = "use std::cmp::Ordering;\n" + T.errors(u) + T.text(u, ["decimal_injective"]) + T.values(u).replace("ValueRc<String>", "ValueRc<Text>").replace("Keyword(ValueRc<Keyword>)", "Keyword(ValueRc<Keyword>)") + T.collections(u, ["HashMap"])
    u.assume("integers print as decimal text that is different for different integers and has no NUL, quote or letter; SQLite reads them back as those integers")
    u.assume("SQLite reads the scientific notation of a double below 1e12 with at most three decimals as that double")
    u.assume("Rc and Arc are transparent; a UUID is its 16 bytes; a keyword prints as the text it is stored as")
    out += """
pub mod dec { use vstd::prelude::*;
pub uninterp spec fn decimal(n: int) -> Seq<u8>;
pub broadcast axiom fn decimal_injective(a: int, b: int) ensures #[trigger] decimal(a) == #[trigger] decimal(b) ==> a == b;
}
pub use dec::*;
pub uninterp spec fn exp(d: OrderedFloat<f64>) -> Seq<u8>;
pub uninterp spec fn short(d: OrderedFloat<f64>) -> bool;
pub uninterp spec fn micros(i: DateTime<Utc>) -> int;
pub uninterp spec fn uuid_bytes(u: Uuid) -> Bytes;
pub uninterp spec fn printed(k: Keyword) -> Seq<u8>;
#[verifier::external_body] pub struct Bytes { x: () }
impl Bytes { #[verifier::external_body] pub fn dup(&self) -> (r: Bytes) ensures r == *self { unimplemented!() } }
impl Uuid { #[verifier::external_body] pub fn as_bytes(&self) -> (r: &Bytes) ensures *r == uuid_bytes(*self) { unimplemented!() } }
impl Keyword { #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r@ == printed(*self) { unimplemented!() } }
impl DateTime<Utc> { #[verifier::external_body] pub fn to_micros(&self) -> (r: i64) ensures r == micros(*self) { unimplemented!() } }
#[verifier::external_body] pub fn num_text(n: i64) -> (r: Text) ensures r@ == decimal(n as int) { unimplemented!() }
#[verifier::external_body] pub fn exp_text(d: &OrderedFloat<f64>) -> (r: Text) ensures r@ == exp(*d) { unimplemented!() }
#[verifier::external_body] pub fn reads_exactly(d: &OrderedFloat<f64>) -> (r: bool) ensures r == short(*d) { unimplemented!() }
#[verifier::external_body] pub fn text_of(t: &ValueRc<Text>) -> (r: Text) ensures r@ == (**t)@ { unimplemented!() }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn text_copied(t: Option<&Text>) -> (r: Option<Text>) ensures r == (match t { Some(x) => Some(*x), None => None }) { unimplemented!() }
pub enum Bound { Real(OrderedFloat<f64>), Text(Text), Blob(Bytes) }
impl Bound { #[verifier::external_body] pub fn real(d: &OrderedFloat<f64>) -> (r: Bound) ensures r == Bound::Real(*d) { unimplemented!() } }
pub enum Meant { Real(OrderedFloat<f64>), Text(Seq<u8>), Blob(Bytes) }
pub open spec fn meant(b: Bound) -> Meant { match b { Bound::Real(d) => Meant::Real(d), Bound::Text(t) => Meant::Text(t@), Bound::Blob(b) => Meant::Blob(b) } }
"""
    out += u.struct(s, "SQLiteQueryBuilder").replace("Rc<rusqlite::types::Value>", "Bound").replace("Vec<u8>, String", "Bytes, Text").replace("ValueRc<String>, String", "ValueRc<Text>, Text").replace("String", "Text")
    out += u.struct(s, "SQLQuery").replace("Rc<rusqlite::types::Value>", "Bound").replace("String", "Text")
    out += """
pub type B = SQLiteQueryBuilder;
pub open spec fn gen_name(b: B, i: int) -> Seq<u8> { b.arg_prefix@ + decimal(i) }
pub open spec fn in_args(a: Seq<(Text, Bound)>, n: Seq<u8>, v: Meant) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == n && meant(a[i].1) == v }
pub open spec fn in_strings(b: Map<ValueRc<Text>, Text>, n: Seq<u8>, v: Meant) -> bool { exists|k: ValueRc<Text>| #[trigger] b.contains_key(k) && b[k]@ == n && v == Meant::Text((*k)@) }
pub open spec fn in_bytes(b: Map<Bytes, Text>, n: Seq<u8>, v: Meant) -> bool { exists|k: Bytes| #[trigger] b.contains_key(k) && b[k]@ == n && v == Meant::Blob(k) }
// The parameter n is bound to v.
pub open spec fn binds(b: B, n: Seq<u8>, v: Meant) -> bool { in_args(b.args@, n, v) || in_strings(b.string_args@, n, v) || in_bytes(b.byte_args@, n, v) }
pub open spec fn taken(b: B, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < b.arg_counter && n == #[trigger] gen_name(b, i) }
// Every bound parameter has a generated name already given out, and only one value.
pub open spec fn inv(b: B) -> bool {
    &&& b.arg_counter >= 0
    &&& forall|n: Seq<u8>, v: Meant| #[trigger] binds(b, n, v) ==> taken(b, n)
    &&& forall|n: Seq<u8>, v: Meant, w: Meant| #![trigger binds(b, n, v), binds(b, n, w)] binds(b, n, v) && binds(b, n, w) ==> v == w
}
pub open spec fn keeps(a: B, b: B) -> bool { forall|n: Seq<u8>, v: Meant| binds(a, n, v) ==> #[trigger] binds(b, n, v) }
// What is written for a value: digits that stand for it, or a parameter bound to it.
pub open spec fn stands_for(b: B, t: Seq<u8>, v: TypedValue) -> bool { match v {
    TypedValue::Ref(e) => t == decimal(e as int),
    TypedValue::Boolean(x) => t == decimal(if x { 1 } else { 0 }),
    TypedValue::Long(x) => t == decimal(x as int),
    TypedValue::Double(d) => (short(d) && t == exp(d)) || binds(b, t, Meant::Real(d)),
    TypedValue::Instant(i) => t == decimal(micros(i)),
    TypedValue::String(s) => binds(b, t, Meant::Text((*s)@)),
    TypedValue::Keyword(k) => binds(b, t, Meant::Text(printed(*k))),
    TypedValue::Uuid(x) => binds(b, t, Meant::Blob(uuid_bytes(x))),
} }
pub open spec fn is_string(e: (ValueRc<Text>, Text), o: (Text, Bound)) -> bool { o.0 == e.1 && meant(o.1) == Meant::Text((*e.0)@) }
pub open spec fn is_bytes(e: (Bytes, Text), o: (Text, Bound)) -> bool { o.0 == e.1 && meant(o.1) == Meant::Blob(e.0) }
pub open spec fn strings_listed(m: Map<ValueRc<Text>, Text>, s: Seq<(Text, Bound)>) -> bool { exists|all: Seq<(ValueRc<Text>, Text)>| #![trigger entries_of(m, all)] entries_of(m, all) && all.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> #[trigger] is_string(all[j], s[j]) }
pub open spec fn bytes_listed(m: Map<Bytes, Text>, s: Seq<(Text, Bound)>) -> bool { exists|all: Seq<(Bytes, Text)>| #![trigger entries_of(m, all)] entries_of(m, all) && all.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> #[trigger] is_bytes(all[j], s[j]) }
proof fn finished(a: Seq<(Text, Bound)>, ms: Map<ValueRc<Text>, Text>, mb: Map<Bytes, Text>, ss: Seq<(Text, Bound)>, bb: Seq<(Text, Bound)>, all: Seq<(Text, Bound)>)
    requires strings_listed(ms, ss), bytes_listed(mb, bb), all =~= a + ss + bb
    ensures forall|n: Seq<u8>, v: Meant| #[trigger] in_args(all, n, v) <==> in_args(a, n, v) || in_strings(ms, n, v) || in_bytes(mb, n, v)
{
    let es = choose|es: Seq<(ValueRc<Text>, Text)>| #![trigger entries_of(ms, es)] entries_of(ms, es) && es.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> #[trigger] is_string(es[j], ss[j]);
    let eb = choose|eb: Seq<(Bytes, Text)>| #![trigger entries_of(mb, eb)] entries_of(mb, eb) && eb.len() == bb.len() && forall|j: int| 0 <= j < bb.len() ==> #[trigger] is_bytes(eb[j], bb[j]);
    assert forall|n: Seq<u8>, v: Meant| #[trigger] in_args(all, n, v) <==> in_args(a, n, v) || in_strings(ms, n, v) || in_bytes(mb, n, v) by {
        if in_args(all, n, v) { let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0@ == n && meant(all[i].1) == v;
            if i < a.len() { assert(a[i] == all[i]); }
            else if i < a.len() + ss.len() { let j = i - a.len(); assert(is_string(es[j], ss[j])); assert(ms.contains_key(es[j].0)); }
            else { let j = i - a.len() - ss.len(); assert(is_bytes(eb[j], bb[j])); assert(mb.contains_key(eb[j].0)); } }
        if in_args(a, n, v) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == n && meant(a[i].1) == v; assert(a[i] == all[i]); }
        if in_strings(ms, n, v) { let k = choose|k: ValueRc<Text>| #[trigger] ms.contains_key(k) && ms[k]@ == n && v == Meant::Text((*k)@);
            let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 == k; assert(is_string(es[j], ss[j])); assert(all[a.len() + j] == ss[j]); }
        if in_bytes(mb, n, v) { let k = choose|k: Bytes| #[trigger] mb.contains_key(k) && mb[k]@ == n && v == Meant::Blob(k);
            let j = choose|j: int| 0 <= j < eb.len() && (#[trigger] eb[j]).0 == k; assert(is_bytes(eb[j], bb[j])); assert(all[a.len() + ss.len() + j] == bb[j]); }
    }
}
#[verifier::external_body] pub fn sort_args(a: &mut Vec<(Text, Bound)>) ensures forall|n: Seq<u8>, v: Meant| #[trigger] in_args(final(a)@, n, v) <==> in_args(old(a)@, n, v) { unimplemented!() }
// Doubling the quotes inside, and reading such an identifier back.
pub open spec fn doubled(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { s } else if s[0] == 0x60 { seq![0x60u8, 0x60u8] + doubled(s.subrange(1, s.len() as int)) } else { seq![s[0]] + doubled(s.subrange(1, s.len() as int)) } }
pub open spec fn quoted_reads(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { None } else if s[0] != 0x60 { match quoted_reads(s.subrange(1, s.len() as int)) { Some(r) => Some(seq![s[0]] + r), None => None } }
    else if s.len() > 1 && s[1] == 0x60 { match quoted_reads(s.subrange(2, s.len() as int)) { Some(r) => Some(seq![0x60u8] + r), None => None } }
    else if s.len() == 1 { Some(Seq::empty()) } else { None } }
proof fn reads_back(s: Seq<u8>, k: int) ensures quoted_reads(doubled(s).push(0x60)) == Some(s) decreases s.len()
{
    reveal_with_fuel(quoted_reads, 3); reveal_with_fuel(doubled, 3);
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        reads_back(t, k);
        let d = doubled(s).push(0x60);
        if s[0] == 0x60 { assert(d.subrange(2, d.len() as int) =~= doubled(t).push(0x60)); assert(seq![0x60u8] + t =~= s); }
        else { assert(d.subrange(1, d.len() as int) =~= doubled(t).push(0x60)); assert(seq![s[0]] + t =~= s); }
    } else { assert(doubled(s).push(0x60) =~= seq![0x60u8]); assert(s =~= Seq::empty()); }
}
#[verifier::external_body] pub fn doubled_text(s: &Text) -> (r: Text) ensures r@ == doubled(s@) { unimplemented!() }
#[verifier::external_body] pub fn backtick() -> (r: Text) ensures r@ == seq![0x60u8] { unimplemented!() }
pub uninterp spec fn plain(s: Seq<u8>) -> bool;
pub uninterp spec fn numeric(s: Seq<u8>) -> bool;
pub axiom fn decimal_numeric(i: int) requires i >= 0 ensures numeric(decimal(i)), decimal(i).len() > 0;
#[verifier::external_body] pub fn plain_text(s: &Text) -> (r: bool) ensures r == plain(s@) { unimplemented!() }
#[verifier::external_body] pub fn numeric_text(s: &Text) -> (r: bool) ensures r == numeric(s@) { unimplemented!() }
#[verifier::external_body] pub fn dollar(s: &Text) -> (r: Text) ensures r@ == seq![0x24u8] + s@ { unimplemented!() }
impl Text { #[verifier::external_body] pub fn starts_with_text(&self, p: &Text) -> (r: bool) ensures r == (p@.len() <= self@.len() && self@.subrange(0, p@.len() as int) == p@) { unimplemented!() } }
pub open spec fn quiet(a: B, b: B) -> bool { a.args == b.args && a.string_args == b.string_args && a.byte_args == b.byte_args && a.arg_prefix == b.arg_prefix }
// A new name is no other's.
proof fn fresh(b: B, n: Seq<u8>, v: Meant) requires inv(b), n == gen_name(b, b.arg_counter as int) ensures !binds(b, n, v)
{ if binds(b, n, v) { let i = choose|i: int| 0 <= i < b.arg_counter && n == #[trigger] gen_name(b, i);
    assert(n.subrange(b.arg_prefix@.len() as int, n.len() as int) =~= decimal(i)); assert(n.subrange(b.arg_prefix@.len() as int, n.len() as int) =~= decimal(b.arg_counter as int)); } }
// Binding a fresh name to one more value keeps the invariant.
proof fn one_more(a: B, b: B, n: Seq<u8>, w: Meant)
    requires inv(a), n == gen_name(a, a.arg_counter as int), b.arg_counter == a.arg_counter + 1, b.arg_prefix == a.arg_prefix,
        forall|m: Seq<u8>, v: Meant| #[trigger] binds(b, m, v) <==> binds(a, m, v) || (m == n && v == w)
    ensures inv(b), keeps(a, b), binds(b, n, w)
{
    assert(binds(b, n, w));
    assert forall|m: Seq<u8>, v: Meant| #[trigger] binds(b, m, v) implies taken(b, m) by {
        if binds(a, m, v) { let i = choose|i: int| 0 <= i < a.arg_counter && m == #[trigger] gen_name(a, i); assert(m == gen_name(b, i)); } else { assert(m == gen_name(b, a.arg_counter as int)); } }
    assert forall|m: Seq<u8>, v: Meant, x: Meant| #![trigger binds(b, m, v), binds(b, m, x)] binds(b, m, v) && binds(b, m, x) implies v == x by { fresh(a, n, v); fresh(a, n, x); }
}
// A new name given out and not bound yet.
proof fn counted(a: B, b: B) requires inv(a), quiet(a, b), a.arg_counter <= b.arg_counter ensures inv(b), keeps(a, b)
{ assert forall|n: Seq<u8>, v: Meant| #[trigger] binds(b, n, v) == binds(a, n, v) by {}
  assert forall|m: Seq<u8>, v: Meant| #[trigger] binds(b, m, v) implies taken(b, m) by { assert(binds(a, m, v)); let i = choose|i: int| 0 <= i < a.arg_counter && m == #[trigger] gen_name(a, i); assert(m == gen_name(b, i)); } }
"""
    B = "impl SQLiteQueryBuilder {\n"
    W, Q = r"impl SQLiteQueryBuilder\b", r"impl QueryBuilder for SQLiteQueryBuilder"
    few = "old(self).arg_counter < i64::MAX"
    f = common(s.fn("with_prefix", W).ret("r"))
    f.sub(r"String::", "Text::", "the text type")
    f.sub(r"vec!\[\]", "Vec::new()", "the empty vector")
    f.sub(r"HashMap::default\(\)", "HashMap::new()", "the empty map", count=0)
    f.head = f.head.replace("String", "Text").replace("Self", "B")
    B += u.emit(f, "ensures inv(r), r.sql@ == Seq::<u8>::empty(), r.arg_prefix == prefix")
    f = common(s.fn("next_argument_name", W).ret("r"))
    f.macro("format", lambda a: "joined(&%s, &num_text(%s))" % tuple(x.strip() for x in a.split(",")[1:]) if a.split(",")[0].strip() == '"{}{}"' else "unknown(%s)" % a, 'format!("{}{}", text, number)')
    B += u.emit(f, "requires 0 <= old(self).arg_counter < i64::MAX ensures r@ == gen_name(*old(self), old(self).arg_counter as int), quiet(*old(self), *final(self)), final(self).sql == old(self).sql, final(self).arg_counter == old(self).arg_counter + 1")
    f = common(s.fn("push_sql", Q))
    B += u.emit(f, "ensures final(self).sql@ == old(self).sql@ + %s@, quiet(*old(self), *final(self)), final(self).arg_counter == old(self).arg_counter" % re.search(r"(\w+): &Text", f.head).group(1))
    f = common(s.fn("push_named_arg", W))
    B += u.emit(f, "ensures final(self).sql@ == old(self).sql@ + %s@, quiet(*old(self), *final(self)), final(self).arg_counter == old(self).arg_counter" % re.search(r"(\w+): &Text", f.head).group(1))
    f = common(s.fn("push_static_arg", W))
    v = re.search(r"(\w+): Bound", f.head).group(1)
    f.prologue("let ghost val0 = %s;" % v)
    i = f.body.rindex("}")
    f.body = f.body[:i] + """
        proof { let n = gen_name(*old(self), old(self).arg_counter as int); let a = old(self).args@; let c = self.args@;
          assert(c[a.len() as int].0@ == n);
          assert forall|m: Seq<u8>, v: Meant| #[trigger] in_args(c, m, v) <==> in_args(a, m, v) || (m == n && v == meant(val0)) by {
            if in_args(a, m, v) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == m && meant(a[i].1) == v; assert(c[i] == a[i]); }
            if in_args(c, m, v) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0@ == m && meant(c[i].1) == v; if i < a.len() { assert(c[i] == a[i]); } }
          }
          assert forall|m: Seq<u8>, v: Meant| #[trigger] binds(*self, m, v) <==> binds(*old(self), m, v) || (m == n && v == meant(val0)) by { assert(in_args(c, m, v) <==> in_args(a, m, v) || (m == n && v == meant(val0))); }
          one_more(*old(self), *self, n, meant(val0));
          assert(self.sql@.subrange(old(self).sql@.len() as int, self.sql@.len() as int) =~= n); }
    """ + f.body[i:]
    B += u.emit(f, """requires inv(*old(self)), %s ensures inv(*final(self)), keeps(*old(self), *final(self)), final(self).sql@.len() >= old(self).sql@.len(),
        final(self).sql@.subrange(0, old(self).sql@.len() as int) =~= old(self).sql@,
        binds(*final(self), final(self).sql@.subrange(old(self).sql@.len() as int, final(self).sql@.len() as int), meant(%s))""" % (few, v))
    f = s.fn("push_typed_value", Q).ret("r")
    cond = re.search(r"let plain = (\w+)\.to_string\(\);\s*let decimals = plain\s*\.find\('\.'\)\s*\.map_or\(0, \|point\| plain\.len\(\) - point - 1\);\s*if \1\.abs\(\) < 1e12 && decimals <= 3 \{", f.body)
    if not cond:
        raise extract.LostAnchor("push_typed_value: which doubles are written as literals")
    f.body = f.body[:cond.start()] + "if reads_exactly(%s) {" % cond.group(1) + f.body[cond.end():]
    f.rewrites.append("push_typed_value: the condition on doubles, exactly as reviewed, is the predicate reads_exactly")
    f.sub(r"use crate::TypedValue::\*;", "", "names in full", minimum=0)
    f.sub(r"\bref (\w+)", r"\1", "matching by reference", count=0, minimum=0)
    f.sub(r"OrderedFloat\((\w+)\)", r"\1", "OrderedFloat is opaque")
    f.sub(r"Value::Real\(\*(\w+)\)", r"Value::real(\1)", "OrderedFloat is opaque", count=0, minimum=0)
    f.sub(r'if \*(\w+) \{ "(\d)" \} else \{ "(\d)" \}', r"&num_text(if *\1 { \2 } else { \3 })", "digits", minimum=0)
    f.sub(r"(\w+)\.to_string\(\)\.as_str\(\)", r"&num_text(*\1)", "digits", count=0, minimum=0)
    f.macro("format", lambda a: {'"{:e}"': "exp_text(%s)", '"{}"': "num_text(%s)"}.get(a.split(",")[0].strip(), "unknown(%s)") % a.split(",", 1)[1].strip(), "numbers printed")
    f.sub(r"(num_text|exp_text)(\((?:[^()]|\([^()]*\))*\))\.as_str\(\)", r"&\1\2", "as_str", count=0, minimum=0)
    f.sub(r"(self\.\w+\.get\(\w+(?:\.as_ref\(\))?\))\.cloned\(\)", r"text_copied(\1)", "cloned", count=0, minimum=0)
    f.sub(r"bytes\.as_ref\(\)", "bytes", "as_ref", count=0, minimum=0)
    f.sub(r"\.clone\(\)\s*\.to_vec\(\)", ".dup()", "the bytes", count=0, minimum=0)
    f.sub(r"(\w+)\.as_ref\(\)\.to_string\(\)", r"\1.to_string()", "as_ref", count=0, minimum=0)
    f = common(f)
    for k in ["Ref", "Boolean", "Long", "Double", "Instant", "Uuid", "String", "Keyword"]:
        f.sub(r"(?<![:\w])%s\((\w+)\) =>" % k, r"TypedValue::%s(\1) =>" % k, "names in full", minimum=0)
    f.head = f.head.replace("BuildQueryResult", "Result<()>")
    f.prologue("let ghost b0 = *self;")
    # After an insertion into one of the maps: what is bound.
    def insertion(field, member, ktype, w, val, key):
        f.sub(r"(self\.%s\s*\.insert\((?:[^;]*)\);)" % field, (r"""proof { counted(b0, *self); } let ghost key = %s; \1
            proof { let n = gen_name(b0, b0.arg_counter as int); let w = %s;
              assert forall|m: Seq<u8>, v: Meant| #[trigger] %s(self.%s@, m, v) <==> %s(b0.%s@, m, v) || (m == n && v == w) by {
                if %s(b0.%s@, m, v) { let k = choose|k: %s| #[trigger] b0.%s@.contains_key(k) && b0.%s@[k]@ == m && v == %s; assert(self.%s@.contains_key(k)); }
                if m == n && v == w { assert(self.%s@.contains_key(key)); }
                if %s(self.%s@, m, v) { let k = choose|k: %s| #[trigger] self.%s@.contains_key(k) && self.%s@[k]@ == m && v == %s; if k != key { assert(b0.%s@.contains_key(k)); } } }
              assert forall|m: Seq<u8>, v: Meant| #[trigger] binds(*self, m, v) <==> binds(b0, m, v) || (m == n && v == w) by { assert(%s(self.%s@, m, v) <==> %s(b0.%s@, m, v) || (m == n && v == w)); }
              one_more(b0, *self, n, w); }""" % (key, w, member, field, member, field, member, field, ktype, field, field, val, field, field, member, field, ktype, field, field, val, field, member, field, member, field)), "proof of what is bound then", minimum=0)
    insertion("byte_args", "in_bytes", "Bytes", "Meant::Blob(key)", "Meant::Blob(k)", "*bytes")
    insertion("string_args", "in_strings", "ValueRc<Text>", "Meant::Text((*key)@)", "Meant::Text((*k)@)", "*s")
    i = f.body.rindex("Ok(())")
    f.body = f.body[:i] + """proof { if quiet(b0, *self) && b0.arg_counter <= self.arg_counter { counted(b0, *self); }
        let t = self.sql@.subrange(b0.sql@.len() as int, self.sql@.len() as int);
        match value { TypedValue::Ref(e) => { assert(t =~= decimal(*e as int)); } TypedValue::Long(e) => { assert(t =~= decimal(*e as int)); } TypedValue::Boolean(e) => { assert(t =~= decimal(if *e { 1 } else { 0 })); }
          TypedValue::Instant(i) => { assert(t =~= decimal(micros(*i))); } TypedValue::Double(d) => { if short(*d) { assert(t =~= exp(*d)); } }
          TypedValue::Uuid(x) => { let k = uuid_bytes(*x);
              if b0.byte_args@.contains_key(k) { assert(t =~= b0.byte_args@[k]@); assert(self.byte_args@.contains_key(k)); assert(in_bytes(self.byte_args@, t, Meant::Blob(k))); } else { assert(t =~= gen_name(b0, b0.arg_counter as int)); } }
          TypedValue::String(s) => {
              if b0.string_args@.contains_key(*s) { assert(t =~= b0.string_args@[*s]@); assert(self.string_args@.contains_key(*s)); assert(in_strings(self.string_args@, t, Meant::Text((**s)@))); } else { assert(t =~= gen_name(b0, b0.arg_counter as int)); } }
          _ => {} } }
    """ + f.body[i:]
    B += u.emit(f, """requires inv(*old(self)), %s ensures inv(*final(self)), keeps(*old(self), *final(self)), final(self).sql@.len() >= old(self).sql@.len(),
        final(self).sql@.subrange(0, old(self).sql@.len() as int) =~= old(self).sql@,
        stands_for(*final(self), final(self).sql@.subrange(old(self).sql@.len() as int, final(self).sql@.len() as int), *value)""" % few)
    # Identifiers: quoted, with the quotes inside doubled.
    f = common(s.fn("push_identifier", Q).ret("r"))
    f.head = f.head.replace("BuildQueryResult", "Result<()>")
    f.sub(r'&(\w+)\.replace\("`", "``"\)', r"&doubled_text(\1)", "every backtick doubled", minimum=0)
    f.sub(r'push_sql\("`"\)', "push_sql(&backtick())", "a literal", count=0)
    ident = re.search(r"(\w+): &Text", f.head).group(1)
    i = f.body.rindex("Ok(())")
    f.body = f.body[:i] + "proof { reads_back(%s@, 0); assert(self.sql@ =~= old(self).sql@ + (seq![0x60u8] + doubled(%s@)).push(0x60)); } " % (ident, ident) + f.body[i:]
    B += u.emit(f, "ensures final(self).sql@ =~= old(self).sql@ + (seq![0x60u8] + doubled(%s@)).push(0x60), quoted_reads(doubled(%s@).push(0x60)) == Some(%s@), quiet(*old(self), *final(self)), final(self).arg_counter == old(self).arg_counter" % (ident, ident, ident))
    # Named parameters: none that could be a generated one.
    f = s.fn("push_bind_param", Q).ret("r")
    f.sub(r"(\w+)\.chars\(\)\s*\.all\(\|c\| (?:char::is_alphanumeric\(c\)|c\.is_alphanumeric\(\)) \|\| c == '_'\)", r"plain_text(\1)", "only letters, digits and _")
    f.sub(r"(\w+)\.chars\(\)\s*\.all\(char::is_numeric\)", r"numeric_text(\1)", "only digits", minimum=0)
    f.macro("format", lambda a: "dollar(%s)" % a.split(",")[1].strip() if a.split(",")[0].strip() == '"${}"' else "unknown(%s)" % a, "a dollar sign in front")
    f.sub(r"(\w+)\.starts_with\(([^;{]*?)\) \{", r"\1.starts_with_text(\2) {", "a prefix", minimum=0)
    f.sub(r"&(\w+)\[((?:(?!\.\.)[^\]])+)\.\.\]", r"\1.slice(\2, \1.len())", "a string slice", count=0, minimum=0)
    f.sub(r"Err\(SQLError::\w+\((?:[^()]|\([^()]*\))*\)\)", "Err(Error::new())", "errors are opaque", count=0)
    f = common(f)
    f.head = f.head.replace("BuildQueryResult", "Result<()>")
    nm = re.search(r"(\w+): &Text", f.head).group(1)
    i = f.body.rindex("Ok(())")
    f.body = f.body[:i] + """proof { let p = seq![0x24u8] + %s@; assert(self.sql@.subrange(old(self).sql@.len() as int, self.sql@.len() as int) =~= p);
        assert forall|i: int| 0 <= i implies p != #[trigger] gen_name(*old(self), i) by { decimal_numeric(i); let q = self.arg_prefix@; if p == q + decimal(i) { assert(p.subrange(0, q.len() as int) =~= q); assert(p.subrange(q.len() as int, p.len() as int) =~= decimal(i)); } } }
    """ % nm + f.body[i:]
    B += u.emit(f, """ensures quiet(*old(self), *final(self)), final(self).arg_counter == old(self).arg_counter,
        r is Err ==> final(self).sql@ == old(self).sql@,
        r is Ok ==> plain(%s@) && final(self).sql@ =~= old(self).sql@ + (seq![0x24u8] + %s@) && forall|i: int| 0 <= i ==> seq![0x24u8] + %s@ != #[trigger] gen_name(*old(self), i)""" % (nm, nm, nm))
    # The arguments handed over: what the parameters are bound to, each once.
    f = common(s.fn("finish", Q).ret("r"))
    def entries(field, con, conv):
        pat = r"self\s*\.%s\s*\.into_iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\|\s*(.*?)\);(?=\s*(?:let|args))" % field
        h = re.search(pat, f.body, re.S)
        if not h:
            raise extract.LostAnchor("finish: how %s become arguments" % field)
        val, arg, body = h.group(1), h.group(2), h.group(3).strip()
        loop = """{ let all = self.%s.into_entries(); let ghost all0 = all@; let mut out: Vec<(Text, Bound)> = Vec::new();
          for e in it: all invariant it.seq() == all0, out@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> #[trigger] %s(all0[j], out@[j]), { let (%s, %s) = e; let made = %s; out.push(made); }
          out };""" % (field, con, val, arg, body)
        f.body = f.body[:h.start()] + loop + f.body[h.end():]
        f.rewrites.append("finish: into_iter().map() over %s as the loop it stands for" % field)
    f.sub(r"\bval\.as_ref\(\)\.clone\(\)", "text_of(&val)", "the text behind the Rc", minimum=0)
    entries("string_args", "is_string", None)
    entries("byte_args", "is_bytes", None)
    f.sub(r"let (string_args|byte_args) =", r"let mut \1 =", "extend empties it", count=2, minimum=2)
    f.sub(r"args\.extend\((\w+)\);", r"args.append(&mut \1);", "extend", count=0)
    f.sub(r"let mut args = self\.args;", "let mut args = self.args; let ghost a0 = args@;", "ghost")
    f.sub(r"args\.sort_by\(\|&\(ref k1, _\), &\(ref k2, _\)\| k1\.cmp\(k2\)\);", "proof { finished(self.args@, self.string_args@, self.byte_args@, ss, bb, args@); } sort_args(&mut args);", "sorting only reorders")
    f.sub(r"args\.append\(&mut string_args\);", "let ghost ss = string_args@; let ghost bb = byte_args@; args.append(&mut string_args);", "ghost")
    B += u.emit(f, "requires inv(self) ensures r.sql == self.sql, forall|n: Seq<u8>, v: Meant| #[trigger] in_args(r.args@, n, v) <==> binds(self, n, v)")
    return out + B + "}\n"
