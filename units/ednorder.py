"""C20: the order of EDN values (edn/src/types.rs, the macro both Value and SpannedValue use)."""
import re
import units, extract
T = units.load("types")


def macro_body(s, name):
    h = re.search(r"macro_rules!\s*%s\s*\{" % name, s.m)
    if not h:
        raise extract.LostAnchor("no macro " + name)
    e = extract.close_of(s.m, h.end() - 1)
    t = s.text[h.end():e]
    m = re.match(r"\s*\(([^)]*)\)\s*=>\s*\{(.*)\}\s*;?\s*$", t, re.S)
    if not m:
        raise extract.LostAnchor("macro %s has not one rule" % name)
    return m.group(1), m.group(2)


KINDS = ["Boolean", "Integer", "Instant", "BigInteger", "Float", "Text", "Uuid", "PlainSymbol", "NamespacedSymbol", "Keyword", "Vector", "List", "Set", "Map"]


def build(u):
    s = u.src("edn/src/types.rs")
    u.assume("each payload type's own Ord is a total order that agrees with its equality (numbers, text, OrderedFloat, DateTime, and the collections given that their elements' is)")
    s.derives("Value", ["PartialEq", "Eq", "Hash"])
    s.derives("SpannedValue", ["PartialEq", "Eq", "Hash"])
    enum = s.struct("Value")
    kinds = re.findall(r"(\w+)\(", enum[enum.index("{"):])
    if sorted(kinds) != sorted(KINDS) or sorted(re.findall(r"(\w+)\(", s.struct("SpannedValue"))) != sorted(KINDS):
        raise extract.LostAnchor("Value has other variants: %s" % kinds)
    out = "use std::cmp::Ordering;\n"
    for k in KINDS:
        # Payloads are opaque: only their order and equality matter.
        out += """
#[verifier::external_body] pub struct P_{0} {{ x: () }}
impl Clone for P_{0} {{ #[verifier::external_body] fn clone(&self) -> (r: P_{0}) ensures r == *self {{ unimplemented!() }} }} impl Copy for P_{0} {{ }}
pub uninterp spec fn o_{0}(a: P_{0}, b: P_{0}) -> Ordering;
pub axiom fn eq_{0}(a: P_{0}, b: P_{0}) ensures o_{0}(a, b) == Ordering::Equal <==> a == b, o_{0}(a, b) == Ordering::Less <==> o_{0}(b, a) == Ordering::Greater;
pub axiom fn trans_{0}(a: P_{0}, b: P_{0}, c: P_{0}) requires o_{0}(a, b) == Ordering::Less, o_{0}(b, c) == Ordering::Less ensures o_{0}(a, c) == Ordering::Less;
impl P_{0} {{ #[verifier::external_body] pub fn cmp(&self, o: &P_{0}) -> (r: Ordering) ensures r == o_{0}(*self, *o) {{ unimplemented!() }} }}
""".format(k)
    out += "pub uninterp spec fn ns(k: P_Keyword) -> bool;\nimpl P_Keyword { #[verifier::external_body] pub fn is_namespaced(&self) -> (r: bool) ensures r == ns(*self) { unimplemented!() } }\n"
    out += "pub enum Value { Nil, %s }\n" % ", ".join("%s(P_%s)" % (k, k) for k in KINDS)
    # Either direction is an order: which one a kind uses is read off its arm.
    _, order = macro_body(s, "def_common_value_ord")
    def up(k):
        m = re.search(r"\(&?\$t::%s\((?:ref )?(\w+)\), &?\$t::%s\((?:ref )?(\w+)\)\) => (\w+)\.cmp\(" % (k, k), order)
        return bool(m) and m.group(3) == m.group(1)
    arms = "\n".join(("(Value::{0}(x), Value::{0}(y)) => o_{0}(x, y)," if up(k) else "(Value::{0}(x), Value::{0}(y)) => o_{0}(y, x),").format(k) for k in KINDS)
    out += """
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
#[verifier::external_body] pub fn i_cmp(a: i32, b: i32) -> (r: Ordering) ensures r == icmp(a as int, b as int) { unimplemented!() }
// Values of one kind: by their content, in the direction of that kind.  Of different kinds: by kind.
pub open spec fn kind(v: Value) -> int { match v { Value::Nil => 0, """ + ", ".join("Value::%s(_) => %d" % (k, i + 1) for i, k in enumerate(KINDS)) + """ } }
pub open spec fn within(a: Value, b: Value) -> Ordering { match (a, b) { """ + arms + """ _ => Ordering::Equal } }
// What makes it an order: any ranking of the kinds will do that tells different kinds apart.
pub open spec fn ranks(f: spec_fn(Value) -> int) -> bool { forall|a: Value, b: Value| #![trigger f(a), f(b)] kind(a) != kind(b) ==> f(a) != f(b) }
pub open spec fn steady(f: spec_fn(Value) -> int) -> bool { forall|a: Value, b: Value, c: Value| #![trigger f(a), f(b), f(c)] kind(a) == kind(b) && kind(c) != kind(a) ==> (f(a) < f(c) <==> f(b) < f(c)) }
pub open spec fn vcmp(f: spec_fn(Value) -> int, a: Value, b: Value) -> Ordering { if kind(a) == kind(b) { within(a, b) } else { icmp(f(a), f(b)) } }
pub proof fn total(f: spec_fn(Value) -> int, a: Value, b: Value)
    requires ranks(f)
    ensures vcmp(f, a, b) == Ordering::Equal <==> a == b, vcmp(f, a, b) == Ordering::Less <==> vcmp(f, b, a) == Ordering::Greater
{ match (a, b) { """ + " ".join("(Value::{0}(x), Value::{0}(y)) => {{ eq_{0}(x, y); eq_{0}(y, x); }}".format(k) for k in KINDS) + """ _ => {} } }
pub proof fn transitive(f: spec_fn(Value) -> int, a: Value, b: Value, c: Value)
    requires ranks(f), steady(f), vcmp(f, a, b) == Ordering::Less, vcmp(f, b, c) == Ordering::Less
    ensures vcmp(f, a, c) == Ordering::Less
{ 
  if kind(a) == kind(b) && kind(b) == kind(c) { match (a, b, c) { """ + " ".join("(Value::{0}(x), Value::{0}(y), Value::{0}(z)) => {{ eq_{0}(x, y); eq_{0}(y, x); eq_{0}(z, y); eq_{0}(y, z); eq_{0}(z, x); eq_{0}(x, z); if o_{0}(y, x) == Ordering::Less && o_{0}(z, y) == Ordering::Less {{ trans_{0}(z, y, x); }} if o_{0}(x, y) == Ordering::Less && o_{0}(y, z) == Ordering::Less {{ trans_{0}(x, y, z); }} }}".format(k) for k in KINDS) + """ _ => {} } }
  else if kind(a) == kind(b) { assert(f(a) < f(c) <==> f(b) < f(c)); }
  else if kind(b) == kind(c) { assert(f(b) != f(a)); assert(f(b) < f(a) <==> f(c) < f(a)); assert(f(c) != f(a)); }
  else if kind(a) == kind(c) { assert(f(a) < f(b) <==> f(c) < f(b)); }
}
"""
    # precedence: the ranking used
    out += "impl Value {\n"
    params, body = macro_body(s, "def_common_value_methods")
    o = extract.Source.__new__(extract.Source)
    o.path, o.text = s.path, body.replace("$t::", "Value::")
    o.m = extract.mask(o.text)
    f = o.fn("precedence").ret("r")
    rank = s.fn  # keep the source
    f.sub(r"match \*self", "match self", "matching by reference")
    f.sub(r"\(ref (\w+)\)", r"(\1)", "matching by reference", count=0, minimum=0)
    prec = [int(x) for x in re.findall(r"=> (\d+)", f.body)]
    spec_body = re.sub(r"if !(\w+)\.is_namespaced\(\)", r"if !ns(\1)", re.sub(r"match self", "match v", f.body))
    spec_body = re.sub(r"Value::Keyword\((\w+)\) if !ns\(\1\) => (\d+),\s*Value::Keyword\(_\) => (\d+)", r"Value::Keyword(\1) => if !ns(\1) { \2 } else { \3 }", spec_body)
    out += "pub open spec fn rank(v: Value) -> int " + spec_body + "\n"
    out += u.emit(f, "ensures r == Self::rank(*self)")
    out += "pub proof fn ranking() ensures ranks(|v: Value| Self::rank(v)), steady(|v: Value| Self::rank(v)) {}\n"
    u.rewrites.append("the ranking of the specification is the text of precedence itself; what is proved about it is that it tells different kinds apart and does not split a kind around another")
    params, body = macro_body(s, "def_common_value_ord")
    body = body.replace("$t::", "Value::").replace("$value.precedence()", "value.precedence()").replace("$other.precedence()", "other.precedence()").replace("$value", "value").replace("$other", "other")
    body = re.sub(r"&Value::", "Value::", body)
    body = re.sub(r"\(ref (\w+)\)", r"(\1)", body)
    body = re.sub(r"(\w+)\.precedence\(\)\.cmp\(&(\w+)\.precedence\(\)\)", r"i_cmp(\1.precedence(), \2.precedence())", body)
    body = re.sub(r"(\w+)\.cmp\(&(\w+)\)", r"\1.cmp(\2)", body)
    g = extract.Fn(s.path, "cmp (def_common_value_ord!)", "fn cmp(value: &Value, other: &Value) -> (r: Ordering)", "{" + body + "}")
    g.prologue("proof { Self::ranking(); }")
    u.rewrites.append("def_common_value_ord!: patterns by reference, i32's cmp as a function")
    out += u.emit(g, "ensures r == vcmp(|v: Value| Self::rank(v), *value, *other)")
    return out + "}\n"
