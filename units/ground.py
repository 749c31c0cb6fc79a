"""C14: what grounding a variable asks for (query-algebrizer/src/clauses/ground.rs, convert.rs)."""
import re
import units, extract
C, P = units.load("clauses"), units.load("predicates")
RLIMIT = 60

SPEC = """
pub enum ValueConversion { Val(TypedValue), Impossible(EmptyBecause) }
pub enum VariableOrPlaceholder { Placeholder, Variable(Variable) }
pub open spec fn fits(known: Set<ValueType>, asked: Option<Set<ValueType>>, t: ValueType) -> bool { known.contains(t) && (asked matches Some(s) ==> s.contains(t)) }
// A reading of a constant as a value of one of these types; a number is a long where it may be, a keyword a keyword.
pub open spec fn reads(s: Schema, b: Map<Variable, TypedValue>, known: Set<ValueType>, asked: Option<Set<ValueType>>, a: FnArg, v: TypedValue) -> bool { match a {
    FnArg::EntidOrInteger(i) => if fits(known, asked, ValueType::Long) { v == TypedValue::Long(i) } else { fits(known, asked, ValueType::Ref) && i >= 0 && v == TypedValue::Ref(i) },
    FnArg::IdentOrKeyword(k) => if fits(known, asked, ValueType::Keyword) { v matches TypedValue::Keyword(h) && *h == k } else { fits(known, asked, ValueType::Ref) && (entid_of(s, k) matches Some(e) && v == TypedValue::Ref(e)) },
    FnArg::Variable(x) => b.contains_key(x) && v == b[x] && exists|t: ValueType| known.contains(t),
    FnArg::Constant(NonIntegerConstant::Boolean(x)) => v == TypedValue::Boolean(x) && known.contains(ValueType::Boolean), FnArg::Constant(NonIntegerConstant::Float(x)) => v == TypedValue::Double(x) && known.contains(ValueType::Double),
    FnArg::Constant(NonIntegerConstant::Text(x)) => v == TypedValue::String(x) && known.contains(ValueType::String), FnArg::Constant(NonIntegerConstant::Instant(x)) => v == TypedValue::Instant(micros(x)) && known.contains(ValueType::Instant),
    FnArg::Constant(NonIntegerConstant::Uuid(x)) => v == TypedValue::Uuid(x) && known.contains(ValueType::Uuid), _ => false } }
pub open spec fn every() -> Set<ValueType> { only(ValueType::Ref).insert(ValueType::Boolean).insert(ValueType::Instant).insert(ValueType::Long).insert(ValueType::Double).insert(ValueType::String).insert(ValueType::Keyword).insert(ValueType::Uuid) }
pub open spec fn types_of(c: ConjoiningClauses, v: Variable) -> Set<ValueType> { if c.known_types@.contains_key(v) { c.known_types@[v]@ } else { every() } }
pub open spec fn asked_of(c: ConjoiningClauses, v: Variable) -> Option<Set<ValueType>> { if c.required_types@.contains_key(v) { Some(c.required_types@[v]@) } else { None } }
// A keyword where the variable is already an entity's column: an ident.
pub open spec fn ident_of_entity(c: ConjoiningClauses, x: Variable, v: TypedValue) -> bool { v is Keyword && c.column_bindings@.contains_key(x) && c.column_bindings@[x]@.len() > 0 && entity_column(c.column_bindings@[x]@[0].1) }
pub open spec fn is_now(c: ConjoiningClauses, d: ConjoiningClauses, x: Variable, v: TypedValue) -> bool { !ident_of_entity(c, x, v) ==> forall|m: Model| #![trigger holds(d, m)] #![trigger holds(c, m)] holds(d, m) <==> holds(c, m) && valued(m, x) == v }
pub open spec fn grounded(c: ConjoiningClauses, d: ConjoiningClauses, s: Schema, x: Variable, a: FnArg) -> bool {
    (exists|v: TypedValue| #[trigger] reads(s, c.value_bindings@, types_of(c, x), asked_of(c, x), a, v) && is_now(c, d, x, v))
    || ((forall|v: TypedValue| !#[trigger] reads(s, c.value_bindings@, types_of(c, x), asked_of(c, x), a, v)) && forall|m: Model| !#[trigger] holds(d, m)) }
#[verifier::external_body] pub fn keyword_value(k: Keyword) -> (r: TypedValue) ensures r matches TypedValue::Keyword(h) && *h == k { unimplemented!() }
#[verifier::external_body] pub fn same_value(a: &TypedValue, b: &TypedValue) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
"""


def macro(cv):
    """The macro's own text, with its arguments put in."""
    m = extract.mask(cv.text)
    h = re.search(r"macro_rules!\s*coerce_to_typed_value\s*\{\s*\(([^)]*)\)\s*=>\s*\{", m)
    if not h:
        raise extract.LostAnchor("the macro coerce_to_typed_value")
    names = re.findall(r"\$(\w+)\s*:", cv.text[h.start():h.end()])
    body = cv.text[h.end():extract.close_of(m, h.end() - 1)]

    def put(args):
        given = [x.strip() for x in args.split(",")]
        if len(given) != len(names):
            raise extract.LostAnchor("the arguments of coerce_to_typed_value")
        return re.sub(r"\$(\w+)", lambda g: given[names.index(g.group(1))], body)
    return put


def build(u):
    g, cv, st = u.src("query-algebrizer/src/clauses/ground.rs"), u.src("query-algebrizer/src/clauses/convert.rs"), u.src("core/src/sql_types.rs")
    out = P.prelude(u) + SPEC
    u.assume("equality of values is identity of value; an abort (unimplemented!) answers nothing")

    def tidy(f):
        f.macro("coerce_to_typed_value", macro(cv), "the macro's text")
        f.sub(r"use self::\w+::\*;", "", "names in full", minimum=0)
        if re.search(r"\b(for|while|loop)\b", extract.mask(f.body)):
            raise extract.LostAnchor("%s: a loop without an invariant" % f.name)
        f.macro("bail", units.bail(), "errors are opaque")
        f.macro("unimplemented", units.bail(), "an abort answers nothing")
        f.head = f.head.replace("<'s>", "").replace("&'s ", "&")
        pos = 0
        while True:
            m = extract.mask(f.body)
            h = re.compile(r"\bEmptyBecause::(?!some\(\))\w+\s*").search(m)
            if not h:
                break
            e = h.end()
            if m[e:e + 1] in ("(", "{"):
                e = extract.close_of(m, e) + 1
            f.body = f.body[:h.start()] + "EmptyBecause::some()" + f.body[e:]
        f.sub(r"(?<![:\w])(Val|Impossible)\(", r"ValueConversion::\1(", "names in full", count=0, minimum=0)
        f.sub(r"TypedValue::from\((\w+)\)(?:\.into\(\))?", r"instant(\1)", "conversion of an instant", count=0, minimum=0)
        f.sub(r"(TypedValue::\w+\(\w+\))\.into\(\)", r"\1", "a value as itself", count=0, minimum=0)
        f.sub(r"TypedValue::Keyword\((\w+)\.into\(\)\)", r"keyword_value(\1)", "conversion of a keyword", count=0, minimum=0)
        f.sub(r"ValueConversion::Val\((\w+)\.into\(\)\)", r"ValueConversion::Val(keyword_value(\1))", "conversion of a keyword", count=0, minimum=0)
        f.sub(r"schema\.get_entid\(&(\w+)\)\.map\(\|(\w+)\| \w+\.into\(\)\)", r"(match schema.get_entid(&\1) { Some(\2) => Some(TypedValue::Ref(\2.0)), None => None })", "map as a match", count=0, minimum=0)
        f.sub(r"Some\(ref (\w+)\)", r"Some(\1)", "reference patterns", count=0, minimum=0)
        return f

    out += "impl ValueType {\n" + P.accommodates(u, st) + "}\nimpl ConjoiningClauses {\n"
    same = lambda x: "forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] holds(*final(self), m) <==> holds(*old(self), m) && (%s)" % x
    for sig, spec in C.narrowing(same):
        out += "#[verifier::external_body] pub fn %s ensures %s { unimplemented!() }\n" % (sig.replace("known_type_set(", "known_type_set_("), spec)
    out += "pub fn known_type_set(&self, var: &Variable) -> (r: ValueTypeSet) ensures r@ == types_of(*self, *var) { let r = self.known_type_set_(var); proof { assert forall|t: ValueType| every().contains(t) by { } assert(r@ =~= types_of(*self, *var)); } r }\n"
    out += "#[verifier::external_body] pub fn bind_value(&mut self, var: &Variable, value: TypedValue) requires !old(self).value_bindings@.contains_key(*var) || old(self).value_bindings@[*var] == value ensures is_now(*old(self), *final(self), *var, value) { unimplemented!() }\n"
    f = tidy(cv.fn("typed_value_from_arg", r"impl ConjoiningClauses").ret("r"))
    out += u.emit(f, """ensures r matches Ok(ValueConversion::Val(v)) ==> reads(*schema, self.value_bindings@, known_types@, asked_of(*self, *var), arg, v),
        r matches Ok(ValueConversion::Impossible(_)) ==> forall|v: TypedValue| !#[trigger] reads(*schema, self.value_bindings@, known_types@, asked_of(*self, *var), arg, v)""")
    f = tidy(g.fn("apply_ground_value", r"impl ConjoiningClauses").ret("r"))
    f.sub(r"\b(\w+) (=|!)= (\w+)\b", lambda h: "%ssame_value(&%s, &%s)" % ("!" if h.group(2) == "!" else "", h.group(1), h.group(3)), "equality of values", count=0, minimum=0)
    out += u.emit(f, "ensures r is Ok ==> is_now(*old(self), *final(self), var, value)")
    f = tidy(g.fn("apply_ground_var", r"impl ConjoiningClauses").ret("r"))
    out += u.emit(f, "ensures r is Ok ==> grounded(*old(self), *final(self), *schema, var, arg)")
    f = tidy(g.fn("apply_ground_place", r"impl ConjoiningClauses").ret("r"))
    out += u.emit(f, "ensures r is Ok ==> match var { VariableOrPlaceholder::Placeholder => *final(self) == *old(self), VariableOrPlaceholder::Variable(x) => grounded(*old(self), *final(self), *schema, x, arg) }")
    return out + "}\n"
