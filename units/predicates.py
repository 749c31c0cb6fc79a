"""C14: what comparisons and type annotations ask for (query-algebrizer/src/clauses/predicate.rs, resolve.rs)."""
import re
import units, extract
T = units.load("types")
C = units.load("clauses")
RLIMIT = 60

SPEC = """
// Names as written.
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Name { Less, LessOrEqual, Greater, GreaterOrEqual, Other, Unpermute, Differ, After, Before, Namespace, Ref, Boolean, Instant, Long, Double, String, Keyword, Uuid, Unknown }
pub open spec fn operator(n: Name) -> Option<Inequality> { match n { Name::Less => Some(Inequality::LessThan), Name::LessOrEqual => Some(Inequality::LessThanOrEquals), Name::Greater => Some(Inequality::GreaterThan), Name::GreaterOrEqual => Some(Inequality::GreaterThanOrEquals), Name::Other => Some(Inequality::NotEquals),
    Name::Unpermute => Some(Inequality::Unpermute), Name::Differ => Some(Inequality::Differ), Name::After => Some(Inequality::TxAfter), Name::Before => Some(Inequality::TxBefore), _ => None } }
pub open spec fn type_named(n: Name) -> Option<ValueType> { match n { Name::Ref => Some(ValueType::Ref), Name::Boolean => Some(ValueType::Boolean), Name::Instant => Some(ValueType::Instant), Name::Long => Some(ValueType::Long), Name::Double => Some(ValueType::Double), Name::String => Some(ValueType::String), Name::Keyword => Some(ValueType::Keyword), Name::Uuid => Some(ValueType::Uuid), _ => None } }
pub open spec fn type_of_keyword(k: Keyword) -> Option<ValueType> { if space_of(k) == Some(Name::Namespace) { type_named(name_of(k)) } else { None } }
pub uninterp spec fn space_of(k: Keyword) -> Option<Name>;
pub uninterp spec fn name_of(k: Keyword) -> Name;
impl Keyword {
  #[verifier::external_body] pub fn namespace(&self) -> (r: Option<Name>) ensures r == space_of(*self) { unimplemented!() }
  #[verifier::external_body] pub fn name(&self) -> (r: Name) ensures r == name_of(*self) { unimplemented!() }
}
// The value an argument stands for; a number is an entity where entities are compared.
pub uninterp spec fn micros(d: DateTime<Utc>) -> DateTime<Utc>;
pub uninterp spec fn any_value() -> TypedValue;
pub open spec fn arg(m: Model, refs: bool, a: FnArg) -> TypedValue { match a {
    FnArg::Variable(v) => valued(m, v), FnArg::EntidOrInteger(i) => if refs { TypedValue::Ref(i) } else { TypedValue::Long(i) },
    FnArg::IdentOrKeyword(k) => match entid_of(schema_of(m), k) { Some(e) => TypedValue::Ref(e), None => any_value() },
    FnArg::Constant(NonIntegerConstant::Boolean(b)) => TypedValue::Boolean(b), FnArg::Constant(NonIntegerConstant::Float(f)) => TypedValue::Double(f), FnArg::Constant(NonIntegerConstant::Text(t)) => TypedValue::String(t),
    FnArg::Constant(NonIntegerConstant::Instant(d)) => TypedValue::Instant(micros(d)), FnArg::Constant(NonIntegerConstant::Uuid(u)) => TypedValue::Uuid(u), _ => any_value() } }
pub open spec fn sensible(s: Schema, refs: bool, a: FnArg) -> bool { match a {
    FnArg::EntidOrInteger(i) => refs ==> i >= 0, FnArg::IdentOrKeyword(k) => refs && entid_of(s, k) is Some, FnArg::SrcVar(_) => false, FnArg::Vector(_) => false, FnArg::Constant(NonIntegerConstant::BigInteger(_)) => false, _ => true } }
pub open spec fn about_entities(o: Inequality) -> bool { o is Unpermute || o is Differ || o is TxAfter || o is TxBefore }
pub open spec fn supported(refs: bool, t: ValueType) -> bool { if refs { t == ValueType::Ref } else { t == ValueType::Long || t == ValueType::Double || t == ValueType::Instant } }
pub open spec fn numeric(t: ValueType) -> bool { t == ValueType::Long || t == ValueType::Double }
// Values that can be compared: of one type, numbers counting as one.
pub open spec fn comparable(refs: bool, a: ValueType, b: ValueType) -> bool { supported(refs, a) && supported(refs, b) && (a == b || (numeric(a) && numeric(b))) }
// What is put in the query for a value.
pub open spec fn stands(m: Model, x: QueryValue, v: TypedValue) -> bool { match x { QueryValue::Column(q) => means(m, q, v), QueryValue::TypedValue(w) => w == v, QueryValue::Entid(e) => v == TypedValue::Ref(e), QueryValue::PrimitiveLong(_) => false } }
pub open spec fn both_are(m: Model, refs: bool, x: FnArg, y: FnArg) -> bool { comparable(refs, type_of(arg(m, refs, x)), type_of(arg(m, refs, y))) }
pub open spec fn condition(o: Inequality, l: QueryValue, r: QueryValue) -> ColumnConstraintOrAlternation { ColumnConstraintOrAlternation::Constraint(ColumnConstraint::Inequality { operator: o, left: l, right: r }) }
// The comparison is one more condition, on what its arguments stand for.
pub open spec fn compared(c: ConjoiningClauses, d: ConjoiningClauses, s: Schema, o: Inequality, x: FnArg, y: FnArg, l: QueryValue, r: QueryValue) -> bool {
    d.wheres@ == c.wheres@.push(condition(o, l, r))
    && (forall|m: Model| #![trigger holds(c, m)] #![trigger holds(d, m)] schema_of(m) == s ==> (holds(d, m) <==> holds(c, m) && both_are(m, about_entities(o), x, y) && meets(m, condition(o, l, r))))
    && (forall|m: Model| schema_of(m) == s && #[trigger] holds(d, m) ==> stands(m, l, arg(m, about_entities(o), x)) && stands(m, r, arg(m, about_entities(o), y))) }
pub open spec fn never(c: ConjoiningClauses, d: ConjoiningClauses, s: Schema, o: Inequality, x: FnArg, y: FnArg) -> bool {
    d.wheres == c.wheres && (forall|m: Model| !#[trigger] holds(d, m)) && (forall|m: Model| schema_of(m) == s && #[trigger] holds(c, m) ==> !both_are(m, about_entities(o), x, y)) }
pub open spec fn asked_for(c: ConjoiningClauses, d: ConjoiningClauses, s: Schema, o: Inequality, p: Seq<FnArg>) -> bool {
    p.len() == 2 && kept_values(c, d) && d.column_bindings == c.column_bindings && (never(c, d, s, o, p[0], p[1]) || exists|l: QueryValue, r: QueryValue| #[trigger] compared(c, d, s, o, p[0], p[1], l, r)) }
"""

STAND = """
#[verifier::external_body] pub struct BigInt { x: () }
pub struct PlainSymbol(pub Name);
#[verifier::external_body] pub fn instant(d: DateTime<Utc>) -> (r: TypedValue) ensures r == TypedValue::Instant(micros(d)) { unimplemented!() }
impl ValueTypeSet {
  #[verifier::external_body] pub fn of_longs() -> (r: Self) ensures r@ == only(ValueType::Long).insert(ValueType::Ref) { unimplemented!() }
  #[verifier::external_body] pub fn of_keywords() -> (r: Self) ensures r@ == only(ValueType::Keyword).insert(ValueType::Ref) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, t: ValueType) -> (r: bool) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
  #[verifier::external_body] pub fn is_only_numeric(self) -> (r: bool) ensures r == (forall|t: ValueType| #[trigger] self@.contains(t) ==> numeric(t)) { unimplemented!() }
}
#[verifier::external_body] pub fn same_set(a: &ValueTypeSet, b: &ValueTypeSet) -> (r: bool) ensures r == (a@ == b@), r ==> forall|t: ValueType| #[trigger] a@.contains(t) <==> b@.contains(t) { unimplemented!() }
"""


def prelude(u):
    c = u.src("query-algebrizer/src/clauses/mod.rs")
    ty, q, core = u.src("query-algebrizer/src/types.rs"), u.src("edn/src/query.rs"), u.src("core-traits/lib.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",))
    u.assume("the meaning of clauses is that of unit clauses; so are the contracts of narrowing a variable's types, proved there")
    u.assume("what SQLite answers to a comparison of values is not modelled; names written as text are told apart")
    u.assume("the operations of ValueTypeSet are those of sets (C15); a clone equals what was cloned")
    for n in ("ValueType", "Unique"):
        out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, n)
    out += u.struct(core, "Attribute").replace("attribute::Unique", "Unique")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(ty, "Inequality")
    out += "".join(u.struct(ty, n) for n in ("DatomsTable", "SourceAlias", "DatomsColumn", "FulltextColumn", "TransactionsColumn", "VariableColumn", "Column", "QualifiedAlias", "QueryValue", "ColumnConstraint", "ColumnConstraintOrAlternation", "EvolvedNonValuePlace", "EvolvedValuePlace"))
    out += u.struct(c, "ConjoiningClauses")
    out += "pub enum SrcVar { DefaultSrc, NamedSrc(String) }\n" + u.struct(ty, "EvolvedPattern")
    out += "".join(u.struct(q, n) for n in ("NonIntegerConstant", "FnArg", "Predicate", "TypeAnnotation"))
    out += "impl Clone for QualifiedAlias { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n"
    stand = C.STAND.replace("#[verifier::external_body] pub struct Inequality { x: () }\n", "")
    if stand == C.STAND:
        raise extract.LostAnchor("the stand-ins of unit clauses")
    out += stand + C.SPEC.split("proof fn asks(")[0] + SPEC + STAND
    return out


def accommodates(u, st):
    f = st.fn("accommodates_integer", r"impl SQLValueType for ValueType\b").ret("r").sub(r"use crate::ValueType::\*;", "", "names in full", minimum=0)
    f.sub(r"(?<![:\w])(Instant|Long|Double|Ref|Boolean|Keyword|Uuid)\b", r"ValueType::\1", "names in full", count=0, minimum=0)
    f.subhead(r"\b\w+: i64", "number: i64", "int is a word of the verifier")
    f.sub(r"\bint\b", "number", "int is a word of the verifier", count=0)
    return u.emit(f, "ensures *self == ValueType::Ref ==> (r <==> number >= 0)")


def build(u):
    pr, rs, cv = (u.src("query-algebrizer/src/clauses/%s.rs" % n) for n in ("predicate", "resolve", "convert"))
    ty, core, st = u.src("query-algebrizer/src/types.rs"), u.src("core-traits/lib.rs"), u.src("core/src/sql_types.rs")
    out = prelude(u)
    NAMES = {"<": "Less", "<=": "LessOrEqual", ">": "Greater", ">=": "GreaterOrEqual", "!=": "Other", "unpermute": "Unpermute", "differ": "Differ", "tx-after": "After", "tx-before": "Before",
             "db.type": "Namespace", "ref": "Ref", "boolean": "Boolean", "instant": "Instant", "long": "Long", "double": "Double", "string": "String", "keyword": "Keyword", "uuid": "Uuid"}

    def named(f):
        def one(h):
            return "Name::" + NAMES.get(h.group(1), "Unknown")
        f.body = re.sub(r'"([^"]*)"', one, f.body)
        f.rewrites.append("%s: text as names" % f.name)
        return f

    def tidy(f):
        f.sub(r"use self::\w+::\*;", "", "names in full", minimum=0)
        if re.search(r"\b(for|while|loop)\b", extract.mask(f.body)):
            raise extract.LostAnchor("%s: a loop without an invariant" % f.name)
        f.macro("bail", units.bail(), "errors are opaque")
        f.sub(r"(?<![:\w])(EntidOrInteger|IdentOrKeyword|SrcVar|Constant|Vector)\(", r"FnArg::\1(", "names in full", count=0, minimum=0)
        pos = 0
        while True:
            m = extract.mask(f.body)
            h = re.compile(r"\bmark_known_empty\(").search(m, pos)
            if not h:
                break
            e = extract.close_of(m, h.end() - 1)
            f.body = f.body[:h.end()] + "EmptyBecause::some()" + f.body[e:]
            pos = h.end()
        f.sub(r"self\s*\.column_bindings\s*\.get\(&(\w+)\)\s*\.and_then\(\|(\w+)\| \w+\.first\(\)\.map\(\|(\w+)\| (.*?)\)\)\s*\.ok_or_else\(\|\| AlgebrizerError::UnboundVariable\([^()]*\(\)\)\)",
              r"match self.column_bindings.get(&\1) { Some(\2) => if \2.len() > 0 { let \3 = &\2[0]; Ok(\4) } else { Err(Error::new()) }, None => Err(Error::new()) }", "and_then, map and ok_or_else as matches", count=0, minimum=0)
        f.sub(r"schema\s*\.get_entid\(&(\w+)\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.ok_or_else\(\|\| AlgebrizerError::UnrecognizedIdent\([^()]*\(\)\)\)", r"match schema.get_entid(&\1) { Some(\2) => Ok(\3), None => Err(Error::new()) }", "map and ok_or_else as a match", minimum=0)
        f.sub(r"\bknown_entid\.into\(\)", "known_entid.0", "conversion of a known entid", minimum=0)
        f.sub(r"TypedValue\(v\.into\(\)\)", "TypedValue(instant(v))", "conversion of an instant", count=0, minimum=0)
        return f

    # names
    f = named(core.fn("from_keyword", r"impl ValueType\b").ret("r"))
    f.sub(r"if (\w+)\.namespace\(\) != Some\(([^()]*)\)", r"if !is_space(\1.namespace(), \2)", "a comparison of options", minimum=0)
    out += "pub fn is_space(a: Option<Name>, b: Name) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }\nimpl ValueType {\n" + u.emit(f, "ensures r == type_of_keyword(*keyword)")
    f = core.fn("is_numeric", r"impl ValueType\b").ret("r")
    out += u.emit(f, "ensures r == numeric(%s)" % ("*self" if "&" in f.head else "self"))
    out += accommodates(u, st) + "}\n"
    f = named(ty.fn("from_datalog_operator", r"impl Inequality\b").ret("r"))
    f.subhead(r"s: &str", "s: Name", "text as names")
    out += "impl Inequality {\n" + u.emit(f, "ensures r == operator(s)")
    f = ty.fn("supported_types", r"impl Inequality\b").ret("r").sub(r"use self::Inequality::\*;", "", "names in full", minimum=0)
    f.sub(r"(?<![:\w])(LessThan|LessThanOrEquals|GreaterThan|GreaterThanOrEquals|NotEquals|Unpermute|Differ|TxAfter|TxBefore)\b", r"Inequality::\1", "names in full", count=0, minimum=0)
    out += u.emit(f, "ensures forall|t: ValueType| #[trigger] r@.contains(t) <==> supported(about_entities(self), t)")
    f = pr.fn("to_constraint", r"impl Inequality\b").ret("r")
    out += u.emit(f, "ensures r == (ColumnConstraint::Inequality { operator: self, left, right })") + "}\n"
    # the types an argument may have
    f = tidy(cv.fn("potential_types", r"impl ValueTypes for FnArg\b").ret("r"))
    f.sub(r"&FnArg::", "FnArg::", "reference patterns", count=0, minimum=0)
    f.sub(r"\(ref (\w+)\)", r"(\1)", "reference patterns", count=0, minimum=0)
    f.sub(r"accommodates_integer\((\w+)\)", r"accommodates_integer(*\1)", "reference patterns", count=0, minimum=0)
    TYPES = "r matches Ok(s) ==> forall|refs: bool| (!#[trigger] sensible(*schema, refs, %s) ==> forall|t: ValueType| supported(refs, t) ==> !#[trigger] s@.contains(t)) && (sensible(*schema, refs, %s) ==> forall|m: Model| schema_of(m) == *schema%s ==> s@.contains(type_of(#[trigger] arg(m, refs, %s))))"
    out += "impl FnArg {\n" + u.emit(f, "ensures " + TYPES % ("*self", "*self", "", "*self")) + "}\nimpl ConjoiningClauses {\n"
    # proved in unit clauses
    same = lambda x: "forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] holds(*final(self), m) <==> holds(*old(self), m) && (%s)" % x
    for sig, spec in C.narrowing(same):
        out += "#[verifier::external_body] pub fn %s ensures %s { unimplemented!() }\n" % (sig, spec)
    f = tidy(pr.fn("potential_types", r"impl ConjoiningClauses").ret("r"))
    f.sub(r"\(ref (\w+)\)", r"(\1)", "reference patterns", count=0, minimum=0)
    out += u.emit(f, "ensures " + TYPES % ("*fn_arg", "*fn_arg", " && holds(*self, m)", "*fn_arg"))
    f = tidy(pr.fn("apply_type_anno", r"impl ConjoiningClauses").ret("r"))
    out += u.emit(f, "ensures r is Ok ==> type_of_keyword(anno.value_type) is Some && (%s)" % same("type_of(valued(m, anno.variable)) == type_of_keyword(anno.value_type)->0"))
    KEPT = "kept_values(*old(self), *final(self)), %s" % C.REST("empty_because", "known_types")
    for n, refs, cls, extra in (("resolve_numeric_argument", "false", "numeric(type_of(arg(m, false, arg)))", ""), ("resolve_instant_argument", "false", "type_of(arg(m, false, arg)) == ValueType::Instant", ""),
                                ("resolve_ref_argument", "true", "type_of(arg(m, true, arg)) == ValueType::Ref", "schema_of(m) == *schema ==> ")):
        f = tidy(rs.fn(n, r"impl ConjoiningClauses").ret("r"))
        holds = "forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] %s(holds(*final(self), m) <==> holds(*old(self), m) && %s)" % (extra, cls.replace(", arg)", ", arg_)").replace("arg_", "arg"))
        spec = "ensures %s, r matches Ok(x) ==> (%s) && (forall|m: Model| #[trigger] holds(*final(self), m) && (%s) ==> stands(m, x, arg(m, %s, arg)))" % (KEPT, holds, extra.replace(" ==> ", "") or "true", refs)
        f.subhead(r"\barg: FnArg", "given: FnArg", "a name of its own")
        f.sub(r"match arg \{", "match given {", "a name of its own")
        out += u.emit(f, spec.replace(", arg)", ", given)"))
    f = tidy(pr.fn("apply_inequality", r"impl ConjoiningClauses").ret("r"))
    f.sub(r"let mut (\w+) = predicate\.args\.into_iter\(\);\s*let (\w+) = \w+\.next\(\)\.expect\(([^()]*)\);\s*let (\w+) = \w+\.next\(\)\.expect\(([^()]*)\);", r"let mut \1 = predicate.args; let \2 = \1.remove(0); let \4 = \1.remove(0); let ghost x_ = \2; let ghost y_ = \4; let ghost o_ = comparison; let ghost c_ = *self; let ghost refs_ = about_entities(o_);", "the iterator as the list")
    f.sub(r"predicate\.operator\.clone\(\)", "predicate.operator", "names are copied", count=0, minimum=0)
    f.sub(r"(\w+) == ValueTypeSet::of_one\(([^()]*)\)", r"same_set(&\1, &ValueTypeSet::of_one(\2))", "equality of sets", count=0, minimum=0)
    f.sub(r"&predicate\.operator,", "&sym_,", "names are copied", count=0, minimum=0)
    f.sub(r"let mut (left_types)", r"let sym_ = PlainSymbol(predicate.operator.0); let mut \1", "names are copied")
    for side, g in (("left", "x_"), ("right", "y_")):
        f.sub(r"(if %s_types\.is_empty\(\))" % side, r"""let ghost %s0_ = %s_types@; proof { assert(!sensible(*known.schema, refs_, %s) ==> %s0_ =~= Set::<ValueType>::empty()); assert forall|m: Model| schema_of(m) == *known.schema && #[trigger] holds(c_, m) && sensible(*known.schema, refs_, %s) && supported(refs_, type_of(arg(m, refs_, %s))) implies %s0_.contains(type_of(arg(m, refs_, %s))) by {} }
        \1""" % (side, side, g, side, g, g, side, g), "ghost")
    SHARED = """proof { assert forall|m: Model| schema_of(m) == *known.schema && #[trigger] holds(c_, m) && both_are(m, refs_, x_, y_) implies shared_types@.contains(type_of(arg(m, refs_, x_))) || shared_types@.contains(type_of(arg(m, refs_, y_))) by {
          assert(left0_.contains(type_of(arg(m, refs_, x_)))); assert(right0_.contains(type_of(arg(m, refs_, y_)))); } assert(shared_types@.subset_of(Set::empty().insert(ValueType::Long).insert(ValueType::Double).insert(ValueType::Instant).insert(ValueType::Ref))); assert forall|t: ValueType| #[trigger] shared_types@.contains(t) implies (refs_ <==> t == ValueType::Ref) by { assert(left0_.contains(t) || left0_.contains(ValueType::Long)); }
          if forall|t: ValueType| !#[trigger] shared_types@.contains(t) { assert(shared_types@ =~= Set::<ValueType>::empty()); } }
        """
    f.sub(r"(if shared_types\.is_empty\(\))", lambda h: SHARED + h.group(1), "ghost")
    f.sub(r"return Ok\(\(\)\);", "proof { assert(never(c_, *self, *known.schema, o_, x_, y_)); } return Ok(());", "ghost", minimum=0)
    h = re.search(r"\.to_constraint\((\w+), (\w+)\)", f.body)
    if not h:
        raise extract.LostAnchor("apply_inequality: the condition")
    i = max(extract.mask(f.body[:h.start()]).rfind(x) for x in ";{}") + 1
    f.body = f.body[:i] + " let ghost d_ = *self; let ghost l_ = %s; let ghost r_ = %s; " % h.groups() + f.body[i:]
    C.ghost_push(f)
    f.sub(r"Ok\(\(\)\)\s*\}\s*$", """proof { assert forall|m: Model| schema_of(m) == *known.schema implies (#[trigger] holds(*self, m) <==> holds(c_, m) && both_are(m, refs_, x_, y_) && meets(m, condition(o_, l_, r_))) by {
          assert(wheres_ok(self.wheres@, m) <==> wheres_ok(d_.wheres@, m) && meets(m, condition(o_, l_, r_))); assert(holds(*self, m) <==> holds(d_, m) && meets(m, condition(o_, l_, r_)));
          if holds(c_, m) && both_are(m, refs_, x_, y_) { assert(holds(d_, m)); } if holds(d_, m) { assert(holds(c_, m)); assert(both_are(m, refs_, x_, y_)); } }
        assert(compared(c_, *self, *known.schema, o_, x_, y_, l_, r_)); } Ok(()) }""", "ghost")
    out += u.emit(f, "ensures r is Ok ==> asked_for(*old(self), *final(self), *known.schema, comparison, predicate.args@)")
    f = tidy(pr.fn("apply_predicate", r"impl ConjoiningClauses").ret("r"))
    f.sub(r"predicate\.operator\.0\.as_str\(\)", "predicate.operator.0", "text as names")
    out += u.emit(f, "ensures r is Ok ==> operator(predicate.operator.0) is Some && asked_for(*old(self), *final(self), *known.schema, operator(predicate.operator.0)->0, predicate.args@)")
    return out + "}\n"
