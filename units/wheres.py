"""C14: the conditions of a query, as SQL, say what they are for (query-projector/src/translate.rs)."""
import re
import units, extract
T = units.load("types")
RLIMIT = 60

OPAQUE = "TableAlias Name ComputedTable TableOrSubquery Expression FulltextColumn VariableColumn".split()

SPEC = """
// Operators by name.
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Sign { Equal, Other, Less, LessOrEqual, Greater, GreaterOrEqual, Match }
// A row for every table alias.
#[verifier::external_body] pub struct Rows { x: () }
// What SQLite answers, where the condition is not on a row's type.
pub uninterp spec fn answers(m: Rows, op: Sign, l: ColumnOrExpression, r: ColumnOrExpression) -> bool;
pub uninterp spec fn of_affinity(m: Rows, v: ColumnOrExpression, a: SQLTypeAffinity) -> bool;
pub uninterp spec fn other(m: Rows, c: Constraint) -> bool;
pub uninterp spec fn any_row(m: Rows, t: TableOrSubquery) -> bool;
pub uninterp spec fn any_computed(m: Rows, t: ComputedTable) -> bool;
// What a row's type is stored as.
pub uninterp spec fn tag_at(m: Rows, t: TableAlias) -> i32;
pub uninterp spec fn affinity_at(m: Rows, t: TableAlias) -> SQLTypeAffinity;
pub open spec fn tag_for(t: ValueType) -> i32 { match t { ValueType::Ref => 0, ValueType::Boolean => 1, ValueType::Instant => 4, ValueType::Long => 5, ValueType::Double => 5, ValueType::String => 10, ValueType::Uuid => 11, ValueType::Keyword => 13 } }
pub open spec fn affinity_for(t: ValueType) -> Option<SQLTypeAffinity> { match t { ValueType::Long => Some(SQLTypeAffinity::Integer), ValueType::Double => Some(SQLTypeAffinity::Real), _ => None } }
pub open spec fn is_of(m: Rows, t: TableAlias, y: ValueType) -> bool { tag_at(m, t) == tag_for(y) && (affinity_for(y) matches Some(a) ==> affinity_at(m, t) == a) }
// A row of the store: of some type.
pub open spec fn stored(m: Rows) -> bool { forall|t: TableAlias| #[trigger] row_of(m, t) }
pub open spec fn row_of(m: Rows, t: TableAlias) -> bool { exists|y: ValueType| #[trigger] typed(m, t, y) }
pub open spec fn typed(m: Rows, t: TableAlias, y: ValueType) -> bool { is_of(m, t, y) }
pub open spec fn tag_of_column(q: QualifiedAlias) -> bool { q.1 matches Column::Fixed(DatomsColumn::ValueTypeTag) || q.1 matches Column::Transactions(TransactionsColumn::ValueTypeTag) }
// What a condition in SQL says.
pub open spec fn sql(m: Rows, c: Constraint) -> bool decreases c { match c {
    Constraint::Infix { op, left, right } => match (left, right) {
        (ColumnOrExpression::Column(q), ColumnOrExpression::Integer(n)) => if tag_of_column(q) && op.0 == Sign::Equal { tag_at(m, q.0) == n } else if tag_of_column(q) && op.0 == Sign::Other { tag_at(m, q.0) != n } else { answers(m, op.0, left, right) },
        _ => answers(m, op.0, left, right) },
    Constraint::Or { constraints } => exists|i: int| 0 <= i < constraints@.len() && sql(m, #[trigger] constraints@[i]),
    Constraint::And { constraints } => forall|i: int| 0 <= i < constraints@.len() ==> sql(m, #[trigger] constraints@[i]),
    Constraint::NotExists { subquery } => !any_row(m, subquery),
    Constraint::TypeCheck { value, affinity } => match value { ColumnOrExpression::Column(q) => if q.1 matches Column::Fixed(DatomsColumn::Value) { affinity_at(m, q.0) == affinity } else { of_affinity(m, value, affinity) }, _ => of_affinity(m, value, affinity) },
    _ => other(m, c) } }
pub open spec fn meant(v: QueryValue) -> ColumnOrExpression { match v { QueryValue::Column(c) => ColumnOrExpression::Column(c), QueryValue::Entid(e) => ColumnOrExpression::Entid(e), QueryValue::PrimitiveLong(n) => ColumnOrExpression::Long(n), QueryValue::TypedValue(v) => ColumnOrExpression::Value(v) } }
pub open spec fn sign_for(o: Inequality) -> Sign { match o { Inequality::LessThan => Sign::Less, Inequality::LessThanOrEquals => Sign::LessOrEqual, Inequality::GreaterThan => Sign::Greater, Inequality::GreaterThanOrEquals => Sign::GreaterOrEqual, Inequality::NotEquals => Sign::Other, Inequality::Unpermute => Sign::Less, Inequality::Differ => Sign::Other, Inequality::TxAfter => Sign::Greater, Inequality::TxBefore => Sign::Less } }
// What a condition of the algebrizer asks.
pub open spec fn asks(m: Rows, c: ColumnConstraint) -> bool { match c {
    ColumnConstraint::Equals(q, QueryValue::PrimitiveLong(n)) => answers(m, Sign::Equal, ColumnOrExpression::Column(q), ColumnOrExpression::Value(TypedValue::Long(n))) && ((n == 0 || n == 1) ==> !is_of(m, q.0, ValueType::Boolean)),
    ColumnConstraint::Equals(q, QueryValue::TypedValue(v)) => answers(m, Sign::Equal, ColumnOrExpression::Column(q), ColumnOrExpression::Value(v)),
    ColumnConstraint::Equals(q, QueryValue::Entid(e)) => answers(m, Sign::Equal, ColumnOrExpression::Column(q), ColumnOrExpression::Entid(e)),
    ColumnConstraint::Equals(q, QueryValue::Column(r)) => answers(m, Sign::Equal, ColumnOrExpression::Column(q), ColumnOrExpression::Column(r)),
    ColumnConstraint::Inequality { operator, left, right } => answers(m, sign_for(operator), meant(left), meant(right)),
    ColumnConstraint::Matches(q, v) => answers(m, Sign::Match, ColumnOrExpression::Column(q), meant(v)),
    ColumnConstraint::HasTypes { value, value_types, check_value } => exists|y: ValueType| #[trigger] value_types@.contains(y) && (if check_value { is_of(m, value, y) } else { tag_at(m, value) == tag_for(y) }),
    ColumnConstraint::NotExists(t) => !any_computed(m, t) } }
pub open spec fn asks_item(m: Rows, c: ColumnConstraintOrAlternation) -> bool decreases c { match c { ColumnConstraintOrAlternation::Constraint(x) => asks(m, x), ColumnConstraintOrAlternation::Alternation(a) => asks_any(m, a) } }
pub open spec fn asks_any(m: Rows, a: ColumnAlternation) -> bool decreases a { exists|i: int| 0 <= i < a.0@.len() && asks_all(m, #[trigger] a.0@[i]) }
pub open spec fn asks_all(m: Rows, a: ColumnIntersection) -> bool decreases a { forall|i: int| 0 <= i < a.0@.len() ==> asks_item(m, #[trigger] a.0@[i]) }
// The places a number can be looked for have a type of their own.
pub open spec fn fit(c: ColumnConstraint) -> bool { c matches ColumnConstraint::Equals(q, QueryValue::PrimitiveLong(n)) ==> tag_column(q.1) is Some }
pub open spec fn fit_item(c: ColumnConstraintOrAlternation) -> bool decreases c { match c { ColumnConstraintOrAlternation::Constraint(x) => fit(x), ColumnConstraintOrAlternation::Alternation(a) => fit_any(a) } }
pub open spec fn fit_any(a: ColumnAlternation) -> bool decreases a { forall|i: int| 0 <= i < a.0@.len() ==> fit_all(#[trigger] a.0@[i]) }
pub open spec fn fit_all(a: ColumnIntersection) -> bool decreases a { forall|i: int| 0 <= i < a.0@.len() ==> fit_item(#[trigger] a.0@[i]) }
pub open spec fn tag_column(c: Column) -> Option<Column> { match c { Column::Fixed(DatomsColumn::Value) => Some(Column::Fixed(DatomsColumn::ValueTypeTag)), Column::Transactions(TransactionsColumn::Value) => Some(Column::Transactions(TransactionsColumn::ValueTypeTag)), _ => None } }
// What a tag can stand for among some types.
pub open spec fn possible(s: Set<ValueType>, t: i32) -> bool { exists|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == t }
pub open spec fn wanted(s: Set<ValueType>, t: i32, a: SQLTypeAffinity) -> bool { exists|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == t && affinity_for(y) == Some(a) }
pub open spec fn once<A>(s: Seq<A>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn of_tag(all: Seq<ValueType>, n: int, t: i32) -> int decreases n { if n <= 0 { 0 } else { of_tag(all, n - 1, t) + (if tag_for(all[n - 1]) == t { 1int } else { 0int }) } }
pub open spec fn affinities_ok(s: Set<ValueType>, m: Map<i32, Vec<SQLTypeAffinity>>) -> bool {
    (forall|t: i32| #[trigger] m.contains_key(t) <==> possible(s, t)) && (forall|t: i32, a: SQLTypeAffinity| #![trigger m[t]@.contains(a)] m.contains_key(t) ==> (m[t]@.contains(a) <==> wanted(s, t, a))) && (forall|t: i32| m.contains_key(t) ==> once((#[trigger] m[t])@)) }
"""

STAND = """
#[verifier::external_body] pub struct ValueTypeSet { x: () }
impl Copy for ValueTypeSet {}
impl Clone for ValueTypeSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ValueTypeSet { pub uninterp spec fn view(&self) -> Set<ValueType>;
  #[verifier::external_body] pub fn any() -> (r: ValueTypeSet) ensures forall|y: ValueType| #[trigger] r@.contains(y) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] pub fn members(self) -> (r: Vec<ValueType>) ensures members_of(self@, r@), r@.len() <= 8 { unimplemented!() } }
impl TableAlias { #[verifier::external_body] pub fn new() -> (r: TableAlias) { unimplemented!() } }
#[verifier::external_body] pub fn table_for_computed(t: ComputedTable, a: TableAlias) -> (r: TableOrSubquery) ensures forall|m: Rows| #[trigger] any_row(m, r) <==> any_computed(m, t) { unimplemented!() }
"""


def spots(body, pat, repl):
    """Every place of a pattern, rewritten; at least one."""
    out, n = re.subn(pat, repl, body)
    if not n:
        raise extract.LostAnchor("no %s" % pat)
    return out


def build(u):
    tr, sq, ty, core, st = u.src("query-projector/src/translate.rs"), u.src("query-sql/src/lib.rs"), u.src("query-algebrizer/src/types.rs"), u.src("core-traits/lib.rs"), u.src("core/src/sql_types.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("HashMap",))
    u.assume("what SQLite answers to a condition on values is not modelled; a row's type is its value_type_tag, and the affinity of its value where a tag stands for two types")
    u.assume("map, filter, count and collect are the loops they stand for; the operations of ValueTypeSet are those of sets (C15)")
    u.assume("a computed table has rows exactly when its translation does (table_for_computed)")
    for n in OPAQUE:
        out += "#[verifier::external_body] pub struct %s { x: () }\n" % n
    out += "impl Clone for TableAlias { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n"
    for s, n in ((core, "ValueType"), (st, "SQLTypeAffinity"), (ty, "DatomsColumn"), (ty, "TransactionsColumn")):
        out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(s, n)
    out += "pub type ValueTypeTag = i32;\n"
    out += "".join(u.struct(ty, n) for n in ("Inequality", "Column", "QualifiedAlias", "QueryValue", "ColumnConstraint", "ColumnConstraintOrAlternation", "ColumnIntersection", "ColumnAlternation"))
    out += "pub struct Op(pub Sign);\n" + u.struct(sq, "ColumnOrExpression") + u.struct(sq, "Constraint")
    out += "impl Clone for QualifiedAlias { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Clone for Column { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n"
    out += STAND + SPEC
    out += units.load("clauses").tags(u, ty)
    SIGNS = {"=": "Equal", "<>": "Other", "<": "Less", "<=": "LessOrEqual", ">": "Greater", ">=": "GreaterOrEqual", "MATCH": "Match"}

    def signs(f):
        def one(h):
            if h.group(1) not in SIGNS:
                raise extract.LostAnchor("operator %s" % h.group(1))
            return "Sign::" + SIGNS[h.group(1)]
        f.body = re.sub(r'"([^"]*)"', one, f.body)
        f.rewrites.append("%s: operators by name" % f.name)
        return f

    V = r"impl SQLValueType for ValueType\b"
    out += "impl ValueType {\n"
    out += u.emit(st.fn("sql_representation", V).ret("r").sub(r"match \*self", "match self", "reference patterns", minimum=0), "ensures r == (tag_for(*self), affinity_for(*self))")
    out += u.emit(st.fn("value_type_tag", V).ret("r"), "ensures r == tag_for(*self)")
    f = st.fn("accommodates_integer", V).ret("r").sub(r"match \*self", "match self", "reference patterns", minimum=0).sub(r"use crate::ValueType::\*;", "", "names in full", minimum=0)
    f.sub(r"(?<![:\w])(Instant|Long|Double|Ref|Boolean|Keyword|Uuid)\b", r"ValueType::\1", "names in full", count=0, minimum=0)
    f.subhead(r"\bint\b", "int_", "a word of Verus").sub(r"\bint\b", "int_", "a word of Verus", count=0, minimum=0)
    out += u.emit(f, "ensures *self is Boolean ==> r == (int_ == 0 || int_ == 1)") + "}\n"
    f = signs(ty.fn("to_sql_operator", r"impl Inequality\b").ret("r")).subhead(r"&'static str", "Sign", "operators by name")
    f.sub(r"use self::Inequality::\*;", "", "names in full", minimum=0).sub(r"(?<![:\w])(\w+) =>", r"Inequality::\1 =>", "names in full", count=0)
    out += "impl Inequality {\n" + u.emit(f, "ensures r == sign_for(self)") + "}\n"
    f = sq.fn("from", r"impl From<QueryValue> for ColumnOrExpression\b").ret("r").subhead(r"\bSelf\b", "ColumnOrExpression", "a function of its own").subhead(r"\bfrom\b", "expression_for", "a function of its own")
    out += u.emit(f, "ensures r == meant(v)")
    out += "impl Constraint {\n"
    for n, s in (("equal", "Equal"), ("not_equal", "Other")):
        out += u.emit(signs(sq.fn(n, r"impl Constraint\b").ret("r")), "ensures r == (Constraint::Infix { op: Op(Sign::%s), left, right })" % s)
    out += "}\nimpl QualifiedAlias {\n" + u.emit(tr.fn("to_column", r"impl ToColumn for QualifiedAlias\b").ret("r"), "ensures r == ColumnOrExpression::Column(self)") + "}\n"
    QA = lambda f: f.sub(r"QualifiedAlias::new\(((?:[^(),]|\(\))+), (DatomsColumn::\w+)\)", r"QualifiedAlias(\1, Column::Fixed(\2))", "a fixed column", count=0, minimum=0)

    f = tr.fn("affinity_count").ret("r")
    f.sub(r"^\{\s*ValueTypeSet::any\(\)\s*\.into_iter\(\)\s*\.filter\(\|(\w+)\| ([^|]*?)\)\s*\.count\(\)\s*\}\s*$",
          r"""{ let any_ = ValueTypeSet::any(); let all_ = any_.members(); let ghost any_s = any_@; let mut n_: usize = 0; let mut i_: usize = 0; while i_ < all_.len() { let \1 = &all_[i_]; i_ = i_ + 1; if \2 { n_ = n_ + 1; } } proof { assert forall|y: ValueType| all_@.contains(y) by { assert(any_s.contains(y)); let i = choose|i: int| 0 <= i < all_@.len() && #[trigger] all_@[i] == y; } two(all_@, tag); } n_ }""", "filter and count as a loop")
    f.annotate([dict(kind="while", invariant="invariant i_ <= all_@.len() <= 8, n_ == of_tag(all_@, i_ as int, tag), n_ <= i_, decreases all_@.len() - i_,")])
    out += COUNT + u.emit(f, "ensures tag == 5 ==> r == 2")
    f = QA(tr.fn("type_constraint")).ret("r")
    f.sub(r"constraints: affinities\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| (Constraint::TypeCheck \{[^{}]*\})\)\s*\.collect\(\),",
          r"""constraints: { let n_ = affinities.len(); let mut out_: Vec<Constraint> = Vec::new(); let mut i_: usize = 0; while i_ < n_ { let \1 = affinities[i_]; i_ = i_ + 1; out_.push(\2); } out_ },""", "map as a loop")
    f.annotate([dict(kind="while", invariant="""invariant i_ <= n_, n_ == affinities@.len(), out_@.len() == i_, forall|k: int| 0 <= k < i_ ==> #[trigger] out_@[k] == (Constraint::TypeCheck { value: ColumnOrExpression::Column(QualifiedAlias(*table, Column::Fixed(DatomsColumn::Value))), affinity: affinities@[k] }),
        decreases n_ - i_,""")])
    f.sub(r"Constraint::And \{\s*constraints: vec!\[(\w+), (\w+)\],\s*\}", r"""let both_ = vec![\1, \2]; let ghost b_ = both_; let r_ = Constraint::And { constraints: both_ };
        proof { assert forall|m: Rows| #[trigger] sql(m, r_) <==> tag_at(m, *table) == tag && one_of(m, *table, to_check->0@) by { and_is(m, b_); assert(b_@.len() == 2); checked(m, *table, tag, to_check->0@, b_@[0], b_@[1]); if sql(m, r_) { assert(sql(m, b_@[0]) && sql(m, b_@[1])); } } }
        r_""", "a value of its own")
    out += CHECK + u.emit(f, "ensures forall|m: Rows| #[trigger] sql(m, r) <==> tag_at(m, *table) == tag && (to_check matches Some(a) ==> one_of(m, *table, a@))")
    f = tr.fn("possible_affinities").ret("r")
    f.sub(r"HashMap::with_capacity\([^;]*\);", "HashMap::new();", "a capacity has no effect", minimum=0)
    f.sub(r"for (\w+) in value_types \{", r"let all_ = value_types.members(); let mut i_: usize = 0; while i_ < all_.len() { let \1 = all_[i_]; let ghost m_ = result@; i_ = i_ + 1;", "the loop by position")
    h = re.search(r"let (\w+) = result\.entry\((\w+)\)\.or_insert_with\(Vec::new\);", f.body)
    if not h:
        raise extract.LostAnchor("possible_affinities: its entry")
    f.sub(r"let (\w+) = result\.entry\((\w+)\)\.or_insert_with\(Vec::new\);", r"let mut \1 = match result.remove(&\2) { Some(v_) => v_, None => Vec::new() }; let ghost o_ = \1@;", "an entry taken out and put back")
    e = f.body.rindex("}", 0, f.body.rindex("}", 0, f.body.rindex("result")) + 1)
    f.body = f.body[:e] + "let ghost n_ = %s@; result.insert(%s, %s); proof { assert(o_ == (if m_.contains_key(%s) { m_[%s]@ } else { Seq::empty() })); one_more(m_, result@, all_@, i_ - 1, o_, n_); } " % (h.group(1), h.group(2), h.group(1), h.group(2), h.group(2)) + f.body[e:]
    f.annotate([dict(kind="while", invariant="invariant i_ <= all_@.len(), members_of(value_types@, all_@), affinities_ok(first(all_@, i_ as int), result@), decreases all_@.len() - i_,", after="proof { members_are(value_types@, all_@); }")])
    out += AFFINITIES + u.emit(f, "ensures affinities_ok(value_types@, r@)")

    f = tr.fn("to_constraint", r"impl ToConstraint for ColumnConstraint\b").ret("r")
    f.sub(r'\.expect\("[^"]*"\)', ".unwrap()", "expect as unwrap", count=0, minimum=0)
    QA(signs(f))
    f.sub(r"use self::ColumnConstraint::\*;", "", "names in full", minimum=0)
    f.sub(r"(?<![:\w])(Equals|Matches|NotExists)\(", r"ColumnConstraint::\1(", "names in full", count=0).sub(r"(?<![:\w])(Inequality|HasTypes) \{", r"ColumnConstraint::\1 {", "names in full", count=0)
    f.sub(r"(left|right)\.into\(\)", r"expression_for(\1)", "conversion of a value", count=0)
    m = re.search(r"possible_affinities\(value_types\)\s*\.into_iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\| (\{.*?\})\)\s*\.collect\(\)\s*\}\s*else\s*\{\s*value_types\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| (.*?)\)\s*\.collect\(\)\s*\}", f.body, re.S)
    if not m:
        raise extract.LostAnchor("to_constraint: types")
    a, b, inner, c, one = m.groups()
    body = """let pa_ = possible_affinities(value_types); let ghost g_ = pa_@; let es_ = pa_.into_entries(); let n_ = es_.len(); let mut out_: Vec<Constraint> = Vec::new(); let mut es_ = es_; let ghost e0_ = es_@; let mut i_: usize = 0;
        while i_ < n_ invariant i_ <= n_, n_ == e0_.len(), es_@ == e0_.skip(i_ as int), entries_of(g_, e0_), affinities_ok(value_types@, g_), out_@.len() == i_, forall|m: Rows, k: int| 0 <= k < i_ && stored(m) ==> (#[trigger] sql(m, out_@[k]) <==> tag_said(m, table, value_types@, e0_[k].0)), decreases n_ - i_,
        { let (%s, %s) = es_.remove(0); let ghost aff_ = %s@; proof { assert(e0_[i_ as int] == (%s, %s)); assert(e0_.skip(i_ as int).remove(0) =~= e0_.skip(i_ + 1)); } let c_: Constraint = %s;
          proof { assert forall|m: Rows| stored(m) implies (#[trigger] sql(m, c_) <==> tag_said(m, table, value_types@, e0_[i_ as int].0)) by { said(m, table, value_types@, g_, e0_[i_ as int].0, aff_); } }
          out_.push(c_); i_ = i_ + 1; }
        proof { assert forall|m: Rows| stored(m) implies (#[trigger] sql(m, Constraint::Or { constraints: out_ }) <==> asks(m, self)) by { or_is(m, out_); all_said(m, table, value_types@, g_, e0_, out_@); } }
        out_ } else { let all_ = value_types.members(); let n_ = all_.len(); let mut out_: Vec<Constraint> = Vec::new(); let mut i_: usize = 0;
        while i_ < n_ invariant i_ <= n_, n_ == all_@.len(), members_of(value_types@, all_@), out_@.len() == i_, forall|m: Rows, k: int| 0 <= k < i_ ==> (#[trigger] sql(m, out_@[k]) <==> tag_at(m, table) == tag_for(all_@[k])), decreases n_ - i_,
        { let %s = all_[i_]; out_.push(%s); i_ = i_ + 1; }
        proof { assert forall|m: Rows| stored(m) implies (#[trigger] sql(m, Constraint::Or { constraints: out_ }) <==> asks(m, self)) by { or_is(m, out_); tags_said(m, table, value_types@, all_@, out_@); } }
        out_ }""" % (a, b, b, a, b, inner, c, one)
    f.body = f.body[:m.start()] + body + f.body[m.end():]
    f.rewrites.append("to_constraint: map and collect as loops")
    i = f.body.find("Constraint::And {")
    if i < 0:
        raise extract.LostAnchor("to_constraint: numbers")
    j = extract.close_of(extract.mask(f.body), f.body.index("{", i))
    g = re.match(r"\{\s*constraints: (vec!\[.*\]),?\s*\}$", f.body[f.body.index("{", i):j + 1], re.S)
    if not g:
        raise extract.LostAnchor("to_constraint: numbers")
    f.body = f.body[:i] + """{ let both_ = %s; let ghost b_ = both_; proof { assert forall|m: Rows| #[trigger] sql(m, Constraint::And { constraints: b_ }) <==> asks(m, self) by { and_is(m, b_); assert(b_@.len() == 2); if sql(m, Constraint::And { constraints: b_ }) { assert(sql(m, b_@[0]) && sql(m, b_@[1])); } } } Constraint::And { constraints: both_ } }""" % g.group(1) + f.body[j + 1:]
    out += SAID + "impl ColumnConstraint {\n" + u.emit(f, "requires fit(self) ensures forall|m: Rows| stored(m) ==> (#[trigger] sql(m, r) <==> asks(m, self))") + "}\n"
    for name, item, kind, asks in (("ColumnIntersection", "asks_item", "And", "asks_all"), ("ColumnAlternation", "asks_all", "Or", "asks_any")):
        f = tr.fn("to_constraint", r"impl ToConstraint for %s\b" % name).ret("r")
        f.sub(r"constraints: self\.into_iter\(\)\.map\(\|(\w+)\| ([^|]*)\)\.collect\(\),", r"""constraints: { let mut v_ = self.0; let ghost s_ = v_@; let n_ = v_.len(); let mut out_: Vec<Constraint> = Vec::new(); let mut i_: usize = 0;
        while i_ < n_ invariant i_ <= n_, n_ == s_.len(), s_ == self.0@, v_@ == s_.skip(i_ as int), out_@.len() == i_, forall|k: int| 0 <= k < n_ ==> %s(#[trigger] s_[k]), forall|m: Rows, k: int| 0 <= k < i_ && stored(m) ==> (#[trigger] sql(m, out_@[k]) <==> %s(m, s_[k])), decreases n_ - i_,
        { let \1 = v_.remove(0); proof { assert(\1 == s_[i_ as int]); assert(s_.skip(i_ as int).remove(0) =~= s_.skip(i_ + 1)); } out_.push(\2); i_ = i_ + 1; }
        proof { assert forall|m: Rows| stored(m) implies (#[trigger] sql(m, Constraint::%s { constraints: out_ }) <==> %s(m, self)) by { and_is(m, out_); or_is(m, out_); assert forall|k: int| 0 <= k < n_ implies (sql(m, #[trigger] out_@[k]) <==> %s(m, s_[k])) by {} assert forall|k: int| 0 <= k < n_ implies (%s(m, #[trigger] s_[k]) <==> sql(m, out_@[k])) by {} } }
        out_ },""" % ({"asks_item": "fit_item", "asks_all": "fit_all"}[item], item, kind, asks, item, item), "map as a loop")
        out += "impl %s {\n#[verifier::exec_allows_no_decreases_clause]\n" % name + u.emit(f, "requires %s(self) ensures forall|m: Rows| stored(m) ==> (#[trigger] sql(m, r) <==> %s(m, self))" % ({"asks_all": "fit_all", "asks_any": "fit_any"}[asks], asks)) + "}\n"
    f = tr.fn("to_constraint", r"impl ToConstraint for ColumnConstraintOrAlternation\b").ret("r").sub(r"use self::ColumnConstraintOrAlternation::\*;", "", "names in full", minimum=0)
    f.sub(r"(?<![:\w])(Alternation|Constraint)\(", r"ColumnConstraintOrAlternation::\1(", "names in full", count=0)
    out += "impl ColumnConstraintOrAlternation {\n#[verifier::exec_allows_no_decreases_clause]\n" + u.emit(f, "requires fit_item(self) ensures forall|m: Rows| stored(m) ==> (#[trigger] sql(m, r) <==> asks_item(m, self))") + "}\n"
    return out


COUNT = """
proof fn two(all: Seq<ValueType>, t: i32) requires once(all), forall|y: ValueType| all.contains(y) ensures t == 5 ==> of_tag(all, all.len() as int, t) == 2 {
    if t == 5 { assert(all.contains(ValueType::Long)); assert(all.contains(ValueType::Double)); let a = all.index_of(ValueType::Long); let b = all.index_of(ValueType::Double); counted(all, all.len() as int, a, b); } }
proof fn counted(all: Seq<ValueType>, n: int, a: int, b: int) requires once(all), 0 <= n <= all.len(), 0 <= a < all.len(), 0 <= b < all.len(), all[a] == ValueType::Long, all[b] == ValueType::Double
    ensures of_tag(all, n, 5) == (if a < n { 1int } else { 0int }) + (if b < n { 1int } else { 0int }) decreases n { if n > 0 { counted(all, n - 1, a, b); let y = all[n - 1]; } }
"""

CHECK = """
proof fn and_is(m: Rows, c: Vec<Constraint>) ensures sql(m, Constraint::And { constraints: c }) <==> (forall|k: int| 0 <= k < c@.len() ==> sql(m, #[trigger] c@[k])) {
    let r = Constraint::And { constraints: c };
    if sql(m, r) { assert forall|k: int| 0 <= k < c@.len() implies sql(m, #[trigger] c@[k]) by { } }
    if forall|k: int| 0 <= k < c@.len() ==> sql(m, #[trigger] c@[k]) { assert(r->And_constraints == c); assert forall|i: int| 0 <= i < c@.len() implies sql(m, #[trigger] r->And_constraints@[i]) by { assert(sql(m, c@[i])); } assert(sql(m, r)); } }
proof fn or_is(m: Rows, c: Vec<Constraint>) ensures sql(m, Constraint::Or { constraints: c }) <==> (exists|k: int| 0 <= k < c@.len() && sql(m, #[trigger] c@[k])) { }
pub open spec fn one_of(m: Rows, t: TableAlias, a: Seq<SQLTypeAffinity>) -> bool { exists|i: int| 0 <= i < a.len() && affinity_at(m, t) == #[trigger] a[i] }
proof fn checked(m: Rows, t: TableAlias, tag: i32, a: Seq<SQLTypeAffinity>, x: Constraint, y: Constraint)
    requires x == (Constraint::Infix { op: Op(Sign::Equal), left: ColumnOrExpression::Column(QualifiedAlias(t, Column::Fixed(DatomsColumn::ValueTypeTag))), right: ColumnOrExpression::Integer(tag) }),
        y matches Constraint::Or { constraints: c } && c@.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] c@[k] == (Constraint::TypeCheck { value: ColumnOrExpression::Column(QualifiedAlias(t, Column::Fixed(DatomsColumn::Value))), affinity: a[k] })
    ensures sql(m, x) <==> tag_at(m, t) == tag, sql(m, y) <==> one_of(m, t, a)
{ let c = y->Or_constraints@; assert forall|k: int| 0 <= k < a.len() implies (sql(m, #[trigger] c[k]) <==> affinity_at(m, t) == a[k]) by {}
  if one_of(m, t, a) { let k = choose|i: int| 0 <= i < a.len() && affinity_at(m, t) == #[trigger] a[i]; assert(sql(m, c[k])); } 
  if sql(m, y) { let k = choose|i: int| 0 <= i < c.len() && sql(m, #[trigger] c[i]); assert(affinity_at(m, t) == a[k]); } }
"""

AFFINITIES = """
proof fn members_are(s: Set<ValueType>, all: Seq<ValueType>) requires members_of(s, all) ensures first(all, all.len() as int) == s { let t = first(all, all.len() as int); assert(all.take(all.len() as int) =~= all);
    assert forall|y: ValueType| t.contains(y) <==> s.contains(y) by { if s.contains(y) { let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == y; assert(all.contains(y)); } if t.contains(y) { assert(all.contains(y)); } } assert(t =~= s); }
pub open spec fn first(all: Seq<ValueType>, n: int) -> Set<ValueType> { all.take(n).to_set() }
proof fn one_more(a: Map<i32, Vec<SQLTypeAffinity>>, b: Map<i32, Vec<SQLTypeAffinity>>, all: Seq<ValueType>, n: int, o: Seq<SQLTypeAffinity>, w: Seq<SQLTypeAffinity>)
    requires 0 <= n < all.len(), once(all), affinities_ok(first(all, n), a), ({ let t = tag_for(all[n]); o == (if a.contains_key(t) { a[t]@ } else { Seq::empty() }) && b.dom() =~= a.dom().insert(t) && b[t]@ == w && (forall|x: i32| x != t && a.contains_key(x) ==> #[trigger] b[x] == a[x]) && w == (match affinity_for(all[n]) { Some(f) => o.push(f), None => o }) })
    ensures affinities_ok(first(all, n + 1), b)
{
    let t = tag_for(all[n]); let s = first(all, n); let s2 = first(all, n + 1); let y = all[n];
    assert(all.take(n + 1) =~= all.take(n).push(y));
    assert forall|x: ValueType| s2.contains(x) <==> s.contains(x) || x == y by { if s.contains(x) { let i = choose|i: int| 0 <= i < n && #[trigger] all.take(n)[i] == x; assert(all.take(n + 1)[i] == x); } if s2.contains(x) && x != y { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] all.take(n + 1)[i] == x; assert(all.take(n)[i] == x); } if x == y { assert(all.take(n + 1)[n] == y); } }
    assert(!s.contains(y)) by { if s.contains(y) { let i = choose|i: int| 0 <= i < n && #[trigger] all.take(n)[i] == y; assert(all[i] == all[n]); } }
    assert forall|x: i32| #[trigger] b.contains_key(x) <==> possible(s2, x) by { if possible(s, x) { let z = choose|z: ValueType| #[trigger] s.contains(z) && tag_for(z) == x; assert(s2.contains(z)); } if x == t { assert(s2.contains(y)); } if possible(s2, x) && x != t { let z = choose|z: ValueType| #[trigger] s2.contains(z) && tag_for(z) == x; assert(s.contains(z)); } assert(a.contains_key(x) <==> possible(s, x)); }
    assert forall|x: i32, f: SQLTypeAffinity| #![trigger b[x]@.contains(f)] b.contains_key(x) implies (b[x]@.contains(f) <==> wanted(s2, x, f)) by {
        if wanted(s, x, f) { let z = choose|z: ValueType| #[trigger] s.contains(z) && tag_for(z) == x && affinity_for(z) == Some(f); assert(s2.contains(z)); assert(a.contains_key(x)); assert(a[x]@.contains(f)); }
        if a.contains_key(x) { assert(a[x]@.contains(f) <==> wanted(s, x, f)); } else if x == t { assert(!o.contains(f)); if wanted(s, x, f) { } }
        if wanted(s2, x, f) { let z = choose|z: ValueType| #[trigger] s2.contains(z) && tag_for(z) == x && affinity_for(z) == Some(f); if z != y { assert(s.contains(z)); assert(wanted(s, x, f)); } else { assert(w[o.len() as int] == f); assert(w.contains(f)); } }
        if x == t { assert(s2.contains(y)); if o.contains(f) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == f; assert(w[i] == f); } if w.contains(f) && !o.contains(f) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == f; if i < o.len() { assert(o[i] == f); } assert(affinity_for(y) == Some(f)); assert(wanted(s2, x, f)); } }
    }
    assert forall|x: i32| b.contains_key(x) implies once((#[trigger] b[x])@) by { if x == t { if affinity_for(y) is Some { let f = affinity_for(y)->0; assert(!o.contains(f)) by { if o.contains(f) { assert(a[t]@.contains(f)); let z = choose|z: ValueType| #[trigger] s.contains(z) && tag_for(z) == t && affinity_for(z) == Some(f); assert(z == y); } }
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies #[trigger] w[i] != #[trigger] w[j] by { if a.contains_key(t) { assert(once(a[t]@)); } if i < o.len() { assert(w[i] == o[i]); assert(o.contains(o[i])); } if j < o.len() { assert(w[j] == o[j]); assert(o.contains(o[j])); } } } else if a.contains_key(t) { assert(once(a[t]@)); } } else { assert(a.contains_key(x)); assert(b[x] == a[x]); } }
}
"""

SAID = """
// The row's type is one of these, and stored with this tag.
pub open spec fn tag_said(m: Rows, t: TableAlias, s: Set<ValueType>, tag: i32) -> bool { exists|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == tag && is_of(m, t, y) }
proof fn said(m: Rows, t: TableAlias, s: Set<ValueType>, g: Map<i32, Vec<SQLTypeAffinity>>, tag: i32, a: Seq<SQLTypeAffinity>)
    requires stored(m), affinities_ok(s, g), g.contains_key(tag), g[tag]@ == a
    ensures (a.len() == 0 || (tag == 5 ==> a.len() == 2)) ==> (tag_at(m, t) == tag <==> tag_said(m, t, s, tag)), a.len() > 0 ==> ((tag_at(m, t) == tag && one_of(m, t, a)) <==> tag_said(m, t, s, tag)), a.len() > 0 ==> tag == 5
{
    assert(possible(s, tag)); let p = choose|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == tag;
    assert(row_of(m, t)); let q = choose|y: ValueType| #[trigger] typed(m, t, y);
    if a.len() == 0 { if affinity_for(p) is Some { assert(wanted(s, tag, affinity_for(p)->0)); assert(a.contains(affinity_for(p)->0)); } }
    else { assert(a.contains(a[0])); assert(wanted(s, tag, a[0])); assert(tag == 5);
        if a.len() == 2 { assert(a.contains(a[1])); assert(wanted(s, tag, a[1])); assert(once(g[tag]@)); assert(a[0] != a[1]); }
        if tag_at(m, t) == tag && one_of(m, t, a) { let k = choose|i: int| 0 <= i < a.len() && affinity_at(m, t) == #[trigger] a[i]; assert(a.contains(a[k])); assert(wanted(s, tag, a[k])); }
        if tag_said(m, t, s, tag) { let y = choose|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == tag && is_of(m, t, y); assert(wanted(s, tag, affinity_for(y)->0)); assert(a.contains(affinity_for(y)->0)); } }
}
proof fn all_said(m: Rows, t: TableAlias, s: Set<ValueType>, g: Map<i32, Vec<SQLTypeAffinity>>, e: Seq<(i32, Vec<SQLTypeAffinity>)>, c: Seq<Constraint>)
    requires affinities_ok(s, g), entries_of(g, e), c.len() == e.len(), forall|k: int| 0 <= k < c.len() ==> (sql(m, #[trigger] c[k]) <==> tag_said(m, t, s, e[k].0))
    ensures (exists|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k])) <==> (exists|y: ValueType| #[trigger] s.contains(y) && is_of(m, t, y))
{
    if exists|y: ValueType| #[trigger] s.contains(y) && is_of(m, t, y) { let y = choose|y: ValueType| #[trigger] s.contains(y) && is_of(m, t, y); assert(possible(s, tag_for(y))); assert(g.contains_key(tag_for(y))); let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).0 == tag_for(y); assert(tag_said(m, t, s, e[k].0)); assert(sql(m, c[k])); }
    if exists|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k]) { let k = choose|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k]); assert(tag_said(m, t, s, e[k].0)); let y = choose|y: ValueType| #[trigger] s.contains(y) && tag_for(y) == e[k].0 && is_of(m, t, y); }
}
proof fn tags_said(m: Rows, t: TableAlias, s: Set<ValueType>, all: Seq<ValueType>, c: Seq<Constraint>)
    requires members_of(s, all), c.len() == all.len(), forall|k: int| 0 <= k < c.len() ==> (sql(m, #[trigger] c[k]) <==> tag_at(m, t) == tag_for(all[k]))
    ensures (exists|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k])) <==> (exists|y: ValueType| #[trigger] s.contains(y) && tag_at(m, t) == tag_for(y))
{
    if exists|y: ValueType| #[trigger] s.contains(y) && tag_at(m, t) == tag_for(y) { let y = choose|y: ValueType| #[trigger] s.contains(y) && tag_at(m, t) == tag_for(y); let k = choose|k: int| 0 <= k < all.len() && (#[trigger] all[k]) == y; assert(sql(m, c[k])); }
    if exists|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k]) { let k = choose|k: int| 0 <= k < c.len() && sql(m, #[trigger] c[k]); assert(s.contains(all[k])); }
}
"""
