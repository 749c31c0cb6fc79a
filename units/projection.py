"""C17: what a find spec projects, and where the projector finds it (query-projector/src/project.rs,
query-projector-traits/aggregates.rs)."""
import re
import units, extract
T = units.load("types")


def build(u):
    p, ag = u.src("query-projector/src/project.rs"), u.src("query-projector-traits/aggregates.rs")
    pl, q, sq, al = u.src("query-projector/src/pull.rs"), u.src("edn/src/query.rs"), u.src("query-sql/src/lib.rs"), u.src("query-algebrizer/src/types.rs")
    cl, core, lib, ut = u.src("query-algebrizer/src/clauses/mod.rs"), u.src("core-traits/lib.rs"), u.src("query-projector/src/lib.rs"), u.src("core/src/util.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",)) + T.text(u, ["names::one_tag"])
    u.assume("different variables have different columns, and none the column of another's type tag (VariableColumn::column_name: replayed, not proved)")
    u.assume("ValueTypeSet: has_unique_type_tag says whether unique_type_tag gives a tag, and of_one has the tag of its type (bit sets: Kani, C15)")
    u.assume("IndexSet keeps what was inserted, once, in order")
    u.assume("a query has fewer find elements than half the address space")
    for name in ("Expression", "ColumnOrExpression"):
        pass
    out += """
#[verifier::external_body] pub struct Variable { x: () }
impl Clone for Variable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub mod names { use vstd::prelude::*; use super::Variable; use super::ValueType; use super::ValueTypeSet;
pub uninterp spec fn vtag(t: ValueType) -> i32;
pub uninterp spec fn unique(s: ValueTypeSet) -> Option<i32>;
pub uninterp spec fn one(t: ValueType) -> ValueTypeSet;
pub uninterp spec fn vcol(v: Variable) -> Seq<u8>;
pub uninterp spec fn tcol(v: Variable) -> Seq<u8>;
pub broadcast axiom fn vcols(a: Variable, b: Variable) ensures #[trigger] vcol(a) == #[trigger] vcol(b) ==> a == b;
pub broadcast axiom fn tcols(a: Variable, b: Variable) ensures #[trigger] tcol(a) == #[trigger] tcol(b) ==> a == b;
pub broadcast axiom fn one_tag(t: ValueType) ensures #[trigger] unique(one(t)) == Some(vtag(t));
pub broadcast axiom fn apart(a: Variable, b: Variable) ensures #[trigger] vcol(a) != #[trigger] tcol(b);
}
pub use names::*;
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() } }
pub type Name = Text;
#[verifier::external_body] pub struct QualifiedAlias { x: () }
impl Clone for QualifiedAlias { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct ValueTypeSet { x: u16 }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
""" + u.struct(core, "ValueType") + """
pub type ValueTypeTag = i32;
pub uninterp spec fn members(s: ValueTypeSet) -> Set<ValueType>;
pub open spec fn all_numeric(s: ValueTypeSet) -> bool { forall|t: ValueType| #[trigger] members(s).contains(t) ==> t == ValueType::Long || t == ValueType::Double }
pub uninterp spec fn anything() -> ValueTypeSet;
pub uninterp spec fn value_type_of(v: TypedValue) -> ValueType;
impl ValueType { #[verifier::external_body] pub fn value_type_tag(&self) -> (r: i32) ensures r == vtag(*self) { unimplemented!() } }
impl TypedValue { #[verifier::external_body] pub fn value_type(&self) -> (r: ValueType) ensures r == value_type_of(*self) { unimplemented!() } }
impl ValueTypeSet {
  #[verifier::external_body] pub fn unique_type_tag(&self) -> (r: Option<i32>) ensures r == unique(*self) { unimplemented!() }
  #[verifier::external_body] pub fn has_unique_type_tag(&self) -> (r: bool) ensures r == (unique(*self) is Some) { unimplemented!() }
  #[verifier::external_body] pub fn of_one(t: ValueType) -> (r: Self) ensures r == one(t), unique(r) == Some(vtag(t)), members(r) =~= set![t] { unimplemented!() }
  #[verifier::external_body] pub fn any() -> (r: Self) ensures r == anything() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (members(*self) =~= Set::<ValueType>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn is_unit(&self) -> (r: bool) ensures r == (members(*self).len() == 1) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, t: ValueType) -> (r: bool) ensures r == members(*self).contains(t) { unimplemented!() }
  #[verifier::external_body] pub fn is_only_numeric(&self) -> (r: bool) ensures r == all_numeric(*self) { unimplemented!() }
  #[verifier::external_body] pub fn exemplar(&self) -> (r: Option<ValueType>)
    ensures r is None <==> members(*self) =~= Set::<ValueType>::empty(), r is Some ==> members(*self).contains(r->Some_0), members(*self).len() == 1 ==> r is Some && members(*self) =~= set![r->Some_0] { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct IndexSet<T> { x: T }
impl<T> IndexSet<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, t: T) -> (r: bool) ensures r == !old(self)@.contains(t), final(self)@ == (if old(self)@.contains(t) { old(self)@ } else { old(self)@.push(t) }),
      forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) || x == t { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
// outer, each paired with true, then corresponds, each paired with false.
#[verifier::external_body] pub fn marked_(outer: IndexSet<Variable>, corresponds: IndexSet<Variable>) -> (r: Vec<(Variable, bool)>)
  ensures r@.len() == outer@.len() + corresponds@.len(),
    forall|i: int| 0 <= i < outer@.len() ==> #[trigger] r@[i] == (outer@[i], true),
    forall|i: int| outer@.len() <= i < r@.len() ==> #[trigger] r@[i] == (corresponds@[i - outer@.len()], false) { unimplemented!() }
#[verifier::external_body] pub fn nth_<T>(v: &Vec<T>, i: usize) -> (r: Option<T>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
""" + u.struct(ut, "Either") + u.struct(sq, "Expression") + u.struct(sq, "ColumnOrExpression") + u.struct(sq, "ProjectedColumn") + u.struct(sq, "Projection") + u.struct(sq, "GroupBy") + u.struct(al, "VariableColumn")
    out += u.struct(lib, "TypedIndex") + "pub type Index = usize;\n"
    out += "#[verifier::external_body] pub struct Patterns { x: () }\nimpl Patterns { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n"
    out += u.struct(pl, "PullIndices") + u.struct(pl, "PullTemplate") + "pub struct PullOperation(pub Patterns);\n"
    out += u.struct(q, "Element") + u.struct(q, "Pull").replace("Vec<PullAttributeSpec>", "Patterns") + "#[verifier::external_body] pub struct Aggregate { x: () }\n"
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(ag, "SimpleAggregationOp") + u.struct(ag, "SimpleAggregate") + u.struct(p, "ProjectedElements")
    out += """
pub uninterp spec fn simple_of(a: Aggregate) -> Option<SimpleAggregate>;
impl Aggregate { #[verifier::external_body] pub fn to_simple(&self) -> (r: Option<SimpleAggregate>) ensures r == simple_of(*self) { unimplemented!() } }
impl VariableColumn {
  #[verifier::external_body] pub fn column_name(&self) -> (r: Text) ensures r@ == (match *self { VariableColumn::Variable(v) => vcol(v), VariableColumn::VariableTypeTag(v) => tcol(v) }) { unimplemented!() }
}
// The fields of a query and of its conjoining clauses that the projection looks at.
pub struct ConjoiningClauses { pub value_bindings: BTreeMap<Variable, TypedValue>, pub column_bindings: BTreeMap<Variable, Vec<QualifiedAlias>>,
    pub extracted_types: BTreeMap<Variable, QualifiedAlias>, pub known_types: BTreeMap<Variable, ValueTypeSet> }
pub struct AlgebraicQuery { pub with: BTreeSet<Variable>, pub named_projection: BTreeSet<Variable>, pub cc: ConjoiningClauses }
pub type CC = ConjoiningClauses;
pub open spec fn known(cc: CC, v: Variable) -> ValueTypeSet { if cc.known_types@.contains_key(v) { cc.known_types@[v] } else { anything() } }
pub open spec fn bound(cc: CC, v: Variable) -> bool { cc.value_bindings@.contains_key(v) }
pub open spec fn var_types(cc: CC, v: Variable) -> ValueTypeSet { if bound(cc, v) { one(value_type_of(cc.value_bindings@[v])) } else { known(cc, v) } }
// The column, or the value, of a variable.
pub open spec fn is_vcol(pc: ProjectedColumn, v: Variable, cc: CC) -> bool {
    pc.1@ == vcol(v) && if bound(cc, v) { pc.0 == ColumnOrExpression::Value(cc.value_bindings@[v]) }
    else { cc.column_bindings@.contains_key(v) && cc.column_bindings@[v]@.len() > 0 && pc.0 == ColumnOrExpression::Column(cc.column_bindings@[v]@[0]) }
}
pub open spec fn is_tcol(pc: ProjectedColumn, v: Variable, cc: CC) -> bool {
    pc.1@ == tcol(v) && cc.extracted_types@.contains_key(v) && pc.0 == ColumnOrExpression::Column(cc.extracted_types@[v])
}
impl ConjoiningClauses {
"""
    W = r"impl ConjoiningClauses\b"
    f = cl.fn("bound_value", W).ret("r")
    f.sub(r"self\.value_bindings\.get\((\w+)\)\.cloned\(\)", r"match self.value_bindings.get(\1) { Some(x) => Some(x.clone()), None => None }", "cloned")
    out += u.emit(f, "ensures r == (if bound(*self, *var) { Some(self.value_bindings@[*var]) } else { None })")
    out += u.emit(cl.fn("is_value_bound", W).ret("r"), "ensures r == bound(*self, *var)")
    f = cl.fn("known_type_set", W).ret("r")
    f.sub(r"self\s*\.known_types\s*\.get\((\w+)\)\s*\.cloned\(\)\s*\.unwrap_or_else\(ValueTypeSet::any\)", r"match self.known_types.get(\1) { Some(x) => *x, None => ValueTypeSet::any() }", "cloned, unwrap_or_else")
    out += u.emit(f, "ensures r == known(*self, *var)") + "}\n"

    # One variable.
    f = p.fn("candidate_type_column").ret("r")
    f.sub(r"cc\s*\.extracted_types\s*\.get\(var\)\s*\.cloned\(\)\s*\.map\(\|(\w+)\| (\{.*?\})\)\s*\.ok_or_else\(.*\)\s*\}$",
          r"match cc.extracted_types.get(var) { Some(a_) => { let \1 = a_.clone(); Ok(\2) } None => Err(Error::new()) } }", "map, ok_or_else")
    out += u.emit(f, "ensures r is Ok ==> is_tcol(ProjectedColumn(r->Ok_0.0, r->Ok_0.1), *var, *cc), r is Ok <==> cc.extracted_types@.contains_key(*var)")
    f = p.fn("cc_column").ret("r")
    f.sub(r"cc\s*\.column_bindings\s*\.get\(var\)\s*\.and_then\(\|(\w+)\| (.*?)\)\s*\.ok_or_else\(.*\)\s*\}$",
          r"match cc.column_bindings.get(var) { Some(\1) => match \2 { Some(x) => Ok(x), None => Err(Error::new()) }, None => Err(Error::new()) } }", "and_then, ok_or_else")
    f.sub(r"(\w+)\.get\((\d+)\)\.cloned\(\)", r"nth_(\1, \2)", "slice get and cloned")
    HASCOL = "cc.column_bindings@.contains_key(*var) && cc.column_bindings@[*var]@.len() > 0"
    out += u.emit(f, "ensures r is Ok <==> %s, r is Ok ==> r->Ok_0 == cc.column_bindings@[*var]@[0]" % HASCOL)
    f = p.fn("candidate_column").ret("r")
    f.sub(r"cc_column\(cc, var\)\.map\(\|(\w+)\| (\{.*?\})\)", r"match cc_column(cc, var) { Ok(\1) => Ok(\2), Err(e) => Err(e) }", "map")
    out += u.emit(f, "ensures r is Ok <==> %s, r is Ok ==> r->Ok_0.0 == ColumnOrExpression::Column(cc.column_bindings@[*var]@[0]) && r->Ok_0.1@ == vcol(*var)" % HASCOL)
    f = p.fn("projected_column_for_var").ret("r")
    f.sub(r"\(&var\)", "(var)", "reborrow", count=0, minimum=0)
    out += u.emit(f, "ensures r is Ok ==> is_vcol(r->Ok_0.0, *var, *cc) && r->Ok_0.1 == var_types(*cc, *var), bound(*cc, *var) ==> r is Ok")

    # Aggregates.
    out += """
pub open spec fn sql_op(op: SimpleAggregationOp) -> Seq<char> { match op { SimpleAggregationOp::Avg => "avg"@, SimpleAggregationOp::Count => "count"@, SimpleAggregationOp::Max => "max"@, SimpleAggregationOp::Min => "min"@, SimpleAggregationOp::Sum => "sum"@ } }
pub open spec fn orderable(t: ValueType) -> bool { t == ValueType::Double || t == ValueType::Long || t == ValueType::Instant || t == ValueType::Boolean || t == ValueType::String }
// What an aggregate over values of these types gives.
pub open spec fn result_type(op: SimpleAggregationOp, s: ValueTypeSet, t: ValueType) -> bool {
    match op {
        SimpleAggregationOp::Count => t == ValueType::Long,
        SimpleAggregationOp::Avg => all_numeric(s) && t == ValueType::Double,
        SimpleAggregationOp::Sum => all_numeric(s) && t == (if members(s).contains(ValueType::Double) { ValueType::Double } else { ValueType::Long }),
        _ => (members(s) =~= set![t] && orderable(t)) || (all_numeric(s) && t == (if members(s).contains(ValueType::Double) { ValueType::Double } else { ValueType::Long })),
    }
}
// The aggregate, applied to the column (or the value) of its variable.
pub open spec fn is_acol(pc: ProjectedColumn, a: SimpleAggregate, t: ValueType, cc: CC) -> bool {
    let e = match pc.0 { ColumnOrExpression::NullableAggregate(e, t2) => Some((*e, t2)), ColumnOrExpression::Expression(e, t2) => Some((*e, t2)), _ => None };
    &&& e matches Some(p) && p.1 == t && (p.0 matches Expression::Unary { sql_op: o, arg: g } && o@ == sql_op(a.op)
        && if bound(cc, a.var) { g == ColumnOrExpression::Value(cc.value_bindings@[a.var]) } else { g matches ColumnOrExpression::ExistingColumn(n) && n@ == vcol(a.var) })
    // over no rows a count is 0, the others are null
    &&& (pc.0 is NullableAggregate <==> a.op != SimpleAggregationOp::Count)
    &&& result_type(a.op, known(cc, a.var), t)
}
pub uninterp spec fn agg_name(a: SimpleAggregate) -> Seq<u8>;
impl SimpleAggregate { #[verifier::external_body] pub fn column_name(&self) -> (r: Text) ensures r@ == agg_name(*self) { unimplemented!() }
"""
    f = ag.fn("is_nullable", r"impl SimpleAggregate\b").ret("r")
    out += u.emit(f, "ensures r == (self.op != SimpleAggregationOp::Count)") + "}\nimpl SimpleAggregationOp {\n"
    f = ag.fn("to_sql", r"impl SimpleAggregationOp\b").ret("r")
    out += u.emit(f, "ensures r@ == sql_op(self)")
    f = ag.fn("is_applicable_to_types", r"impl SimpleAggregationOp\b").ret("r")
    f.macro("bail", units.bail(), "errors are opaque")
    f.sub(r"\.expect\(\"[^\"]*\"\)", ".unwrap()", "expect", count=0, minimum=0)
    out += u.emit(f, """
        ensures r is Ok ==> result_type(self, possibilities, r->Ok_0),
            forall|t: ValueType| #[trigger] result_type(self, possibilities, t) && !(members(possibilities) =~= Set::<ValueType>::empty()) ==> r is Ok,
    """) + "}\n"
    f = ag.fn("projected_column_for_simple_aggregate").ret("r")
    out += u.emit(f, "ensures r is Ok ==> is_acol(r->Ok_0.0, *simple, r->Ok_0.1, *cc)")

    # All of the find spec.
    out += LAYOUT
    for n, fld in (("take_templates", "templates"), ("take_pulls", "pulls")):
        f = p.fn(n, r"impl ProjectedElements\b").ret("r")
        f.sub(r"::std::mem::swap\(&mut out, &mut self\.(\w+)\);", r"swap_(&mut out, &mut self.\1);", "std::mem::swap")
        out += ("impl ProjectedElements {\n" if n == "take_templates" else "") + u.emit(f, "ensures r@ == old(self).%s@, final(self).sql_projection == old(self).sql_projection, final(self).group_by == old(self).group_by, final(self).pre_aggregate_projection == old(self).pre_aggregate_projection, final(self).%s == old(self).%s" % (fld, ("pulls", "templates")[fld == "pulls"], ("pulls", "templates")[fld == "pulls"]))
    out += "}\n" + STEPS + elements(u, p)
    return out


LAYOUT = """
#[verifier::external_body] pub fn swap_<T>(a: &mut Vec<T>, b: &mut Vec<T>) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
pub type Outer = Either<Name, ProjectedColumn>;
pub open spec fn var_of(e: Element) -> Option<Variable> { match e {
    Element::Variable(v) => Some(v), Element::Corresponding(v) => Some(v), Element::Pull(p) => Some(p.var), Element::Aggregate(a) => match simple_of(a) { Some(s) => Some(s.var), None => None } } }
// A variable by which an aggregate query groups.
pub open spec fn plain_var(e: Element) -> Option<Variable> { match e { Element::Variable(v) => Some(v), Element::Pull(p) => Some(p.var), _ => None } }
pub open spec fn the_var(e: Element) -> Option<Variable> { match e { Element::Corresponding(v) => Some(v), _ => None } }
pub open spec fn mentions(es: Seq<Element>, v: Variable) -> bool { exists|k: int| 0 <= k < es.len() && var_of(#[trigger] es[k]) == Some(v) }
pub open spec fn plain(es: Seq<Element>, v: Variable) -> bool { exists|k: int| 0 <= k < es.len() && plain_var(#[trigger] es[k]) == Some(v) }
pub open spec fn the(es: Seq<Element>, v: Variable) -> bool { exists|k: int| 0 <= k < es.len() && the_var(#[trigger] es[k]) == Some(v) }
pub open spec fn aggregated(es: Seq<Element>) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]) is Aggregate }
pub open spec fn is_minmax(e: Element) -> bool { e matches Element::Aggregate(a) && simple_of(a) is Some && (simple_of(a)->Some_0.op == SimpleAggregationOp::Min || simple_of(a)->Some_0.op == SimpleAggregationOp::Max) }
pub open spec fn minmax(es: Seq<Element>) -> nat decreases es.len() { if es.len() == 0 { 0 } else { minmax(es.drop_last()) + if is_minmax(es.last()) { 1nat } else { 0 } } }
pub proof fn minmax_push(es: Seq<Element>, i: int) requires 0 <= i < es.len() ensures minmax(es.take(i + 1)) == minmax(es.take(i)) + if is_minmax(es[i]) { 1nat } else { 0 } { assert(es.take(i + 1).drop_last() =~= es.take(i)); }
pub open spec fn has_v(cols: Seq<ProjectedColumn>, v: Variable, cc: CC) -> bool { exists|j: int| 0 <= j < cols.len() && is_vcol(#[trigger] cols[j], v, cc) }
pub open spec fn has_t(cols: Seq<ProjectedColumn>, v: Variable, cc: CC) -> bool { exists|j: int| 0 <= j < cols.len() && is_tcol(#[trigger] cols[j], v, cc) }
// v is among the columns, with its type tag if the type is not known.
pub open spec fn has(cols: Seq<ProjectedColumn>, v: Variable, cc: CC) -> bool { has_v(cols, v, cc) && (unique(var_types(cc, v)) is None ==> has_t(cols, v, cc)) }
pub open spec fn wanted(es: Seq<Element>, q: AlgebraicQuery, v: Variable) -> bool { mentions(es, v) || q.named_projection@.contains(v) || (aggregated(es) && q.with@.contains(v)) }
// Every inner column is that of a variable asked for: others would multiply the rows.
pub open spec fn col_wanted(pc: ProjectedColumn, es: Seq<Element>, q: AlgebraicQuery) -> bool { exists|v: Variable| #[trigger] wanted(es, q, v) && (is_vcol(pc, v, q.cc) || is_tcol(pc, v, q.cc)) }
pub open spec fn named_v(c: Outer, v: Variable) -> bool { c matches Either::Left(n) && n@ == vcol(v) }
pub open spec fn named_t(c: Outer, v: Variable) -> bool { c matches Either::Left(n) && n@ == tcol(v) }
// The template of an element finds the element's own column (and type tag).
pub open spec fn var_slot(t: TypedIndex, v: Variable, cols: Seq<Outer>, cc: CC) -> bool { match unique(var_types(cc, v)) {
    Some(tag) => t matches TypedIndex::Known(i, tag2) && tag2 == tag && i < cols.len() && named_v(cols[i as int], v),
    None => t matches TypedIndex::Unknown(i, j) && i < cols.len() && j < cols.len() && named_v(cols[i as int], v) && named_t(cols[j as int], v) } }
pub open spec fn agg_slot(t: TypedIndex, a: SimpleAggregate, cols: Seq<Outer>, cc: CC) -> bool {
    t matches TypedIndex::Known(i, tag) && i < cols.len() && (cols[i as int] matches Either::Right(pc) && exists|rt: ValueType| #[trigger] is_acol(pc, a, rt, cc) && tag == vtag(rt)) }
pub open spec fn slot(t: TypedIndex, e: Element, cols: Seq<Outer>, cc: CC) -> bool { match e {
    Element::Aggregate(a) => simple_of(a) is Some && agg_slot(t, simple_of(a)->Some_0, cols, cc),
    _ => var_slot(t, var_of(e)->Some_0, cols, cc) } }
pub open spec fn slots(ts: Seq<TypedIndex>, es: Seq<Element>, cols: Seq<Outer>, cc: CC) -> bool { ts.len() == es.len() && forall|k: int| 0 <= k < es.len() ==> slot(#[trigger] ts[k], es[k], cols, cc) }
// What the outer columns name, the inner ones provide.
pub open spec fn provides(inner: Seq<ProjectedColumn>, c: Outer) -> bool { c matches Either::Left(n) ==> exists|j: int| 0 <= j < inner.len() && (#[trigger] inner[j]).1@ == n@ }
pub open spec fn provided(inner: Seq<ProjectedColumn>, cols: Seq<Outer>) -> bool { forall|j: int| 0 <= j < cols.len() ==> provides(inner, #[trigger] cols[j]) }
// Without aggregates there is one layer: column j of the one is column j of the other.
pub open spec fn same_layer(inner: Seq<ProjectedColumn>, cols: Seq<Outer>) -> bool { inner.len() == cols.len() && forall|j: int| 0 <= j < cols.len() ==> ((#[trigger] cols[j]) matches Either::Left(n) && n@ == inner[j].1@) }
// Pulls: which column holds the entity, and where its result goes.
pub open spec fn pull_of(t: PullTemplate, es: Seq<Element>, ts: Seq<TypedIndex>) -> bool {
    0 <= t.indices.output_index < es.len() && (es[t.indices.output_index as int] matches Element::Pull(p) && p.patterns == t.op.0) && (ts[t.indices.output_index as int] matches TypedIndex::Known(i, _) && i == t.indices.sql_index) }
pub open spec fn pull_at(t: PullTemplate, k: int) -> bool { t.indices.output_index == k }
pub open spec fn pulled(pulls: Seq<PullTemplate>, k: int) -> bool { exists|j: int| 0 <= j < pulls.len() && pull_at(#[trigger] pulls[j], k) }
pub open spec fn all_pulls(pulls: Seq<PullTemplate>, es: Seq<Element>, ts: Seq<TypedIndex>) -> bool {
    &&& forall|j: int| 0 <= j < pulls.len() ==> pull_of(#[trigger] pulls[j], es, ts)
    &&& forall|k: int| 0 <= k < es.len() && (#[trigger] es[k]) is Pull ==> pulled(pulls, k)
}
pub open spec fn grouped(es: Seq<Element>, q: AlgebraicQuery, v: Variable) -> bool { plain(es, v) || (q.named_projection@.contains(v) && !bound(q.cc, v) && !the(es, v)) }
pub open spec fn groups_by(g: Seq<GroupBy>, n: Seq<u8>) -> bool { exists|j: int| 0 <= j < g.len() && ((#[trigger] g[j]) matches GroupBy::ProjectedColumn(m) && m@ == n) }
pub open spec fn untagged(q: AlgebraicQuery, v: Variable) -> bool { !bound(q.cc, v) && unique(known(q.cc, v)) is None }
pub open spec fn group_ok(g: GroupBy, es: Seq<Element>, q: AlgebraicQuery) -> bool { g matches GroupBy::ProjectedColumn(n) && exists|v: Variable| #[trigger] grouped(es, q, v) && (n@ == vcol(v) || (n@ == tcol(v) && untagged(q, v))) }
pub open spec fn outer_col(pc: ProjectedColumn, c: Outer) -> bool { match c { Either::Left(n) => pc.1 == n && (pc.0 matches ColumnOrExpression::ExistingColumn(m) && m@ == n@), Either::Right(o) => pc == o } }
pub open spec fn outer_cols(pcs: Seq<ProjectedColumn>, cols: Seq<Outer>) -> bool { pcs.len() == cols.len() && forall|j: int| 0 <= j < pcs.len() ==> outer_col(#[trigger] pcs[j], cols[j]) }
pub open spec fn names(cols: Seq<Outer>, v: Variable, cc: CC) -> bool { (exists|j: int| 0 <= j < cols.len() && named_v(#[trigger] cols[j], v)) && (unique(var_types(cc, v)) is None ==> exists|j: int| 0 <= j < cols.len() && named_t(#[trigger] cols[j], v)) }
// Everything about the layout, in terms of the columns named outside.
pub open spec fn laid_out(r: ProjectedElements, es: Seq<Element>, q: AlgebraicQuery, cols: Seq<Outer>, inner: Seq<ProjectedColumn>) -> bool {
    &&& slots(r.templates@, es, cols, q.cc)
    &&& all_pulls(r.pulls@, es, r.templates@)
    &&& forall|j: int| 0 <= j < inner.len() ==> col_wanted(#[trigger] inner[j], es, q)
    &&& forall|v: Variable| #[trigger] mentions(es, v) ==> has(inner, v, q.cc)
    // what is ordered by can be referred to
    &&& forall|v: Variable| #[trigger] q.named_projection@.contains(v) ==> bound(q.cc, v) || (has(inner, v, q.cc) && names(cols, v, q.cc))
    &&& if aggregated(es) {
        &&& r.pre_aggregate_projection == Some(Projection::Columns(r.pre_aggregate_projection->Some_0->Columns_0)) && r.pre_aggregate_projection->Some_0->Columns_0@ == inner
        &&& r.sql_projection is Columns && outer_cols(r.sql_projection->Columns_0@, cols)
        &&& provided(inner, cols)
        // the variables of :with keep rows apart
        &&& forall|v: Variable| #[trigger] q.with@.contains(v) ==> bound(q.cc, v) || has(inner, v, q.cc)
        // grouped by exactly the variables of the find spec outside aggregates, and those ordered by
        &&& forall|j: int| 0 <= j < r.group_by@.len() ==> group_ok(#[trigger] r.group_by@[j], es, q)
        &&& forall|v: Variable| #[trigger] grouped(es, q, v) ==> groups_by(r.group_by@, vcol(v)) && (untagged(q, v) ==> groups_by(r.group_by@, tcol(v)))
    } else {
        &&& r.pre_aggregate_projection is None && r.group_by@.len() == 0
        &&& r.sql_projection is Columns && r.sql_projection->Columns_0@ == inner
        &&& same_layer(inner, cols)
    }
}
"""


STEPS = """
pub open spec fn from(pc: ProjectedColumn, es: Seq<Element>, cc: CC) -> bool { exists|v: Variable| #[trigger] mentions(es, v) && (is_vcol(pc, v, cc) || is_tcol(pc, v, cc)) }
// The elements so far.
#[verifier::opaque] pub open spec fn walk(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>) -> bool {
    &&& slots(ts, es, outer, cc) && all_pulls(ps, es, ts)
    &&& forall|j: int| 0 <= j < inner.len() ==> from(#[trigger] inner[j], es, cc)
    &&& forall|v: Variable| #[trigger] mentions(es, v) ==> has(inner, v, cc)
    &&& provided(inner, outer)
    &&& (!aggregated(es) ==> same_layer(inner, outer))
}
pub open spec fn seen(es: Seq<Element>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>) -> bool {
    &&& forall|v: Variable| #[trigger] iv.contains(v) <==> mentions(es, v)
    &&& forall|v: Variable| #[trigger] ov.contains(v) <==> plain(es, v)
    &&& forall|v: Variable| #[trigger] cv.contains(v) <==> the(es, v)
}
pub proof fn start_walk(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>)
    requires es.len() == 0, ts.len() == 0, ps.len() == 0, inner.len() == 0, outer.len() == 0
    ensures walk(es, cc, ts, ps, inner, outer), !aggregated(es), minmax(es) == 0, forall|v: Variable| !#[trigger] mentions(es, v), forall|v: Variable| !#[trigger] plain(es, v), forall|v: Variable| !#[trigger] the(es, v) { reveal(walk); }
pub proof fn walk_has(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, v: Variable)
    requires walk(es, cc, ts, ps, inner, outer), mentions(es, v) ensures has(inner, v, cc) { reveal(walk); }
pub proof fn walk_len(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>)
    requires walk(es, cc, ts, ps, inner, outer) ensures ts.len() == es.len(), all_pulls(ps, es, ts), !aggregated(es) ==> same_layer(inner, outer) { reveal(walk); }
pub open spec fn adds(a: Seq<Variable>, v: Option<Variable>, b: Seq<Variable>) -> bool { forall|x: Variable| #[trigger] b.contains(x) <==> a.contains(x) || v == Some(x) }
pub proof fn step_one(es: Seq<Element>, e: Element, v: Variable)
    ensures mentions(es.push(e), v) <==> mentions(es, v) || var_of(e) == Some(v), plain(es.push(e), v) <==> plain(es, v) || plain_var(e) == Some(v), the(es.push(e), v) <==> the(es, v) || the_var(e) == Some(v)
{
    let n = es.push(e); assert(n[es.len() as int] == e);
    assert forall|k: int| 0 <= k < es.len() implies n[k] == #[trigger] es[k] by {}
    if mentions(es, v) { let k = choose|k: int| 0 <= k < es.len() && var_of(#[trigger] es[k]) == Some(v); assert(var_of(n[k]) == Some(v)); }
    if plain(es, v) { let k = choose|k: int| 0 <= k < es.len() && plain_var(#[trigger] es[k]) == Some(v); assert(plain_var(n[k]) == Some(v)); }
    if the(es, v) { let k = choose|k: int| 0 <= k < es.len() && the_var(#[trigger] es[k]) == Some(v); assert(the_var(n[k]) == Some(v)); }
}
pub proof fn step_seen(es: Seq<Element>, e: Element, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>, iv2: Set<Variable>, ov2: Seq<Variable>, cv2: Seq<Variable>)
    requires seen(es, iv, ov, cv), var_of(e) is Some, iv2 =~= iv.insert(var_of(e)->Some_0), adds(ov, plain_var(e), ov2), adds(cv, the_var(e), cv2)
    ensures seen(es.push(e), iv2, ov2, cv2)
{
    assert forall|v: Variable| #[trigger] iv2.contains(v) <==> mentions(es.push(e), v) by { step_one(es, e, v); assert(iv.contains(v) <==> mentions(es, v)); }
    assert forall|v: Variable| #[trigger] ov2.contains(v) <==> plain(es.push(e), v) by { step_one(es, e, v); }
    assert forall|v: Variable| #[trigger] cv2.contains(v) <==> the(es.push(e), v) by { step_one(es, e, v); }
}
pub proof fn step_aggregated(es: Seq<Element>, e: Element) ensures aggregated(es.push(e)) <==> aggregated(es) || e is Aggregate
{
    let n = es.push(e); assert(n[es.len() as int] == e);
    if aggregated(es) { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]) is Aggregate; assert(n[k] is Aggregate); }
}
pub open spec fn longer<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == b[j] }
pub proof fn has_longer(a: Seq<ProjectedColumn>, b: Seq<ProjectedColumn>, v: Variable, cc: CC) requires longer(a, b), has(a, v, cc) ensures has(b, v, cc)
{
    let j = choose|j: int| 0 <= j < a.len() && is_vcol(#[trigger] a[j], v, cc); assert(is_vcol(b[j], v, cc));
    if unique(var_types(cc, v)) is None { let k = choose|k: int| 0 <= k < a.len() && is_tcol(#[trigger] a[k], v, cc); assert(is_tcol(b[k], v, cc)); }
}
pub proof fn provides_longer(a: Seq<ProjectedColumn>, b: Seq<ProjectedColumn>, c: Outer) requires longer(a, b), provides(a, c) ensures provides(b, c)
{ if c is Left { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).1@ == c->Left_0@; assert(b[j].1@ == c->Left_0@); } }
#[verifier::spinoff_prover] #[verifier::rlimit(40)] pub proof fn step_walk(es: Seq<Element>, e: Element, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, ts2: Seq<TypedIndex>, ps2: Seq<PullTemplate>, inner2: Seq<ProjectedColumn>, outer2: Seq<Outer>)
    requires walk(es, cc, ts, ps, inner, outer), var_of(e) is Some, longer(inner, inner2), longer(outer, outer2), ts2.len() == ts.len() + 1, longer(ts, ts2),
        slot(ts2.last(), e, outer2, cc), has(inner2, var_of(e)->Some_0, cc),
        forall|j: int| inner.len() <= j < inner2.len() ==> is_vcol(#[trigger] inner2[j], var_of(e)->Some_0, cc) || is_tcol(inner2[j], var_of(e)->Some_0, cc),
        forall|j: int| outer.len() <= j < outer2.len() ==> provides(inner2, #[trigger] outer2[j]),
        e is Pull ==> ps2.len() == ps.len() + 1 && longer(ps, ps2) && pull_of(ps2.last(), es.push(e), ts2) && pull_at(ps2.last(), es.len() as int),
        !(e is Pull) ==> ps2 == ps,
        !(e is Aggregate) && same_layer(inner, outer) ==> same_layer(inner2, outer2),
    ensures walk(es.push(e), cc, ts2, ps2, inner2, outer2)
{
    reveal(walk); let n = es.push(e); let w = var_of(e)->Some_0;
    assert forall|k: int| 0 <= k < n.len() implies slot(#[trigger] ts2[k], n[k], outer2, cc) by { if k < es.len() { assert(slot(ts[k], es[k], outer, cc)); assert(ts[k] == ts2[k]); assert(n[k] == es[k]); slot_longer(ts[k], es[k], outer, outer2, cc); } }
    assert forall|j: int| 0 <= j < inner2.len() implies from(#[trigger] inner2[j], n, cc) by {
        if j < inner.len() { assert(from(inner[j], es, cc)); assert(inner[j] == inner2[j]); let v = choose|v: Variable| #[trigger] mentions(es, v) && (is_vcol(inner[j], v, cc) || is_tcol(inner[j], v, cc)); step_one(es, e, v); assert(mentions(n, v)); }
        else { step_one(es, e, w); assert(mentions(n, w)); } }
    assert forall|v: Variable| #[trigger] mentions(n, v) implies has(inner2, v, cc) by { step_one(es, e, v); if v != w { assert(mentions(es, v)); has_longer(inner, inner2, v, cc); } }
    assert forall|j: int| 0 <= j < outer2.len() implies provides(inner2, #[trigger] outer2[j]) by { if j < outer.len() { assert(provides(inner, outer[j])); assert(outer[j] == outer2[j]); provides_longer(inner, inner2, outer[j]); } }
    step_aggregated(es, e);
    assert forall|j: int| 0 <= j < ps2.len() implies pull_of(#[trigger] ps2[j], n, ts2) by { if j < ps.len() { assert(pull_of(ps[j], es, ts)); assert(ps[j] == ps2[j]); let o = ps[j].indices.output_index as int; assert(n[o] == es[o]); assert(ts[o] == ts2[o]); } }
    assert forall|k: int| 0 <= k < n.len() && (#[trigger] n[k]) is Pull implies pulled(ps2, k) by {
        if k < es.len() { assert(es[k] == n[k]); assert(pulled(ps, k)); let j = choose|j: int| 0 <= j < ps.len() && pull_at(#[trigger] ps[j], k); assert(pull_at(ps2[j], k)); } else { assert(pull_at(ps2[ps.len() as int], k)); } }
}
pub proof fn slot_longer(t: TypedIndex, e: Element, a: Seq<Outer>, b: Seq<Outer>, cc: CC) requires longer(a, b), slot(t, e, a, cc) ensures slot(t, e, b, cc)
{
    match t { TypedIndex::Known(i, _) => { assert(a[i as int] == b[i as int]); } TypedIndex::Unknown(i, j) => { assert(a[i as int] == b[i as int]); assert(a[j as int] == b[j as int]); } }
}
// Every variable of a find spec is named by a column.
pub proof fn after_walk(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>)
    requires walk(es, cc, ts, ps, inner, outer)
    ensures forall|v: Variable| #![trigger plain(es, v)] #![trigger the(es, v)] plain(es, v) || the(es, v) ==> names(outer, v, cc) && mentions(es, v),
        !aggregated(es) ==> forall|v: Variable| #[trigger] mentions(es, v) ==> plain(es, v) || the(es, v),
{
    reveal(walk);
    assert forall|v: Variable| plain(es, v) || the(es, v) implies #[trigger] names(outer, v, cc) && mentions(es, v) by {
        let k = if plain(es, v) { choose|k: int| 0 <= k < es.len() && plain_var(#[trigger] es[k]) == Some(v) } else { choose|k: int| 0 <= k < es.len() && the_var(#[trigger] es[k]) == Some(v) };
        assert(slot(ts[k], es[k], outer, cc)); assert(var_of(es[k]) == Some(v));
        match ts[k] { TypedIndex::Known(i, _) => { assert(named_v(outer[i as int], v)); } TypedIndex::Unknown(i, j) => { assert(named_v(outer[i as int], v)); assert(named_t(outer[j as int], v)); } }
    }
    if !aggregated(es) { assert forall|v: Variable| #[trigger] mentions(es, v) implies plain(es, v) || the(es, v) by { let k = choose|k: int| 0 <= k < es.len() && var_of(#[trigger] es[k]) == Some(v); assert(!(es[k] is Aggregate)); assert(plain_var(es[k]) == Some(v) || the_var(es[k]) == Some(v)); } }
}
// The variables ordered by, so far.
pub open spec fn naming(es: Seq<Element>, q: AlgebraicQuery, np: Seq<Variable>, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>) -> bool {
    &&& slots(ts, es, outer, q.cc)
    &&& forall|j: int| 0 <= j < inner.len() ==> col_wanted(#[trigger] inner[j], es, q)
    &&& forall|v: Variable| #[trigger] iv.contains(v) ==> has(inner, v, q.cc)
    &&& forall|v: Variable| #[trigger] mentions(es, v) ==> iv.contains(v)
    &&& forall|v: Variable| #[trigger] ov.contains(v) ==> grouped(es, q, v) && iv.contains(v) && names(outer, v, q.cc)
    &&& forall|v: Variable| #[trigger] plain(es, v) ==> ov.contains(v)
    &&& forall|v: Variable| #[trigger] cv.contains(v) <==> the(es, v)
    &&& forall|v: Variable| #[trigger] np.contains(v) ==> bound(q.cc, v) || ov.contains(v) || cv.contains(v)
    &&& provided(inner, outer)
    &&& (!aggregated(es) ==> same_layer(inner, outer) && forall|v: Variable| #[trigger] iv.contains(v) ==> ov.contains(v) || cv.contains(v))
}
"""


STEPS += """
pub proof fn one_more(np: Seq<Variable>, k: int) requires 0 <= k < np.len() ensures np.take(k + 1) == np.take(k).push(np[k]), forall|v: Variable| #[trigger] np.take(k + 1).contains(v) <==> np.take(k).contains(v) || v == np[k]
{
    assert(np.take(k + 1) =~= np.take(k).push(np[k]));
    assert forall|v: Variable| #[trigger] np.take(k + 1).contains(v) <==> np.take(k).contains(v) || v == np[k] by {
        if np.take(k).contains(v) { let i = choose|i: int| 0 <= i < k && np.take(k)[i] == v; assert(np.take(k + 1)[i] == v); }
        if v == np[k] { assert(np.take(k + 1)[k] == v); }
        if np.take(k + 1).contains(v) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] np.take(k + 1)[i] == v; if i < k { assert(np.take(k)[i] == v); } }
    }
}
pub proof fn names_longer(a: Seq<Outer>, b: Seq<Outer>, v: Variable, cc: CC) requires longer(a, b), names(a, v, cc) ensures names(b, v, cc)
{
    let j = choose|j: int| 0 <= j < a.len() && named_v(#[trigger] a[j], v); assert(named_v(b[j], v));
    if unique(var_types(cc, v)) is None { let k = choose|k: int| 0 <= k < a.len() && named_t(#[trigger] a[k], v); assert(named_t(b[k], v)); }
}
pub proof fn step_naming(es: Seq<Element>, q: AlgebraicQuery, np: Seq<Variable>, v0: Variable, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>,
        inner2: Seq<ProjectedColumn>, outer2: Seq<Outer>, iv2: Set<Variable>, ov2: Seq<Variable>)
    requires naming(es, q, np, ts, ps, inner, outer, iv, ov, cv), q.named_projection@.contains(v0), !bound(q.cc, v0), !ov.contains(v0), !cv.contains(v0),
        iv2 =~= iv.insert(v0), ov2 == ov.push(v0), longer(inner, inner2), longer(outer, outer2), has(inner2, v0, q.cc), names(outer2, v0, q.cc),
        forall|j: int| inner.len() <= j < inner2.len() ==> is_vcol(#[trigger] inner2[j], v0, q.cc) || is_tcol(inner2[j], v0, q.cc),
        forall|j: int| outer.len() <= j < outer2.len() ==> provides(inner2, #[trigger] outer2[j]),
        !iv.contains(v0) && same_layer(inner, outer) ==> same_layer(inner2, outer2),
    ensures naming(es, q, np.push(v0), ts, ps, inner2, outer2, iv2, ov2, cv)
{
    assert forall|k: int| 0 <= k < es.len() implies slot(#[trigger] ts[k], es[k], outer2, q.cc) by { slot_longer(ts[k], es[k], outer, outer2, q.cc); }
    assert forall|j: int| 0 <= j < inner2.len() implies col_wanted(#[trigger] inner2[j], es, q) by { if j < inner.len() { assert(col_wanted(inner[j], es, q)); assert(inner[j] == inner2[j]); } else { assert(wanted(es, q, v0)); } }
    assert forall|v: Variable| #[trigger] iv2.contains(v) implies has(inner2, v, q.cc) by { if v != v0 { assert(iv.contains(v)); has_longer(inner, inner2, v, q.cc); } }
    assert forall|v: Variable| #[trigger] ov2.contains(v) <==> ov.contains(v) || v == v0 by { if ov.contains(v) { let i = choose|i: int| 0 <= i < ov.len() && ov[i] == v; assert(ov2[i] == v); } if v == v0 { assert(ov2[ov.len() as int] == v); }
        if ov2.contains(v) { let i = choose|i: int| 0 <= i < ov2.len() && ov2[i] == v; if i < ov.len() { assert(ov[i] == v); } } }
    assert forall|v: Variable| #[trigger] ov2.contains(v) implies grouped(es, q, v) && iv2.contains(v) && names(outer2, v, q.cc) by { if v != v0 { assert(ov.contains(v)); names_longer(outer, outer2, v, q.cc); } else { assert(!the(es, v0)); } }
    assert forall|v: Variable| #[trigger] np.push(v0).contains(v) implies bound(q.cc, v) || ov2.contains(v) || cv.contains(v) by { if v != v0 { let i = choose|i: int| 0 <= i < np.push(v0).len() && np.push(v0)[i] == v; assert(np[i] == v); assert(np.contains(v)); } }
    assert forall|j: int| 0 <= j < outer2.len() implies provides(inner2, #[trigger] outer2[j]) by { if j < outer.len() { assert(provides(inner, outer[j])); assert(outer[j] == outer2[j]); provides_longer(inner, inner2, outer[j]); } }
}
pub open spec fn projects(r: ProjectedElements, es: Seq<Element>, q: AlgebraicQuery) -> bool { exists|cols: Seq<Outer>, inner: Seq<ProjectedColumn>| #[trigger] laid_out(r, es, q, cols, inner) }
pub open spec fn vec_empty(g: Vec<GroupBy>) -> bool { g@.len() == 0 }
pub proof fn start_naming(es: Seq<Element>, q: AlgebraicQuery, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>)
    requires walk(es, q.cc, ts, ps, inner, outer), seen(es, iv, ov, cv)
    ensures naming(es, q, Seq::<Variable>::empty(), ts, ps, inner, outer, iv, ov, cv)
{
    reveal(walk); after_walk(es, q.cc, ts, ps, inner, outer);
    assert forall|j: int| 0 <= j < inner.len() implies col_wanted(#[trigger] inner[j], es, q) by { assert(from(inner[j], es, q.cc)); let v = choose|v: Variable| #[trigger] mentions(es, v) && (is_vcol(inner[j], v, q.cc) || is_tcol(inner[j], v, q.cc)); assert(wanted(es, q, v)); }
    assert forall|v: Variable| #[trigger] iv.contains(v) implies has(inner, v, q.cc) by { assert(mentions(es, v)); }
    assert forall|v: Variable| #[trigger] ov.contains(v) implies grouped(es, q, v) && iv.contains(v) && names(outer, v, q.cc) by { assert(plain(es, v)); assert(mentions(es, v)); }
    if !aggregated(es) { assert forall|v: Variable| #[trigger] iv.contains(v) implies ov.contains(v) || cv.contains(v) by { assert(mentions(es, v)); assert(plain(es, v) || the(es, v)); } }
}
pub open spec fn grouped_by(g: Seq<GroupBy>, q: AlgebraicQuery, v: Variable) -> bool { groups_by(g, vcol(v)) && (untagged(q, v) ==> groups_by(g, tcol(v))) }
pub proof fn grouped_longer(a: Seq<GroupBy>, b: Seq<GroupBy>, q: AlgebraicQuery, v: Variable) requires longer(a, b), grouped_by(a, q, v) ensures grouped_by(b, q, v)
{
    let j = choose|j: int| 0 <= j < a.len() && ((#[trigger] a[j]) matches GroupBy::ProjectedColumn(m) && m@ == vcol(v)); assert(b[j]->ProjectedColumn_0@ == vcol(v));
    if untagged(q, v) { let k = choose|k: int| 0 <= k < a.len() && ((#[trigger] a[k]) matches GroupBy::ProjectedColumn(m) && m@ == tcol(v)); assert(b[k]->ProjectedColumn_0@ == tcol(v)); }
}
pub proof fn named_ok(es: Seq<Element>, q: AlgebraicQuery, np: Seq<Variable>, ts: Seq<TypedIndex>, ps: Seq<PullTemplate>, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>)
    requires naming(es, q, np, ts, ps, inner, outer, iv, ov, cv), members_of(q.named_projection@, np)
    ensures forall|v: Variable| #[trigger] q.named_projection@.contains(v) ==> bound(q.cc, v) || (has(inner, v, q.cc) && names(outer, v, q.cc)),
        forall|v: Variable| #[trigger] mentions(es, v) ==> has(inner, v, q.cc)
{
    assert forall|v: Variable| #[trigger] mentions(es, v) implies has(inner, v, q.cc) by { assert(iv.contains(v)); }
    assert forall|v: Variable| #[trigger] q.named_projection@.contains(v) implies bound(q.cc, v) || (has(inner, v, q.cc) && names(outer, v, q.cc)) by {
        let i = choose|i: int| 0 <= i < np.len() && (#[trigger] np[i]) == v; assert(np.contains(v));
        if !bound(q.cc, v) { if ov.contains(v) { } else { assert(the(es, v)); the_named(es, q.cc, ts, outer, v); } }
    }
}
pub proof fn the_named(es: Seq<Element>, cc: CC, ts: Seq<TypedIndex>, outer: Seq<Outer>, v: Variable) requires slots(ts, es, outer, cc), the(es, v) ensures names(outer, v, cc), mentions(es, v)
{
    let k = choose|k: int| 0 <= k < es.len() && the_var(#[trigger] es[k]) == Some(v);
    assert(slot(ts[k], es[k], outer, cc)); assert(var_of(es[k]) == Some(v));
    match ts[k] { TypedIndex::Known(i, _) => { assert(named_v(outer[i as int], v)); } TypedIndex::Unknown(i, j) => { assert(named_v(outer[i as int], v)); assert(named_t(outer[j as int], v)); } }
}
pub proof fn finish_plain(es: Seq<Element>, q: AlgebraicQuery, np: Seq<Variable>, r: ProjectedElements, inner: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>)
    requires naming(es, q, np, r.templates@, r.pulls@, inner, outer, iv, ov, cv), members_of(q.named_projection@, np), all_pulls(r.pulls@, es, r.templates@), !aggregated(es),
        r.pre_aggregate_projection is None, r.group_by@.len() == 0, r.sql_projection is Columns, r.sql_projection->Columns_0@ == inner
    ensures laid_out(r, es, q, outer, inner)
{ named_ok(es, q, np, r.templates@, r.pulls@, inner, outer, iv, ov, cv); }
pub proof fn finish_aggregated(es: Seq<Element>, q: AlgebraicQuery, np: Seq<Variable>, wp: Seq<Variable>, r: ProjectedElements, inner: Seq<ProjectedColumn>, inner2: Seq<ProjectedColumn>, outer: Seq<Outer>, iv: Set<Variable>, ov: Seq<Variable>, cv: Seq<Variable>)
    requires naming(es, q, np, r.templates@, r.pulls@, inner, outer, iv, ov, cv), members_of(q.named_projection@, np), members_of(q.with@, wp), all_pulls(r.pulls@, es, r.templates@), aggregated(es),
        longer(inner, inner2), r.pre_aggregate_projection is Some, r.pre_aggregate_projection->Some_0 is Columns, r.pre_aggregate_projection->Some_0->Columns_0@ == inner2,
        r.sql_projection is Columns, outer_cols(r.sql_projection->Columns_0@, outer),
        forall|j: int| 0 <= j < inner2.len() ==> col_wanted(#[trigger] inner2[j], es, q),
        forall|v: Variable| #[trigger] wp.contains(v) ==> bound(q.cc, v) || has(inner2, v, q.cc),
        forall|j: int| 0 <= j < r.group_by@.len() ==> group_ok(#[trigger] r.group_by@[j], es, q),
        forall|v: Variable| #[trigger] grouped(es, q, v) ==> grouped_by(r.group_by@, q, v),
    ensures laid_out(r, es, q, outer, inner2)
{
    named_ok(es, q, np, r.templates@, r.pulls@, inner, outer, iv, ov, cv);
    assert forall|v: Variable| #[trigger] mentions(es, v) implies has(inner2, v, q.cc) by { has_longer(inner, inner2, v, q.cc); }
    assert forall|v: Variable| #[trigger] q.named_projection@.contains(v) implies bound(q.cc, v) || (has(inner2, v, q.cc) && names(outer, v, q.cc)) by { if !bound(q.cc, v) { has_longer(inner, inner2, v, q.cc); } }
    assert forall|j: int| 0 <= j < outer.len() implies provides(inner2, #[trigger] outer[j]) by { provides_longer(inner, inner2, outer[j]); }
    assert forall|v: Variable| #[trigger] q.with@.contains(v) implies bound(q.cc, v) || has(inner2, v, q.cc) by { let i = choose|i: int| 0 <= i < wp.len() && (#[trigger] wp[i]) == v; assert(wp.contains(v)); }
    assert forall|v: Variable| #[trigger] grouped(es, q, v) implies groups_by(r.group_by@, vcol(v)) && (untagged(q, v) ==> groups_by(r.group_by@, tcol(v))) by { assert(grouped_by(r.group_by@, q, v)); }
}
"""


def elements(u, p):
    f = p.fn("project_elements").ret("r")
    f.subhead(r"<'a, I: IntoIterator<Item = &'a Element>>", "", "the elements are a list")
    f.subhead(r"elements: I", "elements: &Vec<Element>", "the elements are a list")
    f.macro("bail", units.bail(), "errors are opaque")
    f.macro("assert", lambda a: "assert(%s)" % units.first_arg(a), "what is asserted has to hold")
    f.macro("unreachable", lambda a: "refuse()", "a panic does not return")
    f.sub(r"match \*e \{", "match e {", "reference patterns", count=0)
    f.sub(r"\bref (\w+)", r"\1", "reference patterns", count=0)
    f.sub(r"&var\b", "var", "reborrow", count=0, minimum=0)
    f.sub(r"\(\*patterns\)\.clone\(\)", "patterns.clone()", "reborrow", minimum=0)
    f.sub(r"let vars = outer_variables\.into_iter\(\)\.zip\(::std::iter::repeat\(true\)\);\s*let corresponds = corresponded_variables\s*\.into_iter\(\)\s*\.zip\(::std::iter::repeat\(false\)\);",
          "let all_vars = marked_(outer_variables, corresponded_variables);", "zip with repeat, chain")
    f.sub(r"for \(var, group\) in vars\.chain\(corresponds\) \{", "let mut k_: usize = 0; while k_ < all_vars.len() { let var = &all_vars[k_].0; let group = all_vars[k_].1; k_ += 1;", "zip with repeat, chain")
    f.sub(r"query\s*\.cc\s*\.extracted_types\s*\.get\(var\)\s*\.cloned\(\)\s*\.ok_or_else\([^;]*?\)\?;", "match query.cc.extracted_types.get(var) { Some(x) => x.clone(), None => { return Err(Error::new()); } };", "cloned, ok_or_else")
    f.sub(r"outer_projection\s*\.into_iter\(\)\s*\.map\(\|c\| match c \{(.*?)\n        \}\)\s*\.collect\(\);", r"""{ let ghost cols0 = outer_projection@; let mut pcs: Vec<ProjectedColumn> = Vec::new();
        for c in outer_projection { let x = match c {\1
        }; pcs.push(x); } pcs };""", "map and collect: a loop")
    f.sub(r"query_projector_traits::aggregates::", "crate::", "one file", count=0, minimum=0)
    f.sub(r"let mut group_by = Vec::with_capacity\(.*?\);", "let mut group_by = Vec::new();", "capacity")
    f.sub(r"Vec::with_capacity\(.*?\);", "Vec::new();", "capacity", count=0)
    f.sub(r"for e in elements \{", "let mut n_: usize = 0; while n_ < elements.len() { let e: &Element = &elements[n_]; n_ += 1;", "the elements are a list")
    for n in ("named_projection", "with"):
        f.sub(r"for var in query\.%s\.iter\(\) \{" % n, "let %s_es = query.%s.entries(); let mut k_: usize = 0; while k_ < %s_es.len() { let var: &Variable = %s_es[k_]; k_ += 1;" % (n, n, n, n), "iteration over a set")
    m = re.search(r"return Ok\(ProjectedElements (\{.*?\n        \})\);", f.body, re.S)
    m2 = re.search(r"\n    Ok\(ProjectedElements (\{.*?\n    \})\)\s*\}\s*$", f.body, re.S)
    if not m or not m2:
        raise extract.LostAnchor("project_elements: its two results")
    f.body = f.body[:m.start()] + "{ let r_ = ProjectedElements %s; proof { assert(vec_empty(r_.group_by)); finish_plain(es, *query, np, r_, inner_, cols_, iv1, ov1, corr1); assert(projects(r_, elements@, *query)); } return Ok(r_); }" % m.group(1) + f.body[m.end():m2.start()] \
        + "\n let r_ = ProjectedElements %s; proof { finish_aggregated(es, *query, np, wp, r_, inner_, inner2_, cols_, iv1, ov1, corr1); assert(projects(r_, elements@, *query)); } Ok(r_)\n}" % m2.group(1)
    f.sub(r"let mut templates = vec!\[\];", "let mut templates: Vec<TypedIndex> = Vec::new();", "its type")
    f.sub(r"let mut outer_variables = IndexSet::new\(\);", "let mut outer_variables: IndexSet<Variable> = IndexSet::new();", "its type")
    f.sub(r"let mut corresponded_variables = IndexSet::new\(\);", "let mut corresponded_variables: IndexSet<Variable> = IndexSet::new();", "its type")
    f.sub(r"let mut inner_variables = BTreeSet::new\(\);", "let mut inner_variables: BTreeSet<Variable> = BTreeSet::new();", "its type")
    STATE = "templates@, pulls@, inner_projection@, outer_projection@"
    VARS = "inner_variables@, outer_variables@, corresponded_variables@"
    GROUPED = "proof { assert(longer(g0, group_by@)); assert forall|j: int| 0 <= j < k_ && (#[trigger] av[j]).1 implies grouped_by(group_by@, *query, av[j].0) by { if j < k0 { grouped_longer(g0, group_by@, *query, av[j].0); } else { assert(group_by@[g0.len() as int]->ProjectedColumn_0@ == vcol(av[j].0)); if untagged(*query, av[j].0) { assert(group_by@[g0.len() as int + 1]->ProjectedColumn_0@ == tcol(av[j].0)); } } } }"
    at = f.body.index("while k_ < all_vars.len()")
    f.body = f.body[:at] + re.sub(r"\bcontinue;", lambda m: "{ " + GROUPED + " continue; }", f.body[at:f.body.index("with_es", at)]) + f.body[f.body.index("with_es", at):]
    f.annotate([
        dict(kind="while", before="let ghost es = elements@; let ghost cc = query.cc; proof { broadcast use names::vcols, names::tcols, names::apart; assert(es.take(0) =~= Seq::<Element>::empty()); start_walk(es.take(0), cc, templates@, pulls@, inner_projection@, outer_projection@); }",
             invariant="""
        invariant elements@.len() < 0x1000_0000, n_ <= elements@.len(), es == elements@, cc == query.cc, i == outer_projection@.len(), n_ <= i <= 2 * n_, min_max_count <= n_, min_max_count == minmax(es.take(n_ as int)),
            walk(es.take(n_ as int), cc, %s), seen(es.take(n_ as int), %s), aggregates == aggregated(es.take(n_ as int)),
        decreases elements@.len() - n_""" % (STATE, VARS),
             start="""let ghost inner0 = inner_projection@; let ghost outer0 = outer_projection@; let ghost ts0 = templates@; let ghost ps0 = pulls@; let ghost iv0 = inner_variables@; let ghost ov0 = outer_variables@; let ghost cv0 = corresponded_variables@;
                let ghost at = n_ as int; let ghost before = es.take(at); proof { walk_len(before, cc, ts0, ps0, inner0, outer0); }""",
             end="""proof { let after = es.take(n_ as int); assert(after =~= before.push(es[at])); minmax_push(es, at); step_seen(before, es[at], iv0, ov0, cv0, inner_variables@, outer_variables@, corresponded_variables@);
                step_aggregated(before, es[at]);
                let v = var_of(es[at])->Some_0; if !(es[at] is Aggregate) { assert(is_vcol(inner_projection@[inner0.len() as int], v, cc)); if unique(var_types(cc, v)) is None { assert(is_tcol(inner_projection@[inner0.len() as int + 1], v, cc)); } }
                else if !iv0.contains(v) { assert(is_vcol(inner_projection@[inner0.len() as int], v, cc)); if unique(var_types(cc, v)) is None { assert(is_tcol(inner_projection@[inner0.len() as int + 1], v, cc)); } }
                else { assert(mentions(before, v)); walk_has(before, cc, ts0, ps0, inner0, outer0, v); has_longer(inner0, inner_projection@, v, cc); }
                assert(has(inner_projection@, v, cc));
                step_walk(before, es[at], cc, ts0, ps0, inner0, outer0, templates@, pulls@, inner_projection@, outer_projection@);
            }"""),
        dict(kind="while", before="let ghost np = named_projection_es@.map_values(|p: &Variable| *p); let ghost ts1 = templates@; let ghost ps1 = pulls@; proof { assert(es.take(es.len() as int) =~= es); if exists|v: Variable| #[trigger] the(es, v) { let v = choose|v: Variable| #[trigger] the(es, v); assert(corresponded_variables@.contains(v)); assert(minmax(es) == 1); } walk_len(es, cc, %s); start_naming(es, *query, %s, %s); assert(np.take(0) =~= Seq::<Variable>::empty()); }" % (STATE, STATE, VARS),
             after="let ghost cols_ = outer_projection@; let ghost inner_ = inner_projection@; let ghost iv1 = inner_variables@; let ghost ov1 = outer_variables@; let ghost corr1 = corresponded_variables@; proof { assert(np.take(np.len() as int) =~= np); }",
             invariant="invariant cc == query.cc, k_ <= named_projection_es@.len(), np == named_projection_es@.map_values(|p: &Variable| *p), members_of(query.named_projection@, np), templates@ == ts1, pulls@ == ps1, naming(es, *query, np.take(k_ as int), %s, %s), decreases named_projection_es@.len() - k_" % (STATE, VARS),
             start="let ghost k0 = k_ as int; let ghost v0 = np[k0]; let ghost inner0 = inner_projection@; let ghost outer0 = outer_projection@; let ghost iv0 = inner_variables@; let ghost ov0 = outer_variables@; proof { assert(query.named_projection@.contains(v0)); one_more(np, k0); }",
             end="""proof { let n0 = inner0.len() as int; if !iv0.contains(v0) { assert(is_vcol(inner_projection@[n0], v0, cc)); if unique(var_types(cc, v0)) is None { assert(is_tcol(inner_projection@[n0 + 1], v0, cc)); } } else { assert(inner_projection@ == inner0); }
                assert(has(inner_projection@, v0, cc));
                assert(named_v(outer_projection@[outer0.len() as int], v0)); if unique(var_types(cc, v0)) is None { assert(named_t(outer_projection@[outer0.len() as int + 1], v0)); } assert(names(outer_projection@, v0, cc));
                step_naming(es, *query, np.take(k0), v0, ts1, ps1, inner0, outer0, iv0, ov0, corresponded_variables@, inner_projection@, outer_projection@, inner_variables@, outer_variables@); }"""),
        dict(kind="while", before="let ghost av = all_vars@;",
             invariant="""invariant cc == query.cc, naming(es, *query, np, templates@, pulls@, inner_, cols_, iv1, ov1, corr1), inner_variables@ == iv1, k_ <= all_vars@.len(), inner_projection@ == inner_, all_vars@ == av,
                forall|j: int| 0 <= j < av.len() && (#[trigger] av[j]).1 ==> ov1.contains(av[j].0), forall|j: int| 0 <= j < av.len() && !(#[trigger] av[j]).1 ==> corr1.contains(av[j].0),
                forall|j: int| 0 <= j < group_by@.len() ==> group_ok(#[trigger] group_by@[j], es, *query),
                forall|j: int| 0 <= j < k_ && (#[trigger] av[j]).1 ==> grouped_by(group_by@, *query, av[j].0),
                decreases all_vars@.len() - k_""",
             start="let ghost g0 = group_by@; let ghost k0 = k_ as int; proof { if av[k0].1 { assert(grouped(es, *query, av[k0].0)); } else { assert(the(es, av[k0].0)); assert(mentions(es, av[k0].0)); } }",
             end=GROUPED),
        dict(kind="while", before="let ghost wp = with_es@.map_values(|p: &Variable| *p); proof { assert(wp.take(0) =~= Seq::<Variable>::empty()); assert forall|v: Variable| #[trigger] grouped(es, *query, v) implies grouped_by(group_by@, *query, v) by { if plain(es, v) { assert(ov1.contains(v)); } else { assert(np.contains(v)); } assert(ov1.contains(v)); let i = choose|i: int| 0 <= i < ov1.len() && ov1[i] == v; assert(av[i].1); } }",
             invariant="""invariant cc == query.cc, naming(es, *query, np, templates@, pulls@, inner_, cols_, iv1, ov1, corr1), inner_variables@ == iv1, k_ <= with_es@.len(), wp == with_es@.map_values(|p: &Variable| *p), members_of(query.with@, wp), longer(inner_, inner_projection@), aggregated(es),
                forall|j: int| 0 <= j < inner_projection@.len() ==> col_wanted(#[trigger] inner_projection@[j], es, *query),
                forall|v: Variable| #[trigger] wp.take(k_ as int).contains(v) ==> bound(cc, v) || has(inner_projection@, v, cc),
                decreases with_es@.len() - k_""",
             start="let ghost k0 = k_ as int; let ghost v0 = wp[k0]; let ghost inner0 = inner_projection@; proof { assert(query.with@.contains(v0)); one_more(wp, k0); assert(wanted(es, *query, v0)); if iv1.contains(v0) { has_longer(inner_, inner0, v0, cc); } }",
             end="""proof { if !iv1.contains(v0) { let n0 = inner0.len() as int; assert(is_vcol(inner_projection@[n0], v0, cc)); if unique(var_types(cc, v0)) is None { assert(is_tcol(inner_projection@[n0 + 1], v0, cc)); } assert(has(inner_projection@, v0, cc)); }
                assert forall|v: Variable| #[trigger] wp.take(k_ as int).contains(v) implies bound(cc, v) || has(inner_projection@, v, cc) by { if v != v0 { assert(wp.take(k0).contains(v)); if !bound(cc, v) { has_longer(inner0, inner_projection@, v, cc); } } } }""",
             after="let ghost inner2_ = inner_projection@; proof { assert(wp.take(wp.len() as int) =~= wp); }"),
        dict(name="it", invariant="invariant it.seq() == cols0, pcs@.len() == it.index@, forall|j: int| 0 <= j < pcs@.len() ==> outer_col(#[trigger] pcs@[j], cols0[j]),",
             start="proof { assert(c == cols0[it.index@]); }"),
    ])
    out = "#[verifier::rlimit(60)]\n" + u.emit(f, """
        requires elements@.len() < 0x1000_0000
        ensures r is Ok ==> projects(r->Ok_0, elements@, *query),
            // `the` goes with exactly one min or max
            r is Ok && (exists|v: Variable| #[trigger] the(elements@, v)) ==> minmax(elements@) == 1,
    """)
    return out
