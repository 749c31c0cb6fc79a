"""C17: order, limit and the query around the clauses, from the parsed text to the SELECT
(query-algebrizer/src/lib.rs, query-projector/src/translate.rs)."""
import re
import units, extract
T = units.load("types")
RLIMIT = 40

OPAQUE = "EmptyBecause RcCounter Variable TableAlias SourceAliasName ComputedTable ColumnIntersection QualifiedAlias ValueTypeSet Schema Known WhereClause QueryInputs Element ConstantProjector AnyProjector Join Op SQLTypeAffinity Values Name Expression SrcVar".split()

SPEC = """
// ---- order
pub open spec fn known_type_of(c: ConjoiningClauses, v: Variable) -> Option<ValueType>;
pub open spec fn fixed(c: ConjoiningClauses, v: Variable) -> bool { c.value_bindings@.contains_key(v) || c.empty_because is Some }
// What the rows are ordered by: each variable that varies, in its direction, after its type where that varies too.
pub open spec fn keys(c: ConjoiningClauses, o: Seq<Order>) -> Seq<OrderBy> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { let p = keys(c, o.drop_last()); let x = o.last();
        if fixed(c, x.1) { p } else if known_type_of(c, x.1) is Some { p.push(OrderBy(x.0, VariableColumn::Variable(x.1))) }
        else { p.push(OrderBy(x.0, VariableColumn::VariableTypeTag(x.1))).push(OrderBy(x.0, VariableColumn::Variable(x.1))) } } }
pub open spec fn varies(c: ConjoiningClauses, o: Seq<Order>, n: int, v: Variable) -> bool { exists|i: int| 0 <= i < n && (#[trigger] o[i]).1 == v && !fixed(c, v) }
pub open spec fn all_bound(c: ConjoiningClauses, o: Seq<Order>, n: int) -> bool { forall|i: int| 0 <= i < n ==> fixed(c, (#[trigger] o[i]).1) || c.column_bindings@.contains_key(o[i].1) }
pub open spec fn list_of<A>(o: Option<Vec<A>>) -> Seq<A> { match o { Some(v) => v@, None => Seq::empty() } }
pub open spec fn ordered_as(c: ConjoiningClauses, o: Option<Vec<Order>>, by: Option<Vec<OrderBy>>, vars: BTreeSet<Variable>) -> bool {
    list_of(by) =~= keys(c, list_of(o)) && all_bound(c, list_of(o), list_of(o).len() as int) && forall|v: Variable| #[trigger] vars@.contains(v) <==> varies(c, list_of(o), list_of(o).len() as int, v) }
// ---- limit
// A limit given as an input is a positive number.
pub open spec fn limited(c: ConjoiningClauses, l: Limit, r: Limit) -> bool { match l {
    Limit::Variable(v) => if c.value_bindings@.contains_key(v) { c.value_bindings@[v] matches TypedValue::Long(n) && n > 0 && r == Limit::Fixed(n as u64) } else { r == l },
    _ => r == l } }
pub open spec fn one_row(s: FindSpec) -> bool { s is FindScalar || s is FindTuple }
// ---- the steps over the clauses
pub uninterp spec fn started(c: ConjoiningClauses, vars: Set<Variable>, i: QueryInputs) -> bool;
pub uninterp spec fn told(c: ConjoiningClauses, s: FindSpec) -> bool;
pub uninterp spec fn told_long(c: ConjoiningClauses, v: Variable) -> bool;
pub uninterp spec fn applied(c: ConjoiningClauses, w: Seq<WhereClause>) -> bool;
pub uninterp spec fn expanded(c: ConjoiningClauses) -> bool;
pub uninterp spec fn pruned(c: ConjoiningClauses) -> bool;
pub uninterp spec fn required(c: ConjoiningClauses) -> bool;
pub open spec fn keeps(a: ConjoiningClauses, b: ConjoiningClauses) -> bool {
    (forall|v: Set<Variable>, i: QueryInputs| #[trigger] started(a, v, i) ==> started(b, v, i)) && (forall|s: FindSpec| #[trigger] told(a, s) ==> told(b, s)) && (forall|v: Variable| #[trigger] told_long(a, v) ==> told_long(b, v))
    && (forall|w: Seq<WhereClause>| #[trigger] applied(a, w) ==> applied(b, w)) }
pub open spec fn keeps_all(a: ConjoiningClauses, b: ConjoiningClauses) -> bool { keeps(a, b) && (expanded(a) ==> expanded(b)) && (pruned(a) ==> pruned(b)) && (required(a) ==> required(b)) }
pub open spec fn finished(c: ConjoiningClauses, p: FindQuery, i: QueryInputs) -> bool {
    started(c, p.in_vars@, i) && told(c, p.find_spec) && (p.limit matches Limit::Variable(v) ==> told_long(c, v)) && applied(c, p.where_clauses@) && expanded(c) && pruned(c) && required(c) }
impl ConjoiningClauses {
  #[verifier::external_body] pub fn bound_value(&self, var: &Variable) -> (r: Option<TypedValue>) ensures match r { Some(v) => self.value_bindings@.contains_key(*var) && self.value_bindings@[*var] == v, None => !self.value_bindings@.contains_key(*var) } { unimplemented!() }
  #[verifier::external_body] pub fn is_value_bound(&self, var: &Variable) -> (r: bool) ensures r == self.value_bindings@.contains_key(*var) { unimplemented!() }
  #[verifier::external_body] pub fn value_bound_variable_set(&self) -> (r: BTreeSet<Variable>) ensures r@ == self.value_bindings@.dom() { unimplemented!() }
  #[verifier::external_body] pub fn is_known_empty(&self) -> (r: bool) ensures r == (self.empty_because is Some) { unimplemented!() }
  #[verifier::external_body] pub fn known_type(&self, var: &Variable) -> (r: Option<ValueType>) ensures r == known_type_of(*self, *var) { unimplemented!() }
  #[verifier::external_body] pub fn with_inputs_and_alias_counter(in_variables: BTreeSet<Variable>, inputs: QueryInputs, alias_counter: RcCounter) -> (r: ConjoiningClauses) ensures started(r, in_variables@, inputs) { unimplemented!() }
  #[verifier::external_body] pub fn derive_types_from_find_spec(&mut self, find_spec: &FindSpec) ensures told(*final(self), *find_spec), keeps_all(*old(self), *final(self)) { unimplemented!() }
  #[verifier::external_body] pub fn constrain_var_to_long(&mut self, variable: Variable) ensures told_long(*final(self), variable), keeps_all(*old(self), *final(self)) { unimplemented!() }
  #[verifier::external_body] pub fn apply_clauses(&mut self, known: Known, w: Vec<WhereClause>) -> (r: Result<()>) ensures r is Ok ==> applied(*final(self), w@) && keeps(*old(self), *final(self)) { unimplemented!() }
  #[verifier::external_body] pub fn expand_column_bindings(&mut self) requires exists|w: Seq<WhereClause>| applied(*old(self), w) ensures expanded(*final(self)), keeps_all(*old(self), *final(self)) { unimplemented!() }
  #[verifier::external_body] pub fn prune_extracted_types(&mut self) requires exists|w: Seq<WhereClause>| applied(*old(self), w) ensures pruned(*final(self)), keeps_all(*old(self), *final(self)) { unimplemented!() }
  #[verifier::external_body] pub fn process_required_types(&mut self) -> (r: Result<()>) requires exists|w: Seq<WhereClause>| applied(*old(self), w) ensures r is Ok ==> required(*final(self)) && keeps_all(*old(self), *final(self)) { unimplemented!() }
}
impl RcCounter { #[verifier::external_body] pub fn with_initial(n: usize) -> RcCounter { unimplemented!() } }
impl BTreeSet<Variable> { #[verifier::external_body] pub fn minus(&self, o: &BTreeSet<Variable>) -> (r: BTreeSet<Variable>) ensures r@ == self@.difference(o@) { unimplemented!() } }
#[verifier::external_body] pub fn columns_of(s: &FindSpec) -> (r: Vec<Element>) ensures r@ == columns(*s) { unimplemented!() }
pub open spec fn columns(s: FindSpec) -> Seq<Element> { match s { FindSpec::FindScalar(e) => seq![e], FindSpec::FindColl(e) => seq![e], FindSpec::FindTuple(v) => v@, FindSpec::FindRel(v) => v@ } }
// Every element is a variable with a value.
pub open spec fn constant(c: ConjoiningClauses, e: Element) -> bool { match e { Element::Variable(v) => c.value_bindings@.contains_key(v), Element::Corresponding(v) => c.value_bindings@.contains_key(v), _ => false } }
pub open spec fn all_constant(c: ConjoiningClauses, s: FindSpec) -> bool { forall|i: int| 0 <= i < columns(s).len() ==> constant(c, #[trigger] columns(s)[i]) }
pub open spec fn distinct_vars(s: Seq<Variable>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn exactly(s: Set<Variable>, q: Seq<Variable>, n: int) -> bool { (forall|i: int| 0 <= i < n ==> s.contains(#[trigger] q[i])) && (forall|v: Variable| #[trigger] s.contains(v) ==> exists|i: int| 0 <= i < n && #[trigger] q[i] == v) }
pub fn rc_new<A>(a: A) -> (r: Rc<A>) ensures *r == a { std::sync::Arc::new(a) }
"""

SQL = """
#[verifier::external_body] pub fn copied<A>(v: &Vec<A>) -> (r: Vec<A>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn put_<A>(x: &mut A, y: A) -> (r: A) ensures r == *old(x), *final(x) == y { unimplemented!() }
#[verifier::external_body] pub struct ConsumableVec { x: () }
impl ConsumableVec {
  pub uninterp spec fn view(&self) -> Seq<Option<ComputedTable>>;
  // Panics on what was taken before.
  #[verifier::external_body] pub fn take_dangerously(&mut self, i: usize) -> (r: ComputedTable) requires i < old(self)@.len(), old(self)@[i as int] is Some ensures Some(r) == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, None) { unimplemented!() }
}
#[verifier::external_body] pub fn consumable(v: Vec<ComputedTable>) -> (r: ConsumableVec) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == Some(v@[i]) { unimplemented!() }
pub uninterp spec fn computed(c: ComputedTable, a: TableAlias) -> TableOrSubquery;
#[verifier::external_body] pub fn table_for_computed(c: ComputedTable, a: TableAlias) -> (r: TableOrSubquery) ensures r == computed(c, a) { unimplemented!() }
pub uninterp spec fn conditions(c: ColumnIntersection) -> Seq<Constraint>;
#[verifier::external_body] pub fn constraints_of(c: ColumnIntersection) -> (r: Vec<Constraint>) ensures r@ == conditions(c) { unimplemented!() }
// Each computed table stands in one place.
pub open spec fn computed_once(c: ConjoiningClauses) -> bool {
    (forall|i: int| 0 <= i < c.from@.len() ==> ((#[trigger] c.from@[i]).0 matches DatomsTable::Computed(k) ==> k < c.computed_tables@.len()))
    && (forall|i: int, j: int| 0 <= i < j < c.from@.len() && (#[trigger] c.from@[i]).0 is Computed && (#[trigger] c.from@[j]).0 is Computed ==> c.from@[i].0 != c.from@[j].0) }
pub open spec fn table(s: SourceAlias, t: Seq<ComputedTable>) -> TableOrSubquery { match s.0 { DatomsTable::Computed(k) => computed(t[k as int], s.1), _ => TableOrSubquery::Table(s) } }
pub open spec fn tables_ok(f: FromClause, c: ConjoiningClauses) -> bool {
    if c.from@.len() == 0 { f is Nothing } else { f matches FromClause::TableList(l) && l.0@.len() == c.from@.len() && forall|i: int| 0 <= i < c.from@.len() ==> #[trigger] l.0@[i] == table(c.from@[i], c.computed_tables@) } }
// The SELECT of these clauses; none of its rows when they cannot hold.
pub open spec fn selects(q: SelectQuery, p: Projection, c: ConjoiningClauses, distinct: bool, g: Vec<GroupBy>, o: Option<Vec<OrderBy>>, l: Limit) -> bool {
    q.distinct == distinct && q.projection == p && tables_ok(q.from, c) && q.constraints@ == conditions(c.wheres) && q.group_by@ == g@ && q.order@ =~= list_of(o)
    && q.limit == (if c.empty_because is Some { Limit::Fixed(0) } else { l }) }
pub open spec fn over(q: SelectQuery) -> Option<SelectQuery> { match q.from { FromClause::TableList(l) => if l.0@.len() == 1 { match l.0@[0] { TableOrSubquery::Subquery(b) => Some(*b), _ => None } } else { None }, _ => None } }
pub open spec fn bare(b: SelectQuery, q: SelectQuery) -> bool { b.distinct && b.projection == q.projection && b.from == q.from && b.constraints == q.constraints && b.group_by@.len() == 0 && b.order@.len() == 0 && b.limit is None }
pub open spec fn grouped(m: SelectQuery, q: SelectQuery, p: Projection) -> bool { m.distinct == q.distinct && m.projection == p && m.constraints@.len() == 0 && m.group_by@ == q.group_by@ && m.limit == q.limit }
// The columns that can be null: aggregates over no rows.
pub open spec fn nulls(c: Seq<ProjectedColumn>, n: int) -> Seq<Constraint> decreases n {
    if n <= 0 { Seq::empty() } else { let p = nulls(c, n - 1); match c[n - 1].0 { ColumnOrExpression::NullableAggregate(_, _) => p.push(Constraint::IsNotNull { value: ColumnOrExpression::ExistingColumn(c[n - 1].1) }), _ => p } } }
pub open spec fn not_null(p: Projection) -> Seq<Constraint> { match p { Projection::Columns(c) => nulls(c@, c@.len() as int), _ => Seq::empty() } }
// Grouping, order and limit apply to the rows of the query inside, which are distinct.
pub open spec fn reprojects(r: SelectQuery, q: SelectQuery, p: Projection) -> bool {
    over(r) matches Some(m) && if not_null(p).len() == 0 { bare(m, q) && grouped(r, q, p) && r.order@ == q.order@ }
    else { over(m) matches Some(b) && bare(b, q) && grouped(m, q, p) && (q.limit is None || m.order@ == q.order@)
        && r.projection is Star && r.constraints@ == not_null(p) && r.group_by@.len() == 0 && r.order@ == q.order@ && r.limit is None } }
pub uninterp spec fn projected(s: Schema, q: AlgebraicQuery) -> Result<Either<ConstantProjector, CombinedProjection>>;
#[verifier::external_body] pub fn query_projection(s: &Schema, q: &AlgebraicQuery) -> (r: Result<Either<ConstantProjector, CombinedProjection>>) ensures r == projected(*s, *q) { unimplemented!() }
pub open spec fn combined(s: SelectQuery, q: AlgebraicQuery, c: CombinedProjection) -> bool { match c.pre_aggregate_projection {
    None => selects(s, c.sql_projection, q.cc, c.distinct, c.group_by_cols, q.order, q.limit),
    Some(p) => exists|i: SelectQuery| selects(i, p, q.cc, c.distinct, c.group_by_cols, q.order, q.limit) && #[trigger] reprojects(s, i, c.sql_projection) } }
"""


def build(u):
    a, ty, c = u.src("query-algebrizer/src/lib.rs"), u.src("query-algebrizer/src/types.rs"), u.src("query-algebrizer/src/clauses/mod.rs")
    q, core, tr, sq = u.src("edn/src/query.rs"), u.src("core-traits/lib.rs"), u.src("query-projector/src/translate.rs"), u.src("query-sql/src/lib.rs")
    pl, ut = u.src("query-projector/src/lib.rs"), u.src("core/src/util.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",))
    u.assume("the steps over the clauses do what their names say (C14 has contracts on them); what each one asks of the clauses is kept by the others")
    u.assume("each computed table stands in one place of a query's tables (take_dangerously)")
    u.assume("Option::map_or, map and collect are the matches and loops they stand for")
    for n in OPAQUE:
        if n != "Element":
            out += "#[verifier::external_body] pub struct %s { x: () }\n" % n
    for n in ("Variable", "TableAlias", "Name", "SourceAlias"):
        out += "impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n" % n
    out += "#[verifier::external_body] pub struct Pull { x: () }\n#[verifier::external_body] pub struct Aggregate { x: () }\npub type Rc<A> = std::sync::Arc<A>;\npub type VariableBindings = BTreeMap<Variable, TypedValue>;\n"
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, "ValueType") + "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(q, "Direction")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(ty, "DatomsTable")
    out += u.struct(q, "Order") + u.struct(q, "Limit") + u.struct(q, "Element") + u.struct(q, "FindSpec") + u.struct(q, "ParsedQuery") + u.struct(ty, "SourceAlias") + u.struct(ty, "VariableColumn") + u.struct(ty, "OrderBy")
    out += u.struct(c, "ConjoiningClauses") + u.struct(ty, "FindQuery") + u.struct(a, "AlgebraicQuery").replace("clauses::ConjoiningClauses", "ConjoiningClauses")
    out += SPEC.replace("pub open spec fn known_type_of", "pub uninterp spec fn known_type_of")

    f = a.fn("validate_and_simplify_order").ret("r")
    f.macro("bail", lambda a: "{ proof { assert(o_[i_ - 1].1 == var); assert(!all_bound(*cc, o_, o_.len() as int)); } return Err(Error::new()); }", "errors are opaque")
    f.subhead(r"\border: ", "order_in: ", "a local of its own").prologue("let order = order_in;").sub(r"Vec::with_capacity\([^;]*\);", "Vec::new();", "a capacity has no effect", minimum=0)
    f.sub(r"for Order\((\w+), (\w+)\) in order\.into_iter\(\) \{", r"""let ghost o_ = order@; proof { assert(o_.take(0) =~= Seq::empty()); } let n_ = order.len(); let mut i_: usize = 0; while i_ < n_ { let \1 = order[i_].0; let \2 = order[i_].1.clone(); i_ = i_ + 1;
        proof { assert(o_.take(i_ as int).drop_last() =~= o_.take(i_ - 1)); assert(o_.take(i_ as int).last() == o_[i_ - 1]); }""", "the loop by position")
    f.sub(r"\border_bys\.is_empty\(\)", "(order_bys.len() == 0)", "is_empty", minimum=0)
    f.annotate([dict(kind="while", invariant="""invariant i_ <= n_, n_ == order@.len(), o_ == order@, o_ == list_of(order_in), order_bys@ =~= keys(*cc, o_.take(i_ as int)), all_bound(*cc, o_, i_ as int), forall|v: Variable| #[trigger] vars@.contains(v) <==> varies(*cc, o_, i_ as int, v),
       decreases n_ - i_,""", after="proof { assert(o_.take(n_ as int) =~= o_); }")])
    out += u.emit(f, """ensures r matches Ok(t) ==> ordered_as(*cc, order_in, t.0, t.1),
       r is Err ==> !all_bound(*cc, list_of(order_in), list_of(order_in).len() as int)""")
    f = a.fn("simplify_limit").ret("r")
    f.subhead(r"mut query: ", "query_: ", "a local of its own").prologue("let mut query = query_;")
    f.macro("bail", units.bail(), "errors are opaque")
    f.sub(r"match query\.limit \{", "match &query.limit {", "default binding modes", minimum=0).sub(r"\(ref (\w+)\)", r"(\1)", "default binding modes", count=0, minimum=0)
    out += u.emit(f, """ensures r matches Ok(x) ==> x == (AlgebraicQuery { limit: x.limit, ..query_ }) && limited(query_.cc, query_.limit, x.limit),
       r is Err ==> (query_.limit matches Limit::Variable(v) && query_.cc.value_bindings@.contains_key(v) && !(query_.cc.value_bindings@[v] matches TypedValue::Long(n) && n > 0))""")
    f = q.fn("is_unit_limited", r"impl FindSpec\b").ret("r")
    f.sub(r"use self::FindSpec::\*;", "", "names in full", minimum=0).sub(r"(?<![\w:])(FindScalar|FindTuple|FindRel|FindColl)\(", r"FindSpec::\1(", "names in full", count=0, minimum=0)
    out += "impl FindSpec {\n" + u.emit(f, "ensures r == one_row(*self)") + "}\n"
    f = a.fn("algebrize_with_inputs").ret("r")
    f.sub(r"let Limit::Variable\(ref (\w+)\) = parsed\.limit", r"let Limit::Variable(\1) = &parsed.limit", "default binding modes", minimum=0)
    f.sub(r"Rc::new\(", "rc_new(", "Rc::new", minimum=0)
    out += u.emit(f, """ensures r matches Ok(x) ==> finished(x.cc, parsed, inputs) && *x.find_spec == parsed.find_spec && x.default_source == parsed.default_source && x.with == parsed.with
       && ordered_as(x.cc, parsed.order, x.order, x.named_projection) && limited(x.cc, if one_row(parsed.find_spec) { Limit::Fixed(1) } else { parsed.limit }, x.limit)""")
    out += "impl AlgebraicQuery {\n"
    IA = r"impl AlgebraicQuery\b"
    out += u.emit(a.fn("is_known_empty", IA).ret("r"), "ensures r == (self.cc.empty_because is Some)")
    f = a.fn("is_fully_bound", IA).ret("r")
    f.sub(r"self\.find_spec\.columns\(\)\.all\(\|e\| match e (\{.*\})\)\s*\}$", r"let all_ = columns_of(&self.find_spec); let mut i_: usize = 0; while i_ < all_.len() { let e = &all_[i_]; let t_ = match e \1; if !t_ { return false; } i_ = i_ + 1; } true }", "all over the elements")
    f.sub(r"&Element::(\w+)\((?:ref )?(\w+)\)", r"Element::\1(\2)", "default binding modes", count=0, minimum=0)
    f.annotate([dict(kind="while", invariant="invariant i_ <= all_@.len(), all_@ == columns(*self.find_spec), forall|i: int| 0 <= i < i_ ==> constant(self.cc, #[trigger] columns(*self.find_spec)[i]), decreases all_@.len() - i_,")])
    out += u.emit(f, "ensures r == all_constant(self.cc, *self.find_spec)")
    f = a.fn("is_fully_unit_bound", IA).ret("r")
    f.sub(r"\bself\.cc\.from\.is_empty\(\)", "(self.cc.from.len() == 0)", "is_empty", minimum=0)
    out += u.emit(f, "ensures r ==> all_constant(self.cc, *self.find_spec) && self.cc.from@.len() == 0 && conditions(self.cc.wheres).len() == 0")
    f = a.fn("unbound_variables", IA).ret("r")
    f.sub(r"\.sub\(", ".minus(", "the difference of sets")
    out += u.emit(f, "ensures forall|v: Variable| #[trigger] r@.contains(v) <==> self.cc.input_variables@.contains(v) && !self.cc.value_bindings@.contains_key(v)") + "}\n"
    out += "impl ColumnIntersection { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (conditions(*self).len() == 0) { unimplemented!() } }\n"
    f = a.fn("from_parsed_query", r"impl FindQuery\b").ret("r")
    f.macro("bail", units.bail(), "errors are opaque")
    for n in ("in_vars", "with"):
        f.sub(r"for var in parsed\.%s\.into_iter\(\) \{" % n, r"let %s_ = parsed.%s; let mut i_: usize = 0; while i_ < %s_.len() { let var = %s_[i_].clone(); i_ = i_ + 1;" % (n, n, n, n), "the loop by position")
    f.sub(r"let Limit::Variable\(ref (\w+)\) = parsed\.limit", r"let Limit::Variable(\1) = &parsed.limit", "default binding modes", minimum=0)
    inv = lambda n: dict(kind="while", invariant="invariant i_ <= %s_@.len(), %s_@ == parsed.%s@, exactly(set@, %s_@, i_ as int), distinct_vars(%s_@.take(i_ as int)), decreases %s_@.len() - i_," % ((n,) * 6),
                         end="proof { assert(%s_@.take(i_ as int) =~= %s_@.take(i_ - 1).push(%s_@[i_ - 1])); }" % ((n,) * 3), after="proof { assert(%s_@.take(%s_@.len() as int) =~= %s_@); }" % ((n,) * 3))
    f.annotate([inv("in_vars"), inv("with")])
    out += "impl FindQuery {\n" + u.emit(f, """ensures r matches Ok(x) ==> x.find_spec == parsed.find_spec && x.default_source == parsed.default_source && x.in_sources == parsed.in_sources && x.limit == parsed.limit && x.where_clauses == parsed.where_clauses && x.order == parsed.order
       && exactly(x.in_vars@, parsed.in_vars@, parsed.in_vars@.len() as int) && exactly(x.with@, parsed.with@, parsed.with@.len() as int) && distinct_vars(parsed.in_vars@) && distinct_vars(parsed.with@) && (x.limit matches Limit::Variable(v) ==> x.in_vars@.contains(v)),
       r is Err ==> !distinct_vars(parsed.in_vars@) || !distinct_vars(parsed.with@) || (parsed.limit matches Limit::Variable(v) && !parsed.in_vars@.contains(v))""") + "}\n"

    # the SELECT
    out += "".join(u.struct(sq, n) for n in ("ColumnOrExpression", "ProjectedColumn", "Projection", "GroupBy", "Constraint", "TableOrSubquery", "TableList", "FromClause", "SelectQuery"))
    out += u.struct(ut, "Either") + u.struct(pl, "CombinedProjection").replace("Box<dyn Projector>", "AnyProjector") + u.struct(tr, "ProjectedSelect").replace("Box<dyn Projector>", "AnyProjector") + SQL
    f = tr.fn("cc_to_select_query").ret("r")
    f.sub(r"\bcc\.from\.is_empty\(\)", "(cc.from.len() == 0)", "is_empty", minimum=0)
    f.sub(r"ConsumableVec<_> = cc\.computed_tables\.into\(\)", "ConsumableVec = consumable(cc.computed_tables)", "each one to be taken once")
    f.sub(r"let tables = from\.into_iter\(\)\.map\(\|source_alias\| (match source_alias \{.*?\n        \})\);", r"let mut tables: Vec<TableOrSubquery> = Vec::new(); let mut i_: usize = 0; while i_ < from.len() { let source_alias = from[i_].clone(); i_ = i_ + 1; tables.push(\1); }", "map as the loop it stands for")
    f.sub(r"tables\.collect\(\)", "tables", "map and collect")
    f.sub(r"order\.map_or\(vec!\[\], \|vec\| vec\.into_iter\(\)\.collect\(\)\)", "match order { None => vec![], Some(vec) => vec }", "map_or")
    f.sub(r"cc\.wheres\.into_iter\(\)\.map\(\|c\| c\.to_constraint\(\)\)\.collect\(\)", "constraints_of(cc.wheres)", "every condition")
    f.sub(r"cc\.empty_because\.is_some\(\)", "cc.empty_because.is_some()", "", minimum=0)
    f.annotate([dict(kind="while", invariant="""invariant i_ <= from@.len(), from@ == cc.from@, computed_once(cc), tables@.len() == i_, forall|i: int| 0 <= i < i_ ==> #[trigger] tables@[i] == table(cc.from@[i], cc.computed_tables@), computed@.len() == cc.computed_tables@.len(),
       forall|i: int| i_ <= i < from@.len() ==> ((#[trigger] from@[i]).0 matches DatomsTable::Computed(k) ==> computed@[k as int] == Some(cc.computed_tables@[k as int])), decreases from@.len() - i_,""")])
    out += u.emit(f, "requires computed_once(cc) ensures selects(r, projection, cc, distinct, group_by, order, limit)")
    f = tr.fn("re_project").ret("r")
    f.subhead(r"mut inner: ", "inner_: ", "a local of its own").prologue("let mut inner = inner_;")
    f.sub(r"let (\w+) = inner\.(\w+);\s*inner\.\2 = ([^;]*);", r"let \1 = put_(&mut inner.\2, \3);", "taken and replaced", count=0)
    f.sub(r"use self::Projection::\*;", "", "names in full", minimum=0)
    f.sub(r"match projection \{\s*Columns\(ref columns\) => columns\s*\.iter\(\)\s*\.filter_map\(\|pc\| match \*pc \{(.*?)\n\s*\}\)\s*\.collect\(\),\s*Star =>", r"""match &projection {
        Projection::Columns(columns) => { let mut some_: Vec<Constraint> = Vec::new(); let mut i_: usize = 0; while i_ < columns.len() { let pc = &columns[i_]; i_ = i_ + 1; let c_: Option<Constraint> = match pc {\1 }; match c_ { Some(x_) => { some_.push(x_); } None => {} } } some_ }
        Projection::Star =>""", "filter_map as the loop it stands for")
    f.sub(r"(?<![\w:])One => vec", "Projection::One => vec", "names in full")
    f.sub(r"\bref name\b", "name", "default binding modes", count=0, minimum=0)
    f.sub(r"nullable\.is_empty\(\)", "(nullable.len() == 0)", "is_empty", minimum=0)
    f.sub(r"&Limit::", "Limit::", "default binding modes", count=0, minimum=0)
    f.sub(r"order_by\.clone\(\)", "copied(&order_by)", "a clone equals what was cloned", minimum=0)
    f.annotate([dict(kind="while", invariant="invariant i_ <= columns@.len(), some_@ =~= nulls(columns@, i_ as int), decreases columns@.len() - i_,")])
    out += u.emit(f, "ensures reprojects(r, inner_, projection)")
    f = tr.fn("query_to_select").ret("r")
    f.sub(r"query_projection\(schema, &query\)\.map\(\|e\| match e (\{.*\})\)\s*\}$", r"match query_projection(schema, &query) { Err(x_) => Err(x_), Ok(e) => Ok(match e \1) } }", "map over a Result")
    out += u.emit(f, """requires computed_once(query.cc)
       ensures match projected(*schema, query) { Err(_) => r is Err, Ok(Either::Left(x)) => r == Ok::<ProjectedSelect, Error>(ProjectedSelect::Constant(x)),
         Ok(Either::Right(x)) => (r matches Ok(ProjectedSelect::Query { query: s, projector }) && projector == x.datalog_projector && combined(*s, query, x)) }""")
    return out
