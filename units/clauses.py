"""C14: what conjoined clauses ask for (query-algebrizer/src/clauses/mod.rs, pattern.rs): which values of
the variables and which rows satisfy them, and what each step of building them adds to that."""
import re
import units, extract
T = units.load("types")
RLIMIT = 60

SPEC = """
// A model: a value for every variable, a row for every table alias, over one schema.
#[verifier::external_body] pub struct Model { x: () }
pub uninterp spec fn schema_of(m: Model) -> Schema;
pub uninterp spec fn valued(m: Model, v: Variable) -> TypedValue;
pub uninterp spec fn at_entity(m: Model, q: QualifiedAlias, e: Entid) -> bool;
pub uninterp spec fn at_value(m: Model, q: QualifiedAlias, v: TypedValue) -> bool;
pub uninterp spec fn at_number(m: Model, q: QualifiedAlias, n: i64) -> bool;
pub uninterp spec fn same(m: Model, q: QualifiedAlias, r: QualifiedAlias) -> bool;
pub uninterp spec fn tag(m: Model, t: TableAlias) -> ValueType;
pub open spec fn typed_as(m: Model, t: TableAlias, s: Set<ValueType>) -> bool { s.contains(tag(m, t)) }
pub uninterp spec fn meets_other(m: Model, c: ColumnConstraintOrAlternation) -> bool;
pub open spec fn only(t: ValueType) -> Set<ValueType> { Set::empty().insert(t) }
pub open spec fn eqs(m: Model, q: QualifiedAlias, x: QueryValue) -> bool { match x {
    QueryValue::Entid(e) => at_entity(m, q, e), QueryValue::TypedValue(TypedValue::Ref(e)) => at_entity(m, q, e), QueryValue::TypedValue(v) => at_value(m, q, v),
    QueryValue::PrimitiveLong(n) => at_number(m, q, n), QueryValue::Column(r) => same(m, q, r) } }
pub open spec fn meets(m: Model, c: ColumnConstraintOrAlternation) -> bool { match c {
    ColumnConstraintOrAlternation::Constraint(ColumnConstraint::Equals(q, x)) => eqs(m, q, x),
    ColumnConstraintOrAlternation::Constraint(ColumnConstraint::HasTypes { value, value_types, check_value }) => typed_as(m, value, value_types@),
    _ => meets_other(m, c) } }
// These columns hold entities; a keyword stands for the entity it names.
pub open spec fn entity_column(c: Column) -> bool { c matches Column::Fixed(d) && (d is Entity || d is Attribute || d is Tx) }
pub open spec fn means(m: Model, q: QualifiedAlias, v: TypedValue) -> bool {
    if entity_column(q.1) { match v { TypedValue::Ref(e) => at_entity(m, q, e), TypedValue::Keyword(k) => entid_of(schema_of(m), *k) matches Some(e) && at_entity(m, q, e), _ => false } }
    else { eqs(m, q, QueryValue::TypedValue(v)) } }
pub open spec fn bindings_ok(b: Map<Variable, Vec<QualifiedAlias>>, m: Model) -> bool { forall|v: Variable, i: int| b.contains_key(v) && 0 <= i < b[v]@.len() ==> means(m, #[trigger] b[v]@[i], valued(m, v)) }
pub open spec fn values_ok(b: Map<Variable, TypedValue>, m: Model) -> bool { forall|v: Variable| #[trigger] b.contains_key(v) ==> b[v] == valued(m, v) }
pub open spec fn types_ok(b: Map<Variable, ValueTypeSet>, m: Model) -> bool { forall|v: Variable| #[trigger] b.contains_key(v) ==> b[v]@.contains(type_of(valued(m, v))) }
pub open spec fn tags_ok(b: Map<Variable, QualifiedAlias>, m: Model) -> bool { forall|v: Variable| #[trigger] b.contains_key(v) ==> typed_as(m, b[v].0, only(type_of(valued(m, v)))) }
pub open spec fn wheres_ok(w: Seq<ColumnConstraintOrAlternation>, m: Model) -> bool { forall|i: int| 0 <= i < w.len() ==> meets(m, #[trigger] w[i]) }
// The clauses hold of a model.
pub open spec fn holds(c: ConjoiningClauses, m: Model) -> bool {
    c.empty_because is None && bindings_ok(c.column_bindings@, m) && values_ok(c.value_bindings@, m) && types_ok(c.known_types@, m) && types_ok(c.required_types@, m) && tags_ok(c.extracted_types@, m) && wheres_ok(c.wheres@, m)
}
// What no step changes.
pub open spec fn kept(a: ConjoiningClauses, b: ConjoiningClauses) -> bool {
    b.from == a.from && b.computed_tables == a.computed_tables && b.input_variables == a.input_variables && b.required_types == a.required_types && (a.empty_because is Some ==> b.empty_because is Some)
}
pub open spec fn kept_values(a: ConjoiningClauses, b: ConjoiningClauses) -> bool { kept(a, b) && b.value_bindings == a.value_bindings }
pub open spec fn known_single(c: ConjoiningClauses, v: Variable) -> bool { c.known_types@.contains_key(v) && unit(c.known_types@[v]@) }
pub open spec fn unit(s: Set<ValueType>) -> bool { exists|t: ValueType| s == #[trigger] only(t) }
pub open spec fn tag_column(c: Column) -> Option<Column> { match c { Column::Fixed(DatomsColumn::Value) => Some(Column::Fixed(DatomsColumn::ValueTypeTag)), Column::Transactions(TransactionsColumn::Value) => Some(Column::Transactions(TransactionsColumn::ValueTypeTag)), _ => None } }
pub open spec fn bindable(c: Column) -> bool { !(c is Fulltext) && !(c matches Column::Fixed(DatomsColumn::ValueTypeTag)) }
pub open spec fn none_of(a: Set<ValueType>, b: Set<ValueType>) -> bool { forall|t: ValueType| !(#[trigger] a.contains(t) && b.contains(t)) }
proof fn pushed(w: Seq<ColumnConstraintOrAlternation>, x: ColumnConstraintOrAlternation)
    ensures forall|m: Model| #![trigger wheres_ok(w, m)] #![trigger wheres_ok(w.push(x), m)] wheres_ok(w.push(x), m) <==> wheres_ok(w, m) && meets(m, x)
{
    assert forall|m: Model| #[trigger] wheres_ok(w.push(x), m) <==> wheres_ok(w, m) && meets(m, x) by {
        if wheres_ok(w.push(x), m) { assert(meets(m, w.push(x)[w.len() as int])); assert forall|i: int| 0 <= i < w.len() implies meets(m, #[trigger] w[i]) by { assert(w.push(x)[i] == w[i]); } }
    }
}
proof fn asks(w: Seq<ColumnConstraintOrAlternation>, x: ColumnConstraintOrAlternation)
    ensures forall|t: TableAlias, s: Set<ValueType>| #[trigger] asked(w, t, s) ==> asked(w.push(x), t, s), forall|t: TableAlias, s: Set<ValueType>| #[trigger] is_asked(x, t, s) ==> asked(w.push(x), t, s)
{
    assert forall|t: TableAlias, s: Set<ValueType>| #[trigger] asked(w, t, s) implies asked(w.push(x), t, s) by { let i = choose|i: int| 0 <= i < w.len() && is_asked(#[trigger] w[i], t, s); assert(w.push(x)[i] == w[i]); assert(is_asked(w.push(x)[i], t, s)); }
    assert forall|t: TableAlias, s: Set<ValueType>| #[trigger] is_asked(x, t, s) implies asked(w.push(x), t, s) by { assert(w.push(x)[w.len() as int] == x); }
}
// ---- patterns
pub open spec fn column(a: TableAlias, c: DatomsColumn) -> QualifiedAlias { QualifiedAlias(a, Column::Fixed(c)) }
pub open spec fn place_ok(m: Model, a: TableAlias, c: DatomsColumn, p: EvolvedNonValuePlace) -> bool { match p {
    EvolvedNonValuePlace::Placeholder => true,
    EvolvedNonValuePlace::Variable(v) => type_of(valued(m, v)) == ValueType::Ref && means(m, column(a, c), valued(m, v)),
    EvolvedNonValuePlace::Entid(e) => at_entity(m, column(a, c), e) } }
pub open spec fn attribute_place_ok(m: Model, a: TableAlias, p: EvolvedNonValuePlace) -> bool { place_ok(m, a, DatomsColumn::Attribute, p) && (p matches EvolvedNonValuePlace::Entid(e) ==> attr_of(schema_of(m), e) is Some) }
pub open spec fn attr_meant(s: Schema, v: TypedValue) -> Option<Attribute> { match v { TypedValue::Ref(e) => attr_of(s, e), TypedValue::Keyword(k) => match entid_of(s, *k) { Some(e) => attr_of(s, e), None => None }, _ => None } }
// The attribute of a pattern, when it is known which.
pub open spec fn attr_known(s: Schema, b: Map<Variable, TypedValue>, p: EvolvedNonValuePlace) -> Option<Attribute> { match p {
    EvolvedNonValuePlace::Entid(e) => attr_of(s, e), EvolvedNonValuePlace::Variable(v) => if b.contains_key(v) { attr_meant(s, b[v]) } else { None }, _ => None } }
pub open spec fn type_known(s: Schema, b: Map<Variable, TypedValue>, p: EvolvedNonValuePlace) -> Option<ValueType> { match attr_known(s, b, p) { Some(a) => Some(a.value_type), None => None } }
pub open spec fn value_ok(m: Model, a: TableAlias, t: Option<ValueType>, p: EvolvedValuePlace) -> bool { let q = column(a, DatomsColumn::Value); match p {
    EvolvedValuePlace::Placeholder => true,
    EvolvedValuePlace::Variable(v) => (t matches Some(x) ==> type_of(valued(m, v)) == x) && means(m, q, valued(m, v)),
    EvolvedValuePlace::Entid(e) => (t matches Some(x) ==> x == ValueType::Ref) && at_entity(m, q, e),
    EvolvedValuePlace::Value(c) => (t matches Some(x) ==> x == type_of(c)) && eqs(m, q, QueryValue::TypedValue(c)) && (t is None ==> typed_as(m, a, only(type_of(c)))),
    EvolvedValuePlace::EntidOrInteger(i) => if t == Some(ValueType::Ref) { at_entity(m, q, i) } else { at_number(m, q, i) },
    EvolvedValuePlace::IdentOrKeyword(k) => if t == Some(ValueType::Ref) { entid_of(schema_of(m), *k) matches Some(e) && at_entity(m, q, e) } else { at_value(m, q, TypedValue::Keyword(k)) && typed_as(m, a, only(ValueType::Keyword)) } } }
pub open spec fn place_step(m: Model, a: TableAlias, c: DatomsColumn, p: EvolvedNonValuePlace) -> bool { match p {
    EvolvedNonValuePlace::Placeholder => true, EvolvedNonValuePlace::Variable(v) => means(m, column(a, c), valued(m, v)), EvolvedNonValuePlace::Entid(e) => at_entity(m, column(a, c), e) } }
pub open spec fn attribute_step(m: Model, a: TableAlias, p: EvolvedNonValuePlace) -> bool { place_step(m, a, DatomsColumn::Attribute, p) && (p matches EvolvedNonValuePlace::Entid(e) ==> attr_of(schema_of(m), e) is Some) }
pub open spec fn value_step(m: Model, a: TableAlias, t: Option<ValueType>, p: EvolvedValuePlace) -> bool { value_ok(m, a, t, p) }
pub open spec fn pattern_ok(m: Model, a: TableAlias, b: Map<Variable, TypedValue>, p: EvolvedPattern) -> bool {
    place_ok(m, a, DatomsColumn::Entity, p.entity) && attribute_place_ok(m, a, p.attribute) && value_ok(m, a, type_known(schema_of(m), b, p.attribute), p.value) && place_ok(m, a, DatomsColumn::Tx, p.tx) }
// The row's own type tag is that of the variable in its value place.
pub open spec fn tagged(m: Model, a: TableAlias, p: EvolvedValuePlace) -> bool { p matches EvolvedValuePlace::Variable(v) ==> typed_as(m, a, only(type_of(valued(m, v)))) }
pub open spec fn typable(c: ConjoiningClauses, v: Variable) -> bool { c.value_bindings@.contains_key(v) || c.input_variables@.contains(v) || known_single(c, v) || c.extracted_types@.contains_key(v) }
"""

MODELS = """
#[verifier::external_body] pub fn entries_copy<K, V>(m: &BTreeMap<K, V>) -> (r: Vec<(K, V)>) ensures entries_of(m@, r@) { unimplemented!() }
pub open spec fn pruned(a: Map<Variable, QualifiedAlias>, b: Map<Variable, QualifiedAlias>, k: Seq<(Variable, ValueTypeSet)>, n: int) -> bool {
    (forall|v: Variable| #[trigger] b.contains_key(v) ==> a.contains_key(v) && b[v] == a[v])
    && (forall|v: Variable| #[trigger] a.contains_key(v) && !b.contains_key(v) ==> exists|i: int| 0 <= i < n && (#[trigger] k[i]).0 == v && unit(k[i].1@))
    && (forall|i: int| 0 <= i < n && unit((#[trigger] k[i]).1@) ==> !b.contains_key(k[i].0)) }
pub open spec fn known_same(a: ConjoiningClauses, b: ConjoiningClauses, v: Variable) -> bool { (a.known_types@.contains_key(v) <==> b.known_types@.contains_key(v)) && (a.known_types@.contains_key(v) ==> a.known_types@[v] == b.known_types@[v]) }
// The variable's types are known to be among these, or the rows are asked for one of them.
pub open spec fn imposed(c: ConjoiningClauses, w: Seq<ColumnConstraintOrAlternation>, v: Variable, s: Set<ValueType>) -> bool {
    (c.known_types@.contains_key(v) && c.known_types@[v]@.subset_of(s)) || (c.extracted_types@.contains_key(v) && asked(w, c.extracted_types@[v].0, s)) }
pub open spec fn asked(w: Seq<ColumnConstraintOrAlternation>, t: TableAlias, s: Set<ValueType>) -> bool { exists|i: int| 0 <= i < w.len() && is_asked(#[trigger] w[i], t, s) }
pub open spec fn is_asked(x: ColumnConstraintOrAlternation, t: TableAlias, s: Set<ValueType>) -> bool { x matches ColumnConstraintOrAlternation::Constraint(ColumnConstraint::HasTypes { value, value_types, check_value }) && value == t && value_types@ == s && check_value }
proof fn asks_all(w: Seq<ColumnConstraintOrAlternation>, w2: Seq<ColumnConstraintOrAlternation>, v: Variable, s: Set<ValueType>, c: ConjoiningClauses)
    requires c.extracted_types@.contains_key(v), w2.len() == w.len() + 1, w2 == w.push(w2.last()), is_asked(w2.last(), c.extracted_types@[v].0, s)
    ensures forall|x: Variable, t: Set<ValueType>| #[trigger] imposed(c, w, x, t) ==> imposed(c, w2, x, t), imposed(c, w2, v, s)
{ asks(w, w2.last()); assert(is_asked(w2.last(), c.extracted_types@[v].0, s)); }
pub open spec fn is_link(x: ColumnConstraintOrAlternation, q: QualifiedAlias, r: QualifiedAlias) -> bool { x == ColumnConstraintOrAlternation::Constraint(ColumnConstraint::Equals(q, QueryValue::Column(r))) }
pub open spec fn linked(w: Seq<ColumnConstraintOrAlternation>, q: QualifiedAlias, r: QualifiedAlias) -> bool { exists|i: int| 0 <= i < w.len() && is_link(#[trigger] w[i], q, r) }
// Nothing but such conditions is added.
pub open spec fn extends(a: Seq<ColumnConstraintOrAlternation>, b: Seq<ColumnConstraintOrAlternation>, cols: Map<Variable, Vec<QualifiedAlias>>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && forall|i: int| a.len() <= i < b.len() ==> of_one_variable(#[trigger] b[i], cols) }
pub open spec fn of_one_variable(x: ColumnConstraintOrAlternation, cols: Map<Variable, Vec<QualifiedAlias>>) -> bool { exists|v: Variable, i: int| cols.contains_key(v) && 1 <= i < cols[v]@.len() && is_link(x, cols[v]@[0], #[trigger] cols[v]@[i]) }
proof fn link_pushed(a: Seq<ColumnConstraintOrAlternation>, w: Seq<ColumnConstraintOrAlternation>, w2: Seq<ColumnConstraintOrAlternation>, q: QualifiedAlias, r: QualifiedAlias, cols: Map<Variable, Vec<QualifiedAlias>>)
    requires w2 == w.push(ColumnConstraintOrAlternation::Constraint(ColumnConstraint::Equals(q, QueryValue::Column(r)))), extends(a, w, cols), exists|v: Variable, i: int| cols.contains_key(v) && 1 <= i < cols[v]@.len() && q == cols[v]@[0] && r == #[trigger] cols[v]@[i]
    ensures linked(w2, q, r), forall|x: QualifiedAlias, y: QualifiedAlias| #[trigger] linked(w, x, y) ==> linked(w2, x, y), extends(a, w2, cols)
{
    assert(is_link(w2[w.len() as int], q, r));
    assert(of_one_variable(w2[w.len() as int], cols));
    assert(w2.take(a.len() as int) =~= w.take(a.len() as int));
    assert forall|i: int| a.len() <= i < w2.len() implies of_one_variable(#[trigger] w2[i], cols) by { if i < w.len() { assert(w2[i] == w[i]); } }
    assert forall|x: QualifiedAlias, y: QualifiedAlias| #[trigger] linked(w, x, y) implies linked(w2, x, y) by { let i = choose|i: int| 0 <= i < w.len() && is_link(#[trigger] w[i], x, y); assert(w2[i] == w[i]); assert(is_link(w2[i], x, y)); }
}

// The facts there are, as far as the caches know them (C11).
pub uninterp spec fn fact(e: Entid, a: Entid, v: TypedValue) -> bool;
pub uninterp spec fn is_forward(k: Known, a: Entid) -> bool;
pub uninterp spec fn is_reverse(k: Known, a: Entid) -> bool;
impl<'s> Known<'s> {
  #[verifier::external_body] pub fn is_attribute_cached_reverse(&self, a: Entid) -> (r: bool) ensures r == is_reverse(*self, a) { unimplemented!() }
  #[verifier::external_body] pub fn is_attribute_cached_forward(&self, a: Entid) -> (r: bool) ensures r == is_forward(*self, a) { unimplemented!() }
  #[verifier::external_body] pub fn get_value_for_entid(&self, s: &Schema, a: Entid, e: Entid) -> (r: Option<&TypedValue>)
    requires is_forward(*self, a), attr_of(*s, a) is Some && !attr_of(*s, a)->0.multival ensures match r { Some(x) => forall|v: TypedValue| #[trigger] fact(e, a, v) <==> v == *x, None => forall|v: TypedValue| !#[trigger] fact(e, a, v) } { unimplemented!() }
  #[verifier::external_body] pub fn get_entid_for_value(&self, a: Entid, v: &TypedValue) -> (r: Option<Entid>)
    requires is_reverse(*self, a), attr_of(*self.schema, a) is Some && attr_of(*self.schema, a)->0.unique is Some ensures match r { Some(x) => forall|e: Entid| #[trigger] fact(e, a, *v) <==> e == x, None => forall|e: Entid| !#[trigger] fact(e, a, *v) } { unimplemented!() }
  #[verifier::external_body] pub fn get_entids_for_value(&self, a: Entid, v: &TypedValue) -> (r: Option<&BTreeSet<Entid>>)
    requires is_reverse(*self, a), attr_of(*self.schema, a) is Some && attr_of(*self.schema, a)->0.unique is None ensures match r { Some(x) => forall|e: Entid| #[trigger] fact(e, a, *v) <==> x@.contains(e), None => forall|e: Entid| !#[trigger] fact(e, a, *v) } { unimplemented!() }
}
#[verifier::external_body] pub fn only_one(s: &BTreeSet<Entid>) -> (r: Entid) requires s@.len() == 1 ensures forall|e: Entid| #[trigger] s@.contains(e) <==> e == r { unimplemented!() }
#[verifier::external_body] pub fn is_placeholder(p: &EvolvedNonValuePlace) -> (r: bool) ensures r == (p is Placeholder) { unimplemented!() }
#[verifier::external_body] pub fn is_default(p: &SrcVar) -> (r: bool) ensures r == (p is DefaultSrc) { unimplemented!() }
// A pattern said of the facts themselves.
pub open spec fn says(s: Schema, m: Model, p: EvolvedPattern) -> bool { p.attribute matches EvolvedNonValuePlace::Entid(a) && attr_of(s, a) is Some && match (p.entity, p.value) {
    (EvolvedNonValuePlace::Variable(e), EvolvedValuePlace::Value(x)) => valued(m, e) matches TypedValue::Ref(n) && fact(n, a, x),
    (EvolvedNonValuePlace::Variable(e), EvolvedValuePlace::IdentOrKeyword(k)) => attr_of(s, a)->0.value_type == ValueType::Keyword && (valued(m, e) matches TypedValue::Ref(n) && fact(n, a, TypedValue::Keyword(k))),
    (EvolvedNonValuePlace::Entid(n), EvolvedValuePlace::Variable(v)) => fact(n, a, valued(m, v)),
    _ => true } }
pub open spec fn odd(c: ConjoiningClauses, p: EvolvedPattern) -> bool { p.value matches EvolvedValuePlace::Variable(v) && c.column_bindings@.contains_key(v) && c.column_bindings@[v]@.len() > 0 && entity_column(c.column_bindings@[v]@[0].1) }
pub open spec fn sound_row(m: Model, a: TableAlias) -> bool { forall|e: Entid| #[trigger] at_entity(m, column(a, DatomsColumn::Attribute), e) ==> attr_of(schema_of(m), e) is Some }
pub open spec fn fulltext_is_text(s: Schema) -> bool { forall|e: Entid| (#[trigger] attr_of(s, e)) matches Some(a) && a.fulltext ==> attr_of(s, e)->0.value_type == ValueType::String }
pub open spec fn shows(s: Schema, c: ConjoiningClauses, p: EvolvedPattern, t: DatomsTable) -> bool { match attr_known(s, c.value_bindings@, p.attribute) { Some(a) => tells(t, a.fulltext, p.value), None => tells_any(t, c, p.value) } }
// What applying a pattern comes to: what the cache knows, one more table with a row that satisfies it, or nothing.
pub open spec fn applied(c: ConjoiningClauses, d: ConjoiningClauses, s: Schema, p: EvolvedPattern) -> bool {
    (d.from == c.from && (!odd(c, p) ==> forall|m: Model| #![trigger holds(d, m)] #![trigger holds(c, m)] schema_of(m) == s ==> (holds(d, m) <==> holds(c, m) && says(s, m, p))))
    || (d.from@.len() > 0 && d.from@ == c.from@.push(d.from@.last()) && shows(s, c, p, d.from@.last().0)
        && (forall|m: Model| schema_of(m) == s && #[trigger] holds(d, m) ==> holds(c, m) && pattern_ok(m, d.from@.last().1, c.value_bindings@, p))
        && (forall|m: Model| schema_of(m) == s && #[trigger] holds(c, m) && pattern_ok(m, d.from@.last().1, c.value_bindings@, p) && tagged(m, d.from@.last().1, p.value) ==> holds(d, m)))
    || (d.from == c.from && (forall|m: Model| !#[trigger] holds(d, m)) && (forall|m: Model, a: TableAlias| schema_of(m) == s && sound_row(m, a) && #[trigger] holds(c, m) && !(p.value is EntidOrInteger) && !(p.value is IdentOrKeyword) ==> !#[trigger] pattern_ok(m, a, c.value_bindings@, p)))
}
proof fn from_free(c: ConjoiningClauses, d: ConjoiningClauses)
    requires d.empty_because == c.empty_because, d.column_bindings == c.column_bindings, d.value_bindings == c.value_bindings, d.known_types == c.known_types, d.required_types == c.required_types, d.extracted_types == c.extracted_types, d.wheres == c.wheres
    ensures forall|m: Model| #![trigger holds(c, m)] #![trigger holds(d, m)] holds(c, m) <==> holds(d, m) {}

// The place made of one as written.
pub open spec fn narrower(s: Schema, b: Map<Variable, TypedValue>, p: PatternNonValuePlace) -> Option<EvolvedNonValuePlace> { match p {
    PatternNonValuePlace::Placeholder => Some(EvolvedNonValuePlace::Placeholder), PatternNonValuePlace::Entid(e) => Some(EvolvedNonValuePlace::Entid(e)),
    PatternNonValuePlace::Ident(k) => match entid_of(s, *k) { Some(e) => Some(EvolvedNonValuePlace::Entid(e)), None => None },
    PatternNonValuePlace::Variable(v) => if !b.contains_key(v) { Some(EvolvedNonValuePlace::Variable(v)) } else { match b[v] { TypedValue::Ref(e) => Some(EvolvedNonValuePlace::Entid(e)), TypedValue::Keyword(k) => match entid_of(s, *k) { Some(e) => Some(EvolvedNonValuePlace::Entid(e)), None => None }, _ => None } } } }
pub open spec fn attribute_said(m: Model, b: Map<Variable, TypedValue>, a: TableAlias, p: PatternNonValuePlace) -> bool { nonvalue_said(m, b, a, DatomsColumn::Attribute, p) && match p {
    PatternNonValuePlace::Entid(e) => attr_of(schema_of(m), e) is Some, PatternNonValuePlace::Ident(k) => attr_meant(schema_of(m), TypedValue::Keyword(k)) is Some,
    PatternNonValuePlace::Variable(v) => b.contains_key(v) ==> attr_meant(schema_of(m), b[v]) is Some, PatternNonValuePlace::Placeholder => true } }
pub open spec fn type_said(s: Schema, b: Map<Variable, TypedValue>, p: PatternNonValuePlace) -> Option<ValueType> {
    match (match p { PatternNonValuePlace::Entid(e) => attr_of(s, e), PatternNonValuePlace::Ident(k) => attr_meant(s, TypedValue::Keyword(k)), PatternNonValuePlace::Variable(v) => if b.contains_key(v) { attr_meant(s, b[v]) } else { None }, _ => None })
    { Some(x) => Some(x.value_type), None => None } }
// The row's type tag is that of the value written.
pub open spec fn said_tag(m: Model, a: TableAlias, p: PatternValuePlace) -> bool { p matches PatternValuePlace::Variable(v) ==> typed_as(m, a, only(type_of(valued(m, v)))) }
pub open spec fn written_said(m: Model, b: Map<Variable, TypedValue>, a: TableAlias, p: Pattern, t: Option<ValueType>) -> bool {
    nonvalue_said(m, b, a, DatomsColumn::Entity, p.entity) && attribute_said(m, b, a, p.attribute) && value_said(m, a, t, p.value) && nonvalue_said(m, b, a, DatomsColumn::Tx, p.tx) }
pub open spec fn evolved(c: ConjoiningClauses, p: EvolvedPattern) -> bool { (p.entity matches EvolvedNonValuePlace::Variable(v) ==> !c.value_bindings@.contains_key(v)) && (p.value matches EvolvedValuePlace::Variable(v) ==> !c.value_bindings@.contains_key(v)) }
#[verifier::external_body] pub fn double(i: i64) -> (r: TypedValue) ensures r == double_of(i), r is Double { unimplemented!() }
#[verifier::external_body] pub fn constant(c: NonIntegerConstant) -> (r: TypedValue) ensures r == constant_of(c) { unimplemented!() }

pub type Result2<T, E> = core::result::Result<T, E>;
// Text is kept beside the facts: which tables show the values asked for.
pub open spec fn textual(v: EvolvedValuePlace) -> bool { v matches EvolvedValuePlace::Value(TypedValue::String(_)) }
pub open spec fn tells(t: DatomsTable, fulltext: bool, v: EvolvedValuePlace) -> bool { match t {
    DatomsTable::AllDatoms => true, DatomsTable::FulltextDatoms => fulltext, DatomsTable::Datoms => !fulltext || !(v is Variable || textual(v)), _ => false } }
pub open spec fn tells_any(t: DatomsTable, c: ConjoiningClauses, v: EvolvedValuePlace) -> bool { match t {
    DatomsTable::AllDatoms => true, DatomsTable::Datoms => !textual(v) && (v matches EvolvedValuePlace::Variable(x) ==> never_text(c, x)), _ => false } }
pub open spec fn never_text(c: ConjoiningClauses, x: Variable) -> bool { forall|m: Model| #[trigger] holds(c, m) ==> type_of(valued(m, x)) != ValueType::String }

pub uninterp spec fn double_of(i: i64) -> TypedValue;
pub uninterp spec fn constant_of(c: NonIntegerConstant) -> TypedValue;
// What the places of a pattern as written say, for a value of the attribute's type t.
pub open spec fn nonvalue_said(m: Model, b: Map<Variable, TypedValue>, a: TableAlias, c: DatomsColumn, p: PatternNonValuePlace) -> bool { match p {
    PatternNonValuePlace::Placeholder => true,
    PatternNonValuePlace::Entid(e) => at_entity(m, column(a, c), e),
    PatternNonValuePlace::Ident(k) => entid_of(schema_of(m), *k) matches Some(e) && at_entity(m, column(a, c), e),
    PatternNonValuePlace::Variable(v) => (!b.contains_key(v) ==> type_of(valued(m, v)) == ValueType::Ref) && means(m, column(a, c), valued(m, v)) } }
pub open spec fn value_said(m: Model, a: TableAlias, t: Option<ValueType>, p: PatternValuePlace) -> bool { let q = column(a, DatomsColumn::Value); match p {
    PatternValuePlace::Placeholder => true,
    // A number is what the attribute makes of it.
    PatternValuePlace::EntidOrInteger(i) => match t { Some(ValueType::Ref) => at_entity(m, q, i), Some(ValueType::Long) => at_value(m, q, TypedValue::Long(i)), Some(ValueType::Double) => eqs(m, q, QueryValue::TypedValue(double_of(i))), Some(_) => false, None => at_number(m, q, i) },
    PatternValuePlace::IdentOrKeyword(k) => match t { Some(ValueType::Ref) => entid_of(schema_of(m), *k) matches Some(e) && at_entity(m, q, e), Some(ValueType::Keyword) => at_value(m, q, TypedValue::Keyword(k)), Some(_) => false, None => at_value(m, q, TypedValue::Keyword(k)) && typed_as(m, a, only(ValueType::Keyword)) },
    PatternValuePlace::Variable(v) => (t matches Some(x) ==> type_of(valued(m, v)) == x) && means(m, q, valued(m, v)),
    PatternValuePlace::Constant(c) => (t matches Some(x) ==> x == type_of(constant_of(c))) && eqs(m, q, QueryValue::TypedValue(constant_of(c))) && (t is None ==> typed_as(m, a, only(type_of(constant_of(c))))) } }
"""

STAND = """
#[verifier::external_body] pub struct EmptyBecause { x: () }
impl EmptyBecause { #[verifier::external_body] pub fn some() -> EmptyBecause { unimplemented!() } }
#[verifier::external_body] pub struct RcCounter { x: () }
#[verifier::external_body] pub struct ComputedTable { x: () }
#[verifier::external_body] pub struct Inequality { x: () }
#[verifier::external_body] pub struct ColumnAlternation { x: () }
#[verifier::external_body] pub struct TableAlias { x: () }
impl Clone for TableAlias { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Variable { x: () }
impl Clone for Variable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Schema { x: () }
pub uninterp spec fn entid_of(s: Schema, k: Keyword) -> Option<Entid>;
pub uninterp spec fn attr_of(s: Schema, e: Entid) -> Option<Attribute>;
impl Schema {
  #[verifier::external_body] pub fn get_entid(&self, k: &Keyword) -> (r: Option<KnownEntid>) ensures match r { Some(e) => entid_of(*self, *k) == Some(e.0), None => entid_of(*self, *k) is None } { unimplemented!() }
  #[verifier::external_body] pub fn attribute_for_entid(&self, e: Entid) -> (r: Option<&Attribute>) ensures match r { Some(a) => attr_of(*self, e) == Some(*a), None => attr_of(*self, e) is None } { unimplemented!() }
  #[verifier::external_body] pub fn is_attribute(&self, e: Entid) -> (r: bool) ensures r == (attr_of(*self, e) is Some) { unimplemented!() }
  #[verifier::external_body] pub fn attribute_for_ident(&self, k: &Keyword) -> (r: Option<(&Attribute, KnownEntid)>)
    ensures match r { Some(p) => entid_of(*self, *k) == Some(p.1.0) && attr_of(*self, p.1.0) == Some(*p.0), None => entid_of(*self, *k) is None || attr_of(*self, entid_of(*self, *k)->0) is None } { unimplemented!() }
}
#[derive(Clone, Copy)] pub struct Known<'s> { pub schema: &'s Schema }
pub open spec fn type_of(v: TypedValue) -> ValueType { match v {
    TypedValue::Ref(_) => ValueType::Ref, TypedValue::Boolean(_) => ValueType::Boolean, TypedValue::Long(_) => ValueType::Long, TypedValue::Double(_) => ValueType::Double,
    TypedValue::Instant(_) => ValueType::Instant, TypedValue::String(_) => ValueType::String, TypedValue::Keyword(_) => ValueType::Keyword, TypedValue::Uuid(_) => ValueType::Uuid } }
impl TypedValue {
  #[verifier::external_body] pub fn value_type(&self) -> (r: ValueType) ensures r == type_of(*self) { unimplemented!() }
  #[verifier::external_body] pub fn is_congruent_with(&self, t: Option<ValueType>) -> (r: bool) ensures r == (t is None || t == Some(type_of(*self))) { unimplemented!() }
}
// Sets of types; C15 decides their operations.
#[verifier::external_body] pub struct ValueTypeSet { x: () }
impl Clone for ValueTypeSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ValueTypeSet {}
impl ValueTypeSet {
  pub uninterp spec fn view(&self) -> Set<ValueType>;
  #[verifier::external_body] pub fn any() -> (r: Self) ensures forall|t: ValueType| #[trigger] r@.contains(t) { unimplemented!() }
  #[verifier::external_body] pub fn of_one(t: ValueType) -> (r: Self) ensures r@ == only(t) { unimplemented!() }
  #[verifier::external_body] pub fn of_numeric_types() -> (r: Self) ensures r@ == only(ValueType::Long).insert(ValueType::Double) { unimplemented!() }
  #[verifier::external_body] pub fn intersection(self, o: Self) -> (r: Self) ensures r@ == self@.intersect(o@), forall|t: ValueType| #![trigger self@.contains(t)] r@.contains(t) <==> self@.contains(t) && o@.contains(t) { unimplemented!() }
  #[verifier::external_body] pub fn union(self, o: Self) -> (r: Self) ensures r@ == self@.union(o@) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<ValueType>::empty()), r ==> forall|t: ValueType| !#[trigger] self@.contains(t) { unimplemented!() }
  #[verifier::external_body] pub fn is_unit(&self) -> (r: bool) ensures r == unit(self@) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, t: ValueType) -> (r: bool) ensures r == self@.contains(t) { unimplemented!() }
  #[verifier::external_body] pub fn is_subset(&self, o: Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
  #[verifier::external_body] pub fn is_disjoint(&self, o: Self) -> (r: bool) ensures r == none_of(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn exemplar(&self) -> (r: Option<ValueType>) ensures match r { Some(t) => self@.contains(t) && (unit(self@) ==> self@ == only(t)), None => self@ =~= Set::<ValueType>::empty() && !unit(self@) } { unimplemented!() }
}
pub type VariableBindings = BTreeMap<Variable, TypedValue>;
#[verifier::external_body] pub struct ColumnIntersection { x: () }
impl ColumnIntersection {
  pub uninterp spec fn view(&self) -> Seq<ColumnConstraintOrAlternation>;
  #[verifier::external_body] pub fn add_intersection(&mut self, c: ColumnConstraint) ensures final(self)@ == old(self)@.push(ColumnConstraintOrAlternation::Constraint(c)) { unimplemented!() }
}
pub trait ToColumn: Sized { spec fn col(self) -> Column; fn to_column(self) -> (r: Column) ensures r == self.col(); }
impl ToColumn for Column { open spec fn col(self) -> Column { self } fn to_column(self) -> (r: Column) { self } }
impl ToColumn for DatomsColumn { open spec fn col(self) -> Column { Column::Fixed(self) } fn to_column(self) -> (r: Column) { Column::Fixed(self) } }
pub fn unreachable_() requires false {}
#[verifier::external_body] pub fn push_at(m: &mut BTreeMap<Variable, Vec<QualifiedAlias>>, k: Variable, t: QualifiedAlias)
  ensures final(m)@.dom() == old(m)@.dom().insert(k), final(m)@[k]@ == (if old(m)@.contains_key(k) { old(m)@[k]@.push(t) } else { seq![t] }),
    forall|x: Variable| x != k ==> #[trigger] final(m)@[x] == old(m)@[x] { unimplemented!() }
"""


def build(u):
    c, p, ty, q, core = u.src("query-algebrizer/src/clauses/mod.rs"), u.src("query-algebrizer/src/clauses/pattern.rs"), u.src("query-algebrizer/src/types.rs"), u.src("edn/src/query.rs"), u.src("core-traits/lib.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",))
    u.assume("a query is what its variables' values and its tables' rows have to satisfy; what SQLite answers to the conditions is not modelled; the reasons for an empty answer carry nothing")
    u.assume("the operations of ValueTypeSet are those of sets (C15); a clone equals what was cloned")
    for n in ("ValueType", "Unique"):
        out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, n)
    out += u.struct(core, "Attribute").replace("attribute::Unique", "Unique")
    out += "".join(u.struct(ty, n) for n in ("DatomsTable", "SourceAlias", "DatomsColumn", "FulltextColumn", "TransactionsColumn", "VariableColumn", "Column", "QualifiedAlias", "QueryValue", "ColumnConstraint", "ColumnConstraintOrAlternation", "EvolvedNonValuePlace", "EvolvedValuePlace"))
    out += u.struct(c, "ConjoiningClauses")
    out += "pub enum SrcVar { DefaultSrc, NamedSrc(String) }\n" + u.struct(ty, "EvolvedPattern") + u.struct(ty, "PlaceOrEmpty")
    out += "".join(u.struct(q, n) for n in ("PatternNonValuePlace", "PatternValuePlace", "Pattern"))
    out += "#[verifier::external_body] pub struct NonIntegerConstant { x: () }\n"
    out += "impl Clone for DatomsTable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\nimpl Copy for DatomsTable {}\n"
    for n in ("QualifiedAlias", "Column", "EvolvedNonValuePlace", "EvolvedValuePlace", "QueryValue", "EmptyBecause", "SrcVar"):
        out += "impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n" % n
    out += STAND + SPEC + MODELS

    def because(f):
        while True:
            m = extract.mask(f.body)
            h = re.search(r"\bEmptyBecause::(?!some\(\))\w+\s*", m)
            if not h:
                break
            e = h.end()
            if m[e:e + 1] in ("(", "{"):
                e = extract.close_of(m, e) + 1
            f.body = f.body[:h.start()] + "EmptyBecause::some()" + f.body[e:]
        f.rewrites.append("%s: the reasons for emptiness carry nothing" % f.name)
        return f

    def tidy(f):
        because(f)
        f.body = extract.drop_macro(f.body, ["println"])
        f.body = extract.map_macro(f.body, "unimplemented", lambda a: "unreachable_()")
        f.macro("bail", units.bail(), "errors are opaque")
        f.head = re.sub(r"<C: Into<Column>>", "<C: ToColumn>", f.head)
        f.head = re.sub(r"<'s, 'a>|<'s>(?=\()", lambda m: "<'s>" if "&'s" in f.head else "", f.head).replace("&'a ", "&")
        f.sub(r"\bcolumn\.into\(\)", "column.to_column()", "conversion into a column", count=0, minimum=0)
        f.sub(r"\bentid\.into\(\)", "entid.0", "conversion of a known entid", count=0, minimum=0)
        return f

    W = r"impl ConjoiningClauses"
    out += tags(u, ty) + "impl ColumnConstraint {\n"
    f = ty.fn("has_unit_type", r"impl ColumnConstraint\b").ret("r")
    out += u.emit(f, "ensures r matches ColumnConstraint::HasTypes { value: v, value_types, check_value } && v == value && value_types@ == only(value_type)") + "}\nimpl ConjoiningClauses {\n"

    def same_holds(extra):
        return "forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] holds(*final(self), m) <==> holds(*old(self), m) && (%s)" % extra
    emit = lambda f, spec: u.emit(f, spec)
    out += emit(tidy(c.fn("is_known_empty", W).ret("r")), "ensures r == (self.empty_because is Some), r ==> forall|m: Model| !#[trigger] holds(*self, m)")
    out += emit(tidy(c.fn("mark_known_empty", W)), "ensures final(self).empty_because is Some, kept_values(*old(self), *final(self)), %s, %s" % (same_holds("false"), REST("empty_because")))
    out += emit(tidy(c.fn("bound_value", W).sub(r"self\.value_bindings\.get\((\w+)\)\.cloned\(\)", r"match self.value_bindings.get(\1) { Some(v_) => Some(v_.clone()), None => None }", "cloned").ret("r")),
                "ensures match r { Some(v) => self.value_bindings@.contains_key(*var) && self.value_bindings@[*var] == v, None => !self.value_bindings@.contains_key(*var) }")
    f = tidy(c.fn("known_type", W).ret("r"))
    out += emit(f, "ensures match r { Some(t) => self.known_types@.contains_key(*var) && self.known_types@[*var]@ == only(t), None => !known_single(*self, *var) }")
    f = tidy(c.fn("known_type_set", W).ret("r"))
    f.sub(r"self\s*\.known_types\s*\.get\(var\)\s*\.cloned\(\)\s*\.unwrap_or_else\(ValueTypeSet::any\)", "match self.known_types.get(var) { Some(s_) => *s_, None => ValueTypeSet::any() }", "unwrap_or_else as a match")
    out += emit(f, "ensures self.known_types@.contains_key(*var) ==> r == self.known_types@[*var], !self.known_types@.contains_key(*var) ==> forall|t: ValueType| #[trigger] r@.contains(t)")
    # types
    f = tidy(c.fn("constrain_var_to_type", W))
    f.prologue("let ghost k_ = self.known_types@; proof { only_has(this_type); }")
    f.body = at_end(f.body, "proof { narrowed(k_, var_, only(this_type), self.known_types@); }").replace("{\n", "{\n let ghost var_ = var;\n", 1)
    out += emit(f, "ensures kept_values(*old(self), *final(self)), %s, %s, final(self).known_types@.contains_key(var), final(self).known_types@[var]@ == only(this_type)" % (same_holds("type_of(valued(m, var)) == this_type"), REST("empty_because", "known_types")))
    f = tidy(c.fn("narrow_types_for_var", W))
    entry(f, "known_types")
    f.body = at_end(f.body, "proof { narrowed(k_, var_, types@, self.known_types@); %s }" % SETTLE.format("known_types"))
    f.body = f.body.replace("{\n", "{\n let ghost k_ = self.known_types@; let ghost var_ = var;\n", 1)
    out += emit(f, "ensures kept_values(*old(self), *final(self)), %s, %s, final(self).empty_because is None ==> final(self).known_types@.contains_key(var) && final(self).known_types@[var]@.subset_of(types@), final(self).known_types == old(self).known_types || final(self).known_types@ == old(self).known_types@.insert(var, final(self).known_types@[var])" % (same_holds("types@.contains(type_of(valued(m, var)))"), REST("empty_because", "known_types")))
    f = tidy(c.fn("add_type_requirement", W))
    entry(f, "required_types")
    f.body = f.body.replace("{\n", "{\n let ghost k_ = self.required_types@; let ghost var_ = var;\n", 1)
    f.sub(r"self\.required_types\.insert\(key_\.clone\(\), (\w+)\);", r"self.required_types.insert(key_.clone(), \1); proof { narrowed(k_, var_, types@, self.required_types@); " + SETTLE.format("required_types") + " }", "ghost", count=0)
    f.body = at_end(f.body, "proof { %s }" % SETTLE.format("required_types"))
    out += emit(f, "ensures final(self).value_bindings == old(self).value_bindings, %s" % same_holds("types@.contains(type_of(valued(m, var)))"))
    out += emit(tidy(c.fn("constrain_var_to_long", W)), "ensures %s" % same_holds("type_of(valued(m, variable)) == ValueType::Long"))
    out += emit(tidy(c.fn("constrain_var_to_numeric", W)), "ensures kept_values(*old(self), *final(self)), %s, %s" % (same_holds("type_of(valued(m, variable)) == ValueType::Long || type_of(valued(m, variable)) == ValueType::Double"), REST("empty_because", "known_types")))
    f = tidy(c.fn("can_constrain_var_to_types", W).ret("r"))
    out += emit(f, "ensures r is Some <==> self.known_types@.contains_key(*var) && none_of(self.known_types@[*var]@, these_types@)")
    out += emit(tidy(c.fn("can_constrain_var_to_type", W).ret("r")), "ensures r is Some <==> self.known_types@.contains_key(*var) && !self.known_types@[*var]@.contains(this_type)")
    for n in ("constrain_to_ref", "constrain_to_tx"):
        f = tidy(c.fn(n, W))
        x = re.search(r"(\w+): &EvolvedNonValuePlace", f.head).group(1)
        f.sub(r"if let EvolvedNonValuePlace::Variable\(ref (\w+)\)", r"if let EvolvedNonValuePlace::Variable(\1)", "reference patterns", minimum=0)
        out += emit(f, "ensures kept_values(*old(self), *final(self)), %s, %s" % (same_holds("*%s matches EvolvedNonValuePlace::Variable(v) ==> type_of(valued(m, v)) == ValueType::Ref" % x), REST("empty_because", "known_types")))
    # columns
    for n, spec in (("constrain_column_to_entity", "at_entity(m, QualifiedAlias(table, column.col()), entity)"),
                    ("constrain_column_to_constant", "eqs(m, QualifiedAlias(table, column.col()), QueryValue::TypedValue(constant))"),
                    ("constrain_attribute", "at_entity(m, QualifiedAlias(table, Column::Fixed(DatomsColumn::Attribute)), attribute)"),
                    ("constrain_value_to_numeric", "at_number(m, QualifiedAlias(table, Column::Fixed(DatomsColumn::Value)), value)")):
        f = tidy(c.fn(n, W))
        ghost_push(f)
        out += emit(f, "ensures kept_values(*old(self), *final(self)), %s, %s" % (same_holds(spec), REST("wheres")))
    out += emit(tidy(c.fn("entid_for_ident", W).ret("r")), "ensures match r { Some(e) => entid_of(*schema, *ident) == Some(e.0), None => entid_of(*schema, *ident) is None }")
    f = tidy(c.fn("bind_value", W))
    f.sub(r"(self\.constrain_var_to_type\([^;]*\);)", r"\1 let ghost c1_ = *self;", "ghost")
    ghost_push(f)
    f.sub(r"self\.value_bindings\.insert\(([^;]*)\);\s*\}\s*$", r"let ghost v0_ = self.value_bindings@; self.value_bindings.insert(\1); proof { bound(v0_, *var, value_, self.value_bindings@); said_of(c0_, *var, value_);  if !(value_ is Keyword && c0_.column_bindings@.contains_key(*var) && c0_.column_bindings@[*var]@.len() > 0 && entity_column(c0_.column_bindings@[*var]@[0].1)) {  assert forall|m: Model| #[trigger] holds(*self, m) implies holds(c0_, m) && valued(m, *var) == value_ by { assert(values_ok(self.value_bindings@, m)); assert(values_ok(v0_, m)); assert(wheres_ok(self.wheres@, m)); assert(wheres_ok(c0_.wheres@, m)); assert(holds(c1_, m)); }  assert forall|m: Model| #[trigger] holds(c0_, m) && valued(m, *var) == value_ implies holds(*self, m) by { assert(holds(c1_, m)); assert(values_ok(v0_, m)); assert(values_ok(self.value_bindings@, m)); assert(wheres_ok(c0_.wheres@, m)); assert(wheres_ok(self.wheres@, m)); } } } }", "ghost")
    f.body = f.body.replace("{\n", "{\n let ghost value_ = value; let ghost c0_ = *self;\n", 1)
    f.sub(r"&var\b", "var", "already a reference", count=0, minimum=0)
    out += emit(f, """requires !old(self).value_bindings@.contains_key(*var) || old(self).value_bindings@[*var] == value
        ensures kept(*old(self), *final(self)), final(self).value_bindings@ == old(self).value_bindings@.insert(*var, value),
            !(value is Keyword && old(self).column_bindings@.contains_key(*var) && old(self).column_bindings@[*var]@.len() > 0 && entity_column(old(self).column_bindings@[*var]@[0].1)) ==> (%s)""" % same_holds("valued(m, *var) == value"))
    f = tidy(c.fn("bind_column_to_var", W))
    f.sub(r"match bound_val \{\s*TypedValue::Keyword\(ref kw\) =>", "match bound_val.clone() { TypedValue::Keyword(kw) =>", "reference patterns")
    f.sub(r"entid_for_ident\(schema, kw\)", "entid_for_ident(schema, &kw)", "reference patterns")
    f.sub(r"\bmatch column \{", "match column.clone() {", "a copy, where only looked at")
    f.sub(r"alias\.for_associated_type_tag\(\)", "tag_of(&alias)", "two maps over one another", minimum=0)
    f.sub(r"self\.column_bindings\s*\.entry\((\w+)\)\s*\.or_insert_with\(Vec::new\)\s*\.push\((\w+)\);", r"let ghost b0_ = self.column_bindings@; push_at(&mut self.column_bindings, \1, \2); proof { joined(b0_, \1, \2, self.column_bindings@); }", "the entry's list")
    f.sub(r"self\.extracted_types\.insert\((\w+)\.clone\(\), (\w+)\);", r"let ghost e0_ = self.extracted_types@; self.extracted_types.insert(\1.clone(), \2); proof { extracted(e0_, \1, \2, self.extracted_types@); }", "ghost")
    f.body = f.body.replace("{\n", "{\n let ghost table_ = table; let ghost col_ = column.col(); let ghost var_ = var;\n", 1)
    out += emit(f, """requires bindable(column.col())
        ensures kept_values(*old(self), *final(self)), final(self).known_types == old(self).known_types,
            forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] schema_of(m) == *schema ==> (holds(*final(self), m) <==> holds(*old(self), m) && means(m, QualifiedAlias(table, column.col()), valued(m, var))
                && (tag_column(column.col()) is Some && wants_tag(*old(self), column.col(), var) ==> typed_as(m, table, only(type_of(valued(m, var)))))),
            wants_tag(*old(self), column.col(), var) ==> final(self).extracted_types@.contains_key(var),
            forall|v: Variable| #[trigger] old(self).extracted_types@.contains_key(v) ==> final(self).extracted_types@.contains_key(v)""")
    out += attribute(u, c, tidy, W)
    out += pattern(u, p, tidy)
    return out + "}\n" + PROOF


def tags(u, ty):
    out = ""
    for n in ("DatomsColumn", "TransactionsColumn"):
        f = ty.fn("associated_type_tag_column", r"impl %s\b" % n).ret("r")
        f.sub(r"use self::\w+::\*;", "", "names in full")
        f.sub(r"match \*self \{", "match self {", "reference patterns", minimum=0)
        f.sub(r"\bValue =>", "%s::Value =>" % n, "names in full")
        f.sub(r"Some\((\w+)\)", r"Some(%s::\1)" % n, "names in full", minimum=0)
        out += "impl %s {\n" % n + u.emit(f, "ensures r == (if self is Value { Some(%s::ValueTypeTag) } else { None })" % n) + "}\n"
    f = ty.fn("for_associated_type_tag", r"impl QualifiedAlias\b").ret("r")
    f.sub(r"match self\.1 \{", "let found_ = match &self.1 {", "reference patterns")
    f.sub(r"\(ref (\w+)\)", r"(\1)", "reference patterns", count=0)
    f.sub(r"(\w+)\.associated_type_tag_column\(\)\.map\((Column::\w+)\)", r"(match \1.associated_type_tag_column() { Some(t_) => Some(\2(t_)), None => None })", "map as a match", count=0)
    f.sub(r"\}\s*\.map\(\|(\w+)\| ([^|]*)\)\s*\}\s*$", r"}; match found_ { Some(\1) => Some(\2), None => None } }", "map as a match")
    out += "impl QualifiedAlias {\n" + u.emit(f, "ensures r == (match tag_column(self.1) { Some(c) => Some(QualifiedAlias(self.0, c)), None => None })") + "}\n"
    out += "pub fn tag_of(q: &QualifiedAlias) -> (r: Option<QualifiedAlias>) ensures r == (match tag_column(q.1) { Some(c) => Some(QualifiedAlias(q.0, c)), None => None }) { q.for_associated_type_tag() }\n"
    return out


def narrowing(same):
    """What is proved here of narrowing a variable's types, for other units."""
    K = "kept_values(*old(self), *final(self)), "
    return [("mark_known_empty(&mut self, why: EmptyBecause)", "final(self).empty_because is Some, " + K + same("false") + ", " + REST("empty_because")),
            ("bound_value(&self, var: &Variable) -> (r: Option<TypedValue>)", "match r { Some(v) => self.value_bindings@.contains_key(*var) && self.value_bindings@[*var] == v, None => !self.value_bindings@.contains_key(*var) }"),
            ("known_type_set(&self, var: &Variable) -> (r: ValueTypeSet)", "self.known_types@.contains_key(*var) ==> r == self.known_types@[*var], !self.known_types@.contains_key(*var) ==> forall|t: ValueType| #[trigger] r@.contains(t)"),
            ("constrain_var_to_type(&mut self, var: Variable, this_type: ValueType)", K + same("type_of(valued(m, var)) == this_type") + ", " + REST("empty_because", "known_types")),
            ("constrain_var_to_numeric(&mut self, variable: Variable)", K + same("type_of(valued(m, variable)) == ValueType::Long || type_of(valued(m, variable)) == ValueType::Double") + ", " + REST("empty_because", "known_types")),
            ("add_type_requirement(&mut self, var: Variable, types: ValueTypeSet)", "final(self).value_bindings == old(self).value_bindings, " + same("types@.contains(type_of(valued(m, var)))"))]


def REST(*changed):
    """Nothing but these changes."""
    return ", ".join("final(self).%s == old(self).%s" % (n, n) for n in ("empty_because", "known_types", "required_types", "column_bindings", "extracted_types", "wheres", "value_bindings") if n not in changed)


def KEEP(*changed):
    return REST(*changed).replace("final(self)", "self")


def at_end(body, t):
    i = body.rindex("}")
    return body[:i] + "\n" + t + "\n}"


def ghost_push(f):
    """After every condition added, what it says."""
    pos = 0
    while True:
        m = extract.mask(f.body)
        h = re.compile(r"self\s*\.wheres\s*\.add_intersection\(").search(m, pos)
        if not h:
            return f
        e = extract.close_of(m, h.end() - 1)
        semi = m[e + 1:e + 2] == ";"
        arg = f.body[h.end():e]
        new = "{ let ghost w_ = self.wheres@; let c_ = %s; let ghost g_ = c_; self.wheres.add_intersection(c_); proof { pushed(w_, ColumnConstraintOrAlternation::Constraint(g_)); } }" % arg
        f.body = f.body[:h.start()] + new + f.body[e + (2 if semi else 1):]
        pos = h.start() + len(new)


def entry(f, field):
    """match m.entry(k) { Vacant(e) => .., Occupied(mut e) => .. } as the lookup it stands for."""
    f.sub(r"(let \w+ = )?match self\.%s\.entry\(var(?:\.clone\(\))?\) \{" % field, r"let key_ = var.clone(); let had_ = match self.%s.get(&key_) { Some(s_) => Some(*s_), None => None }; \1match had_ {" % field, "entry as a lookup")
    f.sub(r"Entry::Vacant\((?:mut )?(\w+)\)", "None", "entry as a lookup")
    m = re.search(r"Entry::Occupied\((?:mut )?(\w+)\)", f.body)
    if not m:
        raise extract.LostAnchor("%s: the occupied entry" % f.name)
    e = m.group(1)
    f.sub(r"Entry::Occupied\((?:mut )?(\w+)\)", "Some(was_)", "entry as a lookup")
    f.sub(r"\*%s\.get\(\)" % e, "was_", "entry as a lookup", count=0)
    f.sub(r"\b(?:entry|e)\.insert\(", "self.%s.insert(key_.clone(), " % field, "entry as a lookup", count=0)
    return f


SETTLE = """if old(self).empty_because is None && self.empty_because is Some {{ assert forall|m: Model| #[trigger] holds(*old(self), m) && types@.contains(type_of(valued(m, var_))) implies false by {{ assert(types_ok(k_, m)); assert(types_ok(self.{0}@, m)); assert(self.{0}@.contains_key(var_)); assert(self.{0}@[var_]@.contains(type_of(valued(m, var_)))); }} }}
 else if self.empty_because is None {{ assert forall|m: Model| #[trigger] holds(*self, m) implies holds(*old(self), m) && types@.contains(type_of(valued(m, var_))) by {{ assert(types_ok(self.{0}@, m)); assert(types_ok(k_, m)); }};
 assert forall|m: Model| #[trigger] holds(*old(self), m) && types@.contains(type_of(valued(m, var_))) implies holds(*self, m) by {{ assert(types_ok(k_, m)); assert(types_ok(self.{0}@, m)); }} }}"""

PROOF = """
pub open spec fn wants_tag(c: ConjoiningClauses, col: Column, v: Variable) -> bool { !c.value_bindings@.contains_key(v) && !c.input_variables@.contains(v) && !known_single(c, v) && !c.extracted_types@.contains_key(v) && tag_column(col) is Some }
proof fn only_has(t: ValueType) ensures only(t).contains(t), forall|x: ValueType| only(t).contains(x) <==> x == t { }
proof fn narrowed(a: Map<Variable, ValueTypeSet>, v: Variable, s: Set<ValueType>, b: Map<Variable, ValueTypeSet>)
    requires b.contains_key(v), b == a.insert(v, b[v]), forall|t: ValueType| (#[trigger] b[v]@.contains(t)) ==> s.contains(t), forall|t: ValueType| s.contains(t) && (a.contains_key(v) ==> #[trigger] a[v]@.contains(t)) ==> #[trigger] b[v]@.contains(t)
    ensures forall|m: Model| #![trigger types_ok(a, m)] #![trigger types_ok(b, m)] types_ok(a, m) && s.contains(type_of(valued(m, v))) ==> types_ok(b, m),
        (a.contains_key(v) ==> b[v]@.subset_of(a[v]@)) ==> forall|m: Model| #[trigger] types_ok(b, m) ==> types_ok(a, m) && s.contains(type_of(valued(m, v)))
{
    assert forall|m: Model| types_ok(a, m) && s.contains(type_of(valued(m, v))) implies #[trigger] types_ok(b, m) by {
        assert forall|w: Variable| #[trigger] b.contains_key(w) implies b[w]@.contains(type_of(valued(m, w))) by { if w != v { assert(a.contains_key(w)); } else if a.contains_key(v) { assert(a[v]@.contains(type_of(valued(m, v)))); } }
    }
    if a.contains_key(v) ==> b[v]@.subset_of(a[v]@) {
        assert forall|m: Model| #[trigger] types_ok(b, m) implies types_ok(a, m) && s.contains(type_of(valued(m, v))) by {
            assert(b.contains_key(v));
            assert forall|w: Variable| #[trigger] a.contains_key(w) implies a[w]@.contains(type_of(valued(m, w))) by { assert(b.contains_key(w)); }
        }
    }
}
proof fn bound(a: Map<Variable, TypedValue>, v: Variable, x: TypedValue, b: Map<Variable, TypedValue>)
    requires b == a.insert(v, x), a.contains_key(v) ==> a[v] == x
    ensures forall|m: Model| #![trigger values_ok(a, m)] #![trigger values_ok(b, m)] values_ok(b, m) <==> values_ok(a, m) && valued(m, v) == x
{
    assert forall|m: Model| #[trigger] values_ok(b, m) <==> values_ok(a, m) && valued(m, v) == x by {
        if values_ok(b, m) { assert(b.contains_key(v)); assert forall|w: Variable| #[trigger] a.contains_key(w) implies a[w] == valued(m, w) by { assert(b.contains_key(w)); } }
        if values_ok(a, m) && valued(m, v) == x { assert forall|w: Variable| #[trigger] b.contains_key(w) implies b[w] == valued(m, w) by { if w != v { assert(a.contains_key(w)); } } }
    }
}
proof fn said_of(c: ConjoiningClauses, v: Variable, x: TypedValue)
    ensures forall|m: Model| #[trigger] holds(c, m) && valued(m, v) == x ==>
        (c.column_bindings@.contains_key(v) && c.column_bindings@[v]@.len() > 0 ==> means(m, c.column_bindings@[v]@[0], x)) && (c.extracted_types@.contains_key(v) ==> typed_as(m, c.extracted_types@[v].0, only(type_of(x)))) && (c.known_types@.contains_key(v) ==> c.known_types@[v]@.contains(type_of(x)))
{
}
proof fn joined(a: Map<Variable, Vec<QualifiedAlias>>, v: Variable, q: QualifiedAlias, b: Map<Variable, Vec<QualifiedAlias>>)
    requires b.dom() == a.dom().insert(v), b[v]@ == (if a.contains_key(v) { a[v]@.push(q) } else { seq![q] }), forall|x: Variable| x != v ==> #[trigger] b[x] == a[x]
    ensures forall|m: Model| #![trigger bindings_ok(a, m)] #![trigger bindings_ok(b, m)] bindings_ok(b, m) <==> bindings_ok(a, m) && means(m, q, valued(m, v))
{
    assert(forall|x: Variable| #[trigger] b.contains_key(x) <==> b.dom().contains(x));
    assert forall|m: Model| #[trigger] bindings_ok(b, m) <==> bindings_ok(a, m) && means(m, q, valued(m, v)) by {
        if bindings_ok(b, m) {
            let k = b[v]@.len() - 1;
            assert(b[v]@[k] == q);
            assert forall|w: Variable, i: int| a.contains_key(w) && 0 <= i < a[w]@.len() implies means(m, #[trigger] a[w]@[i], valued(m, w)) by { assert(b.contains_key(w)); assert(b[w]@[i] == a[w]@[i]); }
        }
        if bindings_ok(a, m) && means(m, q, valued(m, v)) {
            assert forall|w: Variable, i: int| b.contains_key(w) && 0 <= i < b[w]@.len() implies means(m, #[trigger] b[w]@[i], valued(m, w)) by {
                if w == v { if a.contains_key(v) && i < a[v]@.len() { assert(b[w]@[i] == a[w]@[i]); } else { assert(b[w]@[i] == q); } } else { assert(a.contains_key(w)); assert(b[w]@[i] == a[w]@[i]); }
            }
        }
    }
}
proof fn extracted(a: Map<Variable, QualifiedAlias>, v: Variable, q: QualifiedAlias, b: Map<Variable, QualifiedAlias>)
    requires b == a.insert(v, q), !a.contains_key(v)
    ensures forall|m: Model| #![trigger tags_ok(a, m)] #![trigger tags_ok(b, m)] tags_ok(b, m) <==> tags_ok(a, m) && typed_as(m, q.0, only(type_of(valued(m, v))))
{
    assert forall|m: Model| #[trigger] tags_ok(b, m) <==> tags_ok(a, m) && typed_as(m, q.0, only(type_of(valued(m, v)))) by {
        if tags_ok(b, m) { assert(b.contains_key(v)); assert forall|w: Variable| #[trigger] a.contains_key(w) implies typed_as(m, a[w].0, only(type_of(valued(m, w)))) by { assert(b.contains_key(w)); } }
        if tags_ok(a, m) && typed_as(m, q.0, only(type_of(valued(m, v)))) { assert forall|w: Variable| #[trigger] b.contains_key(w) implies typed_as(m, b[w].0, only(type_of(valued(m, w)))) by { if w != v { assert(a.contains_key(w)); } } }
    }
}
"""



UNREF = r"\bref (\w+)\b"


def unref(f):
    """X(ref v) => { .. } as X(v_) => { let v = &v_; .. }"""
    f.sub(r"\(ref (\w+)\)(\)*) => \{", r"(\1_)\2 => { let \1 = &\1_;", "reference patterns", count=0, minimum=0)
    f.sub(UNREF, r"\1", "reference patterns", count=0, minimum=0)
    return f


def attribute(u, c, tidy, W):
    out = ""
    f = tidy(c.fn("get_attribute_for_value", W).ret("r"))
    f.sub(UNREF, r"\1", "reference patterns", count=0, minimum=0)
    f.sub(r"schema\.attribute_for_ident\((\w+)\)\.map\(\|\((\w+), \w+\)\| (\w+)\)", r"match schema.attribute_for_ident(\1) { Some(\2_) => Some(\2_.0), None => None }", "map as a match", minimum=0)
    out += u.emit(f, "ensures match r { Some(a) => attr_meant(*schema, *value) == Some(*a), None => attr_meant(*schema, *value) is None }")
    f = tidy(c.fn("get_attribute", W).ret("r"))
    f.sub(r"match pattern\.attribute \{", "match &pattern.attribute {", "reference patterns", minimum=0)
    f.sub(UNREF, r"\1", "reference patterns", count=0, minimum=0)
    f.sub(r"attribute_for_entid\(\*?id\)", "attribute_for_entid(*id)", "reference patterns", count=0, minimum=0)
    f.sub(r"self\s*\.value_bindings\s*\.get\(var\)\s*\.and_then\(\|(\w+)\| ([^|]*?\))\)", r"match self.value_bindings.get(var) { Some(\1) => \2, None => None }", "and_then as a match")
    K = "attr_known(*schema, self.value_bindings@, pattern.attribute)"
    out += u.emit(f, "ensures match r { Some(a) => %s == Some(*a), None => %s is None }" % (K, K))
    f = tidy(c.fn("get_value_type", W).ret("r"))
    f.sub(r"self\.get_attribute\((\w+), (\w+)\)\.map\(\|(\w+)\| ([\w.]+)\)", r"match self.get_attribute(\1, \2) { Some(\3) => Some(\4), None => None }", "map as a match")
    out += u.emit(f, "ensures r == type_known(*schema, self.value_bindings@, pattern.attribute)")
    # which table
    f = tidy(c.fn("table_for_attribute_and_value", W).ret("r"))
    f.subhead(r"::std::result::Result<", "Result2<", "its own errors")
    out += u.emit(f, "ensures match r { Ok(t) => tells(t, attribute.fulltext, *value), Err(_) => attribute.fulltext && !textual(*value) && !(value is Variable) && !(value is Placeholder) }")
    f = tidy(c.fn("table_for_unknown_attribute", W).ret("r"))
    f.subhead(r"::std::result::Result<", "Result2<", "its own errors")
    f.sub(UNREF, r"\1", "reference patterns", count=0, minimum=0)
    f.sub(r"self\s*\.(\w+)\s*\.get\((\w+)\)\s*\.map_or\((\w+), \|(\w+)\| ([^|]*?\))\)", r"(match self.\1.get(\2) { Some(\4) => \5, None => \3 })", "map_or as a match", count=0)
    f.sub(r"^\{", "{ proof { assert forall|m: Model, v: Variable| #![trigger holds(*self, m), valued(m, v)] holds(*self, m) implies (self.known_types@.contains_key(v) ==> self.known_types@[v]@.contains(type_of(valued(m, v)))) && (self.required_types@.contains_key(v) ==> self.required_types@[v]@.contains(type_of(valued(m, v)))) by { } }", "ghost")
    out += u.emit(f, "ensures r matches Ok(t) && tells_any(t, *self, *value)")
    f = tidy(c.fn("table_for_places", W).ret("r"))
    f.subhead(r"::std::result::Result<", "Result2<", "its own errors")
    f.sub(UNREF, r"\1", "reference patterns", count=0, minimum=0)
    f.sub(r"schema\s*\.(attribute_for_\w+)\(([*\w]+)\)\s*\.ok_or_else\(\|\| ([\w:()]+)\)\s*\.and_then\(\|\(?(\w+)(, \w+\))?\| \{?\s*([^|{}]*?\))\s*\}?\)",
          lambda h: "match schema.%s(%s) { Some(found_) => { let %s = found_%s; %s }, None => Err(%s) }" % (h.group(1), h.group(2), h.group(4), ".0" if h.group(5) else "", h.group(6), h.group(3)), "ok_or_else and and_then as a match", count=0)
    f.sub(r"Some\(TypedValue::Keyword\(kw\)\)", "Some(TypedValue::Keyword(kw_))", "reference patterns")
    f.sub(r"attribute_for_ident\(kw\)", "attribute_for_ident(&kw_)", "reference patterns")
    out += u.emit(f, """ensures match r { Ok(t) => match attr_known(*schema, self.value_bindings@, *attribute) { Some(a) => tells(t, a.fulltext, *value), None => tells_any(t, *self, *value) },
            Err(_) => match attr_known(*schema, self.value_bindings@, *attribute) { Some(a) => a.fulltext && !textual(*value) && !(value is Variable) && !(value is Placeholder),
                None => !(attribute is Placeholder) && (*attribute matches EvolvedNonValuePlace::Variable(v) ==> self.value_bindings@.contains_key(v)) } }
        decreases (if attribute is Variable { 1int } else { 0int })""")
    # at the end
    f = tidy(c.fn("prune_extracted_types", W))
    f.sub(r"for \((\w+), (\w+)\) in self\.known_types\.iter\(\) \{", r"let all_ = entries_copy(&self.known_types); let ghost k_ = all_@; for e_ in all_ { let \1 = &e_.0; let \2 = e_.1;", "iteration over the entries")
    f.annotate([dict(name="it", kind="for", invariant="""invariant it.seq() == k_, entries_of(old(self).known_types@, k_), %s, pruned(old(self).extracted_types@, self.extracted_types@, k_, it.index() as int)""" % KEEP("extracted_types"))])
    out += u.emit(f, "ensures %s, forall|v: Variable| #[trigger] final(self).extracted_types@.contains_key(v) <==> old(self).extracted_types@.contains_key(v) && !known_single(*old(self), v), forall|v: Variable| #[trigger] final(self).extracted_types@.contains_key(v) ==> final(self).extracted_types@[v] == old(self).extracted_types@[v]" % REST("extracted_types"))
    f = tidy(c.fn("process_required_types", W).ret("r"))
    f.sub(r"for \((\w+), (\w+)\) in self\.required_types\.clone\(\)\.into_iter\(\) \{", r"let all_ = entries_copy(&self.required_types); let ghost k_ = all_@; let mut i_ = 0; while i_ < all_.len() { let \1 = all_[i_].0.clone(); let \2 = all_[i_].1; let ghost before_ = *self; proof { assert(k_[i_ as int].0 == \1); } i_ += 1;", "iteration over the entries")
    f.sub(r"=\s*self\s*\.extracted_types\s*\.get\(&(\w+)\)\s*\.ok_or_else\(\|\| AlgebrizerError::UnboundVariable\([^|]*?\)\)\?;", r"= match self.extracted_types.get(&\1) { Some(q_) => q_, None => { return %s; } };" % units.bail()("").replace("return ", "").rstrip(";"), "ok_or_else as a match")
    f.sub(r"\bcontinue;", "proof { assert(imposed(*old(self), self.wheres@, k_[i_ - 1].0, k_[i_ - 1].1@)); } continue;", "ghost", minimum=0)
    ghost_push(f)
    f.annotate([dict(kind="while", invariant="""invariant_except_break empty_because is None, forall|j: int| i_ <= j < k_.len() ==> known_same(*old(self), *self, (#[trigger] k_[j]).0), forall|j: int| 0 <= j < i_ ==> #[trigger] imposed(*old(self), self.wheres@, k_[j].0, k_[j].1@),
        invariant i_ <= all_.len(), all_@ == k_, entries_of(old(self).required_types@, k_), self.required_types == old(self).required_types, self.extracted_types == old(self).extracted_types, self.value_bindings == old(self).value_bindings, self.column_bindings == old(self).column_bindings, self.from == old(self).from,
          forall|m: Model| #![trigger holds(*self, m)] #![trigger holds(*old(self), m)] holds(*self, m) <==> holds(*old(self), m),
        ensures empty_because is Some ==> forall|m: Model| !#[trigger] holds(*old(self), m), empty_because is None ==> forall|j: int| 0 <= j < k_.len() ==> #[trigger] imposed(*old(self), self.wheres@, k_[j].0, k_[j].1@)
        decreases all_.len() - i_""", end="""proof { asks_all(before_.wheres@, self.wheres@, k_[i_ - 1].0, k_[i_ - 1].1@, *old(self)); assert forall|j: int| i_ <= j < k_.len() implies known_same(*old(self), *self, (#[trigger] k_[j]).0) by { assert(k_[j].0 != k_[i_ - 1].0); assert(known_same(*old(self), before_, k_[j].0)); } assert forall|j: int| 0 <= j < i_ implies #[trigger] imposed(*old(self), self.wheres@, k_[j].0, k_[j].1@) by { if j < i_ - 1 { assert(imposed(*old(self), before_.wheres@, k_[j].0, k_[j].1@)); } } }""")])
    out += u.emit(f, """ensures r is Ok ==> (forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] holds(*final(self), m) <==> holds(*old(self), m))
            && (final(self).empty_because is None ==> forall|v: Variable| #[trigger] old(self).required_types@.contains_key(v) ==> imposed(*old(self), final(self).wheres@, v, old(self).required_types@[v]@))""")
    f = tidy(c.fn("expand_column_bindings", W))
    f.sub(r"for (\w+) in self\.column_bindings\.values\(\) \{", r"let all_ = entries_copy(&self.column_bindings); let ghost k_ = all_@; proof { assert(self.wheres@.take(self.wheres@.len() as int) =~= self.wheres@); } for e_ in all_ { let \1 = &e_.1;", "iteration over the entries")
    f.sub(r"let (\w+) = (\w+)\.iter\(\)\.skip\((\d+)\);\s*for (\w+) in \1 \{", r"let mut i_: usize = \3; while i_ < \2.len() { let \4 = &\2[i_]; i_ += 1; let ghost w1_ = self.wheres@;", "iteration over the rest")
    ghost_push(f)
    f.annotate([dict(name="it", kind="for", invariant="""invariant it.seq() == k_, entries_of(old(self).column_bindings@, k_), %s, extends(old(self).wheres@, self.wheres@, old(self).column_bindings@), forall|j: int, i: int| 0 <= j < it.index() && 1 <= i < k_[j].1@.len() ==> linked(self.wheres@, k_[j].1@[0], #[trigger] k_[j].1@[i])""" % KEEP("wheres")),
                dict(kind="while", invariant="""invariant 1 <= i_ <= cols.len(), it.seq() == k_, 0 <= it.index() < k_.len(), k_[it.index() as int].1@ == cols@, cols@.len() > 1, primary == cols@[0], entries_of(old(self).column_bindings@, k_), %s, extends(old(self).wheres@, self.wheres@, old(self).column_bindings@), forall|j: int, i: int| 0 <= j < it.index() && 1 <= i < k_[j].1@.len() ==> linked(self.wheres@, k_[j].1@[0], #[trigger] k_[j].1@[i]),
                   forall|i: int| 1 <= i < i_ ==> linked(self.wheres@, cols@[0], #[trigger] cols@[i])
                 decreases cols.len() - i_""" % KEEP("wheres"), end="proof { assert(cols@[i_ - 1] == *secondary); assert(old(self).column_bindings@.contains_key(k_[it.index() as int].0)); assert(old(self).column_bindings@[k_[it.index() as int].0]@[i_ - 1] == *secondary); link_pushed(old(self).wheres@, w1_, self.wheres@, *primary, *secondary, old(self).column_bindings@); }")])
    out += u.emit(f, """ensures %s, extends(old(self).wheres@, final(self).wheres@, old(self).column_bindings@),
            forall|v: Variable, i: int| old(self).column_bindings@.contains_key(v) && 1 <= i < old(self).column_bindings@[v]@.len() ==> linked(final(self).wheres@, old(self).column_bindings@[v]@[0], #[trigger] old(self).column_bindings@[v]@[i])""" % REST("wheres"))
    return out + """#[verifier::external_body] pub fn next_alias_for_table(&mut self, t: DatomsTable) -> (r: TableAlias) ensures *final(self) == *old(self) { unimplemented!() }
"""


def pattern(u, p, tidy):
    W = r"impl ConjoiningClauses"
    out = ""
    P = "schema_of(m) == *known.schema"
    out = """pub fn and_where(&mut self, c: ColumnConstraint)
 ensures kept_values(*old(self), *final(self)), forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] holds(*final(self), m) <==> holds(*old(self), m) && meets(m, ColumnConstraintOrAlternation::Constraint(c)), %s
{ let ghost w_ = self.wheres@; let ghost g_ = c; self.wheres.add_intersection(c); proof { pushed(w_, ColumnConstraintOrAlternation::Constraint(g_)); } }
""" % REST("wheres")
    f = tidy(p.fn("apply_pattern_clause_for_alias", W))
    for n in ("entity", "attribute", "value", "tx"):
        f.sub(r"match pattern\.%s \{" % n, "match pattern.%s.clone() {" % n, "reference patterns")
    unref(f)
    f.sub(r"self\s*\.wheres\s*\.add_intersection\(", "self.and_where(", "with what it says", count=0, minimum=0)
    f.prologue("hide(holds); hide(wants_tag); hide(means); hide(known_single);")
    for n, step in (("entity", "place_step(m, alias.1, DatomsColumn::Entity, pattern.entity)"), ("attribute", "attribute_step(m, alias.1, pattern.attribute)"),
                    ("value", "value_step(m, alias.1, value_type, pattern.value)"), ("tx", "place_step(m, alias.1, DatomsColumn::Tx, pattern.tx)")):
        m = extract.mask(f.body)
        h = re.search(r"match pattern\.%s\.clone\(\) \{" % n, m)
        e = extract.close_of(m, h.end() - 1) + 1
        stmt = f.body[h.start():e]
        stmt = re.sub(r"\breturn;", "return false;", stmt)
        extra = ("value_type, ", "value_type: Option<ValueType>, ") if n == "value" else ("", "")
        f.body = f.body[:h.start()] + "if !self.at_%s_(known, pattern, %salias) { return; }" % (n, extra[0]) + f.body[e:]
        f.rewrites.append("%s: the statement on the %s place as a function of its own" % (f.name, n))
        out += """pub fn at_%s_(&mut self, known: Known, pattern: &EvolvedPattern, %salias: &SourceAlias) -> (r: bool)
 ensures kept_values(*old(self), *final(self)), !r ==> forall|m: Model| !#[trigger] holds(*final(self), m),
   forall|m: Model| %s && #[trigger] holds(*final(self), m) ==> holds(*old(self), m) && %s,
   forall|m: Model| %s && #[trigger] holds(*old(self), m) && %s && %s ==> holds(*final(self), m)
{ hide(holds); hide(wants_tag); hide(means); hide(known_single); let col = &alias.1; let schema = known.schema;
  %s;
  true }
""" % (n, extra[1], P, step, P, step, "tagged(m, alias.1, pattern.value)" if n == "value" else "true", stmt)
    said = "pattern_ok(m, alias.1, old(self).value_bindings@, *pattern)"
    out += u.emit(f, """ensures kept_values(*old(self), *final(self)),
            forall|m: Model| %s && #[trigger] holds(*final(self), m) ==> holds(*old(self), m) && %s,
            forall|m: Model| %s && #[trigger] holds(*old(self), m) && %s && tagged(m, alias.1, pattern.value) ==> holds(*final(self), m)""" % (P, said, P, said))
    # places, made narrower
    f = tidy(p.fn("make_evolved_non_value", W).ret("r"))
    f.sub(r"use self::PlaceOrEmpty::\*;", "", "names in full")
    places(f)
    out += u.emit(f, """requires col is Entity || col is Attribute || col is Tx
        ensures (match r { PlaceOrEmpty::Place(x) => narrower(*known.schema, self.value_bindings@, %s) == Some(x), PlaceOrEmpty::Empty(_) => narrower(*known.schema, self.value_bindings@, %s) is None }),
          match r { PlaceOrEmpty::Place(x) => (x matches EvolvedNonValuePlace::Variable(v) ==> !self.value_bindings@.contains_key(v) && non_value == PatternNonValuePlace::Variable(v)) && (forall|m: Model, a: TableAlias| #![trigger place_ok(m, a, col, x)] #![trigger nonvalue_said(m, self.value_bindings@, a, col, non_value)] %s && values_ok(self.value_bindings@, m) ==> (place_ok(m, a, col, x) <==> nonvalue_said(m, self.value_bindings@, a, col, non_value))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s && values_ok(self.value_bindings@, m) ==> !#[trigger] nonvalue_said(m, self.value_bindings@, a, col, non_value) }""" % ("non_value", "non_value", P, P))
    for n, col in (("entity", "Entity"), ("tx", "Tx")):
        out += u.emit(tidy(p.fn("make_evolved_%s" % n, W).ret("r")), """ensures (match r { PlaceOrEmpty::Place(x) => narrower(*known.schema, self.value_bindings@, %s) == Some(x), PlaceOrEmpty::Empty(_) => narrower(*known.schema, self.value_bindings@, %s) is None }),
          match r { PlaceOrEmpty::Place(x) => (x matches EvolvedNonValuePlace::Variable(v) ==> !self.value_bindings@.contains_key(v) && %s == PatternNonValuePlace::Variable(v)) && (forall|m: Model, a: TableAlias| #![trigger place_ok(m, a, DatomsColumn::%s, x)] #![trigger nonvalue_said(m, self.value_bindings@, a, DatomsColumn::%s, %s)] %s && values_ok(self.value_bindings@, m) ==> (place_ok(m, a, DatomsColumn::%s, x) <==> nonvalue_said(m, self.value_bindings@, a, DatomsColumn::%s, %s))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s && values_ok(self.value_bindings@, m) ==> !#[trigger] nonvalue_said(m, self.value_bindings@, a, DatomsColumn::%s, %s) }""" % (n, n, n, col, col, n, P, col, col, n, P, col, n))
    f = tidy(p.fn("make_evolved_attribute", W).ret("r"))
    f.sub(r"use self::PlaceOrEmpty::\*;", "", "names in full")
    places(f)
    f.sub(r"(self\.make_evolved_non_value\([^;{}]*?\))\s*\.and_then\(\|(\w+)\| \{(.*)\}\)\s*\}\s*$", r"match \1 { PlaceOrEmpty::Place(\2) => {\3} PlaceOrEmpty::Empty(because_) => PlaceOrEmpty::Empty(because_) } }", "and_then as a match")
    f.sub(r"if let EvolvedNonValuePlace::Entid\((\w+)\) = a \{", r"if let EvolvedNonValuePlace::Entid(\1) = a.clone() {", "a copy, where only looked at")
    A = "attribute"
    out += u.emit(f, """ensures match r { PlaceOrEmpty::Place(x) => x.1 == type_known(*known.schema, self.value_bindings@, x.0) && x.1 == type_said(*known.schema, self.value_bindings@, attribute) && (x.0 matches EvolvedNonValuePlace::Variable(v) ==> !self.value_bindings@.contains_key(v) && attribute == PatternNonValuePlace::Variable(v)) && (forall|m: Model, a: TableAlias| #![trigger attribute_place_ok(m, a, x.0)] #![trigger attribute_said(m, self.value_bindings@, a, attribute)] %s && values_ok(self.value_bindings@, m) ==> (attribute_place_ok(m, a, x.0) <==> attribute_said(m, self.value_bindings@, a, attribute))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s && values_ok(self.value_bindings@, m) ==> !#[trigger] attribute_said(m, self.value_bindings@, a, attribute) }""" % (P, P))
    f = tidy(p.fn("make_evolved_value", W).ret("r"))
    f.sub(r"use self::PlaceOrEmpty::\*;", "", "names in full")
    places(f)
    f.sub(r"\((\w+) as f64\)\.into\(\)", r"double(\1)", "a number as a double", minimum=0)
    f.sub(r"into_typed_value\((\w+)\)", r"constant(\1)", "the constant")
    HYP = "%s && holds(*self, m)" % P
    out += u.emit(f, """ensures match r { PlaceOrEmpty::Place(x) => (x matches EvolvedValuePlace::Variable(v) ==> !self.value_bindings@.contains_key(v) && value == PatternValuePlace::Variable(v)) && (x is IdentOrKeyword || x is EntidOrInteger ==> value_type is None)
              && (forall|m: Model, a: TableAlias| #![trigger value_ok(m, a, value_type, x)] #![trigger value_said(m, a, value_type, value)] %s ==> (value_ok(m, a, value_type, x) ==> value_said(m, a, value_type, value)) && (value_said(m, a, value_type, value) && said_tag(m, a, value) ==> value_ok(m, a, value_type, x))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s ==> !#[trigger] value_said(m, a, value_type, value) }""" % (HYP, HYP))
    f = tidy(p.fn("make_evolved_pattern", W).ret("r"))
    f.sub(r"use self::PlaceOrEmpty::\*;", "", "names in full")
    places(f)
    f.sub(r"(\w+)\.unwrap_or\(([\w:]+)\)", r"(match \1 { Some(x_) => x_, None => \2 })", "unwrap_or as a match")
    B = "self.value_bindings@"
    said = "written_said(m, %s, a, pattern, type_said(*known.schema, %s, pattern.attribute))" % (B, B)
    out += u.emit(f, """ensures match r { PlaceOrEmpty::Place(x) => evolved(*self, x) && (forall|m: Model, a: TableAlias| #![trigger pattern_ok(m, a, %s, x)] #![trigger written_said(m, %s, a, pattern, type_said(*known.schema, %s, pattern.attribute))] %s ==> (pattern_ok(m, a, %s, x) ==> %s) && (%s && said_tag(m, a, pattern.value) ==> pattern_ok(m, a, %s, x))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s ==> !#[trigger] written_said(m, %s, a, pattern, type_said(*known.schema, %s, pattern.attribute)) }""" % (B, B, B, HYP, B, said, said, B, HYP, B, B))
    f = tidy(p.fn("evolve_pattern", W).ret("r"))
    f.sub(r"use self::PlaceOrEmpty::\*;", "", "names in full")
    places(f)
    f.subhead(r"mut pattern: EvolvedPattern", "pattern: EvolvedPattern", "as a local")
    f.prologue("let mut pattern = pattern;")
    f.sub(r"match &pattern\.(\w+) \{", r"match pattern.\1.clone() {", "reference patterns", count=0)
    unref(f)
    out += u.emit(f, """ensures *final(self) == *old(self), match r { PlaceOrEmpty::Place(x) => x.source == pattern.source && x.attribute == pattern.attribute && x.tx == pattern.tx && (x.entity matches EvolvedNonValuePlace::Variable(v) ==> !old(self).value_bindings@.contains_key(v)) && (x.value matches EvolvedValuePlace::Variable(v) ==> !old(self).value_bindings@.contains_key(v))
              && (forall|m: Model, a: TableAlias| #![trigger pattern_ok(m, a, old(self).value_bindings@, x)] #![trigger pattern_ok(m, a, old(self).value_bindings@, pattern)] %s && holds(*old(self), m) ==> (pattern_ok(m, a, old(self).value_bindings@, x) ==> pattern_ok(m, a, old(self).value_bindings@, pattern)) && (pattern_ok(m, a, old(self).value_bindings@, pattern) && tagged(m, a, pattern.value) ==> pattern_ok(m, a, old(self).value_bindings@, x))),
            PlaceOrEmpty::Empty(_) => forall|m: Model, a: TableAlias| %s && holds(*old(self), m) ==> !#[trigger] pattern_ok(m, a, old(self).value_bindings@, pattern) }""" % (P, P))
    # what the cache knows
    f = tidy(p.fn("reverse_lookup", W).ret("r"))
    f.sub(r"items\.iter\(\)\.next\(\)\.cloned\(\)\.unwrap\(\)", "only_one(items)", "the first of one", minimum=0)
    R = "(valued(m, *var) matches TypedValue::Ref(n) && fact(n, attr, *val))"
    out += u.emit(f, """requires !old(self).value_bindings@.contains_key(*var), is_reverse(known, attr)
        ensures final(self).from == old(self).from, !r ==> *final(self) == *old(self), r ==> forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] %s ==> (holds(*final(self), m) <==> holds(*old(self), m) && attr_of(*known.schema, attr) is Some && %s)""" % (P, R.replace("*val)", "*val)")))
    f = tidy(p.fn("attempt_cache_lookup", W).ret("r"))
    f.body = extract.drop_macro(f.body, ["assert"])
    f.sub(r"pattern\.tx != EvolvedNonValuePlace::Placeholder", "!is_placeholder(&pattern.tx)", "equality", minimum=0)
    f.sub(r"pattern\.tx == EvolvedNonValuePlace::Placeholder", "is_placeholder(&pattern.tx)", "equality", minimum=0)
    f.sub(r"match pattern\.(\w+) \{", r"match pattern.\1.clone() {", "reference patterns", count=0)
    unref(f)
    out += u.emit(f, """requires evolved(*old(self), *pattern)
        ensures final(self).from == old(self).from, !r ==> *final(self) == *old(self), r && !odd(*old(self), *pattern) ==> forall|m: Model| #![trigger holds(*final(self), m)] #![trigger holds(*old(self), m)] %s ==> (holds(*final(self), m) <==> holds(*old(self), m) && says(*known.schema, m, *pattern))""" % P)
    c = u.src("query-algebrizer/src/clauses/mod.rs")
    f = tidy(c.fn("alias_table", W).ret("r"))
    f.sub(r"(self\.table_for_places\([^;{}]*?\))\s*\.map_err\(\|(\w+)\| \{(.*?)\}\)\s*\.map\(\|(\w+): DatomsTable\| (.*?)\)\s*\.ok\(\)", r"match \1 { Err(\2) => {\3 None } Ok(\4) => Some(\5) }", "map_err, map and ok as a match")
    NEVER = "forall|m: Model, a: TableAlias| %s && sound_row(m, a) && #[trigger] holds(*old(self), m) && !(pattern.value is EntidOrInteger) && !(pattern.value is IdentOrKeyword) ==> !#[trigger] pattern_ok(m, a, old(self).value_bindings@, {0})" % P
    out += u.emit(f, """requires fulltext_is_text(*schema)
        ensures final(self).from == old(self).from, match r { Some(s) => *final(self) == *old(self) && shows(*schema, *old(self), *pattern, s.0), None => (forall|m: Model| !#[trigger] holds(*final(self), m)) && (%s) }""" % NEVER.replace(P, "schema_of(m) == *schema").format("*pattern"))
    f = tidy(p.fn("apply_pattern", W))
    f.sub(r"pattern\.source != SrcVar::DefaultSrc", "!is_default(&pattern.source)", "equality", minimum=0)
    f.sub(r"self\.from\.push\((\w+)\);", r"let ghost before_ = *self; self.from.push(\1); proof { from_free(before_, *self); }", "ghost", minimum=0)
    f.prologue("hide(holds); hide(pattern_ok); hide(says); hide(evolved);")
    out += u.emit(f, """requires evolved(*old(self), pattern), pattern.source is DefaultSrc, fulltext_is_text(*known.schema)
        ensures applied(*old(self), *final(self), *known.schema, pattern)""")
    return out


def places(f):
    f.sub(r"(?<![\w:])(Place|Empty)\(", r"PlaceOrEmpty::\1(", "names in full", count=0, minimum=0)
    f.sub(r"\bentid\.0\b", "entid.0", "", count=0, minimum=0)
    return f
