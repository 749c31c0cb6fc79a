"""C17: rows into results (query-projector/src/{lib,relresult}.rs, projectors/simple.rs)."""
import re
import units, extract
T, R = units.load("types"), units.load("rowset")


BIND = r"""ensures r is Ok ==> row_bound(self.templates@, *row, r->Ok_0@)"""

def bindings(u, src, name):
    f = src.fn("collect_bindings", r"impl %s\b" % name).ret("r")
    f.subhead(r"<'a>", "", "no lifetime").subhead(r"Row<'a>", "Row", "no lifetime")
    f.macro("assert", lambda a: "if !(%s) { panicked(); }" % a, "a panic")
    f.sub(r"if (!\([^;{]*\)) \{ panicked\(\); \};", r"if \1 { panicked(); }", "a panic", minimum=0)
    f.sub(r"self\.templates\s*\.iter\(\)\s*\.map\(\|ti\| ti\.lookup\(&?row\)\)\s*\.collect::<Result<Vec<Binding>>>\(\)", "let mut vals_: Vec<Binding> = Vec::new(); let mut i_: usize = 0; while i_ < self.templates.len() { let ti = &self.templates[i_]; vals_.push(ti.lookup(row)?); i_ = i_ + 1; } Ok(vals_)", "map and collect as the loop they stand for")
    f.annotate([dict(kind="while", invariant="invariant i_ <= self.templates@.len(), vals_@.len() == i_, forall|j: int| 0 <= j < i_ ==> looked(#[trigger] self.templates@[j], *row) == Some(vals_@[j]), decreases self.templates@.len() - i_,")])
    return u.emit(f, BIND)

def bindings_into(u, src, name):
    f = src.fn("collect_bindings_into", r"impl %s\b" % name).ret("r")
    f.subhead(r"<'a>", "", "no lifetime").subhead(r"Row<'a>", "Row", "no lifetime")
    f.macro("assert_eq", lambda a: "must((%s) == (%s))" % tuple(x.strip() for x in a.split(",", 1)), "the assertion, as an obligation")
    f.macro("assert", lambda a: "if !(%s) { panicked(); }" % a, "a panic")
    f.sub(r"(\{ panicked\(\); \});", r"\1", "a panic", minimum=0)
    f.sub(r"for binding in self\.templates\.iter\(\)\.map\(\|ti\| ti\.lookup\(&?row\)\) \{", "for ti in self.templates.iter() { let binding = ti.lookup(row);", "map as the loop it stands for")
    f.sub(r"let mut count = 0;", "let mut count: usize = 0; let ghost out0 = out@;", "its type")
    f.annotate([dict(name="it", invariant="""invariant count == it.index@, self.templates@.len() < usize::MAX, out@.len() == out0.len() + it.index@, out@.take(out0.len() as int) =~= out0,
      forall|j: int| 0 <= j < it.index@ ==> looked(#[trigger] self.templates@[j], *row) == Some(out@[out0.len() + j]),""")])
    return u.emit(f, """requires self.templates@.len() == self.len, self.len < usize::MAX
  ensures r is Ok ==> final(out)@.len() == old(out)@.len() + self.templates@.len() && final(out)@.take(old(out)@.len() as int) =~= old(out)@
      && forall|j: int| 0 <= j < self.templates@.len() ==> looked(#[trigger] self.templates@[j], *row) == Some(final(out)@[old(out)@.len() + j])""")


def build(u):
    lib, rel, sim = u.src("query-projector/src/lib.rs"), u.src("query-projector/src/relresult.rs"), u.src("query-projector/src/projectors/simple.rs")
    q, core, pr = u.src("edn/src/query.rs"), u.src("core-traits/lib.rs"), u.src("query-projector/src/project.rs")
    con = u.src("query-projector/src/projectors/constant.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap",))
    u.assume("a projector behind Box<dyn Projector> is the one that was boxed; columns() goes over the elements of the spec")
    u.assume("Vec, slices and their iterators behave as sequences; a query has far fewer find elements than the address space")
    out += """
#[verifier::external_body] pub struct Connection { x: () }
#[verifier::external_body] pub struct Schema { x: () }
#[verifier::external_body] pub struct StructuredMap { x: () }
#[verifier::external_body] pub struct Variable { x: () }
#[verifier::external_body] pub struct Aggregate { x: () }
#[verifier::external_body] pub struct Pull { x: () }
#[verifier::external_body] pub struct Projection { x: () }
#[verifier::external_body] pub struct GroupBy { x: () }
#[verifier::external_body] pub struct PullTemplate { x: () }
pub type Rc<T> = std::sync::Arc<T>;
pub type VariableBindings = BTreeMap<Variable, TypedValue>;
impl Clone for Binding { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn rc_of<T>(k: &Rc<T>) -> (r: Rc<T>) ensures r == *k { unimplemented!() }
""" + u.struct(core, "Binding") + u.struct(q, "Element") + u.struct(q, "FindSpec") + u.struct(q, "Limit")
    out += R.rowset(u) + R.grid()
    out += "#[verifier::reject_recursive_types(T)]\n" + u.struct(rel, "RelResult") + u.struct(lib, "QueryResults") + u.struct(lib, "QueryOutput")
    out += """
#[verifier::external_body] pub struct BorrowedSlice { x: () }
#[verifier::external_body] pub fn slice_of<T>(v: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct IntoIter<T> { x: Option<T> }
impl<T> IntoIter<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  // by_ref().take(n).collect()
  #[verifier::external_body] pub fn take_some(&mut self, n: usize) -> (r: Vec<T>)
    ensures r@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }), final(self)@ == (if n <= old(self)@.len() { old(self)@.skip(n as int) } else { Seq::empty() }) { unimplemented!() }
}
#[verifier::external_body] pub fn into_iter_of<T>(v: Vec<T>) -> (r: IntoIter<T>) ensures r@ == v@ { unimplemented!() }
""" + "#[verifier::reject_recursive_types(T)]\n" + u.struct(rel, "SubvecIntoIterator").replace("::std::vec::IntoIter", "IntoIter")

    # RelResult
    out += "impl<T> RelResult<T> {\n"
    f = rel.fn("empty", r"impl<T> RelResult<T>").ret("r")
    out += u.emit(f, "ensures r.width == width, r.values@ == Seq::<T>::empty()")
    f = rel.fn("is_empty", r"impl<T> RelResult<T>").ret("r")
    f.sub(r"self\.values\.is_empty\(\)", "(self.values.len() == 0)", "is_empty", minimum=0)
    out += u.emit(f, "ensures r == (self.values@.len() == 0)")
    f = rel.fn("row_count", r"impl<T> RelResult<T>").ret("r")
    f.body = f.body.replace("{", "{ proof { let v = self.values@.len() as int; let w = self.width as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, w); }", 1)
    out += u.emit(f, "requires self.width > 0 ensures r == self.values@.len() / (self.width as nat)")
    f = rel.fn("row", r"impl<T> RelResult<T>").ret("r")
    f.sub(r"&self\.values\[([^\]]*?)\.\.([^\]]*?)\]", r"slice_of(&self.values, \1, \2)", "a slice")
    f.body = f.body.replace("{", "{ proof { assert((self.width as int) * (index as int) <= (self.width as int) * (index + 1)) by (nonlinear_arith) requires self.width >= 0; }", 1)
    out += u.emit(f, """requires self.width * (index + 1) <= usize::MAX, index < usize::MAX
      ensures r is Some <==> self.width * (index + 1) <= self.values@.len(),
        r is Some ==> r->Some_0@ == self.values@.subrange(self.width * index, self.width * (index + 1)),""") + "}\n"
    f = rel.fn("into_iter", r"impl<T> IntoIterator for RelResult<T>").ret("r")
    f.head = f.head.replace("Self::IntoIter", "SubvecIntoIterator<T>")
    f.sub(r"self\.values\.into_iter\(\)", "into_iter_of(self.values)", "the iterator of a vector")
    out += "impl<T> RelResult<T> {\n" + u.emit(f, "ensures r.width == self.width, r.values@ == self.values@") + "}\n"
    f = rel.fn("next", r"impl<T> Iterator for SubvecIntoIterator<T>").ret("r")
    f.head = f.head.replace("Self::Item", "Vec<T>")
    f.sub(r"\(&mut self\.values\)\s*\.take\((.*?)\)\s*\.collect\(\)", r"self.values.take_some(\1)", "take and collect")
    f.sub(r"result\.is_empty\(\)", "(result.len() == 0)", "is_empty", minimum=0)
    f.sub(r"Vec<_>", "Vec<T>", "its type", minimum=0)
    out += "impl<T> SubvecIntoIterator<T> {\n" + u.emit(f, """ensures final(self).width == old(self).width,
        old(self).width > 0 && old(self).values@.len() >= old(self).width ==> r is Some && r->Some_0@ == old(self).values@.take(old(self).width as int) && final(self).values@ == old(self).values@.skip(old(self).width as int),
        old(self).values@.len() == 0 ==> r is None,""") + "}\n"
    out += """
// Going over the results gives exactly the rows, in order: the k-th call of next is row k.
proof fn kth_row<T>(v: Seq<T>, w: int, k: int)
  requires 0 < w, 0 <= k, w * (k + 1) <= v.len()
  ensures v.skip(w * k).take(w) =~= v.subrange(w * k, w * (k + 1)), v.skip(w * k).skip(w) =~= v.skip(w * (k + 1)), w * (k + 1) == w * k + w, w * k >= 0
{ assert(w * (k + 1) == w * k + w && w * k >= 0) by (nonlinear_arith) requires 0 < w, 0 <= k; }
"""
    # QueryResults
    out += "impl QueryResults {\n"
    for n, post in [("len", """requires self matches QueryResults::Rel(x) ==> x.width > 0
          ensures self matches QueryResults::Scalar(o) ==> r == (if o is Some { 1int } else { 0 }), self matches QueryResults::Tuple(o) ==> r == (if o is Some { 1int } else { 0 }),
            self matches QueryResults::Coll(v) ==> r == v@.len(), self matches QueryResults::Rel(x) ==> r == x.values@.len() / (x.width as nat)"""),
                    ("is_empty", """ensures self matches QueryResults::Scalar(o) ==> r == (o is None), self matches QueryResults::Tuple(o) ==> r == (o is None),
            self matches QueryResults::Coll(v) ==> r == (v@.len() == 0), self matches QueryResults::Rel(x) ==> r == (x.values@.len() == 0)"""),
                    ("into_scalar", "ensures r is Ok <==> self is Scalar, r is Ok ==> self == QueryResults::Scalar(r->Ok_0)"),
                    ("into_coll", "ensures r is Ok <==> self is Coll, r is Ok ==> self == QueryResults::Coll(r->Ok_0)"),
                    ("into_tuple", "ensures r is Ok <==> self is Tuple, r is Ok ==> self == QueryResults::Tuple(r->Ok_0)"),
                    ("into_rel", "ensures r is Ok <==> self is Rel, r is Ok ==> self == QueryResults::Rel(r->Ok_0)")]:
        f = lib.fn(n, r"impl QueryResults\b").ret("r")
        f.sub(r"use crate::QueryResults::\*;", "", "names in full", minimum=0)
        f.sub(r"(?<![\w:])(Scalar|Tuple|Coll|Rel)\((ref )?(\w+)\) =>", r"QueryResults::\1(\3) =>", "names in full", count=0, minimum=0)
        f.sub(r"match \*self", "match self", "default binding modes", minimum=0)
        f.sub(r"v\.is_empty\(\)", "(v.len() == 0)", "is_empty", minimum=0)
        f.sub(r"o\.(is_some|is_none)\(\)", r"o.\1()", "", minimum=0)
        f.macro("bail", lambda a: "return Err(Error::new())", "what an Err carries is not modelled")
        out += u.emit(f, post)
    out += "}\n"
    # empty results of the right kind
    out += """
pub open spec fn empty_for(sp: FindSpec, r: QueryResults) -> bool {
  match sp { FindSpec::FindScalar(_) => r == QueryResults::Scalar(None), FindSpec::FindTuple(_) => r == QueryResults::Tuple(None),
    FindSpec::FindColl(_) => r matches QueryResults::Coll(v) && v@.len() == 0, FindSpec::FindRel(es) => r matches QueryResults::Rel(x) && x.width == es@.len() && x.values@.len() == 0 }
}
// The results where every variable has a value: one row of them.
pub open spec fn var_of(e: Element) -> Option<Variable> { match e { Element::Variable(v) => Some(v), Element::Corresponding(v) => Some(v), _ => None } }
pub open spec fn is_const(b: Map<Variable, TypedValue>, e: Element, x: Binding) -> bool { var_of(e) is Some && b.contains_key(var_of(e)->Some_0) && x == Binding::Scalar(b[var_of(e)->Some_0]) }
pub open spec fn row_of(b: Map<Variable, TypedValue>, es: Seq<Element>, vals: Seq<Binding>) -> bool { vals.len() == es.len() && forall|j: int| 0 <= j < es.len() ==> is_const(b, es[j], #[trigger] vals[j]) }
pub open spec fn consts_for(sp: FindSpec, b: Map<Variable, TypedValue>, r: QueryResults) -> bool {
  match sp {
    FindSpec::FindScalar(e) => r matches QueryResults::Scalar(x) && (match x { Some(v) => is_const(b, e, v), None => var_of(e) is Some && !b.contains_key(var_of(e)->Some_0) }),
    FindSpec::FindTuple(es) => r matches QueryResults::Tuple(x) && x is Some && row_of(b, es@, x->Some_0@),
    FindSpec::FindColl(e) => r matches QueryResults::Coll(v) && v@.len() == 1 && is_const(b, e, v@[0]),
    FindSpec::FindRel(es) => r matches QueryResults::Rel(x) && x.width == es@.len() && row_of(b, es@, x.values@),
  }
}
#[verifier::external_body] pub fn value_for(b: &VariableBindings, v: &Variable) -> (r: Option<TypedValue>) ensures r == (if b@.contains_key(*v) { Some(b@[*v]) } else { None::<TypedValue> }) { unimplemented!() }
pub fn expected(o: Option<TypedValue>) -> (r: TypedValue) ensures o == Some(r) { match o { Some(x) => x, None => { panicked(); unreached() } } }
pub open spec fn elements_of(sp: FindSpec) -> Seq<Element> { match sp { FindSpec::FindRel(es) => es@, FindSpec::FindTuple(es) => es@, FindSpec::FindColl(e) => seq![e], FindSpec::FindScalar(e) => seq![e] } }
pub open spec fn unit_element(e: Element) -> bool { e is Aggregate || e is Corresponding }
pub open spec fn all_unit(sp: FindSpec) -> bool { forall|j: int| 0 <= j < elements_of(sp).len() ==> unit_element(#[trigger] elements_of(sp)[j]) }
impl FindSpec { #[verifier::external_body] pub fn column_vec(&self) -> (r: Vec<&Element>) ensures r@.len() == elements_of(*self).len(), forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == elements_of(*self)[j] { unimplemented!() } }
"""
    FS = [(r"use self::FindSpec::\*;", ""), (r"match \*\*spec", "match &**spec"), (r"match \*spec", "match spec"), (r"\bref (?=\w)", "")]
    f = lib.fn("empty", r"impl QueryOutput\b").ret("r")
    for a, b in FS:
        f.sub(a, b, "default binding modes, names in full", count=0, minimum=0)
    f.sub(r"(?<![\w:])(Find\w+)\(", r"FindSpec::\1(", "names in full", count=0)
    f.sub(r"spec\.clone\(\)", "rc_of(spec)", "the same spec")
    out += "impl QueryOutput {\n" + u.emit(f, "ensures r.spec == *spec, empty_for(**spec, r.results)")
    f = lib.fn("from_constants", r"impl QueryOutput\b").ret("r")
    for a, b in FS:
        f.sub(a, b, "default binding modes, names in full", count=0, minimum=0)
    f.sub(r"(?<![\w:])(Find\w+)\(", r"FindSpec::\1(", "names in full", count=0)
    f.macro("unimplemented", lambda a: "{ panicked(); unreached() }", "a panic")
    f.macro("unreachable", lambda a: "{ panicked(); unreached() }", "a panic")
    f.sub(r"\{ panicked\(\); unreached\(\) \};", "{ panicked(); return unreached(); }", "a panic", count=0)
    f.sub(r"bindings\.get\(var\)\.cloned\(\)\.map\(\|v\| v\.into\(\)\)", "(match value_for(&bindings, var) { Some(v) => Some(Binding::Scalar(v)), None => None })", "map as a match; a value as a binding is that scalar")
    f.sub(r"bindings\s*\.get\(var\)\s*\.cloned\(\)\s*\.expect\(\"[^\"]*\"\)\s*\.into\(\)", "Binding::Scalar(expected(value_for(&bindings, var)))", "a panic where there is none; a value as a binding is that scalar", count=0)
    f.sub(r"let values = elements\s*\.iter\(\)\s*\.map\(\|e\| match \*e (\{.*?\})\)\s*\.collect\(\);", r"let mut values: Vec<Binding> = Vec::new(); let mut i_: usize = 0; while i_ < elements.len() { let e = &elements[i_]; let x_ = match e \1; values.push(x_); i_ = i_ + 1; }", "map and collect as the loop they stand for", count=0)
    inv = dict(kind="while", invariant="""invariant i_ <= elements@.len(), values@.len() == i_, forall|j: int| 0 <= j < i_ ==> is_const(bindings@, elements@[j], #[trigger] values@[j]), decreases elements@.len() - i_,""")
    f.annotate([inv, inv])
    out += u.emit(f, "ensures consts_for(**spec, bindings@, r)") + "}\n"

    # the projectors
    out += """
// The bindings of a row, by the templates.
pub open spec fn row_bound(ts: Seq<TypedIndex>, r: Row, vals: Seq<Binding>) -> bool { vals.len() == ts.len() && forall|j: int| 0 <= j < ts.len() ==> looked(#[trigger] ts[j], r) == Some(vals[j]) }
pub open spec fn laid(ts: Seq<TypedIndex>, rows: Seq<Row>, vals: Seq<Binding>) -> bool {
  &&& vals.len() == rows.len() * ts.len()
  &&& forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < ts.len() ==> looked(ts[j], rows[i]) == Some(vals[#[trigger] cell(ts.len(), i, j)])
}
pub open spec fn listed(t: TypedIndex, rows: Seq<Row>, vals: Seq<Binding>) -> bool { vals.len() == rows.len() && forall|i: int| 0 <= i < rows.len() ==> looked(t, #[trigger] rows[i]) == Some(vals[i]) }
proof fn lay(ts: Seq<TypedIndex>, rows: Seq<Row>, k: int, v0: Seq<Binding>, v1: Seq<Binding>)
  requires 0 <= k < rows.len(), laid(ts, rows.take(k), v0), v1.len() == v0.len() + ts.len(), v1.take(v0.len() as int) =~= v0,
    forall|j: int| 0 <= j < ts.len() ==> looked(#[trigger] ts[j], rows[k]) == Some(v1[v0.len() + j])
  ensures laid(ts, rows.take(k + 1), v1)
{
  let w = ts.len();
  assert((k + 1) * (w as int) == k * (w as int) + w) by (nonlinear_arith);
  assert forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < w implies looked(ts[j], rows.take(k + 1)[i]) == Some(v1[#[trigger] cell(w, i, j)]) by {
    if i < k { cells(w, k, i, j); assert(rows.take(k)[i] == rows[i]); assert(v1.take(v0.len() as int)[cell(w, i, j)] == v0[cell(w, i, j)]); }
    else { assert(cell(w, i, j) == v0.len() + j); assert(looked(ts[j], rows[k]) == Some(v1[v0.len() + j])); }
  }
}
"""
    for n in ("ScalarProjector", "TupleProjector", "RelProjector", "CollProjector"):
        out += u.struct(sim, n).replace("crate ", "").replace("pub(crate)", "pub")
    out += u.struct(pr, "ProjectedElements") + """
pub enum AnyProjector { Scalar(ScalarProjector), Tuple(TupleProjector), Rel(RelProjector), Coll(CollProjector) }
""" + u.struct(lib, "CombinedProjection").replace("Box<dyn Projector>", "AnyProjector")
    HEAD = [(r"fn project<'stmt, 's>", "fn project"), (r"&'s rusqlite::Connection", "&Connection"), (r"mut rows: Rows<'stmt>", "rows_in: Rows")]

    def projector(name, post, ann, extra=lambda f: f):
        f = sim.fn("project", r"impl Projector for %s\b" % name).ret("r")
        for a, b in HEAD:
            f.subhead(a, b, "no lifetimes")
        f.prologue("let mut rows = rows_in; let ghost all = rows_in@;")
        f.sub(r"self\.spec\.clone\(\)", "rc_of(&self.spec)", "the same spec")
        f.sub(r"\.lookup\(&row\)", ".lookup(row)", "a reference", count=0, minimum=0)
        f.sub(r"while let Some\((\w+)\) = rows\.next\(\)\? \{(.*?)\n        \}\n", r"loop { let next_ = rows.next()?; if next_.is_none() { break; } let \1 = next_.unwrap();\2\n }\n", "while let as the loop it stands for", minimum=0)
        f.sub(r"Vec<_>", "Vec<Binding>", "its type", count=0, minimum=0)
        f.sub(r"Vec::with_capacity\(5 \* width\)", "Vec::new()", "capacity is no content", minimum=0)
        f = extra(f)
        f.annotate(ann)
        return u.emit(f, post)
    out += "impl ScalarProjector {\n" + projector("ScalarProjector", """ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Scalar(x)
            && (match x { None => rows_in@.len() == 0, Some(b) => rows_in@.len() > 0 && looked(self.template, rows_in@[0]) == Some(b) }))""", []) + "}\n"
    out += "impl TupleProjector {\n" + bindings(u, sim, "TupleProjector") + projector("TupleProjector", """ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Tuple(x)
            && (match x { None => rows_in@.len() == 0, Some(b) => rows_in@.len() > 0 && row_bound(self.templates@, rows_in@[0], b@) }))""", []) + "}\n"
    LOOP = """
          invariant_except_break k <= all.len(), rows@ == all.skip(k), %s
          ensures rows@.len() == 0, %s
          decreases rows@.len(),"""
    out += "impl RelProjector {\n" + bindings_into(u, sim, "RelProjector") + projector("RelProjector", """requires self.templates@.len() == self.len, self.len < usize::MAX
        ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Rel(x) && x.width == self.len && laid(self.templates@, rows_in@, x.values@))""",
        [dict(kind="loop", invariant="""invariant_except_break 0 <= k <= all.len(), rows@ =~= all.skip(k), laid(self.templates@, all.take(k), values@),
          invariant self.templates@.len() == self.len, self.len < usize::MAX, width == self.len,
          ensures laid(self.templates@, all, values@),
          decreases rows@.len(),""", start="let ghost v0 = values@; proof { if k == all.len() { assert(all.take(k) =~= all); } }",
              end="proof { lay(self.templates@, all, k, v0, values@); k = k + 1; }", before="let ghost mut k: int = 0; proof { assert(all.take(0).len() == 0); assert(all.skip(0) =~= all); }")]) + "}\n"
    out += "impl CollProjector {\n" + projector("CollProjector", """ensures r is Ok ==> r->Ok_0.spec == self.spec && (r->Ok_0.results matches QueryResults::Coll(x) && listed(self.template, rows_in@, x@))""",
        [dict(kind="loop", invariant="""invariant_except_break 0 <= k <= all.len(), rows@ =~= all.skip(k), listed(self.template, all.take(k), out@),
          ensures listed(self.template, all, out@),
          decreases rows@.len(),""", start="let ghost v0 = out@; proof { if k == all.len() { assert(all.take(k) =~= all); } }",
              end="proof { assert forall|i: int| 0 <= i < k + 1 implies looked(self.template, #[trigger] all.take(k + 1)[i]) == Some(out@[i]) by { if i < k { assert(all.take(k)[i] == all[i]); } } k = k + 1; }", before="let ghost mut k: int = 0; proof { assert(all.take(0).len() == 0); assert(all.skip(0) =~= all); }")],
        ) + "}\n"
    
    # how a projector is made, and whether the SQL needs DISTINCT
    f = q.fn("is_unit", r"impl Element\b").ret("r")
    f.sub(r"match \*?self", "match self", "", minimum=0)
    out += "impl Element {\n" + u.emit(f, "ensures r == unit_element(*self)") + "}\n"
    out += """
pub fn every_unit(sp: &FindSpec) -> (r: bool)
  ensures r == all_unit(*sp)
{
  let v = sp.column_vec(); let mut i: usize = 0;
  while i < v.len() invariant i <= v@.len(), v@.len() == elements_of(*sp).len(), forall|j: int| 0 <= j < v@.len() ==> *(#[trigger] v@[j]) == elements_of(*sp)[j], forall|j: int| 0 <= j < i ==> unit_element(#[trigger] elements_of(*sp)[j]), decreases v@.len() - i,
  { proof { assert(*v@[i as int] == elements_of(*sp)[i as int]); } if !v[i].is_unit() { return false; } i = i + 1; }
  true
}
pub fn only(o: Option<TypedIndex>) -> (r: TypedIndex) requires o is Some ensures o == Some(r) { match o { Some(x) => x, None => { panicked(); unreached() } } }
pub open spec fn combined(e: ProjectedElements, p: AnyProjector, distinct: bool, c: CombinedProjection) -> bool {
  c.sql_projection == e.sql_projection && c.pre_aggregate_projection == e.pre_aggregate_projection && c.group_by_cols == e.group_by && c.datalog_projector == p && c.distinct == distinct
}
#[verifier::external_body] pub fn swap_templates(a: &mut Vec<TypedIndex>, b: &mut Vec<TypedIndex>) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { unimplemented!() }
"""
    f = pr.fn("combine", r"impl ProjectedElements\b").ret("r")
    f.subhead(r"Box<dyn Projector>", "AnyProjector", "the boxed projector")
    f.head = f.head.replace("pub(crate) ", "")
    g = pr.fn("take_templates", r"impl ProjectedElements\b").ret("r")
    g.sub(r"::std::mem::swap", "swap_templates", "std::mem::swap")
    g.sub(r"let mut out = vec!\[\];", "let mut out: Vec<TypedIndex> = Vec::new();", "empty")
    out += "impl ProjectedElements {\n" + u.emit(f, "ensures r is Ok, combined(self, projector, distinct, r->Ok_0)") + u.emit(g, """ensures r@ == old(self).templates@, final(self).sql_projection == old(self).sql_projection, final(self).pre_aggregate_projection == old(self).pre_aggregate_projection,
        final(self).group_by == old(self).group_by, final(self).pulls == old(self).pulls""") + "}\n"
    for name, ctor, var in (("ScalarProjector", "with_template", "Scalar"), ("TupleProjector", "with_templates", "Tuple"), ("RelProjector", "with_templates", "Rel"), ("CollProjector", "with_template", "Coll")):
        f = sim.fn(ctor, r"impl %s\b" % name).ret("r")
        out += "impl %s {\n" % name + u.emit(f, "ensures r.spec == spec, r.template == template" if ctor == "with_template" else "ensures r.spec == spec, r.len == len, r.templates == templates")
        f = sim.fn("combine", r"impl %s\b" % name).ret("r")
        f.subhead(r"mut elements: ProjectedElements", "elements_in: ProjectedElements", "a local")
        f.prologue("let mut elements = elements_in;")
        f.sub(r"Box::new\((.*?)\);", r"\1;", "the boxed projector")
        f.sub(r"elements\.combine\(projector, ", "elements.combine(AnyProjector::%s(projector), " % var, "the boxed projector")
        f.sub(r"elements\s*\.templates\s*\.pop\(\)\s*\.expect\(\"[^\"]*\"\)", "only(elements.templates.pop())", "a panic where there is none", minimum=0)
        f.sub(r"projector\.columns\(\)\.all\(\|e\| e\.is_unit\(\)\)", "every_unit(&projector.spec)", "all over the elements", minimum=0)
        req = "requires elements_in.templates@.len() == 1" if ctor == "with_template" else ""
        dist = {"Scalar": "false", "Tuple": "false"}.get(var, "!(elements_in.pre_aggregate_projection is Some || all_unit(*spec))")
        pick = "p.template == elements_in.templates@[0]" if ctor == "with_template" else "p.templates@ == elements_in.templates@ && p.len == column_count"
        out += u.emit(f, """%s
        ensures r is Ok, r->Ok_0.datalog_projector matches AnyProjector::%s(p) && p.spec == spec && %s,
          combined(elements_in, r->Ok_0.datalog_projector, %s, r->Ok_0),""" % (req, var, pick, dist)) + "}\n"
    f = lib.fn("flip_distinct_for_limit", r"impl CombinedProjection\b").ret("r")
    f.subhead(r"mut self", "self", "a local").subhead(r"Self", "CombinedProjection", "its name")
    f.sub(r"\*limit (=|!)= Limit::Fixed\((\d+)\)", lambda h: ("" if h.group(1) == "=" else "!") + "is_fixed(limit, %s)" % h.group(2), "the derived equality of Limit", minimum=0)
    f.sub(r"\*limit (=|!)= Limit::None", lambda h: ("" if h.group(1) == "=" else "!") + "is_no_limit(limit)", "the derived equality of Limit", minimum=0)
    f.sub(r"\bself\b", "self_", "a local", count=0)
    f.prologue("let mut self_ = self;")
    out += """pub fn is_fixed(l: &Limit, n: u64) -> (r: bool) ensures r == (*l == Limit::Fixed(n)) { match l { Limit::Fixed(m) => *m == n, _ => false } }
pub fn is_no_limit(l: &Limit) -> (r: bool) ensures r == (*l == Limit::None) { match l { Limit::None => true, _ => false } }
impl CombinedProjection {
""" + u.emit(f, """ensures r.sql_projection == self.sql_projection, r.pre_aggregate_projection == self.pre_aggregate_projection, r.group_by_cols == self.group_by_cols, r.datalog_projector == self.datalog_projector,
        r.distinct == (self.distinct && *limit != Limit::Fixed(1))  // of one row there is no duplicate""") + "}\n"
    f = q.fn("is_unit_limited", r"impl FindSpec\b").ret("r")
    g = q.fn("expected_column_count", r"impl FindSpec\b").ret("r")
    for x in (f, g):
        x.sub(r"use self::FindSpec::\*;", "", "names in full", minimum=0)
        x.sub(r"\(ref (\w+)\) \| &(\w+)\(ref \w+\)", r"(\1) | \2(\1)", "default binding modes", minimum=0)
        x.sub(r"(?<![\w:])(Find\w+)\(", r"FindSpec::\1(", "names in full", count=0)
    out += "impl FindSpec {\n" + u.emit(f, "ensures r == (self is FindScalar || self is FindTuple)") + u.emit(g, "ensures r == elements_of(*self).len()") + "}\n"
    return out
