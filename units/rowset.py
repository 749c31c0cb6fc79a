"""Shared by the units of the projectors: SQL rows, and what a template finds in one
(query-projector/src/lib.rs)."""
import re
import units, extract


def rowset(u):
    lib = u.src("query-projector/src/lib.rs")
    u.assume("a Row gives the value of each of its columns, Rows the rows of the statement in their order, each once; Row::get panics only where the column is not of the type asked for (a corrupt store)")
    u.assume("TypedValue::from_sql_value_pair is a function of the value and the tag (its contract: C07)")
    out = """
#[verifier::external_body] pub struct Value { x: () }
#[verifier::external_body] pub struct Row { x: () }
pub uninterp spec fn value_at(r: Row, i: usize) -> Value;
pub uninterp spec fn tag_at(r: Row, i: usize) -> i32;
pub uninterp spec fn entity_at(r: Row, i: usize) -> Entid;
pub uninterp spec fn value_of_pair(v: Value, tag: i32) -> Option<TypedValue>;
impl Row {
  #[verifier::external_body] pub fn get_value(&self, i: usize) -> (r: Value) ensures r == value_at(*self, i) { unimplemented!() }
  #[verifier::external_body] pub fn get_tag(&self, i: usize) -> (r: i32) ensures r == tag_at(*self, i) { unimplemented!() }
  #[verifier::external_body] pub fn get_entid(&self, i: usize) -> (r: Entid) ensures r == entity_at(*self, i) { unimplemented!() }
  #[verifier::external_body] pub fn column_count(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body] pub fn from_sql_value_pair(v: Value, tag: i32) -> (r: Result<TypedValue>) ensures r is Ok <==> value_of_pair(v, tag) is Some, r is Ok ==> r->Ok_0 == value_of_pair(v, tag)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn panicked() ensures false { unimplemented!() }
pub fn must(b: bool) requires b {}
#[verifier::external_body] pub struct Rows { x: () }
impl Rows {
  // The rows still to come.
  pub uninterp spec fn view(&self) -> Seq<Row>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Result<Option<&Row>>)
    ensures r is Ok ==> (r->Ok_0 is None <==> old(self)@.len() == 0),
      r is Ok && r->Ok_0 is Some ==> *(r->Ok_0->Some_0) == old(self)@[0] && final(self)@ == old(self)@.drop_first() { unimplemented!() }
}
pub type ValueTypeTag = i32;
pub type Index = usize;
""" + u.struct(lib, "TypedIndex") + """
// What a template finds in a row.
pub open spec fn looked(t: TypedIndex, r: Row) -> Option<Binding> {
  let p = match t { TypedIndex::Known(i, tag) => value_of_pair(value_at(r, i), tag), TypedIndex::Unknown(i, j) => value_of_pair(value_at(r, i), tag_at(r, j)) };
  match p { Some(v) => Some(Binding::Scalar(v)), None => None }
}
"""
    f = lib.fn("lookup", r"impl TypedIndex\b").ret("r")
    f.subhead(r"fn lookup<'a>", "fn lookup", "no lifetime").subhead(r"Row<'a>", "Row", "no lifetime")
    f.sub(r"use crate::TypedIndex::\*;", "", "names in full")
    f.sub(r"\b(Known|Unknown)\(", r"TypedIndex::\1(", "names in full", count=0)
    f.sub(r"let (\w+): rusqlite::types::Value = row\.get\((\w+)\)\.unwrap\(\)", r"let \1: Value = row.get_value(\2)", "Row::get of a value", count=0)
    f.sub(r"let (\w+): i32 = row\.get\((\w+)\)\.unwrap\(\)", r"let \1: i32 = row.get_tag(\2)", "Row::get of a tag", count=0)
    f.sub(r"TypedValue::from_sql_value_pair\((\w+), (\w+)\)\s*\.map\(\|v\| v\.into\(\)\)\s*\.map_err\(\|e\| e\.into\(\)\)", r"(match from_sql_value_pair(\1, \2) { Ok(v) => Ok(Binding::Scalar(v)), Err(e) => Err(e) })", "map and map_err as a match; a value as a binding is that scalar", count=0)
    return out + "impl TypedIndex {\n" + u.emit(f, "ensures r is Ok <==> looked(*self, *row) is Some, r is Ok ==> r->Ok_0 == looked(*self, *row)->Some_0") + "}\n"


def grid():
    """Rows laid end to end."""
    return """
pub open spec fn cell(w: nat, i: int, j: int) -> int { i * (w as int) + j }
proof fn cells(w: nat, n: int, i: int, j: int)
  requires 0 <= i < n, 0 <= j < w
  ensures 0 <= cell(w, i, j) < n * (w as int), cell(w, i, j) < (i + 1) * (w as int), forall|a: int, b: int| 0 <= b < w && cell(w, a, b) == cell(w, i, j) ==> a == i && b == j
{
  assert(i * (w as int) + j < n * (w as int) && 0 <= i * (w as int) && (i + 1) * (w as int) == i * (w as int) + w) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < w;
  assert forall|a: int, b: int| 0 <= b < w && cell(w, a, b) == cell(w, i, j) implies a == i && b == j by {
    if a < i { assert(a * (w as int) + w <= i * (w as int)) by (nonlinear_arith) requires a + 1 <= i, w >= 0; }
    if a > i { assert(i * (w as int) + w <= a * (w as int)) by (nonlinear_arith) requires i + 1 <= a, w >= 0; }
  }
}
"""
