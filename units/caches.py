"""C11: cached attributes answer what the facts say (db/src/cache.rs)."""
import re
import units, extract
T = units.load("types")

SPEC = """
pub type CacheMap<K, V> = BTreeMap<K, V>;
pub type Aev = (Entid, Entid, TypedValue);
impl<K, V> BTreeMap<K, V> {
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
  #[verifier::external_body] pub fn or_insert(&mut self, k: K, d: V) -> (r: &mut V)
    ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
impl<K> BTreeSet<K> {
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn extend(&mut self, o: BTreeSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
  #[verifier::external_body] pub fn extend_from(&mut self, o: &BTreeSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
  #[verifier::external_body] pub fn either<'a>(&'a self, o: &'a BTreeSet<K>) -> (r: Vec<&'a K>) ensures members_of(self@.union(o@), r@.map_values(|p: &K| *p)) { unimplemented!() }
}
// The keys of two maps, one after the other.
#[verifier::external_body] pub fn keys_of_both<'a, V, W>(x: &'a BTreeMap<Entid, V>, y: &'a BTreeMap<Entid, W>) -> (r: Vec<Entid>)
  ensures forall|i: int| 0 <= i < r@.len() ==> x@.contains_key(#[trigger] r@[i]) || y@.contains_key(r@[i]), forall|k: Entid| #[trigger] x@.contains_key(k) || y@.contains_key(k) ==> r@.contains(k) { unimplemented!() }
#[verifier::external_body] pub fn retain_not(s: &mut Vec<TypedValue>, item: &TypedValue) ensures final(s)@ == without(old(s)@, *item), final(s)@.len() <= old(s)@.len() { unimplemented!() }
#[verifier::external_body] pub struct Schema { x: () }
impl Schema {
  pub uninterp spec fn view(&self) -> Map<Entid, Attribute>;
  #[verifier::external_body] pub fn attribute_for_entid(&self, a: Entid) -> (r: Option<&Attribute>) ensures match r { Some(t) => self@.contains_key(a) && *t == self@[a], None => !self@.contains_key(a) } { unimplemented!() }
}
pub open spec fn without(s: Seq<TypedValue>, v: TypedValue) -> Seq<TypedValue> decreases s.len() { if s.len() == 0 { s } else { let p = without(s.drop_last(), v); if s.last() == v { p } else { p.push(s.last()) } } }
// A peekable iterator over rows.
#[verifier::external_body] pub struct Rows { x: () }
impl Rows {
  pub uninterp spec fn view(&self) -> Seq<Aev>;
  #[verifier::external_body] pub fn peek_attr(&mut self) -> (r: Option<Entid>) ensures final(self)@ == old(self)@, r == (if old(self)@.len() > 0 { Some(old(self)@[0].0) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Aev>)
    ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
#[verifier::external_body] pub fn replace<X>(p: &mut X, x: X) -> (r: X) ensures r == *old(p), *final(p) == x { unimplemented!() }
#[verifier::external_body] pub fn same_attr(a: Option<Entid>, b: Option<Entid>) -> (r: bool) ensures r == (a == b) { unimplemented!() }

// ---- what a cache says ----
pub ghost enum Model { One(Map<Entid, Option<TypedValue>>), Many(Map<Entid, Seq<TypedValue>>), Unique(Map<TypedValue, Option<Entid>>), Plain(Map<TypedValue, Set<Entid>>) }
pub open spec fn added(m: Model, e: Entid, v: TypedValue) -> Model { match m {
    Model::One(f) => Model::One(f.insert(e, Some(v))),
    Model::Many(f) => Model::Many(f.insert(e, (if f.contains_key(e) { f[e] } else { Seq::empty() }).push(v))),
    Model::Unique(f) => Model::Unique(f.insert(v, Some(e))),
    Model::Plain(f) => Model::Plain(f.insert(v, (if f.contains_key(v) { f[v] } else { Set::empty() }).insert(e))) } }
pub open spec fn removed(m: Model, e: Entid, v: TypedValue) -> Model { match m {
    Model::One(f) => Model::One(f.insert(e, None)),
    Model::Many(f) => if f.contains_key(e) { Model::Many(f.insert(e, without(f[e], v))) } else { m },
    Model::Unique(f) => Model::Unique(f.insert(v, None)),
    Model::Plain(f) => if f.contains_key(v) { Model::Plain(f.insert(v, f[v].remove(e))) } else { m } } }
pub open spec fn emptied(m: Model) -> Model { match m { Model::One(_) => Model::One(Map::empty()), Model::Many(_) => Model::Many(Map::empty()), Model::Unique(_) => Model::Unique(Map::empty()), Model::Plain(_) => Model::Plain(Map::empty()) } }
pub open spec fn step(m: Model, r: Aev, add: bool) -> Model { if add { added(m, r.1, r.2) } else { removed(m, r.1, r.2) } }
// The rows of one attribute, in order.
pub open spec fn fold(m: Model, rows: Seq<Aev>, a: Entid, add: bool) -> Model decreases rows.len()
{ if rows.len() == 0 { m } else { let p = fold(m, rows.drop_last(), a, add); if rows.last().0 == a { step(p, rows.last(), add) } else { p } } }
pub proof fn fold_append(m: Model, x: Seq<Aev>, y: Seq<Aev>, a: Entid, add: bool)
  ensures fold(m, x + y, a, add) == fold(fold(m, x, a, add), y, a, add) decreases y.len()
{ if y.len() == 0 { assert(x + y =~= x); } else { fold_append(m, x, y.drop_last(), a, add); assert((x + y).drop_last() =~= x + y.drop_last()); } }
pub proof fn fold_none(m: Model, x: Seq<Aev>, a: Entid, add: bool)
  requires forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).0 != a ensures fold(m, x, a, add) == m decreases x.len()
{ if x.len() > 0 { fold_none(m, x.drop_last(), a, add); } }
pub proof fn fold_kind(m: Model, x: Seq<Aev>, a: Entid, add: bool) ensures emptied(fold(m, x, a, add)) == emptied(m) decreases x.len()
{ if x.len() > 0 { fold_kind(m, x.drop_last(), a, add); } }

// ---- the facts ----
pub type Facts = spec_fn(Aev) -> bool;
pub open spec fn mirrors(m: Model, a: Entid, d: Facts) -> bool { match m {
    Model::One(f) => forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] (f.contains_key(e) && f[e] == Some(v)) <==> d((a, e, v)),
    Model::Many(f) => forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] (f.contains_key(e) && f[e].contains(v)) <==> d((a, e, v)),
    Model::Unique(f) => forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] (f.contains_key(v) && f[v] == Some(e)) <==> d((a, e, v)),
    Model::Plain(f) => forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] (f.contains_key(v) && f[v].contains(e)) <==> d((a, e, v)) } }
// One value per entity; one entity per value.
pub open spec fn single(a: Entid, d: Facts) -> bool { forall|e: Entid, v: TypedValue, w: TypedValue| #![trigger d((a, e, v)), d((a, e, w))] d((a, e, v)) && d((a, e, w)) ==> v == w }
pub open spec fn unique(a: Entid, d: Facts) -> bool { forall|e: Entid, g: Entid, v: TypedValue| #![trigger d((a, e, v)), d((a, g, v))] d((a, e, v)) && d((a, g, v)) ==> e == g }
pub open spec fn fits(m: Model, a: Entid, d: Facts) -> bool { (m is One ==> single(a, d)) && (m is Unique ==> unique(a, d)) }
pub open spec fn minus(d: Facts, rows: Seq<Aev>) -> Facts { |x: Aev| d(x) && !rows.contains(x) }
pub open spec fn plus(d: Facts, rows: Seq<Aev>) -> Facts { |x: Aev| d(x) || rows.contains(x) }
pub proof fn fold_removes(m: Model, a: Entid, d: Facts, rows: Seq<Aev>)
  requires mirrors(m, a, d), fits(m, a, d), forall|i: int| 0 <= i < rows.len() ==> d(#[trigger] rows[i])
  ensures mirrors(fold(m, rows, a, false), a, minus(d, rows)) decreases rows.len()
{
  fold_kind(m, rows, a, false);
  if rows.len() > 0 {
    let p = rows.drop_last(); let r = rows.last();
    fold_kind(m, p, a, false);
    fold_removes(m, a, d, p);
    assert(d(rows[rows.len() - 1]));
    assert forall|x: Aev| rows.contains(x) <==> p.contains(x) || x == r by { assert(rows =~= p.push(r)); if p.contains(x) { let i = p.index_of(x); assert(rows[i] == x); } if x == r { assert(rows[rows.len() - 1] == x); } }
    let n = fold(m, p, a, false);
    let d1 = minus(d, p); let d2 = minus(d, rows);
    assert forall|x: Aev| #[trigger] d2(x) <==> d1(x) && x != r by {}
    if r.0 == a {
      match n {
        Model::One(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let g = f.insert(r.1, None); (g.contains_key(e) && g[e] == Some(v)) <==> d2((a, e, v)) } by { assert(d1((a, e, v)) ==> d((a, e, v))); assert(d((a, r.1, r.2))); if e == r.1 && d1((a, e, v)) { assert(v == r.2); } } }
        Model::Many(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let o = fold(m, rows, a, false); match o { Model::Many(g) => (g.contains_key(e) && g[e].contains(v)) <==> d2((a, e, v)), _ => false } } by {
            assert(d1((a, e, v)) <==> f.contains_key(e) && f[e].contains(v));
            if f.contains_key(r.1) && e == r.1 { filter_contains(f[e], v, r.2); } } }
        Model::Unique(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let g = f.insert(r.2, None); (g.contains_key(v) && g[v] == Some(e)) <==> d2((a, e, v)) } by { assert(d1((a, e, v)) ==> d((a, e, v))); assert(d((a, r.1, r.2))); if v == r.2 && d1((a, e, v)) { assert(e == r.1); } } }
        Model::Plain(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let o = fold(m, rows, a, false); match o { Model::Plain(g) => (g.contains_key(v) && g[v].contains(e)) <==> d2((a, e, v)), _ => false } } by { assert(d1((a, e, v)) <==> f.contains_key(v) && f[v].contains(e)); } }
      }
    } else { same_facts(n, a, d1, d2); }
  } else { same_facts(m, a, d, minus(d, rows)); }
}
pub proof fn filter_contains(s: Seq<TypedValue>, v: TypedValue, no: TypedValue)
  ensures without(s, no).contains(v) <==> s.contains(v) && v != no decreases s.len()
{
  if s.len() > 0 {
    let q = s.drop_last(); let l = s.last(); let p = without(q, no);
    filter_contains(q, v, no);
    assert(s =~= q.push(l));
    pushed(q, l, v); pushed(p, l, v);
  }
}
pub proof fn pushed(s: Seq<TypedValue>, l: TypedValue, v: TypedValue) ensures s.push(l).contains(v) <==> s.contains(v) || v == l
{ if s.contains(v) { let i = s.index_of(v); assert(s.push(l)[i] == v); } if v == l { assert(s.push(l)[s.len() as int] == v); } if s.push(l).contains(v) && v != l { let i = s.push(l).index_of(v); assert(s[i] == v); } }
pub proof fn same_facts(m: Model, a: Entid, d: Facts, d2: Facts)
  requires mirrors(m, a, d), forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] #![trigger d2((a, e, v))] d((a, e, v)) <==> d2((a, e, v)) ensures mirrors(m, a, d2)
{
  match m {
    Model::One(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] (f.contains_key(e) && f[e] == Some(v)) <==> d2((a, e, v)) by { assert(d((a, e, v)) <==> d2((a, e, v))); } }
    Model::Many(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] (f.contains_key(e) && f[e].contains(v)) <==> d2((a, e, v)) by { assert(d((a, e, v)) <==> d2((a, e, v))); } }
    Model::Unique(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] (f.contains_key(v) && f[v] == Some(e)) <==> d2((a, e, v)) by { assert(d((a, e, v)) <==> d2((a, e, v))); } }
    Model::Plain(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] (f.contains_key(v) && f[v].contains(e)) <==> d2((a, e, v)) by { assert(d((a, e, v)) <==> d2((a, e, v))); } }
  }
}
pub proof fn fold_adds(m: Model, a: Entid, d: Facts, rows: Seq<Aev>)
  requires mirrors(m, a, d), fits(m, a, plus(d, rows))
  ensures mirrors(fold(m, rows, a, true), a, plus(d, rows)) decreases rows.len()
{
  fold_kind(m, rows, a, true);
  if rows.len() > 0 {
    let p = rows.drop_last(); let r = rows.last();
    fold_kind(m, p, a, true);
    assert forall|x: Aev| rows.contains(x) <==> p.contains(x) || x == r by { assert(rows =~= p.push(r)); if p.contains(x) { let i = p.index_of(x); assert(rows[i] == x); } if x == r { assert(rows[rows.len() - 1] == x); } }
    let d1 = plus(d, p); let d2 = plus(d, rows);
    assert forall|x: Aev| #[trigger] d2(x) <==> d1(x) || x == r by {}
    assert forall|e: Entid, v: TypedValue, w: TypedValue| #![trigger d1((a, e, v)), d1((a, e, w))] m is One && d1((a, e, v)) && d1((a, e, w)) implies v == w by { assert(d2((a, e, v)) && d2((a, e, w))); }
    assert forall|e: Entid, g: Entid, v: TypedValue| #![trigger d1((a, e, v)), d1((a, g, v))] m is Unique && d1((a, e, v)) && d1((a, g, v)) implies e == g by { assert(d2((a, e, v)) && d2((a, g, v))); }
    fold_adds(m, a, d, p);
    let n = fold(m, p, a, true);
    if r.0 == a {
      assert(d2((a, r.1, r.2)));
      match n {
        Model::One(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let g = f.insert(r.1, Some(r.2)); (g.contains_key(e) && g[e] == Some(v)) <==> d2((a, e, v)) } by { assert(d1((a, e, v)) ==> d2((a, e, v))); } }
        Model::Many(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let o = fold(m, rows, a, true); match o { Model::Many(g) => (g.contains_key(e) && g[e].contains(v)) <==> d2((a, e, v)), _ => false } } by {
            assert(d1((a, e, v)) <==> f.contains_key(e) && f[e].contains(v));
            let s = if f.contains_key(r.1) { f[r.1] } else { Seq::empty() };
            assert(s.push(r.2).contains(v) <==> s.contains(v) || v == r.2) by { if s.contains(v) { let i = s.index_of(v); assert(s.push(r.2)[i] == v); } if v == r.2 { assert(s.push(r.2)[s.len() as int] == v); } if s.push(r.2).contains(v) && v != r.2 { let i = s.push(r.2).index_of(v); assert(s[i] == v); } } } }
        Model::Unique(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let g = f.insert(r.2, Some(r.1)); (g.contains_key(v) && g[v] == Some(e)) <==> d2((a, e, v)) } by { assert(d1((a, e, v)) ==> d2((a, e, v))); } }
        Model::Plain(f) => { assert forall|e: Entid, v: TypedValue| #![trigger d2((a, e, v))] { let o = fold(m, rows, a, true); match o { Model::Plain(g) => (g.contains_key(v) && g[v].contains(e)) <==> d2((a, e, v)), _ => false } } by { assert(d1((a, e, v)) <==> f.contains_key(v) && f[v].contains(e)); } }
      }
    } else { same_facts(n, a, d1, d2); }
  } else { same_facts(m, a, d, plus(d, rows)); }
}
"""

ALL = """
pub open spec fn plain(c: AttributeCaches) -> bool {
  &&& forall|a: Entid| #[trigger] c.single_vals@.contains_key(a) ==> c.single_vals@[a].id() == 0
  &&& forall|a: Entid| #[trigger] c.multi_vals@.contains_key(a) ==> c.multi_vals@[a].id() == 0
  &&& forall|a: Entid| #[trigger] c.unique_reverse@.contains_key(a) ==> c.unique_reverse@[a].id() == 0
  &&& forall|a: Entid| #[trigger] c.non_unique_reverse@.contains_key(a) ==> c.non_unique_reverse@[a].id() == 0
}
pub open spec fn same_flags(c: AttributeCaches, d: AttributeCaches) -> bool { c.forward_cached_attributes == d.forward_cached_attributes && c.reverse_cached_attributes == d.reverse_cached_attributes }
// What is held for an attribute in one direction, for the kind of the attribute.
pub open spec fn own_f(c: AttributeCaches, a: Entid, many: bool) -> Option<Model> {
  if many { if c.multi_vals@.contains_key(a) { Some(c.multi_vals@[a].model()) } else { None } } else { if c.single_vals@.contains_key(a) { Some(c.single_vals@[a].model()) } else { None } } }
pub open spec fn own_r(c: AttributeCaches, a: Entid, uniq: bool) -> Option<Model> {
  if uniq { if c.unique_reverse@.contains_key(a) { Some(c.unique_reverse@[a].model()) } else { None } } else { if c.non_unique_reverse@.contains_key(a) { Some(c.non_unique_reverse@[a].model()) } else { None } } }
pub open spec fn none_f(many: bool) -> Model { if many { Model::Many(Map::empty()) } else { Model::One(Map::empty()) } }
pub open spec fn none_r(uniq: bool) -> Model { if uniq { Model::Unique(Map::empty()) } else { Model::Plain(Map::empty()) } }
pub open spec fn start_f(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, many: bool) -> Model {
  match own_f(c, a, many) { Some(m) => m, None => match fb { Some(b) => match own_f(*b, a, many) { Some(m) => m, None => none_f(many) }, None => none_f(many) } } }
pub open spec fn start_r(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, uniq: bool) -> Model {
  match own_r(c, a, uniq) { Some(m) => m, None => match fb { Some(b) => match own_r(*b, a, uniq) { Some(m) => m, None => none_r(uniq) }, None => none_r(uniq) } } }
// What the cache says of an attribute it caches, looking through to the one below.
pub open spec fn fb_f(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid) -> Option<&AttributeCaches> { match fb { Some(b) => if c.forward_cached_attributes@.contains(a) && b.forward_cached_attributes@.contains(a) { Some(b) } else { None }, None => None } }
pub open spec fn fb_r(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid) -> Option<&AttributeCaches> { match fb { Some(b) => if c.reverse_cached_attributes@.contains(a) && b.reverse_cached_attributes@.contains(a) { Some(b) } else { None }, None => None } }
pub open spec fn eff_f(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, many: bool) -> Model { start_f(c, fb_f(c, fb, a), a, many) }
pub open spec fn eff_r(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, uniq: bool) -> Model { start_r(c, fb_r(c, fb, a), a, uniq) }
pub open spec fn is_replacing(b: AccumulationBehavior) -> bool { b matches AccumulationBehavior::Add { replacing } && replacing }
pub open spec fn adding(b: AccumulationBehavior) -> bool { b is Add }
pub open spec fn uniq(t: Attribute) -> bool { t.unique is Some }
// The effect of the run of rows at the head.
pub open spec fn one_run(c: AttributeCaches, d: AttributeCaches, fb: Option<&AttributeCaches>, s: Map<Entid, Attribute>, rows: Seq<Aev>, left: Seq<Aev>, b: AccumulationBehavior) -> bool {
  let a = rows[0].0; let n = run_of(rows, a); let t = s[a];
  let fwd = s.contains_key(a) && c.forward_cached_attributes@.contains(a);
  let rev = s.contains_key(a) && c.reverse_cached_attributes@.contains(a);
  &&& 0 < n && is_run(rows, n, a) && left == rows.skip(n)
  &&& if fwd && !t.multival { d.single_vals@ == c.single_vals@.insert(a, d.single_vals@[a]) } else { d.single_vals == c.single_vals }
  &&& if fwd && t.multival { d.multi_vals@ == c.multi_vals@.insert(a, d.multi_vals@[a]) } else { d.multi_vals == c.multi_vals }
  &&& if rev && uniq(t) { d.unique_reverse@ == c.unique_reverse@.insert(a, d.unique_reverse@[a]) } else { d.unique_reverse == c.unique_reverse }
  &&& if rev && !uniq(t) { d.non_unique_reverse@ == c.non_unique_reverse@.insert(a, d.non_unique_reverse@[a]) } else { d.non_unique_reverse == c.non_unique_reverse }
  &&& fwd ==> own_f(d, a, t.multival) == Some(fold(if is_replacing(b) { none_f(t.multival) } else { eff_f(c, fb, a, t.multival) }, rows.take(n), a, adding(b)))
  &&& rev ==> own_r(d, a, uniq(t)) == Some(fold(if is_replacing(b) { none_r(uniq(t)) } else { eff_r(c, fb, a, uniq(t)) }, rows.take(n), a, adding(b)))
}
// The effect of all rows.
pub open spec fn into_cache(c: AttributeCaches, d: AttributeCaches, fb: Option<&AttributeCaches>, s: Map<Entid, Attribute>, rows: Seq<Aev>, b: AccumulationBehavior) -> bool {
  &&& forall|a: Entid| #[trigger] s.contains_key(a) && c.forward_cached_attributes@.contains(a) ==> eff_f(d, fb, a, s[a].multival) == fold(base_f(c, fb, a, s[a].multival, rows, b), rows, a, adding(b))
  &&& forall|a: Entid| #[trigger] s.contains_key(a) && c.reverse_cached_attributes@.contains(a) ==> eff_r(d, fb, a, uniq(s[a])) == fold(base_r(c, fb, a, uniq(s[a]), rows, b), rows, a, adding(b))
  &&& forall|a: Entid| #[trigger] d.single_vals@.contains_key(a) <==> c.single_vals@.contains_key(a) || d.single_vals@.contains_key(a) && s.contains_key(a) && !s[a].multival && c.forward_cached_attributes@.contains(a)
  &&& forall|a: Entid| #[trigger] d.multi_vals@.contains_key(a) <==> c.multi_vals@.contains_key(a) || d.multi_vals@.contains_key(a) && s.contains_key(a) && s[a].multival && c.forward_cached_attributes@.contains(a)
  &&& forall|a: Entid| #[trigger] d.unique_reverse@.contains_key(a) <==> c.unique_reverse@.contains_key(a) || d.unique_reverse@.contains_key(a) && s.contains_key(a) && uniq(s[a]) && c.reverse_cached_attributes@.contains(a)
  &&& forall|a: Entid| #[trigger] d.non_unique_reverse@.contains_key(a) <==> c.non_unique_reverse@.contains_key(a) || d.non_unique_reverse@.contains_key(a) && s.contains_key(a) && !uniq(s[a]) && c.reverse_cached_attributes@.contains(a)
  // what is held for attributes without rows stays
  &&& forall|a: Entid| (forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 != a) ==> #[trigger] untouched(c, d, a)
}
pub open spec fn untouched(c: AttributeCaches, d: AttributeCaches, a: Entid) -> bool {
  &&& forall|k: bool| #[trigger] own_f(d, a, k) == own_f(c, a, k)
  &&& forall|k: bool| #[trigger] own_r(d, a, k) == own_r(c, a, k)
}
pub open spec fn base_f(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, many: bool, rows: Seq<Aev>, b: AccumulationBehavior) -> Model { if is_replacing(b) && rows.len() > 0 && rows[0].0 == a { none_f(many) } else { eff_f(c, fb, a, many) } }
pub open spec fn base_r(c: AttributeCaches, fb: Option<&AttributeCaches>, a: Entid, un: bool, rows: Seq<Aev>, b: AccumulationBehavior) -> Model { if is_replacing(b) && rows.len() > 0 && rows[0].0 == a { none_r(un) } else { eff_r(c, fb, a, un) } }
// ---- the cache and the store ----
pub open spec fn holds_f(c: AttributeCaches, a: Entid) -> bool { c.single_vals@.contains_key(a) || c.multi_vals@.contains_key(a) }
pub open spec fn holds_r(c: AttributeCaches, a: Entid) -> bool { c.unique_reverse@.contains_key(a) || c.non_unique_reverse@.contains_key(a) }
pub enum Relation { Datoms, Fulltext }
#[verifier::external_body] pub struct Connection { x: () }
#[verifier::external_body] pub struct Statement { x: () }
impl Connection {
  // What the two tables say; the values of fulltext attributes are only in the second.
  pub uninterp spec fn table(&self, r: Relation) -> Facts;
  pub open spec fn facts(&self, s: Map<Entid, Attribute>) -> Facts { |x: Aev| if s.contains_key(x.0) && s[x.0].fulltext { self.table(Relation::Fulltext)(x) } else { self.table(Relation::Datoms)(x) } }
  #[verifier::external_body] pub fn prepare(&self, r: Relation) -> (s: Result<Statement>) ensures s matches Ok(t) ==> forall|x: Aev| #[trigger] t@(x) == self.table(r)(x) { unimplemented!() }
}
impl Statement {
  pub uninterp spec fn view(&self) -> Facts;
  #[verifier::external_body] pub fn query_rows(&mut self, a: Entid) -> (r: Result<Rows>)
    ensures final(self)@ == old(self)@, r matches Ok(w) ==> (forall|x: Aev| #[trigger] w@.contains(x) <==> old(self)@(x) && x.0 == a) && (forall|i: int| 0 <= i < w@.len() ==> (#[trigger] w@[i]).0 == a) { unimplemented!() }
}
pub open spec fn statement_for(t: Statement, s: Map<Entid, Attribute>, a: Entid) -> bool { true }
pub open spec fn reset(c: AttributeCaches, d: AttributeCaches, s: Map<Entid, Attribute>, a: Entid) -> bool {
  let fwd = s.contains_key(a) && c.forward_cached_attributes@.contains(a); let rev = s.contains_key(a) && c.reverse_cached_attributes@.contains(a);
  &&& own_f(d, a, false) == (if fwd && !s[a].multival { Some(none_f(false)) } else { None })
  &&& own_f(d, a, true) == (if fwd && s[a].multival { Some(none_f(true)) } else { None })
  &&& own_r(d, a, true) == (if rev && uniq(s[a]) { Some(none_r(true)) } else { None })
  &&& own_r(d, a, false) == (if rev && !uniq(s[a]) { Some(none_r(false)) } else { None })
  &&& forall|b: Entid| b != a ==> #[trigger] untouched(c, d, b)
}
pub proof fn reset_twice(c: AttributeCaches, d: AttributeCaches, s: Map<Entid, Attribute>, a: Entid) requires reset(c, d, s, a), same_flags(c, d) ensures reset(d, d, s, a) {}
// A cached attribute is held in full, and under no other kind.
pub open spec fn complete(c: AttributeCaches, s: Map<Entid, Attribute>, a: Entid, d: Facts) -> bool {
  &&& s.contains_key(a) && c.forward_cached_attributes@.contains(a) ==> (own_f(c, a, s[a].multival) matches Some(m) && mirrors(m, a, d)) && own_f(c, a, !s[a].multival) is None
  &&& s.contains_key(a) && c.reverse_cached_attributes@.contains(a) ==> (own_r(c, a, uniq(s[a])) matches Some(m) && mirrors(m, a, d)) && own_r(c, a, !uniq(s[a])) is None
  &&& !s.contains_key(a) ==> !holds_f(c, a) && !holds_r(c, a)
}
pub proof fn filled(c: AttributeCaches, d: AttributeCaches, s: Map<Entid, Attribute>, rows: Seq<Aev>, a: Entid, f: Facts, replacing: bool)
  requires replacing, same_flags(c, d), into_cache(c, d, None, s, rows, AccumulationBehavior::Add { replacing }), reset(c, c, s, a),
    forall|x: Aev| #[trigger] rows.contains(x) <==> f(x) && x.0 == a, forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 == a,
    s.contains_key(a) && !s[a].multival ==> single(a, f), s.contains_key(a) && uniq(s[a]) ==> unique(a, f)
  ensures complete(d, s, a, f), forall|b: Entid| b != a ==> #[trigger] untouched(c, d, b)
{
  let no = |x: Aev| false; let all = plus(no, rows);
  if s.contains_key(a) {
    assert forall|e: Entid, v: TypedValue| #![trigger all((a, e, v))] #![trigger f((a, e, v))] all((a, e, v)) <==> f((a, e, v)) by { assert(rows.contains((a, e, v)) <==> f((a, e, v))); }
    if c.forward_cached_attributes@.contains(a) { let m = none_f(s[a].multival); assert(mirrors(m, a, no)); fold_adds(m, a, no, rows); fold_kind(m, rows, a, true); same_facts(fold(m, rows, a, true), a, all, f); }
    if c.reverse_cached_attributes@.contains(a) { let m = none_r(uniq(s[a])); assert(mirrors(m, a, no)); fold_adds(m, a, no, rows); fold_kind(m, rows, a, true); same_facts(fold(m, rows, a, true), a, all, f); }
  } else {
    assert(own_f(c, a, true) is None && own_f(c, a, false) is None && own_r(c, a, true) is None && own_r(c, a, false) is None);
    assert(!c.single_vals@.contains_key(a) && !c.multi_vals@.contains_key(a) && !c.unique_reverse@.contains_key(a) && !c.non_unique_reverse@.contains_key(a));
  }
}
pub open spec fn agree(d: Facts, d2: Facts, a: Entid) -> bool { forall|e: Entid, v: TypedValue| #![trigger d((a, e, v))] #![trigger d2((a, e, v))] d((a, e, v)) <==> d2((a, e, v)) }
pub proof fn agree_rules(d: Facts, d2: Facts, a: Entid) requires agree(d, d2, a) ensures single(a, d) ==> single(a, d2), unique(a, d) ==> unique(a, d2)
{
  assert forall|e: Entid, v: TypedValue, w: TypedValue| #![trigger d2((a, e, v)), d2((a, e, w))] single(a, d) && d2((a, e, v)) && d2((a, e, w)) implies v == w by { assert(d((a, e, v)) && d((a, e, w))); }
  assert forall|e: Entid, g: Entid, v: TypedValue| #![trigger d2((a, e, v)), d2((a, g, v))] unique(a, d) && d2((a, e, v)) && d2((a, g, v)) implies e == g by { assert(d((a, e, v)) && d((a, g, v))); }
}
pub proof fn agree_complete(c: AttributeCaches, s: Map<Entid, Attribute>, a: Entid, d: Facts, d2: Facts) requires agree(d, d2, a), complete(c, s, a, d) ensures complete(c, s, a, d2)
{
  if s.contains_key(a) && c.forward_cached_attributes@.contains(a) { same_facts(own_f(c, a, s[a].multival).unwrap(), a, d, d2); }
  if s.contains_key(a) && c.reverse_cached_attributes@.contains(a) { same_facts(own_r(c, a, uniq(s[a])).unwrap(), a, d, d2); }
}
pub open spec fn cached_rows(c: AttributeCaches, s: Map<Entid, Attribute>, rows: Seq<Aev>) -> bool { forall|i: int| 0 <= i < rows.len() && s.contains_key((#[trigger] rows[i]).0) ==> c.forward_cached_attributes@.contains(rows[i].0) || c.reverse_cached_attributes@.contains(rows[i].0) }
// What a lookup answers.
pub open spec fn says_values(c: AttributeCaches, s: Map<Entid, Attribute>, a: Entid, e: Entid, r: Option<&Vec<TypedValue>>) -> bool {
  let m = if s.contains_key(a) && s[a].multival { own_f(c, a, true) } else { None };
  match r { Some(v) => m matches Some(Model::Many(f)) && f.contains_key(e) && f[e] == v@, None => !(m matches Some(Model::Many(f)) && f.contains_key(e)) } }
pub open spec fn says_value(c: AttributeCaches, s: Map<Entid, Attribute>, a: Entid, e: Entid, r: Option<&TypedValue>) -> bool {
  let m = if s.contains_key(a) && !s[a].multival { own_f(c, a, false) } else { None };
  match r { Some(v) => m matches Some(Model::One(f)) && f.contains_key(e) && f[e] == Some(*v), None => !(m matches Some(Model::One(f)) && f.contains_key(e) && f[e] is Some) } }
pub open spec fn says_entid(c: AttributeCaches, a: Entid, v: TypedValue, r: Option<Entid>) -> bool {
  match r { Some(e) => own_r(c, a, true) matches Some(Model::Unique(f)) && f.contains_key(v) && f[v] == Some(e), None => !(own_r(c, a, true) matches Some(Model::Unique(f)) && f.contains_key(v) && f[v] is Some) } }
pub open spec fn says_entids(c: AttributeCaches, a: Entid, v: TypedValue, r: Option<&BTreeSet<Entid>>) -> bool {
  match r { Some(es) => own_r(c, a, false) matches Some(Model::Plain(f)) && f.contains_key(v) && f[v] == es@, None => !(own_r(c, a, false) matches Some(Model::Plain(f)) && f.contains_key(v)) } }
pub open spec fn among(s: Seq<Entid>, n: int, k: Entid) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == k }
pub proof fn among_step(s: Seq<Entid>, n: int, k: Entid) requires 0 <= n < s.len() ensures among(s, n + 1, k) <==> among(s, n, k) || k == s[n] { if k == s[n] { assert(s[n] == k); } }
pub proof fn among_all(s: Seq<Entid>, k: Entid) ensures among(s, s.len() as int, k) <==> s.contains(k) { if s.contains(k) { assert(s[s.index_of(k)] == k); } }
pub open spec fn absorbed(c: AttributeCaches, o: AttributeCaches, d: AttributeCaches) -> bool {
  &&& plain(d)
  &&& d.forward_cached_attributes@ == c.forward_cached_attributes@.union(o.forward_cached_attributes@) && d.reverse_cached_attributes@ == c.reverse_cached_attributes@.union(o.reverse_cached_attributes@)
  &&& forall|a: Entid, k: bool| #[trigger] own_f(d, a, k) == if holds_f(o, a) { own_f(o, a, k) } else { own_f(c, a, k) }
  &&& forall|a: Entid, k: bool| #[trigger] own_r(d, a, k) == if holds_r(o, a) { own_r(o, a, k) } else { own_r(c, a, k) }
}
pub proof fn nothing_yet(c: AttributeCaches, fb: Option<&AttributeCaches>, s: Map<Entid, Attribute>, rows: Seq<Aev>, b: AccumulationBehavior) requires rows.len() == 0 ensures into_cache(c, c, fb, s, rows, b) {}
pub proof fn run_exists(rows: Seq<Aev>, n: int, a: Entid)
  requires 0 <= n <= rows.len(), forall|i: int| 0 <= i < n ==> (#[trigger] rows[i]).0 == a ensures is_run(rows, run_of(rows, a), a) decreases rows.len() - n
{ if n < rows.len() && rows[n].0 == a { run_exists(rows, n + 1, a); } else { assert(is_run(rows, n, a)); } }
pub proof fn more(c: AttributeCaches, m: AttributeCaches, d: AttributeCaches, fb: Option<&AttributeCaches>, s: Map<Entid, Attribute>, past: Seq<Aev>, rows: Seq<Aev>, left: Seq<Aev>, b: AccumulationBehavior)
  requires same_flags(c, m), same_flags(m, d), into_cache(c, m, fb, s, past, b), rows.len() > 0, one_run(m, d, fb, s, rows, left, b), is_replacing(b) ==> past.len() == 0
  ensures into_cache(c, d, fb, s, past + rows.take(run_of(rows, rows[0].0)), b)
{
  let r = rows[0].0; let n = run_of(rows, r); let x = rows.take(n); let now = past + x;
  assert forall|a: Entid| #[trigger] s.contains_key(a) && c.forward_cached_attributes@.contains(a) implies eff_f(d, fb, a, s[a].multival) == fold(base_f(c, fb, a, s[a].multival, now, b), now, a, adding(b)) by {
    fold_append(base_f(c, fb, a, s[a].multival, now, b), past, x, a, adding(b));
    if a != r { fold_none(eff_f(m, fb, a, s[a].multival), x, a, adding(b)); }
    if is_replacing(b) { assert(now =~= x); assert(past =~= Seq::empty()); }
  }
  assert forall|a: Entid| #[trigger] s.contains_key(a) && c.reverse_cached_attributes@.contains(a) implies eff_r(d, fb, a, uniq(s[a])) == fold(base_r(c, fb, a, uniq(s[a]), now, b), now, a, adding(b)) by {
    fold_append(base_r(c, fb, a, uniq(s[a]), now, b), past, x, a, adding(b));
    if a != r { fold_none(eff_r(m, fb, a, uniq(s[a])), x, a, adding(b)); }
    if is_replacing(b) { assert(now =~= x); assert(past =~= Seq::empty()); }
  }
  assert forall|a: Entid| (forall|i: int| 0 <= i < now.len() ==> (#[trigger] now[i]).0 != a) implies #[trigger] untouched(c, d, a) by {
    assert(forall|i: int| 0 <= i < past.len() ==> (#[trigger] past[i]).0 != a) by { assert(forall|i: int| 0 <= i < past.len() ==> past[i] == now[i]); }
    assert(untouched(c, m, a));
    assert(a != r) by { assert(now[past.len() as int] == rows[0]); }
    assert(untouched(m, d, a));
  }
}
"""


def into(f):
    """attribute: U with U: Into<Entid>."""
    f.head = re.sub(r"where\s+U: Into<Entid>,?\s*$", "", f.head.replace("<U>", "").replace("attribute: U", "attribute: Entid").rstrip())
    f.sub(r"attribute\.into\(\)", "attribute", "an attribute is given by its id", minimum=0)


def rows_head(f):
    f.head = re.sub(r"iter: &mut Peekable<I>", "iter: &mut Rows", f.head)
    f.head = re.sub(r"iter: Peekable<I>", "iter: Rows", f.head)
    f.head = re.sub(r"\bI: Iterator<Item = Aev>,?", "", f.head)
    f.head = f.head.replace("<I>", "")
    f.head = re.sub(r"where\s*$", "", f.head.rstrip())
    f.rewrites.append("%s head: an iterator over rows as Rows" % f.name)


KINDS = dict(SingleValAttributeCache=("e_v", "Model::One(self.e_v@)"),
             MultiValAttributeCache=("e_vs", "Model::Many(self.e_vs@.map_values(|s: Vec<TypedValue>| s@))"),
             UniqueReverseAttributeCache=("v_e", "Model::Unique(self.v_e@)"),
             NonUniqueReverseAttributeCache=("v_es", "Model::Plain(self.v_es@.map_values(|s: BTreeSet<Entid>| s@))"))


def entries(f):
    """match M.entry(K) { Occupied(..) => .., Vacant(..) => .. } as a look at the slot."""
    while True:
        h = re.search(r"match ((?:self\.)?\w+(?:\.\w+)*)\.entry\(((?:[^()]|\([^()]*\))*)\) \{", f.body)
        if not h:
            return f
        e = extract.close_of(extract.mask(f.body), h.end() - 1)
        t = f.body[h.end():e]
        o, v = re.search(r"Occupied\((?:mut )?(\w+)\) =>", t), re.search(r"Vacant\((\w+)\) =>", t)
        if not o or not v:
            raise extract.LostAnchor("%s: the arms of an entry" % f.name)
        cut = lambda x: re.sub(r"\s*(?:\w+::)*$", " ", x)
        occ, vac = (cut(t[o.end():v.start()]), t[v.end():]) if o.start() < v.start() else (t[o.end():], cut(t[v.end():o.start()]))
        m, k = h.group(1), h.group(2)
        occ = re.sub(r"\b%s\.get_mut\(\)" % o.group(1), "slot_", occ)
        occ = re.sub(r"\b%s\.insert\(" % o.group(1), "replace(slot_, ", occ)
        vac = re.sub(r"\b%s\.insert\(" % v.group(1), "%s.insert(key_, " % m, vac)
        f.body = f.body[:h.start()] + "let key_ = %s; match %s.get_mut(&key_) { Some(slot_) =>%s None =>%s}" % (k, m, occ, vac) + f.body[e + 1:]
        f.rewrites.append("%s: the entry interface of a map as get_mut/insert" % f.name)


def quiet(f):
    """Drops eprintln! and a match that then does nothing."""
    f.body = extract.drop_macro(f.body, ["eprintln"])
    h = re.search(r"match removed \{", f.body)
    if h:
        e = extract.close_of(extract.mask(f.body), h.end() - 1)
        if re.sub(r"\{\s*\}", "", f.body[h.end():e]).count("{"):
            raise extract.LostAnchor(f.name + ": a match that does something")
        f.body = f.body[:h.start()] + f.body[e + 1:]
    f.rewrites.append("%s: messages on stderr dropped" % f.name)
    f.sub(r"\bvec\.remove_every\(", "remove_every(vec, ", "an extension method as a function", minimum=0)
    f.sub(r"assert_eq!\(self\.attr, other\.attr\);", "if self.attr != other.attr { unreached::<()>() }", "a panic, proved unreachable", minimum=0)
    return f


def aev_loop(s, f, inv, add, decr="iter@.len()"):
    """Calls of with_aev_iter inlined: its loop with the closure's body in it."""
    w = s.fn("with_aev_iter")
    body = extract.plain(w.body)
    m = re.match(r"\{\s*let check = Some\(a\);\s*while iter\.peek\(\)\.map\(\|&\(a, _, _\)\| a\) == check \{\s*let \(_, e, v\) = iter\.next\(\)\.unwrap\(\);\s*f\(e, v\);\s*\}\s*\}$", body, re.S)
    if not m:
        raise extract.LostAnchor("with_aev_iter is another loop")
    h = re.search(r"with_aev_iter\(a, iter, \|(\w+), (\w+)\| ", f.body)
    if not h:
        raise extract.LostAnchor(f.name + ": with_aev_iter")
    o = f.body.index("(", h.start())
    e = extract.close_of(extract.mask(f.body), o)
    body = f.body[h.end():e].strip()
    if body == "()":
        body = "{}"
    f.body = f.body[:h.start()] + """{ let check = Some(a); let ghost rows0 = iter@; let ghost mut n_: int = 0;
      while same_attr(iter.peek_attr(), check)
        invariant 0 <= n_ <= rows0.len(), iter@ == rows0.skip(n_ as int), check == Some(a), forall|i: int| 0 <= i < n_ ==> (#[trigger] rows0[i]).0 == a,
          %s
        decreases iter@.len()
      { let r_ = iter.next().unwrap(); let %s = r_.1; let %s = r_.2;
        proof { assert(r_ == rows0[n_ as int]); assert(rows0.skip(n_ as int).skip(1) =~= rows0.skip(n_ + 1)); assert(rows0.take(n_ + 1).drop_last() =~= rows0.take(n_ as int)); assert(rows0.take(n_ + 1).last() == rows0[n_ as int]); }
        { %s; }
        proof { n_ = n_ + 1; } }
      proof { assert(is_run(rows0, n_, a)); } }""" % (inv, h.group(1), h.group(2), body) + f.body[e + 1:]
    f.rewrites.append("%s: with_aev_iter inlined with its closure" % f.name)
    return f


def build(u):
    s = u.src("db/src/cache.rs")
    core = u.src("core-traits/lib.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, ["BTreeMap"], ["BTreeSet"])
    out += "pub mod attribute { pub use super::Unique; }\n" + "".join("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, n) for n in ("Unique", "ValueType")) + u.struct(core, "Attribute")
    out += SPEC
    out += """
// A run of rows of one attribute at the head, as long as it goes.
pub open spec fn is_run(rows: Seq<Aev>, n: int, a: Entid) -> bool { 0 <= n <= rows.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] rows[i]).0 == a) && (n < rows.len() ==> rows[n].0 != a) }
pub proof fn run_unique(rows: Seq<Aev>, n: int, m: int, a: Entid) requires is_run(rows, n, a), is_run(rows, m, a) ensures n == m {}
pub open spec fn run_of(rows: Seq<Aev>, a: Entid) -> int { choose|n: int| is_run(rows, n, a) }
"""
    u.assume("AttributeCaches and their parts derive Clone and Default")
    for n in KINDS:
        s.derives(n, ["Clone", "Default"])
        fld, model = KINDS[n]
        out += u.struct(s, n)
        out += "impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n" % n
        out += "impl %s { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.attr == 0, r.model() == emptied(r.model()) { unimplemented!() } }\n" % n
    f = quiet(s.fn("remove_every", r"impl<T> Remove<T> for Vec<T>")).ret("r")
    f.subhead(r"&mut self, item: &T", "self_: &mut Vec<TypedValue>, item: &TypedValue", "an extension method as a function")
    f.sub(r"self\.retain\(\|v\| v != item\);", "retain_not(self_, item);", "Vec::retain")
    f.sub(r"\bself\b", "self_", "an extension method as a function", count=0)
    out += u.emit(f, "ensures final(self_)@ == without(old(self_)@, *item)")

    # ---- traits ----
    out += """
pub trait RemoveFromCache: Sized { spec fn model(&self) -> Model; spec fn id(&self) -> Entid;
  fn remove(&mut self, e: Entid, v: &TypedValue) ensures final(self).model() == removed(old(self).model(), e, *v), final(self).id() == old(self).id(); }
pub trait ClearCache: RemoveFromCache { fn clear(&mut self) ensures final(self).model() == emptied(old(self).model()), final(self).id() == old(self).id(); }
pub trait CardinalityOneCache: RemoveFromCache + ClearCache {
  fn set(&mut self, e: Entid, v: TypedValue) ensures final(self).model() == added(old(self).model(), e, v), final(self).id() == old(self).id();
  fn get(&self, e: Entid) -> (r: Option<&TypedValue>) ensures match r { Some(v) => self.model() matches Model::One(f) && f.contains_key(e) && f[e] == Some(*v), None => self.model() matches Model::One(f) && !(f.contains_key(e) && f[e] is Some) }; }
pub trait CardinalityManyCache: RemoveFromCache + ClearCache {
  fn acc(&mut self, e: Entid, v: TypedValue) ensures final(self).model() == added(old(self).model(), e, v), final(self).id() == old(self).id();
  fn get(&self, e: Entid) -> (r: Option<&Vec<TypedValue>>) ensures match r { Some(v) => self.model() matches Model::Many(f) && f.contains_key(e) && f[e] == v@, None => self.model() matches Model::Many(f) && !f.contains_key(e) }; }
"""
    VIEWS = {
        "SingleValAttributeCache": "",
        "MultiValAttributeCache": "assert(final_.model()->Many_0 =~= EXPECT->Many_0);",
    }
    def post(n, expect):
        """Closes a proof about a cache whose values have views."""
        k = {"SingleValAttributeCache": "One", "MultiValAttributeCache": "Many", "UniqueReverseAttributeCache": "Unique", "NonUniqueReverseAttributeCache": "Plain"}[n]
        return "proof { assert(self.model()->%s_0 =~= (%s)->%s_0); }" % (k, expect, k)
    def tail(f, t):
        f.body = f.body[:-1].rstrip()
        if not f.body.endswith((";", "}", "{")):
            f.body += ";"
        f.body += " " + t + "\n}"
        return f
    for n, (fld, model) in KINDS.items():
        f = quiet(entries(s.fn("remove", r"impl RemoveFromCache for %s\b" % n)))
        f.sub(r"get_mut\(&v\)", "get_mut(v)", "autoref", minimum=0)
        f.sub(r"let key_ = v\.clone\(\);", "let key_ = v.clone();", "", minimum=0)
        tail(f, post(n, "removed(old(self).model(), e, *v)"))
        out += "impl RemoveFromCache for %s { open spec fn model(&self) -> Model { %s } open spec fn id(&self) -> Entid { self.attr }\n%s}\n" % (n, model, u.emit(f, "", vis=""))
        f = s.fn("clear", r"impl ClearCache for %s\b" % n)
        tail(f, post(n, "emptied(old(self).model())"))
        out += "impl ClearCache for %s {\n%s}\n" % (n, u.emit(f, "", vis=""))
    one = s.fn("get", r"impl CardinalityOneCache for SingleValAttributeCache").sub(r"self\.e_v\.get\(&e\)\.and_then\(\|m\| m\.as_ref\(\)\)", "match self.e_v.get(&e) { Some(m) => m.as_ref(), None => None }", "and_then as a match")
    one.ret("r")
    out += "impl CardinalityOneCache for SingleValAttributeCache {\n" + u.emit(tail(s.fn("set", r"impl CardinalityOneCache for SingleValAttributeCache"), post("SingleValAttributeCache", "added(old(self).model(), e, v)")), "", vis="") + u.emit(one, "", vis="") + "}\n"
    acc = s.fn("acc", r"impl CardinalityManyCache for MultiValAttributeCache").sub(r"\.entry\((\w+)\)\.or_insert_with\(Vec::new\)", r".or_insert(\1, Vec::new())", "the entry interface of a map")
    out += "impl CardinalityManyCache for MultiValAttributeCache {\n" + u.emit(tail(acc, post("MultiValAttributeCache", "added(old(self).model(), e, v)")), "", vis="") + u.emit(s.fn("get", r"impl CardinalityManyCache for MultiValAttributeCache").ret("r"), "", vis="") + "}\n"
    g = s.fn("get_e", r"impl UniqueReverseAttributeCache").sub(r"self\.v_e\.get\(v\)\.and_then\(\|o\| \*o\)", "match self.v_e.get(v) { Some(o) => *o, None => None }", "and_then as a match").ret("r")
    out += "impl UniqueReverseAttributeCache {\n" + u.emit(tail(s.fn("set", r"impl UniqueReverseAttributeCache"), post("UniqueReverseAttributeCache", "added(old(self).model(), e, v)")), "ensures final(self).model() == added(old(self).model(), e, v), final(self).id() == old(self).id()") \
        + u.emit(g, "ensures match r { Some(e) => self.v_e@.contains_key(*v) && self.v_e@[*v] == Some(e), None => !(self.v_e@.contains_key(*v) && self.v_e@[*v] is Some) }") + "}\n"
    acc = s.fn("acc", r"impl NonUniqueReverseAttributeCache").sub(r"\.entry\((\w+)\)\.or_insert_with\(BTreeSet::new\)", r".or_insert(\1, BTreeSet::new())", "the entry interface of a map")
    out += "impl NonUniqueReverseAttributeCache {\n" + u.emit(tail(acc, post("NonUniqueReverseAttributeCache", "added(old(self).model(), e, v)")), "ensures final(self).model() == added(old(self).model(), e, v), final(self).id() == old(self).id()") \
        + u.emit(s.fn("get_es", r"impl NonUniqueReverseAttributeCache").ret("r"), "ensures match r { Some(es) => self.v_es@.contains_key(*v) && es@ == self.v_es@[*v]@, None => !self.v_es@.contains_key(*v) }") + "}\n"

    # ---- rows into caches ----
    for name in ("accumulate_single_val_evs_forward", "accumulate_multi_val_evs_forward", "accumulate_unique_evs_reverse", "accumulate_non_unique_evs_reverse",
                 "accumulate_single_val_unique_evs_both", "accumulate_multi_val_unique_evs_both", "accumulate_single_val_non_unique_evs_both", "accumulate_multi_val_non_unique_evs_both",
                 "accumulate_removal_one", "accumulate_removal_both"):
        f = s.fn(name)
        add = "false" if "removal" in name else "true"
        f.head = re.sub(r"iter: &mut Peekable<I>", "iter: &mut Rows", f.head)
        f.head = re.sub(r"\bI: Iterator<Item = Aev>,?", "", f.head)
        f.head = re.sub(r"<I, ", "<", f.head).replace("<I>", "")
        f.head = re.sub(r"where\s*$", "", f.head.rstrip())
        f.rewrites.append("%s head: an iterator over rows as Rows" % name)
        cs = [c for c in re.findall(r"(\w+): &mut (\w+)", f.head) if c[1] != "Rows"]
        inv = " ".join("%s.model() == fold(old(%s).model(), rows0.take(n_ as int), a, %s), %s.id() == old(%s).id()," % (c, c, add, c, c) for c, _ in cs)
        aev_loop(s, f, inv + " rows0 == old(iter)@,", add)
        f.prologue("proof { assert(iter@.skip(0) =~= iter@); " + "".join("assert(fold(%s.model(), iter@.take(0), a, %s) == %s.model());" % (c, add, c) for c, _ in cs) + "}")
        f.sub(r"proof \{ assert\(is_run\(rows0, n_, a\)\); \}", "proof { assert(is_run(rows0, n_, a)); let m_ = run_of(rows0, a); run_unique(rows0, n_, m_, a); }", "ghost")
        f.body = f.body.replace("let check", "let check")
        out += u.emit(f, "ensures ({ let n = run_of(old(iter)@, a); is_run(old(iter)@, n, a) && final(iter)@ == old(iter)@.skip(n as int) " + "".join("&& final(%s).model() == fold(old(%s).model(), old(iter)@.take(n as int), a, %s) && final(%s).id() == old(%s).id() " % (c, c, add, c, c) for c, _ in cs) + "})")
    
    # ---- the caches of all attributes ----
    s.derives("AttributeCaches", ["Clone", "Default"])
    out += u.struct(s, "AttributeCaches") + "#[derive(Copy, Clone)]\n" + u.struct(s, "AccumulationBehavior")
    out += ALL
    imp = r"impl AttributeCaches \{"
    FB = re.compile(r"\.entry\(a\)\.or_insert_with\(\|\| \{\s*(\w+)\s*\.and_then\(\|c\| c\.(\w+)\.get\(&a\)\.cloned\(\)\)\s*\.unwrap_or_else\(Default::default\)\s*\}\)")
    what = dict(single_vals=("SingleValAttributeCache", "f", "false"), multi_vals=("MultiValAttributeCache", "f", "true"), unique_reverse=("UniqueReverseAttributeCache", "r", "true"), non_unique_reverse=("NonUniqueReverseAttributeCache", "r", "false"))
    for fld, (n, d, k) in what.items():
        out += "pub fn copied_%s(o: Option<&%s>) -> (r: %s) ensures match o { Some(x) => r == *x, None => r.id() == 0 && r.model() == emptied(r.model()) } { match o { Some(x) => x.clone(), None => %s::default() } }\n" % (fld, n, n, n)
    out += "impl AttributeCaches {\n"
    accessors = dict(fsc=["single_vals"], fmc=["multi_vals"], ruc=["unique_reverse"], rnuc=["non_unique_reverse"],
                     both_s_u=["single_vals", "unique_reverse"], both_m_u=["multi_vals", "unique_reverse"], both_s_nu=["single_vals", "non_unique_reverse"], both_m_nu=["multi_vals", "non_unique_reverse"])
    for name, flds in accessors.items():
        f = s.fn(name, imp).ret("res")
        if len(FB.findall(f.body)) != len(flds):
            raise extract.LostAnchor(name + ": the copy of an entry")
        fbs = [m[0] for m in FB.findall(f.body)]
        f.sub(FB.pattern, lambda m: ".or_insert(a, copied_%s(match %s { Some(c) => c.%s.get(&a), None => None }))" % (m.group(2), m.group(1), m.group(2)), "the entry interface of a map; the default is made eagerly", count=0)
        spec = "requires plain(*old(self)), " + ", ".join("%s matches Some(c) ==> plain(*c)" % b for b in sorted(set(fbs))) + "\n ensures same_flags(*old(self), *final(self)),"
        for i, fld in enumerate(flds):
            r = "res.%d" % i if len(flds) == 2 else "res"
            d, k = what[fld][1], what[fld][2]
            spec += " (%s).model() == start_%s(*old(self), %s, a, %s), (%s).id() == 0, final(self).%s@ == old(self).%s@.insert(a, *final(%s))," % (r, d, fbs[i], k, r, fld, fld, r)
        spec += "".join(" final(self).%s == old(self).%s," % (x, x) for x in what if x not in flds)
        out += u.emit(f, spec)
    f = s.fn("is_replacing").ret("r")
    out += "}\nimpl AccumulationBehavior {\n" + u.emit(f, "ensures r == (self matches AccumulationBehavior::Add { replacing } && replacing)") + "}\nimpl AttributeCaches {\n"
    for name, spec in (("is_attribute_cached_forward", "ensures r == self.forward_cached_attributes@.contains(attribute)"), ("is_attribute_cached_reverse", "ensures r == self.reverse_cached_attributes@.contains(attribute)"),
                       ("has_cached_attributes", "ensures r == !(self.forward_cached_attributes@ =~= Set::<Entid>::empty() && self.reverse_cached_attributes@ =~= Set::<Entid>::empty())")):
        out += u.emit(s.fn(name, r"impl CachedAttributes for AttributeCaches").ret("r"), spec)
    f = s.fn("accumulate_evs", imp)
    rows_head(f)
    f.sub(r"if let Some\(&\(a, _, _\)\) = iter\.peek\(\)", "if let Some(a) = iter.peek_attr()", "the attribute of the row at hand")
    f.sub(r"(\w+)\.map_or\(false, \|c\| ((?:[^()]|\([^()]*\))*)\)", r"(match \1 { Some(c) => \2, None => false })", "map_or as a match", count=0)
    f.sub(r"unreachable!\(\);", "unreached::<()>()", "a panic, proved unreachable")
    aev_loop(s, f, "rows0 == old(iter)@, *self == *old(self),", "true") if "with_aev_iter" in f.body else None
    f.prologue("proof { if iter@.len() > 0 { let n = run_of(iter@, iter@[0].0); run_exists(iter@, 0, iter@[0].0); assert(iter@.take(n) =~= iter@.subrange(0, n)); } }")
    f.sub(r"proof \{ assert\(is_run\(rows0, n_, a\)\); \}", "proof { assert(is_run(rows0, n_, a)); let m_ = run_of(rows0, a); run_unique(rows0, n_, m_, a); }", "ghost", minimum=0)
    f.sub(r"AccumulationBehavior::Add \{ replacing \} => \{", "AccumulationBehavior::Add { replacing } => { assert(replacing == replace_a);", "ghost", count=0)
    out += u.emit(f, """requires plain(*old(self)), fallback matches Some(c) ==> plain(*c),
        old(iter)@.len() > 0 && schema@.contains_key(old(iter)@[0].0) ==> old(self).forward_cached_attributes@.contains(old(iter)@[0].0) || old(self).reverse_cached_attributes@.contains(old(iter)@[0].0),
      ensures same_flags(*old(self), *final(self)), plain(*final(self)), old(iter)@.len() > 0 ==> one_run(*old(self), *final(self), fallback, schema@, old(iter)@, final(iter)@, behavior)""")
    f = s.fn("accumulate_into_cache", imp).ret("r")
    rows_head(f)
    f.head = f.head.replace("mut iter: Rows", "iter: Rows")
    f.sub(r"iter\.peek\(\)", "iter.peek_attr()", "the attribute of the row at hand", count=0)
    f.annotate([dict(kind="while", invariant="""invariant 0 <= n_ <= all_.len(), iter@ == all_.skip(n_), all_ == iter0@, plain(*self), same_flags(*old(self), *self), fallback matches Some(c) ==> plain(*c),
          forall|i: int| 0 <= i < all_.len() && schema@.contains_key((#[trigger] all_[i]).0) ==> self.forward_cached_attributes@.contains(all_[i].0) || self.reverse_cached_attributes@.contains(all_[i].0),
          is_replacing(behavior) ==> (n_ == 0 || n_ == all_.len()) && forall|i: int| 0 <= i < all_.len() ==> (#[trigger] all_[i]).0 == all_[0].0,
          into_cache(*old(self), *self, fallback, schema@, all_.take(n_), behavior),
        decreases iter@.len()""",
        start="let ghost was_ = *self; let ghost left_ = iter@;",
        end="""proof { let m_ = run_of(left_, left_[0].0); assert(one_run(was_, *self, fallback, schema@, left_, iter@, behavior)); assert(all_.skip(n_).skip(m_) =~= all_.skip(n_ + m_)); assert(all_.take(n_) + left_.take(m_) =~= all_.take(n_ + m_));
          if is_replacing(behavior) { assert(n_ == 0) by { assert(left_.len() > 0); } assert(m_ == all_.len()) by { if m_ < left_.len() { assert(left_[m_] == all_[n_ + m_]); assert(left_[0] == all_[n_]); } } }
          more(*old(self), was_, *self, fallback, schema@, all_.take(n_), left_, iter@, behavior); n_ = n_ + m_; }""")])
    f.prologue("let mut iter = iter; let ghost iter0 = iter; let ghost all_ = iter@; let ghost mut n_: int = 0; proof { assert(all_.skip(0) =~= all_); nothing_yet(*self, fallback, schema@, all_.take(0), behavior); }")
    f.sub(r"Ok\(\(\)\)\s*\}\s*$", "proof { assert(all_.take(n_) =~= all_); } Ok(()) }", "ghost")
    out += u.emit(f, """requires plain(*old(self)), fallback matches Some(c) ==> plain(*c),
        forall|i: int| 0 <= i < iter@.len() && schema@.contains_key((#[trigger] iter@[i]).0) ==> old(self).forward_cached_attributes@.contains(iter@[i].0) || old(self).reverse_cached_attributes@.contains(iter@[i].0),
        is_replacing(behavior) ==> forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).0 == iter@[0].0,
      ensures r is Ok, same_flags(*old(self), *final(self)), plain(*final(self)), into_cache(*old(self), *final(self), fallback, schema@, iter@, behavior)""")

    CLEAR = "".join("final(self).%s@ == Map::<Entid, %s>::empty(), " % (f_, w[0]) for f_, w in what.items())
    GONE = "".join("final(self).%s@ == old(self).%s@.remove(%%s), " % (f_, f_) for f_ in what)
    out += u.emit(s.fn("clear_cache", imp), "ensures same_flags(*old(self), *final(self)), " + CLEAR)
    out += u.emit(s.fn("unregister_all_attributes", imp), "ensures final(self).forward_cached_attributes@ == Set::<Entid>::empty(), final(self).reverse_cached_attributes@ == Set::<Entid>::empty(), " + CLEAR)
    f = s.fn("unregister_attribute", imp)
    into(f)
    out += u.emit(f, "ensures final(self).forward_cached_attributes@ == old(self).forward_cached_attributes@.remove(attribute), final(self).reverse_cached_attributes@ == old(self).reverse_cached_attributes@.remove(attribute), " + GONE.replace("%s", "attribute"))
    f = s.fn("reset_attribute", imp)
    f.sub(r"(self\.\w+\(attribute, None\));", r"let _ = \1;", "an unused result", count=0)
    out += u.emit(f, "requires plain(*old(self)) ensures same_flags(*old(self), *final(self)), plain(*final(self)), reset(*old(self), *final(self), schema@, attribute)")
    out += u.emit(s.fn("holds_forward", imp).ret("r"), "ensures r == holds_f(*self, attribute)")
    out += u.emit(s.fn("holds_reverse", imp).ret("r"), "ensures r == holds_r(*self, attribute)")
    f = s.fn("repopulate_from_aevt", imp).ret("r")
    f.head = re.sub(r"<'a, 's, 'c, 'v>", "", f.head).replace("&'a mut", "&mut").replace("&'s Schema", "&Schema").replace("&'c mut rusqlite::Statement", "&mut Statement")
    f.head = re.sub(r"args: Vec<&'v dyn rusqlite::types::ToSql>", "args: Entid", f.head)
    f.sub(r"let mut aev_factory = AevFactory::new\(\);\s*let rows = statement\.query_map\(&args, \|row\| Ok\(aev_factory\.row_to_aev\(row\)\)\)\?;\s*let aevs = AevRows \{ rows \};", "let aevs = statement.query_rows(args)?;", "reading rows: the interface to SQLite")
    f.sub(r"\.peekable\(\)", "", "rows are peekable")
    f.sub(r"Ok\(\(\)\)\s*\}\s*$", "proof { filled(*old(self), *self, schema@, aevs_, args, statement@, replacing); } Ok(()) }", "ghost")
    f.sub(r"(let aevs = [^;]*;)", r"\1 let ghost aevs_ = aevs@;", "ghost")
    out += u.emit(f, """requires plain(*old(self)), replacing, statement_for(*old(statement), schema@, args),
        schema@.contains_key(args) ==> old(self).forward_cached_attributes@.contains(args) || old(self).reverse_cached_attributes@.contains(args),
        schema@.contains_key(args) && !schema@[args].multival ==> single(args, old(statement)@), schema@.contains_key(args) && uniq(schema@[args]) ==> unique(args, old(statement)@),
        reset(*old(self), *old(self), schema@, args),
      ensures plain(*final(self)), same_flags(*old(self), *final(self)), forall|b: Entid| b != args ==> #[trigger] untouched(*old(self), *final(self), b),
        r is Ok ==> complete(*final(self), schema@, args, old(statement)@)""")
    f = s.fn("repopulate", imp).ret("r")
    f.head = f.head.replace("rusqlite::Connection", "Connection")
    f.sub(r"\s*\.map_or\(false, \|s\| s\.fulltext\)", " {MAPOR}", "map_or as a match")
    f.sub(r"let is_fulltext = (schema\s*\.attribute_for_entid\(attribute\)) \{MAPOR\};", r"let is_fulltext = match \1 { Some(s) => s.fulltext, None => false };", "map_or as a match")
    f.sub(r'"fulltext_datoms"', "Relation::Fulltext", "the name of a table")
    f.sub(r'"datoms"', "Relation::Datoms", "the name of a table")
    f.sub(r'let sql = format!\(\s*"SELECT a, e, v, value_type_tag FROM \{\} WHERE a = \? ORDER BY a ASC, e ASC",\s*table\s*\);', "let sql = table;", "the query: every row of one attribute")
    f.sub(r"let args: Vec<&dyn rusqlite::types::ToSql> = vec!\[&attribute\];", "let args = attribute;", "the parameter of the query")
    f.sub(r"\.prepare\(&sql\)\s*\.context\(DbErrorKind::CacheUpdateFailed\)\?", ".prepare(sql)?", "errors are opaque")
    f.sub(r"let replacing = true;", "let replacing = true; let ghost was_ = *self; proof { reset_twice(*old(self), *self, schema@, attribute); assert(agree(sqlite.facts(schema@), stmt@, attribute)); agree_rules(sqlite.facts(schema@), stmt@, attribute); }", "ghost", minimum=0)
    f.sub(r"self\.repopulate_from_aevt\((.*)\)\s*\}\s*$", r"let ghost says_ = stmt@; let done_ = self.repopulate_from_aevt(\1); proof { if done_ is Ok { agree_complete(*self, schema@, attribute, says_, sqlite.facts(schema@)); } assert forall|b: Entid| b != attribute implies #[trigger] untouched(*old(self), *self, b) by { assert(untouched(*old(self), was_, b)); assert(untouched(was_, *self, b)); } } done_ }", "ghost")
    out += u.emit(f, """requires plain(*old(self)),
        schema@.contains_key(attribute) ==> old(self).forward_cached_attributes@.contains(attribute) || old(self).reverse_cached_attributes@.contains(attribute),
        schema@.contains_key(attribute) && !schema@[attribute].multival ==> single(attribute, sqlite.facts(schema@)), schema@.contains_key(attribute) && uniq(schema@[attribute]) ==> unique(attribute, sqlite.facts(schema@)),
      ensures plain(*final(self)), same_flags(*old(self), *final(self)), forall|b: Entid| b != attribute ==> #[trigger] untouched(*old(self), *final(self), b),
        r is Ok ==> complete(*final(self), schema@, attribute, sqlite.facts(schema@))""")
    f = s.fn("update_with_fallback", imp).ret("r")
    f.head = f.head.replace("<I>", "").replace("retractions: I", "retractions: Rows").replace("assertions: I", "assertions: Rows")
    f.head = re.sub(r"where\s+I: Iterator<Item = \(Entid, Entid, TypedValue\)>,?\s*$", "", f.head)
    f.sub(r"\.peekable\(\)", "", "rows are peekable", count=0)
    f.sub(r"AccumulationBehavior::Remove\)\?;", "AccumulationBehavior::Remove)?; let ghost between = *self;", "ghost")
    out += u.emit(f, """requires plain(*old(self)), fallback matches Some(c) ==> plain(*c), cached_rows(*old(self), schema@, retractions@), cached_rows(*old(self), schema@, assertions@),
      ensures r is Ok, plain(*final(self)), same_flags(*old(self), *final(self)),
        exists|m: AttributeCaches| #![auto] same_flags(*old(self), m) && into_cache(*old(self), m, fallback, schema@, retractions@, AccumulationBehavior::Remove) && into_cache(m, *final(self), fallback, schema@, assertions@, AccumulationBehavior::Add { replacing: false })""")
    for name, kind, keep in (("values_pairs", "multi_vals", "true"), ("value_pairs", "single_vals", "false")):
        f = s.fn(name, imp).ret("r")
        into(f)
        fld = KINDS[what[kind][0]][0]
        f.sub(r"schema\.attribute_for_entid\(attribute\)\.and_then\(\|attr\| \{(.*)\}\)\s*\}\s*$", r"match schema.attribute_for_entid(attribute) { Some(attr) => {\1}, None => None } }", "and_then as a match")
        f.sub(r"self\.%s\.get\(&attribute\)\.map\(\|c\| &c\.(\w+)\)" % kind, r"(match self.%s.get(&attribute) { Some(c) => Some(&c.\1), None => None })" % kind, "map as a match")
        out += u.emit(f, "ensures match r { Some(m) => schema@.contains_key(attribute) && schema@[attribute].multival == %s && self.%s@.contains_key(attribute) && *m == self.%s@[attribute].%s, None => !(schema@.contains_key(attribute) && schema@[attribute].multival == %s && self.%s@.contains_key(attribute)) }" % (keep, kind, kind, fld, keep, kind))
    ca = r"impl CachedAttributes for AttributeCaches"
    f = s.fn("get_values_for_entid", ca).ret("r").sub(r"(self\.values_pairs\(schema, attribute\))\s*\.and_then\(\|c\| c\.get\(&entid\)\)", r"match \1 { Some(c) => c.get(&entid), None => None }", "and_then as a match")
    out += u.emit(f, "ensures says_values(*self, schema@, attribute, entid, r)")
    f = s.fn("get_value_for_entid", ca).ret("r").sub(r"if let Some\(&Some\(ref tv\)\) = (self\s*\.value_pairs\(schema, attribute\))\s*\.and_then\(\|c\| c\.get\(&entid\)\)\s*\{\s*Some\(tv\)\s*\} else \{\s*None\s*\}", r"let found = match \1 { Some(c) => c.get(&entid), None => None }; match found { Some(Some(tv)) => Some(tv), _ => None }", "reference patterns")
    out += u.emit(f, "ensures says_value(*self, schema@, attribute, entid, r)")
    for name, kind, call, spec in (("get_entid_for_value", "unique_reverse", "get_e", "says_entid"), ("get_entids_for_value", "non_unique_reverse", "get_es", "says_entids")):
        f = s.fn(name, ca).ret("r").sub(r"self\.%s\s*\.get\(&attribute\)\s*\.and_then\(\|c\| c\.%s\(value\)\)" % (kind, call), "match self.%s.get(&attribute) { Some(c) => c.%s(value), None => None }" % (kind, call), "and_then as a match")
        out += u.emit(f, "requires self.reverse_cached_attributes@.contains(attribute) ensures %s(*self, attribute, *value, r)" % spec)
    f = s.fn("extend_by_absorbing", r"impl<K, V> ExtendByAbsorbing for BTreeMap<K, V>")
    entries(f)
    f.sub(r"\bself\b", "self_", "an extension method as a function", count=0)
    f.subhead(r"extend_by_absorbing\(&mut self, other: Self\)", "extend_by_absorbing<V>(self_: &mut BTreeMap<Entid, V>, other: BTreeMap<Entid, V>)", "an extension method as a function")
    f.sub(r"slot_\.absorb\(v\)", "absorb_(slot_, v)", "an extension method as a function")
    f.sub(r"for \(k, v\) in other\.into_iter\(\) \{", "let ghost other0 = other@; let all = other.into_entries(); let ghost all0 = all@; for p in all { let k = p.0; let v = p.1; let ghost was = *self_;", "for over a map")
    f.annotate([dict(name="it", invariant="""invariant it.seq() == all0, entries_of(other0, all0), forall|k: Entid| #[trigger] other0.contains_key(k) ==> !old(self_)@.contains_key(k),
        forall|k: Entid| #[trigger] self_@.contains_key(k) <==> old(self_)@.contains_key(k) || exists|i: int| 0 <= i < it.index@ && (#[trigger] all0[i]).0 == k,
        forall|k: Entid| #[trigger] old(self_)@.contains_key(k) ==> self_@[k] == old(self_)@[k],
        forall|i: int| 0 <= i < it.index@ ==> self_@[(#[trigger] all0[i]).0] == all0[i].1,""", start="proof { assert(p == all0[it.index@]); }",
        end="proof { assert(self_@ == was@.insert(p.0, p.1)); assert forall|k: Entid| #[trigger] self_@.contains_key(k) <==> old(self_)@.contains_key(k) || exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] all0[i]).0 == k by { if k == p.0 { assert(all0[it.index@].0 == k); } else if self_@.contains_key(k) { assert(was@.contains_key(k)); } } }",
        after="proof { assert forall|k: Entid| #[trigger] self_@.contains_key(k) <==> old(self_)@.union_prefer_right(other0).contains_key(k) by { if other0.contains_key(k) {} } assert(self_@ =~= old(self_)@.union_prefer_right(other0)); }")])
    ext = u.emit(f, "requires forall|k: Entid| #[trigger] other@.contains_key(k) ==> !old(self_)@.contains_key(k) ensures final(self_)@ == old(self_)@.union_prefer_right(other@)")
    f = s.fn("absorb", r"impl Absorb for AttributeCaches")
    f.sub(r"self\.(\w+)\s*\.extend_by_absorbing\(", r"extend_by_absorbing(&mut self.\1, ", "an extension method as a function", count=0)
    n, after = [0], []
    def loop(m):
        n[0] += 1
        x, y = m.group(2), m.group(3)
        after.append((x, y))
        return "let keys = keys_of_both(&other.%s, &other.%s); let ghost keys0 = keys@; let ghost start_ = *self; for it in kt_: keys invariant kt_.seq() == keys0, plain(*self), same_flags(start_, *self), forall|k: Entid| #[trigger] self.%s@.contains_key(k) <==> start_.%s@.contains_key(k) && !among(keys0, kt_.index@, k), forall|k: Entid| #[trigger] self.%s@.contains_key(k) <==> start_.%s@.contains_key(k) && !among(keys0, kt_.index@, k), forall|k: Entid| #[trigger] self.%s@.contains_key(k) ==> self.%s@[k] == start_.%s@[k], forall|k: Entid| #[trigger] self.%s@.contains_key(k) ==> self.%s@[k] == start_.%s@[k], %s { let %s = &it; proof { assert(it == keys0[kt_.index@]); }" % (
            (x, y, x, x, y, y, x, x, x, y, y, y) + (" ".join("self.%s == start_.%s," % (z, z) for z in what if z not in (x, y)), m.group(1)))
    f.sub(r"for (\w+) in other\s*\.(\w+)\s*\.keys\(\)\s*\.chain\(other\.(\w+)\.keys\(\)\)\s*\{", loop, "for over the keys of two maps", count=0)
    if n[0] != 2:
        raise extract.LostAnchor("absorb: the loops that drop what is replaced")
    def dropped(m):
        x, y = after.pop(0)
        return m.group(1) + "proof { assert forall|k: Entid| #[trigger] among(keys0, kt_.index@ + 1, k) <==> among(keys0, kt_.index@, k) || k == it by { among_step(keys0, kt_.index@, k); } } } proof { assert forall|k: Entid| #[trigger] among(keys0, keys0.len() as int, k) <==> other.%s@.contains_key(k) || other.%s@.contains_key(k) by { among_all(keys0, k); } }" % (x, y)
    f.sub(r"(self\.(?:%s)\.remove\(a\);\s*)\}" % "|".join(what), dropped, "ghost", count=0)
    ab = u.emit(f, "requires plain(*old(self)), plain(other) ensures absorbed(*old(self), other, *final(self))")
    out += ab + "}\n#[verifier::external_body] pub fn absorb_<V>(slot: &mut V, other: V) { unimplemented!() }\n" + ext
    out += top(u, s)
    return out


TOP = """
pub open spec fn kind_of(s: Map<Entid, Attribute>, a: Entid) -> Option<(bool, bool)> { if s.contains_key(a) { Some((s[a].multival, uniq(s[a]))) } else { None } }
// The caches of a store: every cached attribute is held in full.
pub open spec fn full(c: AttributeCaches, s: Map<Entid, Attribute>, d: Facts) -> bool { plain(c) && forall|a: Entid| #[trigger] s.contains_key(a) ==> complete(c, s, a, d) }
// The caches of a transaction in progress lie over those of the store.
pub open spec fn flags_ok(p: InProgressSQLiteAttributeCache) -> bool {
  &&& forall|a: Entid| #[trigger] p.overlay.forward_cached_attributes@.contains(a) ==> !p.unregistered_forward@.contains(a)
  &&& forall|a: Entid| #[trigger] p.overlay.reverse_cached_attributes@.contains(a) ==> !p.unregistered_reverse@.contains(a)
  &&& forall|a: Entid| #[trigger] p.inner.forward_cached_attributes@.contains(a) && !p.unregistered_forward@.contains(a) ==> p.overlay.forward_cached_attributes@.contains(a)
  &&& forall|a: Entid| #[trigger] p.inner.reverse_cached_attributes@.contains(a) && !p.unregistered_reverse@.contains(a) ==> p.overlay.reverse_cached_attributes@.contains(a)
}
pub open spec fn source_f(p: InProgressSQLiteAttributeCache, a: Entid) -> AttributeCaches { if holds_f(p.overlay, a) { p.overlay } else { p.inner } }
pub open spec fn source_r(p: InProgressSQLiteAttributeCache, a: Entid) -> AttributeCaches { if holds_r(p.overlay, a) { p.overlay } else { p.inner } }
pub open spec fn right(p: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, a: Entid, d: Facts) -> bool {
  s.contains_key(a) ==> {
    &&& p.overlay.forward_cached_attributes@.contains(a) ==> (own_f(source_f(p, a), a, s[a].multival) matches Some(m) && mirrors(m, a, d)) && own_f(source_f(p, a), a, !s[a].multival) is None
          && (!holds_f(p.overlay, a) ==> p.inner.forward_cached_attributes@.contains(a) && !p.unregistered_forward@.contains(a) && !p.unregistered_reverse@.contains(a))
    &&& p.overlay.reverse_cached_attributes@.contains(a) ==> (own_r(source_r(p, a), a, uniq(s[a])) matches Some(m) && mirrors(m, a, d)) && own_r(source_r(p, a), a, !uniq(s[a])) is None
          && (!holds_r(p.overlay, a) ==> p.inner.reverse_cached_attributes@.contains(a) && !p.unregistered_forward@.contains(a) && !p.unregistered_reverse@.contains(a))
  }
}
pub open spec fn sound(p: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, d: Facts) -> bool { plain(p.inner) && plain(p.overlay) && flags_ok(p) && forall|a: Entid| #[trigger] s.contains_key(a) ==> right(p, s, a, d) }
pub open spec fn cached_f(p: InProgressSQLiteAttributeCache, a: Entid) -> bool { p.overlay.forward_cached_attributes@.contains(a) }
pub open spec fn cached_r(p: InProgressSQLiteAttributeCache, a: Entid) -> bool { p.overlay.reverse_cached_attributes@.contains(a) }
// The facts are as the schema has them.
pub open spec fn lawful(s: Map<Entid, Attribute>, d: Facts) -> bool { forall|a: Entid| #[trigger] s.contains_key(a) ==> (!s[a].multival ==> single(a, d)) && (uniq(s[a]) ==> unique(a, d)) }
pub proof fn repopulated(p: InProgressSQLiteAttributeCache, q: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, a: Entid, d: Facts)
  requires p.inner == q.inner, same_flags(p.overlay, q.overlay), complete(q.overlay, s, a, d) ensures right(q, s, a, d) {}
pub proof fn elsewhere(p: InProgressSQLiteAttributeCache, q: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, a: Entid, d: Facts)
  requires p.inner == q.inner, right(p, s, a, d), untouched(p.overlay, q.overlay, a), cached_f(q, a) == cached_f(p, a), cached_r(q, a) == cached_r(p, a),
    q.unregistered_forward@.contains(a) ==> p.unregistered_forward@.contains(a), q.unregistered_reverse@.contains(a) ==> p.unregistered_reverse@.contains(a)
  ensures right(q, s, a, d)
{ assert(own_f(q.overlay, a, true) == own_f(p.overlay, a, true) && own_f(q.overlay, a, false) == own_f(p.overlay, a, false)); assert(own_r(q.overlay, a, true) == own_r(p.overlay, a, true) && own_r(q.overlay, a, false) == own_r(p.overlay, a, false)); }
pub proof fn right_elsewhere(p: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, t: Map<Entid, Attribute>, a: Entid, d: Facts, d2: Facts)
  requires right(p, s, a, d), kind_of(s, a) == kind_of(t, a), agree(d, d2, a) ensures right(p, t, a, d2)
{ if t.contains_key(a) {
    if cached_f(p, a) { same_facts(own_f(source_f(p, a), a, s[a].multival).unwrap(), a, d, d2); }
    if cached_r(p, a) { same_facts(own_r(source_r(p, a), a, uniq(s[a])).unwrap(), a, d, d2); } } }
pub open spec fn after_rows(d: Facts, r: Seq<Aev>, n: Seq<Aev>) -> Facts { plus(minus(d, r), n) }
pub proof fn updated(p: InProgressSQLiteAttributeCache, m: AttributeCaches, q: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, d: Facts, r: Seq<Aev>, n: Seq<Aev>)
  requires sound(p, s, d), p.inner == q.inner, p.unregistered_forward == q.unregistered_forward, p.unregistered_reverse == q.unregistered_reverse, plain(q.overlay), same_flags(p.overlay, m), same_flags(p.overlay, q.overlay),
    into_cache(p.overlay, m, Some(&p.inner), s, r, AccumulationBehavior::Remove), into_cache(m, q.overlay, Some(&p.inner), s, n, AccumulationBehavior::Add { replacing: false }),
    forall|i: int| 0 <= i < r.len() ==> d(#[trigger] r[i]), lawful(s, d), lawful(s, after_rows(d, r, n))
  ensures sound(q, s, after_rows(d, r, n))
{
  let d2 = after_rows(d, r, n); let fb = Some(&p.inner);
  assert forall|a: Entid| #[trigger] s.contains_key(a) implies right(q, s, a, d2) by {
    assert(right(p, s, a, d));
    if cached_f(p, a) {
      let k = s[a].multival; let x = eff_f(p.overlay, fb, a, k);
      assert(own_f(source_f(p, a), a, k) == Some(x));
      fold_removes(x, a, d, r); fold_kind(x, r, a, false); fold_kind(fold(x, r, a, false), n, a, true); fold_adds(fold(x, r, a, false), a, minus(d, r), n);
      assert(eff_f(m, fb, a, k) == fold(x, r, a, false));
      assert(eff_f(q.overlay, fb, a, k) == fold(fold(x, r, a, false), n, a, true));
      assert(holds_f(p.overlay, a) ==> holds_f(m, a) && holds_f(q.overlay, a)) by {
        assert(m.single_vals@.contains_key(a) <==> p.overlay.single_vals@.contains_key(a) || m.single_vals@.contains_key(a) && !k);
        assert(m.multi_vals@.contains_key(a) <==> p.overlay.multi_vals@.contains_key(a) || m.multi_vals@.contains_key(a) && k);
        assert(q.overlay.single_vals@.contains_key(a) <==> m.single_vals@.contains_key(a) || q.overlay.single_vals@.contains_key(a) && !k);
        assert(q.overlay.multi_vals@.contains_key(a) <==> m.multi_vals@.contains_key(a) || q.overlay.multi_vals@.contains_key(a) && k);
      }
      assert(own_f(q.overlay, a, !k) is None) by { assert(own_f(p.overlay, a, !k) is None);
        assert(m.single_vals@.contains_key(a) ==> p.overlay.single_vals@.contains_key(a) || !k); assert(m.multi_vals@.contains_key(a) ==> p.overlay.multi_vals@.contains_key(a) || k);
        assert(q.overlay.single_vals@.contains_key(a) ==> m.single_vals@.contains_key(a) || !k); assert(q.overlay.multi_vals@.contains_key(a) ==> m.multi_vals@.contains_key(a) || k); }
    }
    if cached_r(p, a) {
      let k = uniq(s[a]); let x = eff_r(p.overlay, fb, a, k);
      assert(own_r(source_r(p, a), a, k) == Some(x));
      fold_removes(x, a, d, r); fold_kind(x, r, a, false); fold_kind(fold(x, r, a, false), n, a, true); fold_adds(fold(x, r, a, false), a, minus(d, r), n);
      assert(eff_r(m, fb, a, k) == fold(x, r, a, false));
      assert(eff_r(q.overlay, fb, a, k) == fold(fold(x, r, a, false), n, a, true));
      assert(holds_r(p.overlay, a) ==> holds_r(m, a) && holds_r(q.overlay, a)) by {
        assert(m.unique_reverse@.contains_key(a) <==> p.overlay.unique_reverse@.contains_key(a) || m.unique_reverse@.contains_key(a) && k);
        assert(m.non_unique_reverse@.contains_key(a) <==> p.overlay.non_unique_reverse@.contains_key(a) || m.non_unique_reverse@.contains_key(a) && !k);
        assert(q.overlay.unique_reverse@.contains_key(a) <==> m.unique_reverse@.contains_key(a) || q.overlay.unique_reverse@.contains_key(a) && k);
        assert(q.overlay.non_unique_reverse@.contains_key(a) <==> m.non_unique_reverse@.contains_key(a) || q.overlay.non_unique_reverse@.contains_key(a) && !k);
      }
      assert(own_r(q.overlay, a, !k) is None) by { assert(own_r(p.overlay, a, !k) is None);
        assert(m.unique_reverse@.contains_key(a) ==> p.overlay.unique_reverse@.contains_key(a) || k); assert(m.non_unique_reverse@.contains_key(a) ==> p.overlay.non_unique_reverse@.contains_key(a) || !k);
        assert(q.overlay.unique_reverse@.contains_key(a) ==> m.unique_reverse@.contains_key(a) || k); assert(q.overlay.non_unique_reverse@.contains_key(a) ==> m.non_unique_reverse@.contains_key(a) || !k); }
    }
  }
}
pub proof fn committed(p: InProgressSQLiteAttributeCache, c: AttributeCaches, d: AttributeCaches, s: Map<Entid, Attribute>, f: Facts)
  requires sound(p, s, f), absorbed(c, p.overlay, d),
    forall|a: Entid| #[trigger] c.forward_cached_attributes@.contains(a) <==> p.inner.forward_cached_attributes@.contains(a) && !p.unregistered_forward@.contains(a) && !p.unregistered_reverse@.contains(a),
    forall|a: Entid| #[trigger] c.reverse_cached_attributes@.contains(a) <==> p.inner.reverse_cached_attributes@.contains(a) && !p.unregistered_forward@.contains(a) && !p.unregistered_reverse@.contains(a),
    forall|a: Entid| !p.unregistered_forward@.contains(a) && !p.unregistered_reverse@.contains(a) ==> #[trigger] untouched(p.inner, c, a)
  ensures full(d, s, f), d.forward_cached_attributes@ == p.overlay.forward_cached_attributes@, d.reverse_cached_attributes@ == p.overlay.reverse_cached_attributes@
{
  assert(d.forward_cached_attributes@ =~= p.overlay.forward_cached_attributes@);
  assert(d.reverse_cached_attributes@ =~= p.overlay.reverse_cached_attributes@);
  assert forall|a: Entid| #[trigger] s.contains_key(a) implies complete(d, s, a, f) by {
    assert(right(p, s, a, f));
    if cached_f(p, a) { assert(!holds_f(p.overlay, a) ==> untouched(p.inner, c, a)); let k = s[a].multival; assert(own_f(d, a, k) == if holds_f(p.overlay, a) { own_f(p.overlay, a, k) } else { own_f(c, a, k) }); assert(own_f(d, a, !k) == if holds_f(p.overlay, a) { own_f(p.overlay, a, !k) } else { own_f(c, a, !k) });
      if !holds_f(p.overlay, a) { assert(own_f(c, a, k) == own_f(p.inner, a, k)); assert(own_f(c, a, !k) == own_f(p.inner, a, !k)); } }
    if cached_r(p, a) { assert(!holds_r(p.overlay, a) ==> untouched(p.inner, c, a)); let k = uniq(s[a]); assert(own_r(d, a, k) == if holds_r(p.overlay, a) { own_r(p.overlay, a, k) } else { own_r(c, a, k) }); assert(own_r(d, a, !k) == if holds_r(p.overlay, a) { own_r(p.overlay, a, !k) } else { own_r(c, a, !k) });
      if !holds_r(p.overlay, a) { assert(own_r(c, a, k) == own_r(p.inner, a, k)); assert(own_r(c, a, !k) == own_r(p.inner, a, !k)); } }
  }
}
pub open spec fn source_ok_f(p: InProgressSQLiteAttributeCache, a: Entid) -> bool { true }
pub open spec fn source_ok_r(p: InProgressSQLiteAttributeCache, a: Entid) -> bool { source_r(p, a).reverse_cached_attributes@.contains(a) }
// What a lookup answers is what the facts say.
pub proof fn answers(p: InProgressSQLiteAttributeCache, s: Map<Entid, Attribute>, a: Entid, e: Entid, v: TypedValue, d: Facts, rs: Option<&Vec<TypedValue>>, r1: Option<&TypedValue>, re: Option<Entid>, res: Option<&BTreeSet<Entid>>)
  requires sound(p, s, d), s.contains_key(a), says_values(source_f(p, a), s, a, e, rs), says_value(source_f(p, a), s, a, e, r1), says_entid(source_r(p, a), a, v, re), says_entids(source_r(p, a), a, v, res)
  ensures cached_f(p, a) && s[a].multival ==> (d((a, e, v)) <==> (rs matches Some(vs) && vs@.contains(v))), cached_f(p, a) && !s[a].multival ==> (d((a, e, v)) <==> (r1 matches Some(w) && *w == v)),
    cached_r(p, a) && uniq(s[a]) ==> (forall|x: Entid| #[trigger] d((a, x, v)) <==> re == Some(x)), cached_r(p, a) && !uniq(s[a]) ==> (forall|x: Entid| #[trigger] d((a, x, v)) <==> (res matches Some(xs) && xs@.contains(x))),
    cached_r(p, a) ==> source_ok_r(p, a)
{ assert(right(p, s, a, d)); }
#[verifier::external_body] pub fn any_outside(x: &BTreeSet<Entid>, y: &BTreeSet<Entid>) -> (r: bool) ensures r == exists|a: Entid| x@.contains(a) && !#[trigger] y@.contains(a) { unimplemented!() }
#[verifier::external_body] pub fn unite(x: &BTreeSet<Entid>, y: &BTreeSet<Entid>) -> (r: Vec<Entid>) ensures forall|a: Entid| #[trigger] r@.contains(a) <==> x@.contains(a) || y@.contains(a) { unimplemented!() }
"""


def top(u, s):
    out = TOP
    u.assume("an Arc is taken for what it points to; Arc::make_mut gives a value of its own")
    IP, SQ = r"impl InProgressSQLiteAttributeCache", r"impl SQLiteAttributeCache"
    def st(n):
        t = u.struct(s, n)
        return t.replace("Arc<AttributeCaches>", "AttributeCaches")
    s.derives("SQLiteAttributeCache", ["Clone", "Default"])
    out += st("SQLiteAttributeCache") + st("InProgressSQLiteAttributeCache")
    out += "impl AttributeCaches { #[verifier::external_body] pub fn default() -> (r: Self) ensures " + ", ".join("r.%s@ == Map::<Entid, %s>::empty()" % (f_, w) for f_, w in (("single_vals", "SingleValAttributeCache"), ("multi_vals", "MultiValAttributeCache"), ("unique_reverse", "UniqueReverseAttributeCache"), ("non_unique_reverse", "NonUniqueReverseAttributeCache"))) + ", r.forward_cached_attributes@ == Set::<Entid>::empty(), r.reverse_cached_attributes@ == Set::<Entid>::empty() { unimplemented!() } }\n"
    REG = "requires full(old(self).inner, schema@, sqlite.facts(schema@)), lawful(schema@, sqlite.facts(schema@))%s\n ensures plain(final(self).inner), r is Ok ==> full(final(self).inner, schema@, sqlite.facts(schema@)), %s"
    def reg(f, owner):
        f.head = f.head.replace("rusqlite::Connection", "Connection").replace("where", "")
        into(f)
        f.head = re.sub(r"U: Into<Entid>,?\s*$", "", f.head.rstrip())
        f.ret("r")
        f.sub(r"let _ = schema\s*\.attribute_for_entid\(a\)\s*\.ok_or_else\(\|\| DbErrorKind::UnknownAttribute\(a\)\)\?;", "if schema.attribute_for_entid(a).is_none() { return Err(Error::new()); }", "ok_or_else and ? as a test", minimum=0)
        return f
    # ---- the store's cache ----
    out += "impl SQLiteAttributeCache {\n"
    mm = s.fn("make_mut", SQ)
    if not re.match(r"\{\s*Arc::make_mut\(&mut self\.inner\)\s*\}\s*$", extract.plain(mm.body)):
        raise extract.LostAnchor("make_mut")
    f = s.fn("make_override", SQ).ret("r")
    out += u.emit(f, "requires plain(self.inner) ensures r.forward_cached_attributes@ == self.inner.forward_cached_attributes@, r.reverse_cached_attributes@ == self.inner.reverse_cached_attributes@, plain(r), forall|a: Entid| !#[trigger] holds_f(r, a) && !holds_r(r, a)")
    INS = dict(register_forward=("forward_cached_attributes", "reverse_cached_attributes"), register_reverse=("reverse_cached_attributes", "forward_cached_attributes"))
    for name in ("register_forward", "register_reverse", "register"):
        f = reg(s.fn(name, SQ), "SQLiteAttributeCache")
        f.sub(r"let caches = self\.make_mut\(\);", "let caches = &mut self.inner;", "an Arc as its contents")
        f.sub(r"caches\.repopulate\(schema, sqlite, a\)\s*\}\s*$", "let ghost was_ = *caches; let done_ = caches.repopulate(schema, sqlite, a); proof { if done_ is Ok { assert forall|b: Entid| #[trigger] schema@.contains_key(b) implies complete(*caches, schema@, b, sqlite.facts(schema@)) by { if b != a { assert(untouched(was_, *caches, b)); assert(untouched(old(self).inner, *caches, b)); assert(complete(old(self).inner, schema@, b, sqlite.facts(schema@))); still_complete(old(self).inner, *caches, schema@, b, sqlite.facts(schema@)); } } } } done_ }", "ghost")
        both = name == "register"
        x = "r is Ok ==> " + " && ".join("final(self).inner.%s@ == old(self).inner.%s@%s" % (g, g, ".insert(attribute)" if both or g == INS[name][0] else "") for g in ("forward_cached_attributes", "reverse_cached_attributes"))
        out += u.emit(f, REG % ("", x))
    for name, spec in (("unregister", "forall|a: Entid| a != attribute ==> #[trigger] untouched(old(self).inner, final(self).inner, a), final(self).inner.forward_cached_attributes@ == old(self).inner.forward_cached_attributes@.remove(attribute), final(self).inner.reverse_cached_attributes@ == old(self).inner.reverse_cached_attributes@.remove(attribute)"),
                       ("unregister_all", "final(self).inner.forward_cached_attributes@ == Set::<Entid>::empty(), final(self).inner.reverse_cached_attributes@ == Set::<Entid>::empty()")):
        f = s.fn(name, SQ)
        into(f)
        f.sub(r"self\.make_mut\(\)", "self.inner", "an Arc as its contents")
        out += u.emit(f, "ensures " + spec)
    CA = r"impl CachedAttributes for SQLiteAttributeCache"
    LOOK = (("get_values_for_entid", "says_values(%s, schema@, attribute, entid, r)", "f"), ("get_value_for_entid", "says_value(%s, schema@, attribute, entid, r)", "f"),
            ("get_entid_for_value", "says_entid(%s, attribute, *value, r)", "r"), ("get_entids_for_value", "says_entids(%s, attribute, *value, r)", "r"))
    for name, spec, d in LOOK:
        out += u.emit(s.fn(name, CA).ret("r"), ("requires self.inner.reverse_cached_attributes@.contains(attribute) " if d == "r" else "") + "ensures " + spec % "self.inner")
    for name, g in (("is_attribute_cached_forward", "forward_cached_attributes"), ("is_attribute_cached_reverse", "reverse_cached_attributes")):
        out += u.emit(s.fn(name, CA).ret("r"), "ensures r == self.inner.%s@.contains(attribute)" % g)
    out += u.emit(s.fn("has_cached_attributes", CA).ret("r"), "ensures r == !(self.inner.forward_cached_attributes@ =~= Set::<Entid>::empty() && self.inner.reverse_cached_attributes@ =~= Set::<Entid>::empty())")
    out += "}\n"
    out += "pub proof fn still_complete(c: AttributeCaches, d: AttributeCaches, s: Map<Entid, Attribute>, b: Entid, f: Facts) requires complete(c, s, b, f), untouched(c, d, b), s.contains_key(b), c.forward_cached_attributes@.contains(b) == d.forward_cached_attributes@.contains(b), c.reverse_cached_attributes@.contains(b) == d.reverse_cached_attributes@.contains(b) ensures complete(d, s, b, f) { assert(own_f(d, b, true) == own_f(c, b, true) && own_f(d, b, false) == own_f(c, b, false) && own_r(d, b, true) == own_r(c, b, true) && own_r(d, b, false) == own_r(c, b, false)); }\n"
    # ---- the cache of a transaction in progress ----
    out += "impl InProgressSQLiteAttributeCache {\n"
    f = s.fn("from_cache", IP).ret("r")
    f.sub(r"Default::default\(\)", "BTreeSet::new()", "the default of a set", count=0)
    f.prologue("proof { assert forall|s: Map<Entid, Attribute>, d: Facts, a: Entid| #[trigger] full(inner.inner, s, d) && s.contains_key(a) implies #[trigger] complete(inner.inner, s, a, d) by {} }")
    out += u.emit(f, "requires plain(inner.inner) ensures r.inner == inner.inner, forall|s: Map<Entid, Attribute>, d: Facts| #[trigger] full(inner.inner, s, d) ==> sound(r, s, d)")
    for name, src, h in (("forward", "source_f", "holds_f"), ("reverse", "source_r", "holds_r")):
        out += u.emit(s.fn(name, IP).ret("r"), "ensures *r == %s(*self, attribute)" % src)
    CI = r"impl CachedAttributes for InProgressSQLiteAttributeCache"
    for name, g, c in (("is_attribute_cached_forward", "forward", "cached_f"), ("is_attribute_cached_reverse", "reverse", "cached_r")):
        out += u.emit(s.fn(name, CI).ret("r"), "requires flags_ok(*self) ensures r == %s(*self, attribute)" % c)
    f = s.fn("has_cached_attributes", CI).ret("r")
    f.sub(r"self\s*\.inner\s*\.(\w+)\s*\.iter\(\)\s*\.any\(\|a\| !self\.(\w+)\.contains\(a\)\)", r"any_outside(&self.inner.\1, &self.\2)", "any over a set", count=0)
    out += u.emit(f, "requires flags_ok(*self) ensures !r ==> forall|a: Entid| !#[trigger] cached_f(*self, a) && !cached_r(*self, a)")
    for name, spec, d in LOOK:
        c = "cached_" + d
        out += u.emit(s.fn(name, CI).ret("r"), "requires flags_ok(*self), %s(*self, attribute), %s(*self, attribute)%s ensures %s" % (c, "source_ok_" + d, "" if d == "r" else "", spec % ("source_%s(*self, attribute)" % d)))
    for name in ("register_forward", "register_reverse", "register"):
        f = reg(s.fn(name, IP), "InProgressSQLiteAttributeCache")
        f.sub(r"self\.overlay\.repopulate\(schema, sqlite, a\)\s*\}\s*$", "let ghost was_ = *self; let done_ = self.overlay.repopulate(schema, sqlite, a); proof { if done_ is Ok { let d = sqlite.facts(schema@); assert forall|b: Entid| #[trigger] schema@.contains_key(b) implies right(*self, schema@, b, d) by { if b != a { assert(right(*old(self), schema@, b, d)); assert(untouched(was_.overlay, self.overlay, b)); assert(untouched(old(self).overlay, self.overlay, b)); elsewhere(*old(self), *self, schema@, b, d); } else { repopulated(was_, *self, schema@, b, d); } } } } done_ }", "ghost")
        x = {"register_forward": "cached_f(*final(self), attribute)", "register_reverse": "cached_r(*final(self), attribute)", "register": "cached_f(*final(self), attribute) && cached_r(*final(self), attribute)"}[name]
        out += u.emit(f, "requires sound(*old(self), schema@, sqlite.facts(schema@)), lawful(schema@, sqlite.facts(schema@)) ensures r is Ok ==> sound(*final(self), schema@, sqlite.facts(schema@)) && %s" % x)
    f = s.fn("unregister", IP)
    into(f)
    f.body = f.body.rstrip()[:-1] + "; proof { assert forall|s: Map<Entid, Attribute>, d: Facts, b: Entid| #[trigger] sound(*old(self), s, d) && s.contains_key(b) implies #[trigger] right(*self, s, b, d) by { assert(right(*old(self), s, b, d)); if b != a { assert(untouched(old(self).overlay, self.overlay, b)); elsewhere(*old(self), *self, s, b, d); } } } }"
    out += u.emit(f, "ensures forall|s: Map<Entid, Attribute>, d: Facts| #[trigger] sound(*old(self), s, d) ==> sound(*final(self), s, d), !cached_f(*final(self), attribute), !cached_r(*final(self), attribute)")
    f = s.fn("unregister_all", IP)
    f.sub(r"\.extend\(self\.inner\.(\w+)\.iter\(\)\.cloned\(\)\)", r".extend_from(&self.inner.\1)", "extend", count=0)
    out += u.emit(f, "ensures forall|s: Map<Entid, Attribute>, d: Facts| #[trigger] sound(*old(self), s, d) ==> sound(*final(self), s, d), forall|a: Entid| !#[trigger] cached_f(*final(self), a) && !cached_r(*final(self), a)")
    f = s.fn("update", r"impl UpdateableCache<DbError> for InProgressSQLiteAttributeCache").ret("r")
    f.head = f.head.replace("<I>", "").replace("retractions: I", "retractions: Rows").replace("assertions: I", "assertions: Rows")
    f.head = re.sub(r"where\s+I: Iterator<Item = \(Entid, Entid, TypedValue\)>,?\s*$", "", f.head)
    f.head = f.head.replace("assertions: Rows", "assertions: Rows, Ghost(d): Ghost<Facts>")
    f.sub(r"self\.overlay\s*\.update_with_fallback\((.*)\)\s*\}\s*$", r"let done_ = self.overlay.update_with_fallback(\1); proof { let m = choose|m: AttributeCaches| #![auto] same_flags(old(self).overlay, m) && into_cache(old(self).overlay, m, Some(&old(self).inner), schema@, retractions@, AccumulationBehavior::Remove) && into_cache(m, self.overlay, Some(&old(self).inner), schema@, assertions@, AccumulationBehavior::Add { replacing: false }); updated(*old(self), m, *self, schema@, d, retractions@, assertions@); } done_ }", "ghost")
    out += u.emit(f, """requires sound(*old(self), schema@, d), cached_rows(old(self).overlay, schema@, retractions@), cached_rows(old(self).overlay, schema@, assertions@),
        forall|i: int| 0 <= i < retractions@.len() ==> d(#[trigger] retractions@[i]), lawful(schema@, d), lawful(schema@, after_rows(d, retractions@, assertions@))
      ensures r is Ok, sound(*final(self), schema@, after_rows(d, retractions@, assertions@)), same_flags(old(self).overlay, final(self).overlay)""")
    f = s.fn("schema_changed", IP).ret("r")
    f.head = f.head.replace("rusqlite::Connection", "Connection")
    k = re.search(r"let kind = \|schema: &Schema, a: Entid\| (\{.*?\n        \});", f.body, re.S)
    if not k:
        raise extract.LostAnchor("schema_changed: the kind of an attribute")
    kb = k.group(1)
    km = re.match(r"\{\s*schema\s*\.attribute_for_entid\(a\)\s*\.map\(\|(\w+)\| (.*)\)\s*\}$", kb, re.S)
    if not km:
        raise extract.LostAnchor("schema_changed: the kind of an attribute")
    f.body = f.body.replace(k.group(0), "")
    f.sub(r"let cached: BTreeSet<Entid> = self\s*\.overlay\s*\.forward_cached_attributes\s*\.union\(&self\.overlay\.reverse_cached_attributes\)\s*\.cloned\(\)\s*\.collect\(\);", "let cached = unite(&self.overlay.forward_cached_attributes, &self.overlay.reverse_cached_attributes); let ghost c0 = cached@;", "the union of two sets, in some order")
    f.sub(r"kind\((\w+), a\) (!=|==) kind\((\w+), a\)", lambda m: ("" if m.group(2) == "!=" else "!") + "differ(kind(%s, a), kind(%s, a))" % (m.group(1), m.group(3)), "a comparison of options")
    f.sub(r"Ok\(\(\)\)\s*\}\s*$", "proof { let d = sqlite.facts(before@); let d2 = sqlite.facts(after@); assert forall|b: Entid| #[trigger] after@.contains_key(b) implies right(*self, after@, b, d2) by { among_all(c0, b); if !(kind_of(before@, b) != kind_of(after@, b) && c0.contains(b)) { if kind_of(before@, b) == kind_of(after@, b) { assert(before@.contains_key(b)); right_elsewhere(*self, before@, after@, b, d, d2); } } } } Ok(()) }", "ghost")
    f.annotate([dict(name="it", invariant="""invariant it.seq() == c0, plain(self.inner), plain(self.overlay), flags_ok(*self), self.inner == old(self).inner, self.unregistered_forward == old(self).unregistered_forward, self.unregistered_reverse == old(self).unregistered_reverse, same_flags(old(self).overlay, self.overlay), lawful(after@, sqlite.facts(after@)), lawful(before@, sqlite.facts(before@)),
        forall|b: Entid| #[trigger] c0.contains(b) <==> cached_f(*self, b) || cached_r(*self, b),
        forall|b: Entid| #[trigger] after@.contains_key(b) && kind_of(before@, b) == kind_of(after@, b) ==> right(*self, before@, b, sqlite.facts(before@)),
        forall|b: Entid| #[trigger] after@.contains_key(b) && kind_of(before@, b) != kind_of(after@, b) && among(c0, it.index@, b) ==> right(*self, after@, b, sqlite.facts(after@)),""",
        start="let ghost was_ = *self; proof { assert(a == c0[it.index@]); assert(c0.contains(a)); }",
        end="""proof { assert forall|b: Entid| #[trigger] after@.contains_key(b) && kind_of(before@, b) == kind_of(after@, b) implies right(*self, before@, b, sqlite.facts(before@)) by { if a != b || *self == was_ { assert(*self == was_ || untouched(was_.overlay, self.overlay, b)); if *self != was_ { elsewhere(was_, *self, before@, b, sqlite.facts(before@)); } } }
          assert forall|b: Entid| #[trigger] after@.contains_key(b) && kind_of(before@, b) != kind_of(after@, b) && among(c0, it.index@ + 1, b) implies right(*self, after@, b, sqlite.facts(after@)) by { among_step(c0, it.index@, b); if b == a { repopulated(was_, *self, after@, b, sqlite.facts(after@)); } else { assert(*self == was_ || untouched(was_.overlay, self.overlay, b)); if *self != was_ { elsewhere(was_, *self, after@, b, sqlite.facts(after@)); } } } }""")])
    out += u.emit(f, """requires sound(*old(self), before@, sqlite.facts(before@)), lawful(before@, sqlite.facts(before@)), lawful(after@, sqlite.facts(after@)),
        forall|a: Entid| before@.contains_key(a) && #[trigger] after@.contains_key(a) ==> agree(sqlite.facts(before@), sqlite.facts(after@), a)
      ensures r is Ok ==> sound(*final(self), after@, sqlite.facts(after@))""")
    f = s.fn("commit_to", IP)
    f.sub(r"destination\.inner = Arc::new\(self\.overlay\);\s*return;", "destination.inner = self.overlay; proof { assert forall|a: Entid| #[trigger] s.contains_key(a) implies complete(destination.inner, s, a, d) by { assert(right(self, s, a, d)); } } return;", "an Arc as its contents")
    f.sub(r"::std::mem::drop\(self\.inner\);", "", "dropping")
    f.sub(r"let dest = Arc::make_mut\(&mut destination\.inner\);", "let dest = &mut destination.inner;", "an Arc as its contents")
    f.sub(r"for unregistered in self\.unregistered_forward\.union\(&self\.unregistered_reverse\) \{", "let gone = unite(&self.unregistered_forward, &self.unregistered_reverse); let ghost gone0 = gone@; for un in gone { let unregistered = &un;", "the union of two sets, in some order")
    f.sub(r"dest\.absorb\(self\.overlay\);", "let ghost c = *dest; dest.absorb(self.overlay); proof { committed(self, c, *dest, s, d); }", "ghost")
    f.annotate([dict(name="it", invariant="""invariant it.seq() == gone0, plain(*dest),
       forall|a: Entid| #[trigger] dest.forward_cached_attributes@.contains(a) <==> self.inner.forward_cached_attributes@.contains(a) && !among(gone0, it.index@, a),
       forall|a: Entid| #[trigger] dest.reverse_cached_attributes@.contains(a) <==> self.inner.reverse_cached_attributes@.contains(a) && !among(gone0, it.index@, a),
       forall|a: Entid| !among(gone0, it.index@, a) ==> #[trigger] untouched(self.inner, *dest, a),""",
       start="let ghost was_ = *dest; proof { assert(un == gone0[it.index@]); }",
       end="proof { assert forall|a: Entid| #[trigger] among(gone0, it.index@ + 1, a) <==> among(gone0, it.index@, a) || a == un by { among_step(gone0, it.index@, a); } assert forall|a: Entid| !among(gone0, it.index@ + 1, a) implies #[trigger] untouched(self.inner, *dest, a) by { assert(untouched(self.inner, was_, a)); assert(untouched(was_, *dest, a)); } }",
       after="proof { assert forall|a: Entid| #[trigger] among(gone0, gone0.len() as int, a) <==> self.unregistered_forward@.contains(a) || self.unregistered_reverse@.contains(a) by { among_all(gone0, a); } }")])
    f.head = f.head.replace("destination: &mut SQLiteAttributeCache", "destination: &mut SQLiteAttributeCache, Ghost(s): Ghost<Map<Entid, Attribute>>, Ghost(d): Ghost<Facts>")
    out += u.emit(f, "requires sound(self, s, d), old(destination).inner == self.inner ensures full(final(destination).inner, s, d), final(destination).inner.forward_cached_attributes@ == self.overlay.forward_cached_attributes@, final(destination).inner.reverse_cached_attributes@ == self.overlay.reverse_cached_attributes@")
    out += "}\n"
    out += watcher(u, s)
    out += "#[verifier::external_body] pub fn differ(x: Option<(bool, bool)>, y: Option<(bool, bool)>) -> (r: bool) ensures r == (x != y) { unimplemented!() }\n"
    out += "pub fn kind(schema: &Schema, a: Entid) -> (r: Option<(bool, bool)>) ensures r == kind_of(schema@, a) { match schema.attribute_for_entid(a) { Some(%s) => Some(%s), None => None } }\n" % (km.group(1), km.group(2))
    return out


WATCH = """
pub enum Either<L, R> { Left(L), Right(R) }
pub type Seen = BTreeMap<Entid, Either<(), Vec<(Entid, TypedValue)>>>;
pub open spec fn seen(m: Map<Entid, Either<(), Vec<(Entid, TypedValue)>>>, x: Aev) -> bool { m.contains_key(x.0) && (m[x.0] matches Either::Right(vs) && vs@.contains((x.1, x.2))) }
pub open spec fn cached(p: InProgressSQLiteAttributeCache, a: Entid) -> bool { cached_f(p, a) || cached_r(p, a) }
// What is collected is collected for cached attributes.
pub open spec fn collecting(w: InProgressCacheTransactWatcher) -> bool {
  &&& flags_ok(w.cache)
  &&& !w.active ==> forall|a: Entid| !#[trigger] cached(w.cache, a)
  &&& forall|a: Entid| #[trigger] w.collected_assertions@.contains_key(a) ==> (w.collected_assertions@[a] is Right <==> cached(w.cache, a))
  &&& forall|a: Entid| #[trigger] w.collected_retractions@.contains_key(a) ==> (w.collected_retractions@[a] is Right <==> cached(w.cache, a))
}
pub open spec fn one_more(m: Map<Entid, Either<(), Vec<(Entid, TypedValue)>>>, n: Map<Entid, Either<(), Vec<(Entid, TypedValue)>>>, x: Aev) -> bool { forall|y: Aev| #[trigger] seen(n, y) <==> seen(m, y) || y == x }
#[verifier::external_body] pub fn flat(m: Seen) -> (r: Rows) ensures forall|x: Aev| #[trigger] r@.contains(x) <==> seen(m@, x) { unimplemented!() }
#[verifier::external_body] pub fn take(m: &mut Seen) -> (r: Seen) ensures r == *old(m), final(m)@ == Map::<Entid, Either<(), Vec<(Entid, TypedValue)>>>::empty() { unimplemented!() }
#[verifier::external_body] pub fn one_row(e: Entid, v: TypedValue) -> (r: Vec<(Entid, TypedValue)>) ensures r@ == seq![(e, v)] { unimplemented!() }
pub proof fn pushed_pair(s: Seq<(Entid, TypedValue)>, x: (Entid, TypedValue), y: (Entid, TypedValue)) ensures s.push(x).contains(y) <==> s.contains(y) || y == x
{ if s.contains(y) { let i = s.index_of(y); assert(s.push(x)[i] == y); } if y == x { assert(s.push(x)[s.len() as int] == y); } if s.push(x).contains(y) && y != x { let i = s.push(x).index_of(y); assert(s[i] == y); } }
"""


def watcher(u, s):
    W = r"impl<'a> InProgressCacheTransactWatcher<'a>"
    TW = r"impl<'a> TransactWatcher for InProgressCacheTransactWatcher<'a>"
    out = WATCH
    t = u.struct(s, "InProgressCacheTransactWatcher").replace("<'a>", "").replace("&'a mut InProgressSQLiteAttributeCache", "InProgressSQLiteAttributeCache")
    u.assume("the watcher's reference to the cache is taken for the cache itself")
    out += t + "impl InProgressCacheTransactWatcher {\n"
    f = s.fn("new", W).ret("r")
    f.head = f.head.replace("&'a mut InProgressSQLiteAttributeCache", "InProgressSQLiteAttributeCache").replace("<'a>", "")
    f.sub(r"Default::default\(\)", "BTreeMap::new()", "the default of a map", count=0)
    out += u.emit(f, "requires flags_ok(cache) ensures collecting(r), r.cache == cache, forall|x: Aev| !#[trigger] seen(r.collected_assertions@, x) && !seen(r.collected_retractions@, x)")
    f = s.fn("datom", TW)
    entries(f)
    f.sub(r"vec!\[\(e, v\.clone\(\)\)\]", "one_row(e, v.clone())", "vec!")
    f.sub(r"match slot_ \{\s*Either::Left\(_\) => \{\s*\}\s*Either::Right\(ref mut (\w+)\) =>", r"match slot_ { Either::Left(_) => {} Either::Right(\1) =>", "reference patterns")
    f.sub(r"if op == OpType::Add", "if matches!(op, OpType::Add)", "a comparison of plain enums", minimum=0)
    f.body = f.body.rstrip()[:-1] + """ proof {
       let m = if op is Add { old(self).collected_assertions@ } else { old(self).collected_retractions@ }; let n = if op is Add { self.collected_assertions@ } else { self.collected_retractions@ };
       if op is Add { assert(self.collected_retractions == old(self).collected_retractions); } else { assert(self.collected_assertions == old(self).collected_assertions); }
       assert(n =~= m.insert(a, n[a]));
       assert forall|y: Aev| #[trigger] seen(n, y) <==> seen(m, y) || y == (a, e, *v) && cached(self.cache, a) by { if y.0 == a { if m.contains_key(a) { if m[a] is Right { pushed_pair(m[a]->Right_0@, (e, *v), (y.1, y.2)); } } else if n[a] is Right { let q = n[a]->Right_0@; assert(q == seq![(e, *v)]); if q.contains((y.1, y.2)) { assert(q[q.index_of((y.1, y.2))] == (y.1, y.2)); } assert(q[0] == (e, *v)); } } }
    } }"""
    out += u.emit(f, """requires collecting(*old(self)) ensures collecting(*final(self)), final(self).cache == old(self).cache,
        forall|y: Aev| #[trigger] seen(final(self).collected_assertions@, y) <==> seen(old(self).collected_assertions@, y) || y == (a, e, *v) && op is Add && cached(old(self).cache, a),
        forall|y: Aev| #[trigger] seen(final(self).collected_retractions@, y) <==> seen(old(self).collected_retractions@, y) || y == (a, e, *v) && !(op is Add) && cached(old(self).cache, a)""")
    f = s.fn("done", TW).ret("r")
    f.head = f.head.replace("schema: &Schema", "schema: &Schema, Ghost(d): Ghost<Facts>")
    f.sub(r"let mut intermediate_expansion = once\(collected_retractions\)\s*\.chain\(once\(collected_assertions\)\)\s*\.map\(move \|tree\| \{\s*tree\.into_iter\(\)\s*\.filter_map\(move \|\(a, evs\)\| \{\s*match evs \{\s*(?://[^\n]*\s*)?Either::Left\(_\) => None,\s*Either::Right\(vec\) => Some\(\(a, vec\)\),\s*\}\s*\}\)\s*\.flat_map\(move \|\(a, evs\)\| \{\s*(?://[^\n]*\s*)?evs\.into_iter\(\)\.map\(move \|\(e, v\)\| \(a, e, v\)\)\s*\}\)\s*\}\);\s*let retractions = intermediate_expansion\.next\(\)\.unwrap\(\);\s*let assertions = intermediate_expansion\.next\(\)\.unwrap\(\);",
          "let retractions = flat(collected_retractions); let assertions = flat(collected_assertions); proof { assert forall|i: int| 0 <= i < retractions@.len() implies d(#[trigger] retractions@[i]) && cached(self.cache, retractions@[i].0) by { assert(retractions@.contains(retractions@[i])); assert(seen(old(self).collected_retractions@, retractions@[i])); } assert forall|i: int| 0 <= i < assertions@.len() implies cached(self.cache, (#[trigger] assertions@[i]).0) by { assert(assertions@.contains(assertions@[i])); assert(seen(old(self).collected_assertions@, assertions@[i])); } let d1 = after_rows(d, retractions@, assertions@); let d2 = told(d, old(self).collected_retractions@, old(self).collected_assertions@); assert forall|a: Entid| #[trigger] schema@.contains_key(a) implies (!schema@[a].multival ==> single(a, d1)) && (uniq(schema@[a]) ==> unique(a, d1)) by { assert(agree(d2, d1, a)); agree_rules(d2, d1, a); } }",
          "the iterator over what was collected, as rows")
    f.sub(r"std::mem::take\(", "take(", "mem::take", count=0)
    f.sub(r"self\.cache\.update\(schema, retractions, assertions\)\s*\}\s*$", "let ghost (r0, a0) = (retractions@, assertions@); let done_ = self.cache.update(schema, retractions, assertions, Ghost(d)); proof { let d1 = after_rows(d, r0, a0); let d2 = told(d, old(self).collected_retractions@, old(self).collected_assertions@); assert forall|a: Entid| #[trigger] schema@.contains_key(a) implies right(self.cache, schema@, a, d2) by { assert(right(self.cache, schema@, a, d1)); assert(agree(d1, d2, a)); right_elsewhere(self.cache, schema@, schema@, a, d1, d2); } } done_ }", "ghost")
    out += u.emit(f, """requires collecting(*old(self)), sound(old(self).cache, schema@, d), lawful(schema@, d), lawful(schema@, told(d, old(self).collected_retractions@, old(self).collected_assertions@)), forall|x: Aev| #[trigger] seen(old(self).collected_retractions@, x) ==> d(x)
      ensures r is Ok, sound(final(self).cache, schema@, told(d, old(self).collected_retractions@, old(self).collected_assertions@)), same_flags(old(self).cache.overlay, final(self).cache.overlay)""")
    out += "}\npub open spec fn told(d: Facts, r: Map<Entid, Either<(), Vec<(Entid, TypedValue)>>>, n: Map<Entid, Either<(), Vec<(Entid, TypedValue)>>>) -> Facts { |x: Aev| d(x) && !seen(r, x) || seen(n, x) }\n"
    return out
