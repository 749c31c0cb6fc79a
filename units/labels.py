"""C03: which tempids are one and the same (temp_ids_in_allocations, db/src/upsert_resolution.rs)."""
import units
T, UP = units.load("types"), units.load("upsert")

SPEC = """
pub type F = TermWithTempIds;
pub type Key = (Entid, Either<TypedValue, TempIdHandle>);
pub open spec fn unique_identity(s: Schema, a: Entid) -> bool { s.attrs().contains_key(a) && s.attrs()[a].unique == Some(attribute::Unique::Identity) }
pub open spec fn no_tempid(t: F) -> bool { match t { Term::AddOrRetract(_, Left(_), _, Left(_)) => true, _ => false } }
// The tempids of an addition.
pub open spec fn has_tempid(f: F, t: TempIdHandle) -> bool { match f { Term::AddOrRetract(OpType::Add, e, _, v) => e == Either::<KnownEntid, TempIdHandle>::Right(t) || v == Either::<TypedValue, TempIdHandle>::Right(t), _ => false } }
// An addition which identifies its tempid by a unique attribute and the value, itself perhaps a tempid.
pub open spec fn identifies(s: Schema, f: F, k: Key, t: TempIdHandle) -> bool { match f { Term::AddOrRetract(OpType::Add, Right(e), a, v) => e == t && k == (a, v) && unique_identity(s, a), _ => false } }
pub open spec fn needs(fs: Seq<F>, t: TempIdHandle) -> bool { exists|i: int| 0 <= i < fs.len() && has_tempid(#[trigger] fs[i], t) }
pub open spec fn bids(s: Schema, fs: Seq<F>, k: Key, t: TempIdHandle) -> bool { exists|i: int| 0 <= i < fs.len() && identifies(s, #[trigger] fs[i], k, t) }
pub open spec fn linked(s: Schema, fs: Seq<F>, t: TempIdHandle, u: TempIdHandle) -> bool { exists|k: Key| #[trigger] bids(s, fs, k, t) && bids(s, fs, k, u) }
// Any other way of telling tempids apart that keeps linked ones together.
pub open spec fn respects(s: Schema, fs: Seq<F>, h: spec_fn(TempIdHandle) -> int) -> bool { forall|t: TempIdHandle, u: TempIdHandle| #[trigger] linked(s, fs, t, u) ==> h(t) == h(u) }
// The labels: one for each tempid that needs an entid, the same for those that are linked, directly or
// through others, and for no others; no number is left out.
pub open spec fn labelled(s: Schema, fs: Seq<F>, m: Map<TempIdHandle, usize>) -> bool {
  &&& forall|t: TempIdHandle| #[trigger] m.contains_key(t) <==> needs(fs, t)
  &&& forall|t: TempIdHandle, u: TempIdHandle| #[trigger] linked(s, fs, t, u) ==> m[t] == m[u]
  &&& forall|h: spec_fn(TempIdHandle) -> int, t: TempIdHandle, u: TempIdHandle| #[trigger] respects(s, fs, h) && m.contains_key(t) && m.contains_key(u) && m[t] == m[u] ==> #[trigger] h(t) == #[trigger] h(u)
  &&& forall|t: TempIdHandle, l: usize| m.contains_key(t) && l <= #[trigger] m[t] ==> #[trigger] taken(m, l)
}
pub open spec fn taken(m: Map<TempIdHandle, usize>, l: usize) -> bool { exists|u: TempIdHandle| #[trigger] m.contains_key(u) && m[u] == l }
proof fn step(s: Schema, fs: Seq<F>, k: int)
  requires 0 <= k < fs.len()
  ensures forall|t: TempIdHandle| #[trigger] needs(fs.take(k + 1), t) <==> needs(fs.take(k), t) || has_tempid(fs[k], t),
    forall|key: Key, t: TempIdHandle| #[trigger] bids(s, fs.take(k + 1), key, t) <==> bids(s, fs.take(k), key, t) || identifies(s, fs[k], key, t),
{
  let q = fs.take(k); let r = fs.take(k + 1);
  assert forall|t: TempIdHandle| #[trigger] needs(r, t) <==> needs(q, t) || has_tempid(fs[k], t) by {
    if needs(q, t) { let i = choose|i: int| 0 <= i < q.len() && has_tempid(q[i], t); assert(has_tempid(r[i], t)); }
    if has_tempid(fs[k], t) { assert(has_tempid(r[k], t)); }
    if needs(r, t) { let i = choose|i: int| 0 <= i < r.len() && has_tempid(r[i], t); if i < k { assert(has_tempid(q[i], t)); } }
  }
  assert forall|key: Key, t: TempIdHandle| #[trigger] bids(s, r, key, t) <==> bids(s, q, key, t) || identifies(s, fs[k], key, t) by {
    if bids(s, q, key, t) { let i = choose|i: int| 0 <= i < q.len() && identifies(s, q[i], key, t); assert(identifies(s, r[i], key, t)); }
    if identifies(s, fs[k], key, t) { assert(identifies(s, r[k], key, t)); }
    if bids(s, r, key, t) { let i = choose|i: int| 0 <= i < r.len() && identifies(s, r[i], key, t); if i < k { assert(identifies(s, q[i], key, t)); } }
  }
}
// petgraph's disjoint sets over 0..n: every element has a representative.
pub mod unionfind { use super::*;
#[verifier::external_body] pub struct UnionFind { x: () }
impl UnionFind {
  pub uninterp spec fn reps(&self) -> Seq<usize>;
  #[verifier::external_body] pub fn new(n: usize) -> (r: UnionFind) ensures r.reps().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.reps()[i] == i { unimplemented!() }
  #[verifier::external_body] pub fn union(&mut self, x: usize, y: usize) -> (r: bool)
    requires x < old(self).reps().len(), y < old(self).reps().len()
    ensures final(self).reps() == merged(old(self).reps(), x as int, y as int) || final(self).reps() == merged(old(self).reps(), y as int, x as int) { unimplemented!() }
  #[verifier::external_body] pub fn find_mut(&mut self, x: usize) -> (r: usize) requires x < old(self).reps().len() ensures final(self).reps() == old(self).reps(), r == old(self).reps()[x as int] { unimplemented!() }
}
// The second one's set joins the first one's.
pub open spec fn merged(s: Seq<usize>, x: int, y: int) -> Seq<usize> { Seq::new(s.len(), |i: int| if s[i] == s[y] { s[x] } else { s[i] }) }
}
pub use unionfind::merged;
pub mod indexmap { use super::*;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct IndexSet<T> { x: Option<T> }
impl<T> IndexSet<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) requires old(self)@.no_duplicates() ensures final(self)@ == (if old(self)@.contains(x) { old(self)@ } else { old(self)@.push(x) }) { unimplemented!() }
  #[verifier::external_body] pub fn get_full(&self, x: &T) -> (r: Option<(usize, &T)>) ensures match r { Some(p) => p.0 < self@.len() && self@[p.0 as int] == *x, None => !self@.contains(*x) } { unimplemented!() }
} }
// Numbers for the members of a set: 0, 1, 2, ...
#[verifier::external_body] pub fn numbered(s: BTreeSet<TempIdHandle>) -> (r: BTreeMap<TempIdHandle, usize>)
  ensures r@.dom() == s@, forall|t: TempIdHandle| #[trigger] r@.contains_key(t) ==> r@[t] < s@.len(),
    forall|t: TempIdHandle, u: TempIdHandle| #[trigger] r@.contains_key(t) && #[trigger] r@.contains_key(u) && r@[t] == r@[u] ==> t == u { unimplemented!() }
#[verifier::external_body] pub fn same(t: &TempIdHandle) -> (r: TempIdHandle) ensures r == *t { unimplemented!() }
#[verifier::external_body] pub fn push_at(m: &mut BTreeMap<Key, Vec<TempIdHandle>>, k: Key, t: TempIdHandle)
  ensures final(m)@.dom() == old(m)@.dom().insert(k), final(m)@[k]@ == (if old(m)@.contains_key(k) { old(m)@[k]@.push(t) } else { seq![t] }),
    forall|x: Key| x != k ==> #[trigger] final(m)@[x] == old(m)@[x] { unimplemented!() }
pub open spec fn among(m: Map<Key, Vec<TempIdHandle>>, k: Key, t: TempIdHandle) -> bool { m.contains_key(k) && m[k]@.contains(t) }
pub fn panicked() requires false {}

// Two indices are in one set exactly when their keys' members made them so: `ns` numbers the tempids.
pub open spec fn together(ns: Map<TempIdHandle, usize>, reps: Seq<usize>, t: TempIdHandle, u: TempIdHandle) -> bool { reps[ns[t] as int] == reps[ns[u] as int] }
pub open spec fn minimal(s: Schema, fs: Seq<F>, ns: Map<TempIdHandle, usize>, reps: Seq<usize>) -> bool {
  forall|h: spec_fn(TempIdHandle) -> int, t: TempIdHandle, u: TempIdHandle| #[trigger] respects(s, fs, h) && ns.contains_key(t) && ns.contains_key(u) && together(ns, reps, t, u) ==> #[trigger] h(t) == #[trigger] h(u)
}
pub open spec fn numbers(ns: Map<TempIdHandle, usize>, reps: Seq<usize>) -> bool {
  &&& forall|t: TempIdHandle| #[trigger] ns.contains_key(t) ==> ns[t] < reps.len()
  &&& forall|t: TempIdHandle, u: TempIdHandle| #[trigger] ns.contains_key(t) && #[trigger] ns.contains_key(u) && ns[t] == ns[u] ==> t == u
}
proof fn joins(s: Schema, fs: Seq<F>, ns: Map<TempIdHandle, usize>, r0: Seq<usize>, r1: Seq<usize>, a: TempIdHandle, b: TempIdHandle)
  requires numbers(ns, r0), minimal(s, fs, ns, r0), ns.contains_key(a), ns.contains_key(b), linked(s, fs, a, b),
    r1 == merged(r0, ns[a] as int, ns[b] as int) || r1 == merged(r0, ns[b] as int, ns[a] as int)
  ensures numbers(ns, r1), minimal(s, fs, ns, r1), together(ns, r1, a, b),
    forall|t: TempIdHandle, u: TempIdHandle| ns.contains_key(t) && ns.contains_key(u) && #[trigger] together(ns, r0, t, u) ==> together(ns, r1, t, u)
{
  assert forall|h: spec_fn(TempIdHandle) -> int, t: TempIdHandle, u: TempIdHandle| #[trigger] respects(s, fs, h) && ns.contains_key(t) && ns.contains_key(u) && together(ns, r1, t, u) implies #[trigger] h(t) == #[trigger] h(u) by {
    assert(h(a) == h(b));
    assert(together(ns, r0, t, u) || (together(ns, r0, t, a) && together(ns, r0, u, b)) || (together(ns, r0, t, b) && together(ns, r0, u, a)));
    if together(ns, r0, t, u) { } else if together(ns, r0, t, a) && together(ns, r0, u, b) { assert(h(t) == h(a)); assert(h(u) == h(b)); } else { assert(h(t) == h(b)); assert(h(u) == h(a)); }
  }
}
"""


def build(u):
    s = u.src("db/src/upsert_resolution.rs")
    out = T.errors(u) + T.values(u) + T.terms(u) + T.collections(u, maps=("BTreeMap",), sets=("BTreeSet",))
    u.assume("petgraph's UnionFind keeps disjoint sets with one representative each; indexmap's IndexSet keeps its members in order of insertion")
    u.assume("tempid handles are compared by the TempId behind them")
    out += u.struct(s, "UpsertE") + u.struct(s, "UpsertEV") + u.struct(s, "Generation")
    out += "pub mod attribute { pub use super::Unique; }\n#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(u.src("core-traits/lib.rs"), "Unique")
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(u.src("core-traits/lib.rs"), "ValueType")
    out += u.struct(u.src("core-traits/lib.rs"), "Attribute") + """
#[verifier::external_body] pub struct Schema { m: () }
impl Schema {
  pub uninterp spec fn attrs(&self) -> Map<Entid, Attribute>;
  #[verifier::external_body] pub fn require_attribute_for_entid(&self, a: Entid) -> (r: Result<&Attribute>)
    ensures match r { Ok(x) => self.attrs().contains_key(a) && *x == self.attrs()[a], Err(_) => !self.attrs().contains_key(a) }
  { unimplemented!() }
}
""" + SPEC
    f = s.fn("temp_ids_in_allocations", r"impl\s+Generation\b").ret("r")
    f.macro("unreachable", lambda a: "panicked()", "proved unreachable")
    f.macro("assert", lambda a: "if !(%s) { panicked() }" % units.first_arg(a), "a panic, proved unreachable")
    f.sub(r"is_empty\(\)", "len() == 0", "no elements", count=0)
    f.sub(r"for term in self\.allocations\.iter\(\) \{", "let mut it_: usize = 0; while it_ < self.allocations.len() { let term = &self.allocations[it_]; it_ = it_ + 1;", "iter as the loop it stands for")
    f.sub(r"ref (\w+) @ Left\(_\)\)", r"Left(left_)) ", "Verus has no @ patterns")
    f.sub(r"\bref (\w+)", r"\1", "Verus has no ref patterns", count=0)
    f.sub(r"\(\*a, x\.clone\(\)\)", "(*a, Left(left_.clone()))", "Verus has no @ patterns")
    f.sub(r"tempid_avs\s*\.entry\((\(\*a, .*?\))\)\s*\.or_insert_with\(Vec::new\)\s*\.push\((.*?)\);", r"push_at(&mut tempid_avs, \1, \2);", "the entry's vector, made when missing", count=0)
    f.sub(r"TypedValueOr<TempIdHandle>", "Either<TypedValue, TempIdHandle>", "the alias's meaning", count=0)
    f.sub(r"\bBTreeMap<TempIdHandle, usize> = temp_ids\s*\.into_iter\(\)\s*\.enumerate\(\)\s*\.map\(\|\((\w+), (\w+)\)\| \(\2, \1\)\)\s*\.collect\(\);", "BTreeMap<TempIdHandle, usize> = { let ghost ids_ = temp_ids@; proof { assert forall|t: TempIdHandle| #[trigger] ids_.contains(t) <==> needs(self.allocations@, t) by {} } let n_ = numbered(temp_ids); proof { assert forall|t: TempIdHandle| #[trigger] n_@.contains_key(t) <==> needs(self.allocations@, t) by { assert(n_@.contains_key(t) <==> ids_.contains(t)); } } n_ };", "the members of the set, numbered")
    f.sub(r"for vs in tempid_avs\.values\(\) \{", "let all_ = tempid_avs.entries(); let ghost m_ = all_@.map_values(|p: (&Key, &Vec<TempIdHandle>)| (*p.0, *p.1)); let mut iv_: usize = 0; while iv_ < all_.len() { let vs = all_[iv_].1; iv_ = iv_ + 1; let ghost key_ = *all_[iv_ - 1].0;", "values as the loop it stands for")
    f.sub(r"if let Some\(&(\w+)\) = vs\.first\(\)\.and_then\(\|first\| temp_ids\.get\(first\)\) \{", r"if let Some(first_ref_) = (if vs.len() == 0 { None } else { temp_ids.get(&vs[0]) }) { let \1 = *first_ref_;", "and_then as the cases it stands for")
    f.sub(r"for tempid in vs \{", "let mut iw_: usize = 0; while iw_ < vs.len() { let tempid = &vs[iw_]; iw_ = iw_ + 1; let ghost r0_ = uf.reps();", "a for over a vector as the loop it stands for")
    f.sub(r"temp_ids\.get\(tempid\)\.map\(\|&i\| (.*?)\);", r"match temp_ids.get(tempid) { Some(i_) => { let i = *i_; \1; }, None => {} }", "map as the cases it stands for")
    f.sub(r"for \(tempid, tempid_index\) in temp_ids \{", "let ghost ns_ = temp_ids@; let ents_ = temp_ids.into_entries(); let ghost es_ = ents_@; let mut ie_: usize = 0; while ie_ < ents_.len() { let tempid = &ents_[ie_].0; let tempid_index = ents_[ie_].1; ie_ = ie_ + 1; let ghost d0_ = dense_labels@; let ghost tm0_ = tempid_map@;", "into_iter as the loop it stands for")
    f.sub(r"dense_labels\s*\.get_full\(&rep\)\s*\.map\(\|\((\w+), _\)\| (.*?)\);", r"match dense_labels.get_full(&rep) { Some(p_) => { let \1 = p_.0; \2; }, None => {} }", "map as the cases it stands for")
    f.sub(r"(\bt\d?|tempid)\.clone\(\)", r"same(&\1)", "another handle of the same", count=0)
    f.sub(r"same\(&tempid\)", "same(tempid)", "a reference", count=0, minimum=0)
    f.sub(r"same\(&(t\d?)\)", r"same(\1)", "a reference", count=0, minimum=0)
    fs = "self.allocations@"
    f.annotate([
        dict(kind="while", before="proof { assert(%s.take(0).len() == 0); }" % fs, invariant="""invariant it_ <= self.allocations@.len(), forall|i: int| 0 <= i < self.allocations@.len() ==> !no_tempid(#[trigger] self.allocations@[i]),
            forall|t: TempIdHandle| #[trigger] temp_ids@.contains(t) <==> needs(self.allocations@.take(it_ as int), t),
            forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) <==> bids(*schema, self.allocations@.take(it_ as int), k, t),
            decreases self.allocations@.len() - it_,""",
             start="proof { step(*schema, self.allocations@, it_ as int); } let ghost avs0_ = tempid_avs@; let ghost ids0_ = temp_ids@;",
             end="""proof { let f_ = self.allocations@[it_ - 1]; assert(!no_tempid(f_));
                assert forall|t: TempIdHandle| #[trigger] temp_ids@.contains(t) <==> ids0_.contains(t) || has_tempid(f_, t) by {}
                assert forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) <==> among(avs0_, k, t) || identifies(*schema, f_, k, t) by {
                  if tempid_avs@ != avs0_ && identifies(*schema, f_, k, t) { let v1 = tempid_avs@[k]@; assert(v1[v1.len() - 1] == t); }
                  if avs0_.contains_key(k) && tempid_avs@ != avs0_ && avs0_[k]@.contains(t) { let i = choose|i: int| 0 <= i < avs0_[k]@.len() && avs0_[k]@[i] == t; assert(tempid_avs@[k]@[i] == t); }
                } }""",
             after="proof { assert(%s.take(%s.len() as int) =~= %s); }" % (fs, fs, fs)),
        dict(kind="while", before="proof { assert forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) implies temp_ids@.contains_key(t) by { bid_needs(*schema, self.allocations@, k, t); } assert(minimal(*schema, self.allocations@, temp_ids@, uf.reps())); }",
             invariant="""invariant iv_ <= all_@.len(), all_@.len() == m_.len(), entries_of(tempid_avs@, m_), m_ == all_@.map_values(|p: (&Key, &Vec<TempIdHandle>)| (*p.0, *p.1)),
            numbers(temp_ids@, uf.reps()), minimal(*schema, self.allocations@, temp_ids@, uf.reps()),
            forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) <==> bids(*schema, self.allocations@, k, t),
            forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) ==> temp_ids@.contains_key(t),
            forall|e: int, t: TempIdHandle, w: TempIdHandle| 0 <= e < iv_ && #[trigger] m_[e].1@.contains(t) && #[trigger] m_[e].1@.contains(w) ==> together(temp_ids@, uf.reps(), t, w),
            decreases all_@.len() - iv_,""",
             start="let ghost u0_ = uf.reps(); proof { assert(m_[iv_ as int] == (*all_[iv_ as int].0, *all_[iv_ as int].1)); assert(tempid_avs@.contains_key(m_[iv_ as int].0)); }",
             end="""proof { let vs_ = m_[iv_ - 1].1@;
               if vs_.len() > 0 { assert(vs_.contains(vs_[0])); assert(among(tempid_avs@, key_, vs_[0])); }
               assert forall|t: TempIdHandle, w: TempIdHandle| #[trigger] vs_.contains(t) && #[trigger] vs_.contains(w) implies together(temp_ids@, uf.reps(), t, w) by {
                 let i = choose|i: int| 0 <= i < vs_.len() && vs_[i] == t; let j = choose|j: int| 0 <= j < vs_.len() && vs_[j] == w; assert(together(temp_ids@, uf.reps(), vs_[0], vs_[i])); assert(together(temp_ids@, uf.reps(), vs_[0], vs_[j])); }
               assert forall|e: int, t: TempIdHandle, w: TempIdHandle| 0 <= e < iv_ - 1 && #[trigger] m_[e].1@.contains(t) && #[trigger] m_[e].1@.contains(w) implies together(temp_ids@, uf.reps(), t, w) by {
                 assert(tempid_avs@.contains_key(m_[e].0)); assert(among(tempid_avs@, m_[e].0, t)); assert(among(tempid_avs@, m_[e].0, w)); assert(together(temp_ids@, u0_, t, w)); } }""",
             after="""proof { assert forall|t: TempIdHandle, w: TempIdHandle| #[trigger] linked(*schema, self.allocations@, t, w) implies temp_ids@.contains_key(t) && temp_ids@.contains_key(w) && together(temp_ids@, uf.reps(), t, w) by {
                 let k = choose|k: Key| #[trigger] bids(*schema, self.allocations@, k, t) && bids(*schema, self.allocations@, k, w);
                 assert(among(tempid_avs@, k, t)); assert(among(tempid_avs@, k, w));
                 let e = choose|e: int| 0 <= e < m_.len() && (#[trigger] m_[e]).0 == k; assert(m_[e].1@.contains(t) && m_[e].1@.contains(w)); } }"""),
        dict(kind="while", before="proof { assert(!(temp_ids@[vs@[0]] != temp_ids@[vs@[0]])); }", invariant="""invariant iw_ <= vs@.len(), vs@.len() > 0, numbers(temp_ids@, uf.reps()), minimal(*schema, self.allocations@, temp_ids@, uf.reps()),
            temp_ids@.contains_key(vs@[0]), first_index == temp_ids@[vs@[0]],
            tempid_avs@.contains_key(key_), *vs == tempid_avs@[key_],
            forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) <==> bids(*schema, self.allocations@, k, t),
            forall|k: Key, t: TempIdHandle| #[trigger] among(tempid_avs@, k, t) ==> temp_ids@.contains_key(t),
            forall|i: int| 0 <= i < iw_ ==> together(temp_ids@, uf.reps(), vs@[0], #[trigger] vs@[i]),
            forall|t: TempIdHandle, w: TempIdHandle| temp_ids@.contains_key(t) && temp_ids@.contains_key(w) && #[trigger] together(temp_ids@, u0_, t, w) ==> together(temp_ids@, uf.reps(), t, w),
            decreases vs@.len() - iw_,""",
             start="proof { assert(vs@.contains(vs@[0])); assert(vs@.contains(vs@[iw_ as int])); assert(among(tempid_avs@, key_, vs@[iw_ as int])); assert(among(tempid_avs@, key_, vs@[0])); assert(bids(*schema, self.allocations@, key_, vs@[0])); assert(linked(*schema, self.allocations@, vs@[0], vs@[iw_ as int])); }",
             end="""proof { joins(*schema, self.allocations@, temp_ids@, r0_, uf.reps(), vs@[0], vs@[iw_ - 1]);
               assert forall|i: int| 0 <= i < iw_ implies together(temp_ids@, uf.reps(), vs@[0], #[trigger] vs@[i]) by { if i < iw_ - 1 { assert(vs@.contains(vs@[i])); assert(among(tempid_avs@, key_, vs@[i])); assert(together(temp_ids@, r0_, vs@[0], vs@[i])); } }
               assert forall|t: TempIdHandle, w: TempIdHandle| temp_ids@.contains_key(t) && temp_ids@.contains_key(w) && #[trigger] together(temp_ids@, u0_, t, w) implies together(temp_ids@, uf.reps(), t, w) by { assert(together(temp_ids@, r0_, t, w)); } }"""),
        dict(kind="while", before="proof { assert(uf0_ == uf.reps()); }".replace("uf0_", "uf.reps()"), invariant="""invariant ie_ <= ents_@.len(), es_ == ents_@, entries_of(ns_, es_), numbers(ns_, uf.reps()), dense_labels@.no_duplicates(),
            forall|t: TempIdHandle| #[trigger] tempid_map@.contains_key(t) <==> exists|i: int| 0 <= i < ie_ && (#[trigger] es_[i]).0 == t,
            forall|i: int| 0 <= i < ie_ ==> tempid_map@[(#[trigger] es_[i]).0] < dense_labels@.len() && dense_labels@[tempid_map@[es_[i].0] as int] == uf.reps()[es_[i].1 as int],
            forall|l: usize| l < dense_labels@.len() ==> #[trigger] taken(tempid_map@, l),
            reps_ == uf.reps(),
            decreases ents_@.len() - ie_,""",
             start="proof { assert(ns_.contains_key(es_[ie_ as int].0)); }",
             end="""proof {
               assert(dense_labels@.contains(rep)) by { if !d0_.contains(rep) { assert(dense_labels@[d0_.len() as int] == rep); } }
               assert forall|l: usize| l < dense_labels@.len() implies #[trigger] taken(tempid_map@, l) by {
                 if l < d0_.len() { assert(taken(tm0_, l)); let w = choose|w: TempIdHandle| #[trigger] tm0_.contains_key(w) && tm0_[w] == l; assert(tempid_map@.contains_key(w)); }
                 else { assert(tempid_map@.contains_key(*tempid)); } }
               assert forall|t: TempIdHandle| #[trigger] tempid_map@.contains_key(t) implies exists|i: int| 0 <= i < ie_ && (#[trigger] es_[i]).0 == t by { if t == *tempid { assert(es_[ie_ - 1].0 == t); } else { assert(tm0_.contains_key(t)); } }
             }""",
             after="""proof {
               let m = tempid_map@;
               assert forall|t: TempIdHandle| m.contains_key(t) implies #[trigger] ns_.contains_key(t) && m[t] < dense_labels@.len() && dense_labels@[m[t] as int] == reps_[ns_[t] as int] by { let i = choose|i: int| 0 <= i < es_.len() && (#[trigger] es_[i]).0 == t; }
               assert forall|t: TempIdHandle| #[trigger] ns_.contains_key(t) implies m.contains_key(t) by { let i = choose|i: int| 0 <= i < es_.len() && (#[trigger] es_[i]).0 == t; }
               assert forall|t: TempIdHandle, w: TempIdHandle| #[trigger] linked(*schema, self.allocations@, t, w) implies m[t] == m[w] by { assert(ns_.contains_key(t) && ns_.contains_key(w)); }
               assert forall|h: spec_fn(TempIdHandle) -> int, t: TempIdHandle, w: TempIdHandle| #[trigger] respects(*schema, self.allocations@, h) && m.contains_key(t) && m.contains_key(w) && m[t] == m[w] implies #[trigger] h(t) == #[trigger] h(w) by { assert(ns_.contains_key(t) && ns_.contains_key(w)); assert(together(ns_, reps_, t, w)); }
               assert forall|t: TempIdHandle| #[trigger] m.contains_key(t) <==> needs(self.allocations@, t) by { assert(ns_.contains_key(t) <==> m.contains_key(t)); }
               assert forall|t: TempIdHandle, l: usize| m.contains_key(t) && l <= #[trigger] m[t] implies #[trigger] taken(m, l) by { assert(ns_.contains_key(t)); }
             }"""),
    ])
    f.body = f.body.replace("let mut dense_labels", "let ghost reps_ = uf.reps();\nlet mut dense_labels", 1)
    out += """proof fn bid_needs(s: Schema, fs: Seq<F>, k: Key, t: TempIdHandle) requires bids(s, fs, k, t) ensures needs(fs, t)
{ let i = choose|i: int| 0 <= i < fs.len() && identifies(s, #[trigger] fs[i], k, t); assert(has_tempid(fs[i], t)); }
impl Generation {
""" + u.emit(f, """
        requires self.upserts_e@.len() == 0, self.upserts_ev@.len() == 0, forall|i: int| 0 <= i < self.allocations@.len() ==> !no_tempid(#[trigger] self.allocations@[i])
        ensures r is Ok ==> labelled(*schema, self.allocations@, r->Ok_0@)""") + "}\n"
    return out
