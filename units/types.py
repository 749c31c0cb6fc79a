"""Types shared by the units: extracted where Verus takes them, opaque where it does not."""


def errors(u):
    u.assume("errors are opaque: what an Err carries is not modelled")
    return """
#[verifier::external_body] pub struct Error { x: () }
impl Error { #[verifier::external_body] pub fn new() -> Error { unimplemented!() } }
pub type Result<T> = std::result::Result<T, Error>;
"""


def values(u):
    """Entid, KnownEntid, TypedValue (the real enum over opaque payload types), OpType."""
    core, ent = u.src("core-traits/lib.rs"), u.src("edn/src/entities.rs")
    u.assume("payload types of TypedValue (OrderedFloat, DateTime, Keyword, Uuid) are opaque, compared by identity of value")
    u.assume("the derived Clone of TypedValue returns an equal value")
    return """
impl Clone for TypedValue { #[verifier::external_body] fn clone(&self) -> (r: TypedValue) ensures r == *self { unimplemented!() } }
pub type Entid = i64;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct OrderedFloat<T> { x: T }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct DateTime<T> { x: T }
#[verifier::external_body] pub struct Utc { x: () }
#[verifier::external_body] pub struct Keyword { x: () }
#[verifier::external_body] pub struct Uuid { x: () }
pub type ValueRc<T> = std::sync::Arc<T>;
#[derive(Copy, Clone)]
""" + u.struct(core, "KnownEntid") + u.struct(core, "TypedValue") + "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(ent, "OpType")


def terms(u):
    it, ut = u.src("db/src/internal_types.rs"), u.src("core/src/util.rs")
    u.assume("TempIdMap is a map from TempId to KnownEntid (std HashMap; lookups by the TempId behind the handle)")
    return u.struct(ut, "Either") + "pub use Either::*;\n" + u.struct(it, "Term") + """
#[verifier::external_body] pub struct TempId { x: () }
pub type TempIdHandle = ValueRc<TempId>;
pub type TermWithTempIds = Term<Either<KnownEntid, TempIdHandle>, Either<TypedValue, TempIdHandle>>;
pub type TermWithoutTempIds = Term<KnownEntid, TypedValue>;
pub type AVPair = (Entid, TypedValue);
pub type Population = Vec<TermWithTempIds>;
#[verifier::external_body] pub struct TempIdMap { m: () }
impl TempIdMap {
  pub uninterp spec fn view(&self) -> Map<TempId, KnownEntid>;
  #[verifier::external_body]
  pub fn get(&self, t: &TempId) -> (r: Option<KnownEntid>)
    ensures match r { Some(k) => self@.contains_key(*t) && self@[*t] == k, None => !self@.contains_key(*t) }
  { unimplemented!() }
}
"""


COUNT = """
pub mod count {
use vstd::prelude::*;
// How often x occurs among the images of s.
pub open spec fn cnt<A, B>(s: Seq<A>, f: spec_fn(A) -> B, x: B) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt(s.drop_last(), f, x) + if f(s.last()) == x { 1nat } else { 0 } } }
pub broadcast proof fn cnt_push<A, B>(s: Seq<A>, y: A, f: spec_fn(A) -> B, x: B)
    ensures #[trigger] cnt(s.push(y), f, x) == cnt(s, f, x) + if f(y) == x { 1nat } else { 0 }
{ assert(s.push(y).drop_last() =~= s); }
pub proof fn cnt_take<A, B>(s: Seq<A>, i: int, f: spec_fn(A) -> B)
    requires 0 <= i < s.len()
    ensures forall|x: B| #[trigger] cnt(s.take(i + 1), f, x) == cnt(s.take(i), f, x) + if f(s[i]) == x { 1nat } else { 0 }
{
    broadcast use cnt_push;
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
}

}
pub use count::*;
broadcast use count::cnt_push;
"""

_MAP = """
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct NAME<K, V> { k: Option<K>, v: Option<V> }
impl<K, V> NAME<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None::<V> }) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
  // What a for loop over the map visits: every entry, once.
  #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&K, &V)>)
    ensures entries_of(self@, r@.map_values(|p: (&K, &V)| (*p.0, *p.1))) { unimplemented!() }
  #[verifier::external_body] pub fn into_entries(self) -> (r: Vec<(K, V)>)
    ensures entries_of(self@, r@) { unimplemented!() }
}
"""
_SET = """
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct NAME<K> { k: Option<K> }
impl<K> NAME<K> {
  pub uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool)
    ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool)
    ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures self@.finite(), r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn entries(&self) -> (r: Vec<&K>)
    ensures members_of(self@, r@.map_values(|p: &K| *p)) { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@, r == *self { unimplemented!() }
}
"""


def collections(u, maps=("BTreeMap",), sets=()):
    """std's maps and sets, as maps and sets: the trusted contracts of the standard library."""
    u.assume("std collections (%s) behave as mathematical maps and sets over their keys; iteration visits every entry exactly once" % ", ".join(list(maps) + list(sets)))
    out = """
pub open spec fn entries_of<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub open spec fn members_of<K>(m: Set<K>, s: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]) != (#[trigger] s[j])
}
"""
    for m in maps:
        out += _MAP.replace("NAME", m)
    for s in sets:
        out += _SET.replace("NAME", s)
    return out


TEXT = """
pub mod text {
use vstd::prelude::*; use std::cmp::Ordering;
// Text, owned or borrowed: its UTF-8 bytes.
#[verifier::external_body] pub struct Text { x: () }
pub uninterp spec fn ord(a: Seq<u8>, b: Seq<u8>) -> Ordering;
// The standard library's order of strings: a total order with the empty string below all.
pub broadcast axiom fn ord_equal(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] ord(a, b) == Ordering::Equal <==> a == b;
pub broadcast axiom fn ord_flip(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] ord(a, b) == Ordering::Less <==> ord(b, a) == Ordering::Greater;
pub axiom fn ord_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires ord(a, b) == Ordering::Less, ord(b, c) == Ordering::Less ensures ord(a, c) == Ordering::Less;
pub broadcast axiom fn ord_empty(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0, b.len() > 0 ensures #[trigger] ord(a, b) == Ordering::Less;
// Text fits in memory.
pub broadcast axiom fn text_fits(t: Text) ensures (#[trigger] t@).len() < isize::MAX;
pub open spec fn ord2(a: (Seq<u8>, Seq<u8>), b: (Seq<u8>, Seq<u8>)) -> Ordering { if ord(a.0, b.0) == Ordering::Equal { ord(a.1, b.1) } else { ord(a.0, b.0) } }
impl Text {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn new() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push_str(&mut self, s: &Text) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
  #[verifier::external_body] pub fn push_byte(&mut self, c: u8) requires c < 128 ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn to_owned(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &Text) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn slice(&self, a: usize, b: usize) -> (r: &Text) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
  #[verifier::external_body] pub fn starts_with_byte(&self, c: u8) -> (r: bool) requires c < 128 ensures r == (self@.len() > 0 && self@[0] == c) { unimplemented!() }
  #[verifier::external_body] pub fn cmp(&self, o: &Text) -> (r: Ordering) ensures r == ord(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn partial_cmp(&self, o: &Text) -> (r: Option<Ordering>) ensures r == Some(ord(self@, o@)) { unimplemented!() }
}
#[verifier::external_body] pub fn joined(a: &Text, b: &Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn underscored(b: &Text) -> (r: Text) ensures r@ == seq![0x5fu8] + b@ { unimplemented!() }
#[verifier::external_body] pub fn pair_cmp(a: (&Text, &Text), b: (&Text, &Text)) -> (r: Ordering) ensures r == ord2((a.0@, a.1@), (b.0@, b.1@)) { unimplemented!() }
#[verifier::external_body] pub fn pair_partial_cmp(a: (&Text, &Text), b: (&Text, &Text)) -> (r: Option<Ordering>) ensures r == Some(ord2((a.0@, a.1@), (b.0@, b.1@))) { unimplemented!() }
}
pub use text::*;
broadcast use {ord_equal, ord_flip, ord_empty, text_fits};
"""


def text(u, also=()):
    u.assume("strings are their UTF-8 bytes with the standard library's total order; that slices fall on character boundaries is not modelled")
    return TEXT.replace("text_fits};", ", ".join(["text_fits"] + list(also)) + "};")
