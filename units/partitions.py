"""C04: ids are fresh and inside their partition (db/src/types.rs, db/src/db.rs, db/src/tx.rs)."""
import re
import units, extract
T = units.load("types")


def build(u):
    ty, db, tx = u.src("db/src/types.rs"), u.src("db/src/db.rs"), u.src("db/src/tx.rs")
    ent, core, it, ut = u.src("edn/src/entities.rs"), u.src("core-traits/lib.rs"), u.src("db/src/internal_types.rs"), u.src("core/src/util.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, maps=("BTreeMap", "HashMap"))
    u.assume("a failed assert! does not return (both profiles)")
    u.assume("the next id of the partition allocated from plus the number asked for fits an i64 (precondition of allocation)")
    u.assume("usize has 64 bits")
    u.assume("partition names are compared as text; the map of partitions is a map from name to partition")
    out += """
use std::ops::Range;
global size_of usize == 8;
// What a failed assert! does: nothing is returned.
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
#[verifier::external_body] pub fn refuse_range() -> (r: Range<i64>) ensures false { panic!() }
impl Clone for Partition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PartitionMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn wf(p: Partition) -> bool { p.start <= p.next_entid_to_allocate <= p.end }
pub open spec fn given(p: Partition, e: i64) -> bool { p.start <= e < p.next_entid_to_allocate }
pub open spec fn same_range(p: Partition, q: Partition) -> bool { p.start == q.start && p.end == q.end && p.allow_excision == q.allow_excision }
"""
    out += u.struct(ty, "Partition")
    asserts = lambda f: f.macro("assert", lambda a: "if !(%s) { refuse() }" % units.first_arg(a), "a failed assert! does not return")
    f = asserts(ty.fn("new", r"impl Partition\b").ret("r"))
    out += "impl Partition {\n" + u.emit(f, """
        ensures start <= next_entid_to_allocate <= end,
            r == (Partition { start, end, next_entid_to_allocate, allow_excision }), wf(r),
    """)
    out += u.emit(ty.fn("contains_entid", r"impl Partition\b").ret("r"), "ensures r == given(*self, e)")
    out += u.emit(ty.fn("allows_entid", r"impl Partition\b").ret("r"), "ensures r == (self.start <= e <= self.end)")
    out += u.emit(ty.fn("next_entid", r"impl Partition\b").ret("r"), "ensures r == self.next_entid_to_allocate")
    f = asserts(ty.fn("set_next_entid", r"impl Partition\b"))
    out += u.emit(f, """
        ensures old(self).start <= e <= old(self).end, wf(*final(self)), same_range(*final(self), *old(self)),
            final(self).next_entid_to_allocate == e,
    """)
    f = asserts(ty.fn("allocate_entids", r"impl Partition\b").ret("r"))
    out += u.emit(f, """
        requires wf(*old(self)), n <= i64::MAX, n <= i64::MAX - old(self).next_entid_to_allocate
        ensures wf(*final(self)), same_range(*final(self), *old(self)),
            // n consecutive ids, starting where the last allocation ended
            r.start == old(self).next_entid_to_allocate, r.end == r.start + n, final(self).next_entid_to_allocate == r.end,
            // all of them fresh, and inside the range
            forall|e: i64| r.start <= e < r.end ==> !given(*old(self), e) && old(self).start <= e <= old(self).end,
            forall|e: i64| given(*final(self), e) <==> given(*old(self), e) || r.start <= e < r.end,
    """) + "}\n"

    # The map of partitions.
    out += """
#[verifier::external_body] pub struct PartitionMap { x: () }
pub open spec fn all_wf(m: Map<Seq<char>, Partition>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> wf(m[k]) }
pub open spec fn allocated(m: Map<Seq<char>, Partition>, e: i64) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && given(m[k], e) }
pub open spec fn has_room(m: Map<Seq<char>, Partition>, k: Seq<char>, n: nat) -> bool { n <= i64::MAX && (m.contains_key(k) ==> n <= i64::MAX - m[k].next_entid_to_allocate) }
pub open spec fn among(m: Map<Seq<char>, Partition>, p: Partition) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && m[k] == p }
pub open spec fn listed(ps: Seq<&Partition>, p: Partition) -> bool { exists|i: int| 0 <= i < ps.len() && *(#[trigger] ps[i]) == p }
// r is what allocating n ids in partition k of m gives, and m2 what it leaves.
pub open spec fn allocates(m: Map<Seq<char>, Partition>, k: Seq<char>, n: nat, first: i64, m2: Map<Seq<char>, Partition>) -> bool {
    &&& m.contains_key(k) && wf(m[k]) && m2.dom() =~= m.dom()
    &&& first == m[k].next_entid_to_allocate && first + n <= m[k].end
    &&& m2[k] == (Partition { next_entid_to_allocate: (first + n) as i64, ..m[k] })
    &&& forall|o: Seq<char>| #[trigger] m.contains_key(o) && o != k ==> m2[o] == m[o]
}
impl PartitionMap {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Partition>;
  // std's BTreeMap, through Deref and DerefMut.
  #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Partition>)
    ensures match r {
        Some(p) => old(self)@.contains_key(k@) && *p == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(p)),
        None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@,
    } { unimplemented!() }
  #[verifier::external_body] pub fn values_(&self) -> (r: Vec<&Partition>)
    ensures forall|i: int| 0 <= i < r@.len() ==> among(self@, *#[trigger] r@[i]),
        forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> listed(r@, self@[k]) { unimplemented!() }
"""
    f = db.fn("allocate_entids", r"impl PartitionMap\b").ret("r")
    f.macro("panic", lambda a: "refuse_range()", "a panic does not return")
    out += u.emit(f, """
        requires all_wf(old(self)@), has_room(old(self)@, partition@, n as nat)
        ensures allocates(old(self)@, partition@, n as nat, r.start, final(self)@), r.end == r.start + n, all_wf(final(self)@),
    """)
    f = db.fn("allocate_entid", r"impl PartitionMap\b").ret("r")
    out += u.emit(f, """
        requires all_wf(old(self)@), has_room(old(self)@, partition@, 1)
        ensures allocates(old(self)@, partition@, 1, r, final(self)@), all_wf(final(self)@),
    """)
    f = db.fn("contains_entid", r"impl PartitionMap\b").ret("r")
    f.sub(r"self\s*\.values\(\)\s*\.any\(\|(\w+)\| (.*?)\)(?=\s*})", r"""{ let parts = self.values_(); let mut found = false; let mut i: usize = 0;
        while i < parts.len()
            invariant i <= parts@.len(), found ==> allocated(self@, entid),
                forall|j: int| 0 <= j < i && given(*#[trigger] parts@[j], entid) ==> found,
                forall|j: int| 0 <= j < parts@.len() ==> among(self@, *#[trigger] parts@[j]),
                forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> listed(parts@, self@[k]),
            decreases parts@.len() - i
        { let \1 = parts[i]; let hit = \2; if hit { found = true; } i += 1; }
        found }""", "any: a loop over the values")
    out += u.emit(f, "ensures r == allocated(self@, entid)") + "}\n"

    # Lemmas: what follows for every history of allocations.
    out += """
// An allocated id was not allocated before if the ranges of the partitions do not overlap.
pub open spec fn apart(m: Map<Seq<char>, Partition>) -> bool {
    forall|k: Seq<char>, o: Seq<char>| m.contains_key(k) && m.contains_key(o) && k != o ==> (#[trigger] m[k]).end < (#[trigger] m[o]).start || m[o].end < m[k].start
}
pub proof fn fresh(m: Map<Seq<char>, Partition>, k: Seq<char>, n: nat, first: i64, m2: Map<Seq<char>, Partition>, e: i64)
    requires all_wf(m), apart(m), allocates(m, k, n, first, m2), first <= e < first + n
    ensures !allocated(m, e), m[k].start <= e <= m[k].end, allocated(m2, e), all_wf(m2), apart(m2)
{
    assert(m2.contains_key(k) && given(m2[k], e));
    assert forall|o: Seq<char>| #[trigger] m.contains_key(o) implies !given(m[o], e) by { if o != k { assert(m[k].end < m[o].start || m[o].end < m[k].start); } }
    assert forall|o: Seq<char>| #[trigger] m2.contains_key(o) implies wf(m2[o]) by { assert(m.contains_key(o)); }
    assert forall|a: Seq<char>, b: Seq<char>| m2.contains_key(a) && m2.contains_key(b) && a != b implies (#[trigger] m2[a]).end < (#[trigger] m2[b]).start || m2[b].end < m2[a].start by {
        assert(m.contains_key(a) && m.contains_key(b));
        assert(m[a].end < m[b].start || m[b].end < m[a].start);
    }
}
// What was allocated stays allocated, whatever is allocated afterwards.
pub proof fn grows(m: Map<Seq<char>, Partition>, k: Seq<char>, n: nat, first: i64, m2: Map<Seq<char>, Partition>, e: i64)
    requires allocates(m, k, n, first, m2), allocated(m, e)
    ensures allocated(m2, e)
{
    let o = choose|o: Seq<char>| #[trigger] m.contains_key(o) && given(m[o], e);
    assert(m2.contains_key(o) && given(m2[o], e));
}
"""

    # tx.rs: the tempids of a transaction, and the transaction's own id.
    out += "\n#[verifier::external_body] pub struct TempId { x: () }\npub type TempIdHandle = ValueRc<TempId>;\n"
    out += """
impl BTreeMap<TempIdHandle, usize> {
  #[verifier::external_body] pub fn max_value_(&self) -> (r: Option<usize>)
    ensures match r { None => self@.dom() =~= Set::<TempIdHandle>::empty(),
        Some(m) => (exists|t: TempIdHandle| #[trigger] self@.contains_key(t) && self@[t] == m) && forall|t: TempIdHandle| #[trigger] self@.contains_key(t) ==> self@[t] <= m } { unimplemented!() }
}
"""
    f = tx.fn("transact_simple_terms_with_action")
    m = re.search(r"(let entid_count = unresolved_temp_ids.*?\.collect\(\);)", f.body, re.S)
    if not m:
        raise extract.LostAnchor("tx.rs: the allocation of tempids")
    f.name = "allocate_tempids"
    f.head = "fn allocate_tempids(partition_map: &mut PartitionMap, unresolved_temp_ids: BTreeMap<TempIdHandle, usize>) -> (r: HashMap<TempIdHandle, KnownEntid>)"
    f.body = "{\n" + m.group(1) + "\ntemp_id_allocations\n}"
    f.rewrites.append("transact_simple_terms_with_action: only the allocation of tempids (its statements, unchanged) is under contract here")
    f.sub(r"self\s*\.partition_map", "partition_map", "the partition map is the parameter")
    f.sub(r"unresolved_temp_ids\s*\.values\(\)\s*\.max\(\)\s*\.map_or\((.*?), \|(\w+)\| (.*?)\);",
          r"match unresolved_temp_ids.max_value_() { None => \1, Some(\2) => \3 };", "max and map_or")
    f.sub(r"unresolved_temp_ids\s*\.into_iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\| \(\1, (.*)\)\)\s*\.collect\(\);",
          r"""{ let mut out_ = HashMap::new(); let ghost all = unresolved_temp_ids@; let es = unresolved_temp_ids.entries(); let mut i: usize = 0;
          assert forall|j: int| 0 <= j < es@.len() implies all.contains_key(*(#[trigger] es@[j]).0) && all[*es@[j].0] == *es@[j].1 by {
              let s = es@.map_values(|p: (&TempIdHandle, &usize)| (*p.0, *p.1)); assert(s[j] == (*es@[j].0, *es@[j].1)); }
          assert forall|k: TempIdHandle| #[trigger] all.contains_key(k) implies exists|j: int| 0 <= j < es@.len() && *(#[trigger] es@[j]).0 == k by {
              let s = es@.map_values(|p: (&TempIdHandle, &usize)| (*p.0, *p.1)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(*es@[j].0 == k); }
          while i < es.len()
            invariant i <= es@.len(), entids.start + entid_count <= i64::MAX, entid_count <= 0x1000_0000_0000_0000,
                forall|k: TempIdHandle| all.contains_key(k) ==> (#[trigger] all[k]) < entid_count,
                forall|j: int| 0 <= j < es@.len() ==> all.contains_key(*(#[trigger] es@[j]).0) && all[*es@[j].0] == *es@[j].1,
                forall|k: TempIdHandle| #[trigger] out_@.contains_key(k) ==> all.contains_key(k) && out_@[k] == KnownEntid((entids.start + all[k]) as i64),
                forall|j: int| 0 <= j < i ==> out_@.contains_key(*(#[trigger] es@[j]).0),
            decreases es@.len() - i
          { proof { assert(all.contains_key(*es@[i as int].0) && all[*es@[i as int].0] == *es@[i as int].1); assert(all[*es@[i as int].0] < entid_count); }
            let \1 = es[i].0.clone(); let \2 = *es[i].1; let image_ = \3; out_.insert(\1, image_); i += 1; }
          out_ };""", "into_iter().map().collect(): a loop over the entries")
    out += u.emit(f, """
        requires all_wf(old(partition_map)@), old(partition_map)@.contains_key(":db.part/user"@),
            old(partition_map)@[":db.part/user"@].end < 0x4000_0000_0000_0000,
            // indices come from numbering the tempids of one transaction
            forall|t: TempIdHandle| unresolved_temp_ids@.contains_key(t) ==> (#[trigger] unresolved_temp_ids@[t]) < 0x1000_0000_0000_0000,
        ensures all_wf(final(partition_map)@), r@.dom() =~= unresolved_temp_ids@.dom(),
            // every new entity gets an id of the user partition past all earlier ones, now allocated; distinct indices get distinct ids
            forall|t: TempIdHandle| unresolved_temp_ids@.contains_key(t) ==>
                (#[trigger] r@[t]).0 == old(partition_map)@[":db.part/user"@].next_entid_to_allocate + unresolved_temp_ids@[t]
                && !given(old(partition_map)@[":db.part/user"@], r@[t].0) && given(final(partition_map)@[":db.part/user"@], r@[t].0),
            // and nothing else is allocated
            exists|n: nat| (n == 0 || exists|t: TempIdHandle| #[trigger] unresolved_temp_ids@.contains_key(t) && unresolved_temp_ids@[t] + 1 == n)
                && #[trigger] allocates(old(partition_map)@, ":db.part/user"@, n, old(partition_map)@[":db.part/user"@].next_entid_to_allocate, final(partition_map)@),
    """)
    # numeric subjects
    u.assume("of start_tx only the allocation of the transaction's id is under contract; Tx::new stores the partition map and the id it is given")
    f = tx.fn("start_tx")
    m = re.search(r"let tx_id = (.*?);", f.body, re.S)
    n = re.search(r"Tx::new\((.*?)\)\)", f.body, re.S)
    if not m or not n:
        raise extract.LostAnchor("tx.rs: start_tx")
    args = [a.strip() for a in n.group(1).split(",") if a.strip()]
    if len(args) != 6:
        raise extract.LostAnchor("tx.rs: start_tx: Tx::new")
    f.head = "fn start_tx(mut partition_map: PartitionMap) -> (r: (PartitionMap, Entid))"
    f.body = "{\n" + m.group(0) + "\n(%s, %s)\n}" % (args[1], args[5])
    f.rewrites.append("start_tx: reduced to the id it allocates and what it passes to Tx::new")
    out += u.emit(f, """
        requires all_wf(partition_map@), has_room(partition_map@, ":db.part/tx"@, 1)
        ensures allocates(partition_map@, ":db.part/tx"@, 1, r.1, r.0@),
    """)

    out += numeric(u, tx, ent, core, it, ut)
    return out


def numeric(u, tx, ent, core, it, ut):
    """Entities in the notations of a transaction: numeric ids are checked against the partitions."""
    u.assume("what is not a numeric id (tempids, lookup refs, idents, values) is opaque: interning, lookup and coercion are not modelled here")
    out = u.struct(ut, "Either") + "pub use Either::*;\n"
    out += "#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, "ValueType")
    out += """
pub mod entmod {
use vstd::prelude::*;
use super::*;
""" + u.struct(ent, "EntidOrIdent") + "#[verifier::reject_recursive_types(V)]\n" + u.struct(ent, "EntityPlace") + """
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct LookupRef<V> { x: V }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct MapNotation<V> { x: V }
pub struct TxFunction { pub op: TxOp }
#[verifier::external_body] pub struct TxOp { x: () }
#[verifier::reject_recursive_types(V)]
""" + u.struct(ent, "ValuePlace").replace("Vector(Vec<ValuePlace<V>>)", "Vector(Values<V>)") + """
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Values<V> { x: V }
impl EntidOrIdent { #[verifier::external_body] pub fn unreversed(&self) -> Option<EntidOrIdent> { unimplemented!() } }
}
use entmod::{EntidOrIdent, TxOp};
pub enum FnName { TransactionTx, Other }
pub uninterp spec fn names_tx(op: TxOp) -> bool;
#[verifier::external_body] pub fn fn_name(op: &TxOp) -> (r: FnName) ensures r is TransactionTx <==> names_tx(*op) { unimplemented!() }
pub type KnownEntidOr<T> = Either<KnownEntid, T>;
pub type TypedValueOr<T> = Either<TypedValue, T>;
#[verifier::external_body] pub struct LookupRef { x: () }
""" + u.struct(it, "LookupRefOrTempId") + """
pub trait TransactableValue: Sized {
  fn as_tempid(&self) -> Option<TempIdHandle>;
  fn into_typed_value(self, schema: &Schema, t: ValueType) -> Result<TypedValue>;
}
pub struct Attribute { pub value_type: ValueType }
#[verifier::external_body] pub struct Schema { x: () }
pub uninterp spec fn entid_of(s: Schema, k: Keyword) -> Option<i64>;
impl Schema {
  #[verifier::external_body] pub fn require_entid(&self, k: &Keyword) -> (r: Result<KnownEntid>)
    ensures r is Ok ==> entid_of(*self, *k) == Some(r->Ok_0.0) { unimplemented!() }
  #[verifier::external_body] pub fn require_attribute_for_entid(&self, a: Entid) -> (r: Result<&Attribute>) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct InternSet<T> { x: T }
impl InternSet<TempId> { #[verifier::external_body] pub fn intern(&mut self, t: TempIdHandle) -> TempIdHandle { unimplemented!() } }
pub struct InProcess<'a> { pub partition_map: &'a PartitionMap, pub schema: &'a Schema, pub mentat_id_count: i64, pub tx_id: KnownEntid, pub temp_ids: InternSet<TempId>, pub lookup_refs: InternSet<LookupRef> }
// Everything but the interned handles stays.
pub open spec fn frame(a: InProcess, b: InProcess) -> bool { a.partition_map@ == b.partition_map@ && a.schema == b.schema && a.tx_id == b.tx_id }
// An entity the user did not make up: allocated, named by an ident of the schema, or this transaction.
pub open spec fn known(p: InProcess, e: i64) -> bool {
    allocated(p.partition_map@, e) || e == p.tx_id.0 || exists|k: Keyword| #[trigger] entid_of(*p.schema, k) == Some(e)
}
impl<'a> InProcess<'a> {
  #[verifier::external_body] pub fn intern_lookup_ref<W: TransactableValue>(&mut self, l: &entmod::LookupRef<W>) -> (r: Result<LookupRef>)
    ensures frame(*final(self), *old(self)) { unimplemented!() }
"""
    W = r"impl<'a> InProcess<'a>"

    def get(name):
        f = tx.fn(name, W).ret("r")
        f.macro("bail", units.bail(), "errors are opaque")
        f.sub(r"\bref (\w+)", r"\1", "bound by value", count=0, minimum=0)
        f.sub(r"\(\*(\w+)\)", r"(\1)", "bound by value", count=0, minimum=0)
        f.sub(r"=> \*(\w+),", r"=> \1,", "bound by value", count=0, minimum=0)
        f.sub(r"intern_lookup_ref\((\w+)\)", r"intern_lookup_ref(&\1)", "bound by value", count=0, minimum=0)
        f.sub(r"match tx_function\.op\.0\.as_str\(\)", "match fn_name(&tx_function.op)", "the name of the function", count=0, minimum=0)
        f.sub(r'"transaction-tx" =>', "FnName::TransactionTx =>", "the name of the function", count=0, minimum=0)
        return f
    out += u.emit(get("ensure_entid_exists"), "ensures r is Ok <==> allocated(self.partition_map@, e), r is Ok ==> r->Ok_0.0 == e")
    out += u.emit(get("ensure_ident_exists"), "ensures r is Ok ==> entid_of(*self.schema, *e) == Some(r->Ok_0.0)")
    f = get("entity_e_into_term_e")
    out += u.emit(f, """
        ensures frame(*final(self), *old(self)),
            // a numeric subject is accepted only if allocated
            r is Ok ==> (x matches entmod::EntityPlace::Entid(EntidOrIdent::Entid(n)) ==> allocated(old(self).partition_map@, n) && r->Ok_0 == Either::<KnownEntid, LookupRefOrTempId>::Left(KnownEntid(n))),
            r is Ok ==> (r->Ok_0 matches Either::Left(k) ==> known(*old(self), k.0)),
    """)
    f = get("entity_a_into_term_a")
    f.sub(r"self\.schema\.require_entid\(&(\w+)\)\?\.into\(\)", r"self.schema.require_entid(&\1)?.0", "From<KnownEntid> for i64")
    out += u.emit(f, "ensures frame(*final(self), *old(self))")
    f = get("entity_e_into_term_v")
    f.sub(r"(self\.entity_e_into_term_e\(\w+\))\s*\.map\(\|(\w+)\| \2\.map_left\(\|(\w+)\| (.*?)\)\)(?=\s*})",
          r"match \1 { Err(e_) => Err(e_), Ok(Either::Right(t_)) => Ok(Either::Right(t_)), Ok(Either::Left(\3)) => Ok(Either::Left(\4)) }", "map and map_left")
    out += u.emit(f, """
        ensures frame(*final(self), *old(self)),
            r is Ok ==> (x matches entmod::EntityPlace::Entid(EntidOrIdent::Entid(n)) ==> allocated(old(self).partition_map@, n) && r->Ok_0 == Either::<TypedValue, LookupRefOrTempId>::Left(TypedValue::Ref(n))),
            r is Ok ==> (r->Ok_0 matches Either::Left(TypedValue::Ref(k)) ==> known(*old(self), k)),
    """)
    f = get("entity_v_into_term_e")
    f.sub(r"(self\.ensure_entid_exists\(\w+\))\.map\(Either::Left\)", r"match \1 { Ok(k_) => Ok(Either::Left(k_)), Err(e_) => Err(e_) }", "map", count=0, minimum=0)
    f.sub(r"forward_attribute\.value_type", "forward_attribute.value_type", "no change", minimum=0)
    out += u.emit(f, """
        ensures frame(*final(self), *old(self)),
            // the subject in reversed notation: whatever its notation, it is known; a plain number has to be allocated
            r is Ok ==> (r->Ok_0 matches Either::Left(k) ==> known(*old(self), k.0)),
            r is Ok && (x is Atom || x matches entmod::ValuePlace::Entid(EntidOrIdent::Entid(_))) ==> (r->Ok_0 matches Either::Left(k) ==> allocated(old(self).partition_map@, k.0)),
    """)
    return out + "}\n"
