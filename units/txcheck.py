"""C05, C06: what is checked before a transaction's terms are stored (db/src/tx_checking.rs)."""
import units
T = units.load("types")

LOOPS = [r"for \(&\((\w+), (\w+)\), (\w+)\) in (\w+) \{", r"let all = \4.entries(); let ghost all0 = all@; for p in all { let (\1, \2) = *p.0; let \3 = p.1;"]
INNER = [r"for \(&(\w+), (?:ref )?(\w+)\) in (\w+) \{", r"let per = \3.entries(); let ghost per0 = per@; for q in per { let \1 = *q.0; let \2 = q.1;"]


def build(u):
    s, it = u.src("db/src/tx_checking.rs"), u.src("db/src/internal_types.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, ["BTreeMap"], ["BTreeSet"])
    core = u.src("core-traits/lib.rs")
    out += "pub mod attribute { pub use super::Unique; }\n" + "".join("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + u.struct(core, n) for n in ("Unique", "ValueType", "Attribute")).replace("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\npub struct Attribute", "pub struct Attribute")
    out += u.struct(it, "AddAndRetract").replace("pub(crate)", "pub").replace("pub pub", "pub")
    out += u.struct(u.src("db-traits/errors.rs"), "CardinalityConflict")
    out += """
pub type AEVTrie<'schema> = BTreeMap<(Entid, &'schema Attribute), BTreeMap<Entid, AddAndRetract>>;
pub type TypeDisagreements = BTreeMap<(Entid, Entid, TypedValue), ValueType>;
pub open spec fn type_of(v: TypedValue) -> ValueType { match v { TypedValue::Ref(_) => ValueType::Ref, TypedValue::Boolean(_) => ValueType::Boolean, TypedValue::Instant(_) => ValueType::Instant, TypedValue::Long(_) => ValueType::Long,
    TypedValue::Double(_) => ValueType::Double, TypedValue::String(_) => ValueType::String, TypedValue::Uuid(_) => ValueType::Uuid, TypedValue::Keyword(_) => ValueType::Keyword } }
impl<K> BTreeSet<K> {
  #[verifier::external_body] pub fn meet(&self, o: &BTreeSet<K>) -> (r: BTreeSet<K>) ensures r@ == self@.intersect(o@) { unimplemented!() }
  #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: Vec<&'a K>)
    ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*(#[trigger] r@[i])), forall|v: K| #[trigger] self@.contains(v) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == v { unimplemented!() }
}
// Everything in either set.
#[verifier::external_body] pub fn chained<'a>(a: &'a BTreeSet<TypedValue>, b: &'a BTreeSet<TypedValue>) -> (r: Vec<&'a TypedValue>)
  ensures forall|i: int| 0 <= i < r@.len() ==> a@.contains(*(#[trigger] r@[i])) || b@.contains(*r@[i]),
    forall|v: TypedValue| #[trigger] a@.contains(v) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == v,
    forall|v: TypedValue| #[trigger] b@.contains(v) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == v { unimplemented!() }
// One entity's terms about one attribute.
pub open spec fn typed(t: ValueType, x: AddAndRetract) -> bool { forall|v: TypedValue| #![trigger x.add@.contains(v)] #![trigger x.retract@.contains(v)] x.add@.contains(v) || x.retract@.contains(v) ==> type_of(v) == t }
pub open spec fn single(multival: bool, x: AddAndRetract) -> bool { (!multival ==> x.add@.len() <= 1) && x.add@.intersect(x.retract@) =~= Set::<TypedValue>::empty() }
pub open spec fn all_typed(t: ValueType, m: Map<Entid, AddAndRetract>) -> bool { forall|e: Entid| #[trigger] m.contains_key(e) ==> typed(t, m[e]) }
pub open spec fn all_single(multival: bool, m: Map<Entid, AddAndRetract>) -> bool { forall|e: Entid| #[trigger] m.contains_key(e) ==> single(multival, m[e]) }
"""
    vt = core.fn("value_type", r"impl TypedValue\b").ret("r")
    out += "impl TypedValue {\n" + u.emit(vt, "ensures r == type_of(*self)") + "}\n"
    for name, inner_ok, ok, arg in [("type_disagreements", "typed", "all_typed", "value_type"), ("cardinality_conflicts", "single", "all_single", "multival")]:
        f = s.fn(name).ret("r")
        f.sub(*LOOPS, "iterating over a map", count=1)
        f.sub(*INNER, "iterating over a map", count=1)
        f.sub(r"(\w+\.add)\.iter\(\)\.chain\((\w+\.retract)\.iter\(\)\)", r"chained(&\1, &\2)", "chained iteration", minimum=0)
        f.sub(r"(\w+\.retract)\.iter\(\)\.chain\((\w+\.add)\.iter\(\)\)", r"chained(&\1, &\2)", "chained iteration", minimum=0)
        f.sub(r"(\w+\.\w+)\s*\.intersection\(&(\w+\.\w+)\)\s*\.cloned\(\)\s*\.collect\(\)", r"\1.meet(&\2)", "intersection", minimum=0)
        f.sub(r"let mut errors = vec!\[\];", "let mut errors: Vec<CardinalityConflict> = Vec::new();", "the empty vector", minimum=0)
        empty = "errors@ =~= Map::<(Entid, Entid, TypedValue), ValueType>::empty()" if "type" in name else "errors@.len() == 0"
        seen = "(%s <==> forall|i: int| 0 <= i < it.index@ ==> %s((#[trigger] all0[i]).0.1.%s, all0[i].1@))" % (empty, ok, arg)
        mid = "(%s <==> was && forall|j: int| 0 <= j < it2.index@ ==> %s(attribute.%s, *(#[trigger] per0[j]).1))" % (empty, inner_ok, arg)
        specs = [dict(name="it", invariant="invariant it.seq() == all0, entries_of(aev_trie@, all0.map_values(|p: (&(Entid, &Attribute), &BTreeMap<Entid, AddAndRetract>)| (*p.0, *p.1))), %s," % seen,
                      start="let ghost was = %s; let ghost here = it.index@;" % empty,
                      end="proof { let m = all0[here].1@; assert(%s(attribute.%s, m) <==> forall|j: int| 0 <= j < per0.len() ==> %s(attribute.%s, *(#[trigger] per0[j]).1)) by { if forall|j: int| 0 <= j < per0.len() ==> %s(attribute.%s, *(#[trigger] per0[j]).1) { assert forall|e: Entid| #[trigger] m.contains_key(e) implies %s(attribute.%s, m[e]) by { let pairs = per0.map_values(|p: (&Entid, &AddAndRetract)| (*p.0, *p.1)); let j = choose|j: int| 0 <= j < pairs.len() && (#[trigger] pairs[j]).0 == e; assert(pairs[j] == (*per0[j].0, *per0[j].1)); } } else { let j = choose|j: int| 0 <= j < per0.len() && !%s(attribute.%s, *(#[trigger] per0[j]).1); let pairs = per0.map_values(|p: (&Entid, &AddAndRetract)| (*p.0, *p.1)); assert(pairs[j] == (*per0[j].0, *per0[j].1)); assert(m.contains_key(pairs[j].0)); } } }" % (ok, arg, inner_ok, arg, inner_ok, arg, inner_ok, arg, inner_ok, arg)),
                 dict(name="it2", invariant="invariant it2.seq() == per0, entries_of(all0[here].1@, per0.map_values(|p: (&Entid, &AddAndRetract)| (*p.0, *p.1))), %s," % mid)]
        if "type" in name:
            specs.append(dict(name="it3", before="let ghost was2 = %s; " % empty, invariant="invariant (%s <==> was2 && forall|k: int| 0 <= k < it3.index@ ==> type_of(*(#[trigger] it3.seq()[k])) == attribute.value_type)," % empty,
                 start="let ghost before = errors@;",
                 end="proof { assert(it3.seq()[it3.index@] == v); if type_of(*v) != attribute.value_type { assert(errors@.contains_key((e, a, *v))); } else { assert(errors@ == before); } }"))
            # name the values visited
        else:
            specs[1]["end"] = "proof { assert(ars.retract@.intersect(ars.add@) =~= ars.add@.intersect(ars.retract@)); }"
        f.annotate(specs)
        empty_r = empty.replace("errors", "r")
        f.body = f.body.rstrip()[:-1]
        tail = f.body.rstrip()
        if not tail.endswith("errors"):
            raise units.extract.LostAnchor(name + " does not end with its errors")
        f.body = tail[:-6] + """proof {
            let pairs = all0.map_values(|p: (&(Entid, &Attribute), &BTreeMap<Entid, AddAndRetract>)| (*p.0, *p.1));
            if %(empty)s { assert forall|k: (Entid, &Attribute)| #[trigger] aev_trie@.contains_key(k) implies %(ok)s(k.1.%(arg)s, aev_trie@[k]@) by { let i = choose|i: int| 0 <= i < pairs.len() && (#[trigger] pairs[i]).0 == k; assert(pairs[i] == (*all0[i].0, *all0[i].1)); } }
            else { let i = choose|i: int| 0 <= i < all0.len() && !%(ok)s((#[trigger] all0[i]).0.1.%(arg)s, all0[i].1@); assert(pairs[i] == (*all0[i].0, *all0[i].1)); assert(aev_trie@.contains_key(pairs[i].0)); }
        } errors }""" % dict(empty=empty, ok=ok, arg=arg)
        out += u.emit(f, "ensures %s <==> forall|k: (Entid, &Attribute)| #[trigger] aev_trie@.contains_key(k) ==> %s(k.1.%s, aev_trie@[k]@)" % (empty_r, ok, arg))
    return out
