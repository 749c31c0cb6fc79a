"""C08: what a transaction's schema datoms amount to (db/src/add_retract_alter_set.rs)."""
import units
T = units.load("types")


def build(u):
    s = u.src("db/src/add_retract_alter_set.rs")
    out = T.collections(u, ["BTreeMap"])
    out += "#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]\n" + u.struct(s, "AddRetractAlterSet")
    out += """
// Nothing is at once asserted and retracted: such a pair is an alteration.
pub open spec fn apart<K, V>(s: AddRetractAlterSet<K, V>) -> bool {
    forall|k: K| #![auto] !(s.asserted@.contains_key(k) && s.retracted@.contains_key(k))
}
"""
    f = s.fn("witness", r"impl<K, V> AddRetractAlterSet<K, V>")
    out += "impl<K, V> AddRetractAlterSet<K, V> {\n" + u.emit(f, """
        requires apart(*old(self)),
        ensures apart(*final(self)),
            // an assertion of a key already retracted: altered from the retracted value to this one
            added && old(self).retracted@.contains_key(key) ==> final(self).altered@ == old(self).altered@.insert(key, (old(self).retracted@[key], value))
                && final(self).retracted@ == old(self).retracted@.remove(key) && final(self).asserted@ == old(self).asserted@,
            added && !old(self).retracted@.contains_key(key) ==> final(self).asserted@ == old(self).asserted@.insert(key, value)
                && final(self).retracted@ == old(self).retracted@ && final(self).altered@ == old(self).altered@,
            // a retraction of a key already asserted: altered from this value to the asserted one
            !added && old(self).asserted@.contains_key(key) ==> final(self).altered@ == old(self).altered@.insert(key, (value, old(self).asserted@[key]))
                && final(self).asserted@ == old(self).asserted@.remove(key) && final(self).retracted@ == old(self).retracted@,
            !added && !old(self).asserted@.contains_key(key) ==> final(self).retracted@ == old(self).retracted@.insert(key, value)
                && final(self).asserted@ == old(self).asserted@ && final(self).altered@ == old(self).altered@,
    """) + "}\n"
    return out
