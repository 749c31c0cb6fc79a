"""C13: who hears of what (db/src/tx_observer.rs)."""
import units
T = units.load("types")


def build(u):
    s = u.src("db/src/tx_observer.rs")
    out = T.errors(u) + T.values(u) + T.collections(u, ["IndexMap"], ["BTreeSet"])
    u.assume("IndexMap iterates over its entries in the order of insertion, each once; what a callback does is not modelled, only that it is called and with what")
    u.assume("std::mem::take gives what was there and leaves the empty value")
    out += """
pub type AttributeSet = BTreeSet<Entid>;
#[verifier::external_body] pub struct Schema { x: () }
#[verifier::external_body] pub struct Callback { x: () }
#[verifier::external_body] pub fn take_set(s: &mut AttributeSet) -> (r: AttributeSet) ensures r@ == old(s)@, final(s)@ == Set::<Entid>::empty() { unimplemented!() }
pub struct TxObserver { pub notify_fn: Callback, pub attributes: AttributeSet }
pub open spec fn concerns(o: TxObserver, attrs: AttributeSet) -> bool { exists|a: Entid| o.attributes@.contains(a) && attrs@.contains(a) }
// The entries of a map in order of insertion: what iterating visits.
impl<V> IndexMap<Entid, V> {
  pub uninterp spec fn entries_seq(&self) -> Seq<(Entid, V)>;
  #[verifier::external_body] pub fn iterate<'r>(&'r self) -> (r: Vec<(&'r Entid, &'r V)>)
    ensures r@.len() == self.entries_seq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.entries_seq()[i].0 && *r@[i].1 == self.entries_seq()[i].1 { unimplemented!() }
}
#[verifier::external_body] pub fn disjoint(a: &AttributeSet, b: &AttributeSet) -> (r: bool) ensures r == !(exists|x: Entid| a@.contains(x) && b@.contains(x)) { unimplemented!() }
pub open spec fn keep(o: TxObserver, s: Seq<(Entid, AttributeSet)>) -> Seq<(Entid, AttributeSet)>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if concerns(o, s.last().1) { keep(o, s.drop_last()).push(s.last()) } else { keep(o, s.drop_last()) } }
pub open spec fn as_seq<'r>(v: Seq<(&'r Entid, &'r AttributeSet)>) -> Seq<(Entid, AttributeSet)> { v.map_values(|p: (&'r Entid, &'r AttributeSet)| (*p.0, *p.1)) }
"""
    f = s.fn("applicable_reports", r"impl TxObserver\b").ret("r")
    f.subhead(r"IndexMap<&'r Entid, &'r AttributeSet>", "Vec<(&'r Entid, &'r AttributeSet)>", "what is kept, in order")
    f.sub(r"reports\s*\.(?:into_iter|iter)\(\)\s*\.filter\(\|&?\((\w+), (\w+)\)\|\s*(.*?)\)\s*\.collect\(\)\s*\}\s*$",
          r"let all = reports.iterate(); let mut kept = Vec::new(); let mut i: usize = 0; while i < all.len() { let \1 = all[i].0; let \2 = all[i].1; if \3 { kept.push((\1, \2)); } i = i + 1; } kept }",
          "filter and collect as the loop they stand for")
    f.sub(r"self\.attributes\.is_disjoint\((\w+)\)", r"disjoint(&self.attributes, \1)", "BTreeSet::is_disjoint")
    f.annotate([dict(kind="while", invariant="""invariant i <= all@.len(), all@.len() == reports.entries_seq().len(),
          forall|j: int| 0 <= j < all@.len() ==> *(#[trigger] all@[j]).0 == reports.entries_seq()[j].0 && *all@[j].1 == reports.entries_seq()[j].1,
          as_seq(kept@) =~= keep(*self, reports.entries_seq().take(i as int)),
          decreases all@.len() - i,""", before="proof { assert(reports.entries_seq().take(0) =~= Seq::empty()); }",
          start="let ghost k0 = kept@; proof { assert(reports.entries_seq().take(i + 1).drop_last() =~= reports.entries_seq().take(i as int)); }",
          end="proof { assert(as_seq(kept@) =~= keep(*self, reports.entries_seq().take(i as int))); }",
          after="proof { assert(reports.entries_seq().take(reports.entries_seq().len() as int) =~= reports.entries_seq()); }")])
    out += "impl TxObserver {\n" + u.emit(f, "ensures as_seq(r@) =~= keep(*self, reports.entries_seq())  // those that concern it, all of them, in order") + "}\n"

    out += u.struct(s, "InProgressObserverTransactWatcher") + "impl InProgressObserverTransactWatcher {\n"
    d = s.fn("datom", r"impl TransactWatcher for InProgressObserverTransactWatcher")
    out += u.emit(d, "ensures final(self).collected_attributes@ == old(self).collected_attributes@.insert(a), final(self).txes == old(self).txes")
    d = s.fn("done", r"impl TransactWatcher for InProgressObserverTransactWatcher").ret("r")
    d.sub(r"::?s?t?d?:?:?mem::take\(", "take_set(", "std::mem::take")
    out += u.emit(d, """ensures final(self).collected_attributes@ == Set::<Entid>::empty(), r is Ok,
        final(self).txes@.dom() =~= old(self).txes@.dom().insert(*t), final(self).txes@[*t]@ == old(self).collected_attributes@,
        forall|x: Entid| x != *t && old(self).txes@.contains_key(x) ==> final(self).txes@[x] == #[trigger] old(self).txes@[x]""")
    return out + "}\n"
