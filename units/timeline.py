"""C12: which transactions are moved, in which order, and what a refused or failed move leaves (db/src/timelines.rs)."""
import re
import units, extract
T = units.load("types")

SPEC = """
pub const TIMELINE_MAIN: Entid = MAIN_;
#[verifier::external_body] pub struct IdentMap { x: () }
#[verifier::external_body] pub struct AttributeMap { x: () }
#[verifier::external_body] pub struct PartitionMap { x: () }
#[verifier::external_body] pub struct Schema { x: () }
pub struct RangeFrom<T> { pub start: T }
// The store: the transactions of each timeline, the facts, the idents and schema tables.
// `below`: the facts are what the log of the main timeline below it says.
// `idents` and `schema`: the tables agree with the facts; `flags`: so do the index flags.
pub struct Db { pub log: Map<Entid, Set<Entid>>, pub below: int, pub idents: bool, pub schema: bool, pub flags: bool, pub rest: int }
#[verifier::external_body] pub struct Connection { x: () }
pub open spec fn txs(d: Db, t: Entid) -> Set<Entid> { if d.log.contains_key(t) { d.log[t] } else { Set::empty() } }
pub open spec fn sound(d: Db) -> bool { (forall|x: Entid| #[trigger] txs(d, TIMELINE_MAIN).contains(x) ==> x < d.below) && d.idents && d.schema && d.flags }
pub uninterp spec fn idents_at(below: int, rest: int) -> IdentMap;
pub uninterp spec fn attributes_at(below: int, rest: int) -> AttributeMap;
pub open spec fn idents_of(d: Db) -> IdentMap { idents_at(d.below, d.rest) }
pub open spec fn attributes_of(d: Db) -> AttributeMap { attributes_at(d.below, d.rest) }
// The schema the facts describe.
pub open spec fn the_schema(d: Db) -> Schema { schema_of(idents_of(d), attributes_of(d)) }
pub uninterp spec fn partitions_of(d: Db) -> PartitionMap;
impl Connection { pub uninterp spec fn view(&self) -> Db;
  #[verifier::external_body] pub fn undo_(&mut self, saved: Ghost<Db>) ensures final(self)@ == saved@ { unimplemented!() } }
pub open spec fn descending(s: Seq<Entid>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) > (#[trigger] s[j]) }
pub open spec fn exactly(s: Seq<Entid>, m: Set<Entid>) -> bool { (forall|x: Entid| #[trigger] m.contains(x) ==> s.contains(x)) && (forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])) }
pub open spec fn from(m: Set<Entid>, start: Entid) -> Set<Entid> { m.filter(|x: Entid| x >= start) }
// What the query of collect_ordered_txs_to_move gives (unit sql_rewind).
#[verifier::external_body] pub struct Rows { x: () }
impl Rows { pub uninterp spec fn rest(&self) -> Seq<Result<(Entid, Entid)>>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<(Entid, Entid)>>)
    ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
      old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
  #[verifier::external_body] pub fn all(self) -> (r: Vec<Result<(Entid, Entid)>>) ensures r@ == self.rest() { unimplemented!() } }
pub open spec fn firsts(s: Seq<Result<(Entid, Entid)>>) -> Seq<Entid> { s.map_values(|x: Result<(Entid, Entid)>| x->Ok_0.0) }
#[verifier::external_body] pub fn txs_query(conn: &Connection, start: Entid, timeline: Entid) -> (r: Result<Rows>)
  ensures r matches Ok(w_) ==> ((forall|i: int| 0 <= i < w_.rest().len() && (#[trigger] w_.rest()[i]) is Ok ==> w_.rest()[i]->Ok_0.1 == timeline)
    && ((forall|i: int| 0 <= i < w_.rest().len() ==> (#[trigger] w_.rest()[i]) is Ok) ==> descending(firsts(w_.rest())) && exactly(firsts(w_.rest()), from(txs(conn@, timeline), start)))) { unimplemented!() }
// Contracts of the callees: what their SQL does is unit sql_rewind's.
#[verifier::external_body] pub fn is_timeline_empty(conn: &Connection, timeline: Entid) -> (r: Result<bool>) ensures r matches Ok(w_) ==> w_ == (txs(conn@, timeline) =~= Set::<Entid>::empty()) { unimplemented!() }
#[verifier::external_body] pub fn rewind_datoms(conn: &mut Connection, tx_id: Entid) -> (r: Result<()>)
  requires tx_id < old(conn)@.below, forall|x: Entid| #[trigger] txs(old(conn)@, TIMELINE_MAIN).contains(x) ==> !(tx_id < x < old(conn)@.below)
  ensures r is Ok ==> final(conn)@ == (Db { below: tx_id as int, idents: false, schema: false, flags: false, ..old(conn)@ }) { unimplemented!() }
#[verifier::external_body] pub fn materialize_idents(conn: &mut Connection) -> (r: Result<()>) ensures r is Ok ==> final(conn)@ == (Db { idents: true, ..old(conn)@ }) { unimplemented!() }
#[verifier::external_body] pub fn materialize_schema(conn: &mut Connection) -> (r: Result<()>) ensures r is Ok ==> final(conn)@ == (Db { schema: true, ..old(conn)@ }) { unimplemented!() }
#[verifier::external_body] pub fn read_ident_map(conn: &Connection) -> (r: Result<IdentMap>) requires conn@.idents ensures r matches Ok(w_) ==> w_ == idents_of(conn@) { unimplemented!() }
#[verifier::external_body] pub fn read_attribute_map(conn: &Connection) -> (r: Result<AttributeMap>) requires conn@.schema ensures r matches Ok(w_) ==> w_ == attributes_of(conn@) { unimplemented!() }
#[verifier::external_body] pub fn read_partition_map(conn: &Connection) -> (r: Result<PartitionMap>) ensures r matches Ok(w_) ==> w_ == partitions_of(conn@) { unimplemented!() }
pub uninterp spec fn schema_of(i: IdentMap, a: AttributeMap) -> Schema;
impl Schema { #[verifier::external_body] pub fn from_ident_map_and_attribute_map(i: IdentMap, a: AttributeMap) -> (r: Result<Schema>) ensures r matches Ok(w_) ==> w_ == schema_of(i, a) { unimplemented!() } }
#[verifier::external_body] pub fn index_datoms(conn: &mut Connection, tx_ids: &Vec<Entid>, rewound: &Schema, schema: &Schema) -> (r: Result<()>)
  requires *rewound == the_schema(old(conn)@), forall|i: int| 0 <= i < tx_ids@.len() ==> txs(old(conn)@, TIMELINE_MAIN).contains(#[trigger] tx_ids@[i]),
    forall|x: Entid| #[trigger] txs(old(conn)@, TIMELINE_MAIN).contains(x) && x >= old(conn)@.below ==> tx_ids@.contains(x)
  ensures r is Ok ==> final(conn)@ == (Db { flags: true, ..old(conn)@ }) { unimplemented!() }
pub open spec fn moved(d: Db, ids: Seq<Entid>, to: Entid) -> Map<Entid, Set<Entid>> { d.log.insert(TIMELINE_MAIN, txs(d, TIMELINE_MAIN).filter(|x: Entid| !ids.contains(x))).insert(to, txs(d, to).union(txs(d, TIMELINE_MAIN).filter(|x: Entid| ids.contains(x)))) }
#[verifier::external_body] pub fn move_transactions_to(conn: &mut Connection, tx_ids: &Vec<Entid>, new_timeline: Entid) -> (r: Result<()>)
  requires new_timeline != TIMELINE_MAIN, tx_ids@.len() > 0
  ensures r is Ok ==> final(conn)@ == (Db { log: moved(old(conn)@, tx_ids@, new_timeline), ..old(conn)@ }) { unimplemented!() }
#[verifier::external_body] pub fn same_schema(a: &Schema, b: &Schema) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
"""


def build(u):
    s = u.src("db/src/timelines.rs")
    m = re.search(r"(?:static|const) TIMELINE_MAIN\s*:\s*\w+\s*=\s*(-?\d+)\s*;", u.src("db/src/lib.rs").text)
    if not m:
        raise extract.LostAnchor("TIMELINE_MAIN")
    out = T.errors(u) + "pub type Entid = i64;\n" + SPEC.replace("MAIN_", m.group(1))
    u.assume("what the statements of rewind_datoms, move_transactions_to, is_timeline_empty and the query of collect_ordered_txs_to_move do: their contracts are discharged by unit sql_rewind")
    u.assume("materialize_idents, materialize_schema, index_datoms: contracts assumed here (replayed against histories)")
    u.assume("all_or_nothing undoes what an Err leaves (unit atomic)")

    f = s.fn("collect_ordered_txs_to_move").ret("r")
    f.subhead(r"&rusqlite::Connection", "&Connection", "the connection by its contract")
    rng, tl = re.search(r"(\w+): RangeFrom<Entid>", f.head).group(1), re.findall(r"(\w+): Entid", f.head)[-1]
    f.sub(r'let mut (\w+) = \w+\.prepare\("[^"]*"\)\?;\s*let mut (\w+) = \1\.query_and_then\(\s*&\[&%s\.start, &%s\],\s*\|row: &rusqlite::Row\| -> Result<\(Entid, Entid\)> \{ Ok\(\(row\.get\(0\)\?, row\.get\(1\)\?\)\) \},?\s*\)\?;' % (rng, tl),
          r"let mut \2 = txs_query(conn, %s.start, %s)?; let ghost all0 = \2.rest();" % (rng, tl), "what the query gives, by its contract")
    f.sub(r"let mut (\w+) = vec!\[\];", r"let mut \1: Vec<Entid> = Vec::new();", "the empty vector", minimum=0)
    f.sub(r"for (\w+) in rows \{", r"let left = rows.all(); for \1 in left {", "the rows that are left", minimum=0)
    f.macro("bail", units.bail(), "errors are opaque")
    vec = re.search(r"let mut (\w+): Vec<Entid>", f.body)
    if not vec:
        raise extract.LostAnchor("collect_ordered_txs_to_move collects into no vector")
    vec = vec.group(1)
    rowv = re.search(r"for (\w+) in left", f.body)
    if not rowv:
        raise extract.LostAnchor("collect_ordered_txs_to_move: the loop")
    f.annotate([dict(name="it", invariant="invariant %s == timeline0, it.seq() == all0.drop_first(), all0.len() > 0, %s@.len() == it.index@ + 1, forall|i: int| 0 <= i < %s@.len() ==> all0[i] is Ok && %s@[i] == (#[trigger] all0[i])->Ok_0.0," % (tl, vec, vec, vec) + " forall|i: int| 0 <= i < all0.len() && (#[trigger] all0[i]) is Ok ==> all0[i]->Ok_0.1 == timeline0,",
                     start="proof { assert(%s == all0[it.index@ + 1]); }" % rowv.group(1), after="proof { assert(%s@ =~= firsts(all0)); }" % vec)])
    f.prologue("let ghost timeline0 = %s;" % tl)
    out += u.emit(f, "ensures r matches Ok(w_) ==> w_@.len() > 0 && descending(w_@) && exactly(w_@, from(txs(conn@, %s), %s.start)), (r is Ok) ==> !(from(txs(conn@, %s), %s.start) =~= Set::<Entid>::empty())" % (tl, rng, tl, rng))

    f = s.fn("move_from_main_timeline").ret("r")
    f.subhead(r"conn: &rusqlite::Connection", "conn: &mut Connection", "the state of the connection made explicit")
    f.macro("bail", units.bail(), "errors are opaque")
    f.sub(r"\bcrate::TIMELINE_MAIN\b", "TIMELINE_MAIN", "paths", count=0, minimum=0)
    f.sub(r"\bdb::", "", "paths", count=0, minimum=0)
    f.sub(r"(\w+) == \*schema\b", r"same_schema(&\1, schema)", "PartialEq of Schema", minimum=0)
    f.sub(r"(\w+) != \*schema\b", r"!same_schema(&\1, schema)", "PartialEq of Schema", minimum=0)
    f.sub(r"for (\w+) in (\w+)\.iter\(\) \{", r"for \1 in &\2 {", "iterating over a slice", minimum=0)
    f.sub(r"for (\w+) in (\w+)\.iter\(\)\.rev\(\) \{", r"let per = &\2; for i_ in 0..per.len() { let \1 = &per[per.len() - 1 - i_];", "iterating backwards over a slice", minimum=0)
    f.sub(r"for (\w+) in &(\w+) \{", r"let per = &\2; for i_ in 0..per.len() { let \1 = &per[i_];", "iterating over a slice", minimum=0)
    f.sub(r"all_or_nothing\(conn, \|\| \{(.*)\}\)\s*\}\s*$", r"let ghost before = conn@; let r_ = inside_(conn, schema, &txs_to_move, new_timeline); if r_.is_err() { conn.undo_(Ghost(before)); } r_ }/*INSIDE*/\1/*END*/", "the closure of all_or_nothing as a function, and what all_or_nothing does")
    body, rest = f.body.split("/*INSIDE*/")
    inside = rest[:rest.rindex("/*END*/")]
    f.body = body
    for w in ("schema", "new_timeline", "txs_from"):
        if not re.search(r"\b%s: " % w, f.head):
            raise extract.LostAnchor("move_from_main_timeline: parameter " + w)
    if not re.search(r"let txs_to_move = ", f.body):
        raise extract.LostAnchor("move_from_main_timeline: txs_to_move")
    LOOP = re.compile(r"let per = &(\w+); for i_ in 0\.\.per\.len\(\) \{")
    if len(LOOP.findall(inside)) != 1:
        raise extract.LostAnchor("move_from_main_timeline: the rewinding loop")
    inside = LOOP.sub(r"""let per = &\1; for i_ in 0..per.len()
        invariant conn@ == (Db { below: (if i_ == 0 { old(conn)@.below } else { per@[i_ - 1] as int }), idents: i_ == 0 && old(conn)@.idents, schema: i_ == 0 && old(conn)@.schema, flags: i_ == 0 && old(conn)@.flags, ..old(conn)@ }),
          sound(old(conn)@), descending(per@), exactly(per@, from(txs(old(conn)@, TIMELINE_MAIN), start@)), per@ == txs_to_move@,
    { proof { let m = txs(old(conn)@, TIMELINE_MAIN); assert(from(m, start@).contains(per@[i_ as int]));
        assert forall|x: Entid| #[trigger] m.contains(x) implies !(per@[i_ as int] < x < conn@.below) by { if per@[i_ as int] < x && x < conn@.below { assert(from(m, start@).contains(x)); let j = choose|j: int| 0 <= j < per@.len() && per@[j] == x; assert(j < i_); if i_ > 0 && j < i_ - 1 { assert(per@[j] > per@[i_ - 1]); } } } }""", inside)
    k = re.search(r"for i_ in 0", inside)
    e = extract.close_of(extract.mask(inside), inside.index("{ proof { let m", k.start())) + 1
    inside = inside[:e] + """ proof { let m = txs(old(conn)@, TIMELINE_MAIN); let n = per@.len() as int;
        assert(from(m, start@).contains(per@[n - 1]));
        assert forall|x: Entid| #[trigger] m.contains(x) implies (x >= conn@.below <==> x >= start@) && (x >= start@ <==> per@.contains(x)) by {
          if x >= start@ { assert(from(m, start@).contains(x)); let j = choose|j: int| 0 <= j < n && per@[j] == x; if j < n - 1 { assert(per@[j] > per@[n - 1]); } }
          if per@.contains(x) { let j = choose|j: int| 0 <= j < n && per@[j] == x; assert(from(m, start@).contains(per@[j])); } } }""" + inside[e:]
    done = """ensures match r { Ok(w_) => { let d = final(conn)@; let o = old(conn)@; let m = txs(o, TIMELINE_MAIN);
            &&& sound(d) && d.rest == o.rest
            &&& txs(d, TIMELINE_MAIN) =~= m.filter(|x: Entid| x < START)
            &&& txs(d, new_timeline) =~= from(m, START) && !(from(m, START) =~= Set::<Entid>::empty())
            &&& (forall|t: Entid| t != TIMELINE_MAIN && t != new_timeline ==> #[trigger] txs(d, t) == txs(o, t))
            &&& (w_.0 matches Some(s_) ==> s_ == the_schema(d) && s_ != *schema) && (w_.0 is None ==> *schema == the_schema(d))
            &&& w_.1 == partitions_of(d) }, Err(_) => true }"""
    out += """
pub fn inside_(conn: &mut Connection, schema: &Schema, txs_to_move: &Vec<Entid>, new_timeline: Entid, start: Ghost<Entid>) -> (r: Result<(Option<Schema>, PartitionMap)>)
  requires sound(old(conn)@), new_timeline != TIMELINE_MAIN, txs(old(conn)@, new_timeline) =~= Set::<Entid>::empty(), txs_to_move@.len() > 0, descending(txs_to_move@), exactly(txs_to_move@, from(txs(old(conn)@, TIMELINE_MAIN), start@)), !(from(txs(old(conn)@, TIMELINE_MAIN), start@) =~= Set::<Entid>::empty()),
  """ + done.replace("START", "start@") + "\n{" + re.sub(r"&txs_to_move\b", "txs_to_move", inside).replace("*new_timeline", "new_timeline") + "}\n"
    f.sub(r"inside_\(conn, schema, &txs_to_move, new_timeline\)", "inside_(conn, schema, &txs_to_move, new_timeline, Ghost(txs_from_.start))", "ghost argument")
    f.prologue("let ghost txs_from_ = txs_from;")
    out += u.emit(f, "requires sound(old(conn)@) " + done.replace("START", "txs_from.start").replace("Err(_) => true", "Err(_) => final(conn)@ == old(conn)@")
                  + ",\n r is Ok ==> new_timeline != TIMELINE_MAIN && txs(old(conn)@, new_timeline) =~= Set::<Entid>::empty()")
    return out
