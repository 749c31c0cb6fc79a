"""C10: all or nothing (db/src/tx.rs, transaction/src/lib.rs)."""
import re
import units, extract
T = units.load("types")


def build(u):
    s = u.src("db/src/tx.rs")
    out = T.errors(u)
    u.assume("SQLite: SAVEPOINT remembers the state, ROLLBACK TO restores it, RELEASE forgets the savepoint and keeps the state; what runs between leaves the savepoints of others alone")
    out += """
pub struct Db { pub now: int, pub saved: Seq<int>, pub io_error: bool }
#[verifier::external_body] pub struct Connection { x: () }
impl Connection {
  pub uninterp spec fn view(&self) -> Db;
  #[verifier::external_body] pub fn savepoint_(&mut self) -> (r: Result<()>)
    ensures match r { Ok(_) => final(self)@ == (Db { saved: old(self)@.saved.push(old(self)@.now), ..old(self)@ }),
                      Err(_) => final(self)@ == (Db { io_error: true, ..old(self)@ }) } { unimplemented!() }
  #[verifier::external_body] pub fn rollback_to_(&mut self) -> (r: Result<()>)
    requires old(self)@.saved.len() > 0
    ensures match r { Ok(_) => final(self)@ == (Db { now: old(self)@.saved.last(), ..old(self)@ }),
                      Err(_) => final(self)@.io_error } { unimplemented!() }
  #[verifier::external_body] pub fn release_(&mut self) -> (r: Result<()>)
    requires old(self)@.saved.len() > 0
    ensures match r { Ok(_) => final(self)@ == (Db { saved: old(self)@.saved.drop_last(), ..old(self)@ }),
                      Err(_) => final(self)@.io_error } { unimplemented!() }
}
// Whatever is done on the connection in between.
#[verifier::external_body] pub fn meanwhile<T, F: FnOnce() -> Result<T>>(conn: &mut Connection, f: F) -> (r: Result<T>)
    ensures final(conn)@.saved == old(conn)@.saved, final(conn)@.io_error == old(conn)@.io_error { unimplemented!() }
"""
    f = s.fn("all_or_nothing").ret("r")
    names = set(re.findall(r'"(?:SAVEPOINT|ROLLBACK TO(?: SAVEPOINT)?|RELEASE(?: SAVEPOINT)?) (\w+);?"', f.body))
    if len(names) != 1:
        raise extract.LostAnchor("all_or_nothing: savepoint names %s" % names)
    f.subhead(r"conn: &rusqlite::Connection", "conn: &mut Connection", "the state of the connection made explicit")
    f.sub(r'(\w+)\s*\.execute_batch\("SAVEPOINT \w+;?"\)', r"\1.savepoint_()", "what the statement does")
    f.sub(r'(\w+)\s*\.execute_batch\("ROLLBACK TO(?: SAVEPOINT)? \w+;?"\)', r"\1.rollback_to_()", "what the statement does", minimum=0, count=0)
    f.sub(r'(\w+)\s*\.execute_batch\("RELEASE(?: SAVEPOINT)? \w+;?"\)', r"\1.release_()", "what the statement does", minimum=0, count=0)
    f.sub(r"\btransact\(\)", "meanwhile(conn, transact)", "what is transacted may do anything but end the savepoint")
    out += u.emit(f, """
        requires !old(conn)@.io_error
        ensures !final(conn)@.io_error ==> final(conn)@.saved == old(conn)@.saved,
            !final(conn)@.io_error && r is Err ==> final(conn)@.now == old(conn)@.now,
    """)

    # Publishing a committed transaction to the connection.
    t = u.src("transaction/src/lib.rs")
    u.assume("SQLite's COMMIT of the in-progress transaction either takes effect entirely, or fails and takes none")
    u.assume("the connection's mutex is held for the whole of commit (the guard is a local of the function)")
    out += """
#[verifier::external_body] pub struct PartitionMap { x: () }
#[verifier::external_body] pub struct Schema { x: () }
#[verifier::external_body] pub struct SQLiteAttributeCache { x: () }
#[verifier::external_body] pub struct InProgressSQLiteAttributeCache { x: () }
#[verifier::external_body] pub struct Txes { x: () }
#[verifier::external_body] pub struct InProgressObserverTransactWatcherRest { x: () }
pub struct InProgressObserverTransactWatcher { pub rest: InProgressObserverTransactWatcherRest, pub txes: Txes }
#[verifier::external_body] pub struct Transaction { x: () }
pub uninterp spec fn commits(t: Transaction) -> bool;
impl Transaction { #[verifier::external_body] pub fn commit(self) -> (r: Result<()>) ensures r is Ok <==> commits(self) { unimplemented!() } }
pub uninterp spec fn published(c: InProgressSQLiteAttributeCache, old: SQLiteAttributeCache) -> SQLiteAttributeCache;
impl InProgressSQLiteAttributeCache { #[verifier::external_body] pub fn commit_to(self, c: &mut SQLiteAttributeCache) ensures *final(c) == published(self, *old(c)) { unimplemented!() } }
#[verifier::external_body] pub fn same_schema(a: &Schema, b: &Schema) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub struct Metadata { pub generation: u64, pub partition_map: PartitionMap, pub schema: std::sync::Arc<Schema>, pub attribute_cache: SQLiteAttributeCache }
#[verifier::external_body] pub struct TxObservationService { x: () }
impl TxObservationService {
  pub uninterp spec fn told(&self) -> Seq<Txes>;
  #[verifier::external_body] pub fn in_progress_did_commit(&mut self, t: Txes) ensures final(self).told() == old(self).told().push(t) { unimplemented!() }
}
use std::sync::Arc;
pub struct InProgress { pub transaction: Transaction, pub generation: u64, pub partition_map: PartitionMap, pub schema: Schema,
    pub cache: InProgressSQLiteAttributeCache, pub tx_observer_watcher: InProgressObserverTransactWatcher }
pub open spec fn the_schema(m: Metadata) -> Schema { *m.schema }
"""
    f = t.fn("commit", r"impl<'a, 'c> InProgress<'a, 'c>").ret("r")
    f.subhead(r"\(self\)", "(self, metadata: &mut Metadata, tx_observer: &mut TxObservationService)", "what the mutexes protect, passed in")
    f.sub(r"let (?:mut )?metadata = self\.mutex\.lock\(\)\.unwrap\(\);", "", "the guard is the parameter")
    f.sub(r"self\s*\.tx_observer\s*\.lock\(\)\s*\.unwrap\(\)", "tx_observer", "the guard is the parameter")
    f.sub(r"self\.schema != \*\(?metadata\.schema\)?", "!same_schema(&self.schema, &metadata.schema)", "PartialEq of Schema", minimum=0)
    f.macro("bail", units.bail(), "errors are opaque")
    out += "impl InProgress {\n" + u.emit(f, """
        requires old(metadata).generation < u64::MAX
        ensures r is Ok <==> self.generation == old(metadata).generation && commits(self.transaction),
            r is Ok ==> final(metadata).partition_map == self.partition_map && the_schema(*final(metadata)) == self.schema
                && final(metadata).generation == old(metadata).generation + 1
                && final(metadata).attribute_cache == published(self.cache, old(metadata).attribute_cache)
                && final(tx_observer).told() == old(tx_observer).told().push(self.tx_observer_watcher.txes),
            r is Err ==> *final(metadata) == *old(metadata) && final(tx_observer).told() == old(tx_observer).told(),
    """) + "}\n"
    return out
