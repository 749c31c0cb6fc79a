//! C10 (all or nothing), C12 (timelines), C13 (observers).
use crate::gen::*;
use crate::schema::*;
use crate::store::*;
use crate::tx::*;
use crate::util::*;
use mentat_db::TxObserver;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

fn opt(r: &mut Rng) -> GenOpt {
    let mut o = default_opt();
    let mut pool: Vec<&'static str> = ATTRS.iter().map(|a| a.kw).collect();
    r.shuffle(&mut pool);
    pool.truncate(3 + r.below(5));
    if r.chance(3, 4) { o.attrs = pool; }
    o.temps = if r.chance(2, 3) { 2 } else { 0 };
    o.conflicts = r.chance(1, 4);
    o.max = 5;
    o
}
/// A transaction of data or of schema; or one that goes wrong somewhere on its way.
fn any_tx(r: &mut Rng, d: &Dump, ids: &BTreeMap<&'static str, i64>, min: i64, base: &BTreeSet<i64>, n: &mut usize, o: &GenOpt) -> String {
    let mut t = if r.chance(1, 3) { schema_tx(r, d, base, n) } else { let ops = gen_ops(r, d, ids, min, o); render(r, &ops) };
    if r.chance(1, 5) {
        let bad = match r.below(8) {
            0 => "[:db/add \"bad\" :p/l \"no long\"]".to_string(),
            1 => "[:db/add \"bad\" :p/nothing 1]".to_string(),
            2 => "[:db/add 60000000 :p/l 1]".to_string(),
            3 => "[:db/add (lookup-ref :p/idl 987654321) :p/l 1]".to_string(),
            4 => "{:db/ident :s/broken :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/unique :db.unique/value}".to_string(),
            5 => "[:db/add \"bad\" :p/uv \"twice\"] [:db/add \"worse\" :p/uv \"twice\"]".to_string(),
            6 => "[:db/add :p/l :db/valueType :db.type/string]".to_string(),
            _ => "[:db/add \"bad\" :p/l 5] [:db/retract \"bad\" :p/l 5]".to_string(),
        };
        t = format!("{} {}]", &t[..t.len() - 1], bad);
    }
    t
}
fn base() -> BTreeSet<i64> { S::mem().dump().facts.keys().map(|f| f.0).collect() }
pub fn differ(a: &Dump, b: &Dump) -> Option<String> {
    if a == b { return None; }
    if a.facts != b.facts {
        let x: Vec<_> = a.facts.iter().filter(|(k, v)| b.facts.get(k) != Some(v)).take(4).collect();
        let y: Vec<_> = b.facts.iter().filter(|(k, v)| a.facts.get(k) != Some(v)).take(4).collect();
        return Some(format!("facts {:?} instead of {:?}", x, y));
    }
    if a.log != b.log { return Some(format!("log {:?} instead of {:?}", a.log.iter().filter(|(k, v)| b.log.get(k) != Some(v)).take(3).collect::<Vec<_>>(), b.log.iter().filter(|(k, v)| a.log.get(k) != Some(v)).take(3).collect::<Vec<_>>())); }
    if a.idents != b.idents || a.schema != b.schema { return Some(format!("materialized idents/schema: unexpected {:?} {:?} missing {:?} {:?}", a.idents.difference(&b.idents).collect::<Vec<_>>(), a.schema.difference(&b.schema).collect::<Vec<_>>(), b.idents.difference(&a.idents).collect::<Vec<_>>(), b.schema.difference(&a.schema).collect::<Vec<_>>())); }
    if a.parts != b.parts { return Some(format!("partitions {:?} instead of {:?}", a.parts, b.parts)); }
    Some("index flags of facts".into())
}

pub fn c10_failed(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    let b = base();
    let mut n = 0;
    let o = opt(r);
    for _ in 0..3 + r.below(8) {
        let pre = h.s.dump();
        let prem = memory(&mut h.s);
        let t = any_tx(r, &pre, &h.ids, h.min, &b, &mut n, &o);
        info.note(t.clone());
        info.feed(&t);
        match h.s.t(&t) {
            Ok(_) => info.count("committed"),
            Err(e) => {
                info.count("failed");
                info.nontrivial = true;
                info.note(format!("  failed: {}", e));
                if let Some(x) = differ(&h.s.dump(), &pre) { return Err(format!("a transaction that failed left behind: {}", x)); }
                let mem = memory(&mut h.s);
                chk!(mem == prem, "a transaction that failed changed the schema or partitions in memory");
                chk!(mem == reopened(&mut h.s)?, "after a failure the schema or partitions in memory are not those on disk");
            }
        }
    }
    Ok(())
}

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let dir = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().to_string() };
        let p = format!("{}/replay-{}-{}", dir, std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        std::fs::create_dir(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn c10_progress(r: &mut Rng, info: &mut Info) -> Case {
    let scratch = Scratch::new();
    let mut s = S::file(&format!("{}/store.db", scratch.0));
    let ids = install(&mut s);
    let min = ids.values().max().unwrap() + 1;
    let b = base();
    let mut n = 0;
    let o = opt(r);
    let mut reader = mentat::new_connection(s.path.as_ref().unwrap()).map_err(|e| e.to_string())?;
    for _ in 0..1 + r.below(3) {
        let pre = s.dump();
        let prem = memory(&mut s);
        let how = r.below(4);
        info.note(format!("begin ({})", ["commit", "commit", "roll back", "drop"][how]));
        let mut now = pre.clone();
        let mut mem = prem.clone();
        let mut went = 0;
        {
            let mut ip = s.conn.begin_transaction(&mut s.sql).map_err(|e| e.to_string())?;
            let mut points: Vec<(String, Dump, _, usize)> = vec![];
            for _ in 0..1 + r.below(6) {
                let t = any_tx(r, &now, &ids, min, &b, &mut n, &o);
                info.note(format!("  {}", t));
                info.feed(&t);
                match ip.transact(t.as_str()) {
                    Ok(_) => {
                        went += 1;
                        info.count("succeeded");
                        now = dump(&ip.transaction);
                        mem = (ip.schema.clone(), parts(&ip.partition_map));
                    }
                    Err(e) => {
                        info.count("failed in progress");
                        info.note(format!("    failed: {}", e));
                        if let Some(x) = differ(&dump(&ip.transaction), &now) { return Err(format!("a transaction that failed left behind, in the one in progress: {}", x)); }
                        chk!(mem == (ip.schema.clone(), parts(&ip.partition_map)), "a transaction that failed changed the schema or partitions of the one in progress");
                    }
                }
                if r.chance(1, 3) {
                    let name = r.pick(&["one", "Two"]).to_string();
                    info.note(format!("  savepoint {}", name));
                    ip.savepoint(&name).map_err(|e| e.to_string())?;
                    points.push((name, now.clone(), mem.clone(), went));
                } else if !points.is_empty() && r.chance(1, 2) {
                    let i = r.below(points.len());
                    let name = points[i].0.clone();
                    let i = points.iter().rposition(|p| p.0 == name).unwrap();
                    let name = if r.chance(1, 3) { name.to_uppercase() } else { name };
                    if r.chance(3, 4) {
                        info.note(format!("  rollback to {}", name));
                        info.count("rolled back to a savepoint");
                        ip.rollback_savepoint(&name).map_err(|e| e.to_string())?;
                        let p = points[i].clone();
                        points.truncate(i + 1);
                        now = p.1; mem = p.2; went = p.3;
                        if let Some(x) = differ(&dump(&ip.transaction), &now) { return Err(format!("rolling back to a savepoint left behind: {}", x)); }
                        chk!(mem == (ip.schema.clone(), parts(&ip.partition_map)), "rolling back to a savepoint kept the schema or partitions in memory");
                    } else {
                        info.note(format!("  release {}", name));
                        ip.release_savepoint(&name).map_err(|e| e.to_string())?;
                        points.truncate(i);
                    }
                }
                if r.chance(1, 3) { if let Some(x) = differ(&dump(&reader), &pre) { return Err(format!("another reader sees uncommitted changes: {}", x)); } }
            }
            match how { 0 | 1 => ip.commit().map_err(|e| e.to_string())?, 2 => ip.rollback().map_err(|e| e.to_string())?, _ => drop(ip) }
        }
        if how > 1 { now = pre; mem = prem; info.count("abandoned"); } else { info.count("committed"); }
        if went > 0 { info.nontrivial = true; }
        let what = if how > 1 { "abandoned" } else { "committed" };
        if let Some(x) = differ(&s.dump(), &now) { return Err(format!("{}, the store has {}", what, x)); }
        chk!(mem == memory(&mut s), "{}, the schema or partitions in memory differ", what);
        chk!(*s.conn.current_schema() == mem.0, "{}, the current schema differs", what);
        if let Some(x) = differ(&dump(&reader), &now) { return Err(format!("{}, another reader sees {}", what, x)); }
        if r.chance(1, 2) {
            // closed and reopened
            let path = s.path.clone().unwrap();
            let S { sql, conn, .. } = s;
            drop(conn);
            drop(sql);
            s = S::file(&path);
            if let Some(x) = differ(&s.dump(), &now) { return Err(format!("{} and reopened, the store has {}", what, x)); }
            chk!(mem == memory(&mut s), "{} and reopened, the schema or partitions in memory differ", what);
            info.count("reopened");
        }
    }
    drop(reader);
    reader = mentat::new_connection("").map_err(|e| e.to_string())?;
    drop(reader);
    Ok(())
}

fn main_log(d: &Dump, tl: i64) -> BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>> { d.log.iter().filter(|(k, _)| k.1 == tl).map(|(k, v)| (k.0, v.clone())).collect() }
pub fn c12_rewind(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    let b = base();
    let mut n = 0;
    let o = opt(r);
    // a characteristic that is false is as good as absent from the schema table
    fn norm(mut d: Dump) -> Dump { d.schema = d.schema.into_iter().filter(|f| f.2 != V::Bool(false)).collect(); d }
    let mut past: Vec<(i64, Dump)> = vec![(0, norm(h.s.dump()))]; // after each transaction of the main timeline
    let mut timelines = 0;
    for _ in 0..1 + r.below(3) {
        for _ in 0..1 + r.below(5) {
            let d = h.s.dump();
            let t = if r.chance(1, 3) { schema_tx(r, &d, &b, &mut n) } else { let ops = gen_ops(r, &d, &h.ids, h.min, &o); render(r, &ops) };
            info.note(t.clone());
            info.feed(&t);
            match h.s.t(&t) { Ok(rep) => past.push((rep.tx_id, norm(h.s.dump()))), Err(e) => info.note(format!("  refused: {}", e)) }
        }
        let pre = norm(h.s.dump());
        let (schema, pm) = { let ip = h.s.conn.begin_transaction(&mut h.s.sql).map_err(|e| e.to_string())?; let x = (ip.schema.clone(), ip.partition_map.clone()); ip.rollback().map_err(|e| e.to_string())?; x };
        let last = past[past.len() - 1].0;
        // requests that name nothing to move, or somewhere to move it where there is something
        let bad: (i64, i64) = match r.below(3) { 0 => (last.max(0x10000000) + 5 + r.below(5) as i64, 77), 1 => (last, 0), _ => (last, timelines) };
        if bad.1 == 77 || bad.1 == 0 || timelines > 0 {
            let res = mentat_db::timelines::move_from_main_timeline(&h.s.sql, &schema, pm.clone(), bad.0.., bad.1);
            chk!(res.is_err(), "moving transactions from {} to timeline {} was accepted", bad.0, bad.1);
            if let Some(x) = differ(&norm(h.s.dump()), &pre) { return Err(format!("a refused move left behind: {}", x)); }
            info.count("refused");
        }
        if past.len() < 2 { continue; }
        let k = past.len() - 1 - r.below((past.len() - 1).min(4)); // the first to go
        let from = if r.chance(1, 4) && past[k - 1].0 > 0 { past[k - 1].0 + 1 } else { past[k].0 };
        timelines += 1;
        info.note(format!("move from {} ({} transactions) to timeline {}", from, past.len() - k, timelines));
        let res = mentat_db::timelines::move_from_main_timeline(&h.s.sql, &schema, pm.clone(), from.., timelines);
        let post = norm(h.s.dump());
        match res {
            Err(e) => {
                if let Some(x) = differ(&post, &pre) { return Err(format!("a move that failed ({}) left behind: {}", e, x)); }
                return Err(format!("the most recent {} transactions cannot be moved: {}", past.len() - k, e));
            }
            Ok((sc, pm2)) => {
                info.nontrivial = true;
                info.count("moved");
                let want = &past[k - 1].1;
                if post.facts != want.facts { let mut w = want.clone(); w.log = post.log.clone(); return Err(format!("after rewinding, {}", differ(&post, &w).unwrap_or_default())); }
                chk!(post.flags == want.flags, "after rewinding, index flags of facts differ");
                if post.idents != want.idents || post.schema != want.schema { let mut w = want.clone(); w.log = post.log.clone(); w.facts = post.facts.clone(); return Err(format!("after rewinding, {}", differ(&post, &w).unwrap_or_default())); }
                chk!(main_log(&post, 0) == main_log(want, 0), "after rewinding, the main log differs");
                for tl in 1..timelines { chk!(main_log(&post, tl) == main_log(&pre, tl), "moving transactions to timeline {} changed timeline {}", timelines, tl); }
                let moved: BTreeMap<_, _> = main_log(&pre, 0).into_iter().filter(|(t, _)| *t >= from).collect();
                chk!(main_log(&post, timelines) == moved, "the moved transactions differ from what they were: {:?} instead of {:?}", main_log(&post, timelines), moved);
                let sc = sc.unwrap_or(schema);
                schema_is(&post, &sc)?;
                let disk = reopened(&mut h.s)?;
                chk!(sc == disk.0, "the schema given back is not the one on disk");
                chk!(parts(&pm2) == disk.1, "the partitions given back are {:?}, on disk {:?}", parts(&pm2), disk.1);
                past.truncate(k);
                h.s.conn = mentat::conn::Conn::connect(&mut h.s.sql).map_err(|e| e.to_string())?;
            }
        }
    }
    Ok(())
}

type Call = (String, Vec<(i64, BTreeSet<i64>)>);
pub fn c13_observers(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    let o = opt(r);
    let calls: Arc<Mutex<Vec<Call>>> = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = std::sync::mpsc::channel::<i64>();
    let tx = Mutex::new(tx);
    let sentinel = Arc::new(TxObserver::new(vec![TXI].into_iter().collect(), move |_, m| { for (t, _) in m { let _ = tx.lock().unwrap().send(*t); } }));
    let mut reg: BTreeMap<String, BTreeSet<i64>> = BTreeMap::new();
    let mut may: Vec<(String, Vec<(i64, BTreeSet<i64>)>)> = vec![]; // unregistered straight after the commit
    let mut want: Vec<Call> = vec![];
    let all: Vec<i64> = h.ids.values().cloned().chain(Some(TXI)).collect();
    let mut n = 0;
    let mut sure = 0; // those of `want` that have been seen
    let change = |r: &mut Rng, s: &mut S, reg: &mut BTreeMap<String, BTreeSet<i64>>, n: &mut usize, info: &mut Info| -> Option<String> {
        if !reg.is_empty() && r.chance(2, 5) {
            let k = r.pick(&reg.keys().cloned().collect::<Vec<_>>()).clone();
            info.note(format!("unregister {}", k));
            s.conn.unregister_observer(&k);
            reg.remove(&k);
            return Some(k);
        }
        *n += 1;
        let k = format!("o{}", n);
        let mut at: BTreeSet<i64> = BTreeSet::new();
        for _ in 0..r.below(4) { at.insert(*r.pick(&all)); }
        info.note(format!("register {} for {:?}", k, at));
        let c = calls.clone();
        s.conn.register_observer(k.clone(), Arc::new(TxObserver::new(at.clone(), move |key, m| {
            c.lock().unwrap().push((key.to_string(), m.into_iter().map(|(t, a)| (*t, a.clone())).collect()));
        })));
        reg.insert(k, at);
        None
    };
    for _ in 0..2 + r.below(5) {
        for _ in 0..r.below(3) {
            if let Some(k) = change(r, &mut h.s, &mut reg, &mut n, info) {
                // the worker might not have called it yet
                let tail = want.split_off(sure);
                for c in tail { if c.0 == k { may.push(c) } else { want.push(c) } }
            }
        }
        let mut txes: Vec<i64> = vec![];
        let single = r.chance(1, 3);
        let commit = single || r.chance(3, 4);
        info.note(format!("begin ({})", if commit { "to commit" } else { "to roll back" }));
        if single {
            let d = h.s.dump();
            let ops = gen_ops(r, &d, &h.ids, h.min, &o);
            let t = render(r, &ops);
            info.note(t.clone());
            match h.s.t(&t) { Ok(rep) => txes.push(rep.tx_id), Err(e) => info.note(format!("  refused: {}", e)) }
        } else {
            let mut ip = h.s.conn.begin_transaction(&mut h.s.sql).map_err(|e| e.to_string())?;
            let mut point = None;
            for _ in 0..r.below(4) {
                if r.chance(1, 4) { info.note("  savepoint"); ip.savepoint("sp").map_err(|e| e.to_string())?; point = Some(txes.len()); }
                else if point.is_some() && r.chance(1, 3) { info.note("  rollback to savepoint"); ip.rollback_savepoint("sp").map_err(|e| e.to_string())?; txes.truncate(point.unwrap()); }
                let d = dump(&ip.transaction);
                let ops = gen_ops(r, &d, &h.ids, h.min, &o);
                let t = render(r, &ops);
                info.note(format!("  {}", t));
                match ip.transact(t.as_str()) { Ok(rep) => txes.push(rep.tx_id), Err(e) => { info.count("failed"); info.note(format!("    refused: {}", e)) } }
            }
            if commit { ip.commit().map_err(|e| e.to_string())?; } else { ip.rollback().map_err(|e| e.to_string())?; txes.clear(); info.count("rolled back"); }
        }
        let d = h.s.dump();
        let touched: Vec<(i64, BTreeSet<i64>)> = txes.iter().map(|t| (*t, d.log[&(*t, 0)].iter().map(|x| x.1).collect())).collect();
        let mut expect: Vec<Call> = vec![];
        for (k, at) in &reg {
            let m: Vec<(i64, BTreeSet<i64>)> = touched.iter().filter(|(_, a)| !a.is_disjoint(at)).cloned().collect();
            if !m.is_empty() { expect.push((k.clone(), m)); info.nontrivial = true; info.count("to be called"); }
        }
        // registrations may change while the worker still has the commit to report
        for _ in 0..r.below(3) {
            if let Some(k) = change(r, &mut h.s, &mut reg, &mut n, info) {
                if let Some(i) = expect.iter().position(|c| c.0 == k) { may.push(expect.remove(i)); }
                let tail = want.split_off(sure);
                for c in tail { if c.0 == k { may.push(c) } else { want.push(c) } }
            }
        }
        want.extend(expect);
        if r.chance(1, 2) {
            flush(&mut h.s, &sentinel, &rx, &reg, &mut want)?;
            compare(&calls, &want, &may)?;
            sure = want.len();
        }
    }
    flush(&mut h.s, &sentinel, &rx, &reg, &mut want)?;
    compare(&calls, &want, &may)?;
    Ok(())
}
/// A commit of nothing, which the sentinel hears of after everyone else heard of the commits before.
fn flush(s: &mut S, sentinel: &Arc<TxObserver>, rx: &std::sync::mpsc::Receiver<i64>, reg: &BTreeMap<String, BTreeSet<i64>>, want: &mut Vec<Call>) -> Case {
    s.conn.unregister_observer("sentinel");
    s.conn.register_observer("sentinel".to_string(), sentinel.clone());
    let mut last = 0;
    for _ in 0..2 {
        let rep = s.t("[]")?;
        last = rep.tx_id;
        let only: BTreeSet<i64> = vec![TXI].into_iter().collect();
        for (k, at) in reg { if at.contains(&TXI) { want.push((k.clone(), vec![(last, only.clone())])); } }
        // the second one follows the calls of the first, whichever order observers are called in
        if last == 0 { break; }
    }
    loop {
        match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(t) if t == last => break,
            Ok(_) => {}
            Err(_) => return Err("an observer of :db/txInstant did not hear of a commit".to_string()),
        }
    }
    s.conn.unregister_observer("sentinel");
    Ok(())
}
fn compare(calls: &Arc<Mutex<Vec<Call>>>, want: &Vec<Call>, may: &Vec<Call>) -> Case {
    let mut res = Ok(());
    for _ in 0..200 {
        // the worker may still be calling those that come after the sentinel
        res = compare_now(calls.lock().unwrap().clone(), want, may);
        if res.is_ok() { break; }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    res
}
fn compare_now(got: Vec<Call>, want: &Vec<Call>, may: &Vec<Call>) -> Case {
    let keys: BTreeSet<&String> = got.iter().map(|c| &c.0).chain(want.iter().map(|c| &c.0)).collect();
    for k in keys {
        let g: Vec<_> = got.iter().filter(|c| &c.0 == k && !may.contains(c)).map(|c| &c.1).collect();
        let w: Vec<_> = want.iter().filter(|c| &c.0 == k && !may.contains(c)).map(|c| &c.1).collect();
        chk!(g == w, "observer {} heard {:?} instead of {:?}", k, g, w);
        for c in may { chk!(got.iter().filter(|x| *x == c).count() <= 1, "observer {} was called twice for one commit", k); }
    }
    Ok(())
}
