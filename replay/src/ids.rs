//! C04 (fresh ids), C05 (type fitting), and the recorded findings' probes.
use crate::gen::*;
use crate::store::*;
use crate::tx::*;
use crate::util::*;
use mentat::conn::Conn;
use std::collections::BTreeSet;

const TX0: i64 = 0x10000000;
/// Every id any log row mentions, on any timeline.
fn mentioned(d: &Dump) -> BTreeSet<i64> {
    let mut s = BTreeSet::new();
    for ((tx, _), rows) in &d.log { s.insert(*tx); for (e, a, v, _) in rows { s.insert(*e); s.insert(*a); if let V::Ref(x) = v { s.insert(*x); } } }
    s
}
/// New ids are fresh, in their partition, growing and dense, across sessions; unallocated subjects are rejected.
pub fn c04_history(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    let mut allocated = mentioned(&h.s.dump());
    let mut opt = default_opt();
    for _ in 0..3 + r.below(7) {
        if r.chance(1, 4) {
            info.note("-- reopen --");
            h.s.conn = Conn::connect(&mut h.s.sql).map_err(|e| format!("the store cannot be reopened: {}", e))?;
            info.count("reopened");
        }
        let pre = h.s.dump();
        opt.temps = 1 + r.below(4);
        opt.max = 8;
        let ops = gen_ops(r, &pre, &h.ids, h.min, &opt);
        if ops.is_empty() { continue; }
        let text = render(r, &ops);
        info.note(text.clone());
        let nu = allocated.iter().filter(|x| **x >= 65536 && **x < TX0).max().map(|x| x + 1).unwrap_or(65536);
        let nt = allocated.iter().filter(|x| **x >= TX0).max().unwrap() + 1;
        match h.s.t(&text) {
            Ok(rep) => {
                info.count("committed"); info.nontrivial = true; info.feed(&text);
                chk!(rep.tx_id == nt, "transaction id {} where {} is next", rep.tx_id, nt);
                let new: BTreeSet<i64> = rep.tempids.values().cloned().filter(|x| !allocated.contains(x)).collect();
                for x in &new { chk!(*x >= 65536 && *x < TX0, "the new entity {} lies outside the user partition", x); }
                let want: BTreeSet<i64> = (nu..nu + new.len() as i64).collect();
                chk!(new == want, "new entities {:?}, the next free ids were {:?}", new, want);
                for x in mentioned(&h.s.dump()) { chk!(allocated.contains(&x) || new.contains(&x) || x == rep.tx_id, "id {} is in the log but was never handed out", x); }
                allocated.extend(new); allocated.insert(rep.tx_id);
            }
            Err(e) => { info.note(format!("  rejected: {}", e)); }
        }
        // an id nobody allocated
        let x = match r.below(7) {
            0 => nu + r.range(10, 40), 1 => r.range(41, 65535), 2 => -r.range(1, 1 << 40), 3 => nt + r.range(10, 40), 4 => TX0 - 1, 5 => *r.pick(&[i64::MAX, i64::MIN + 1]), _ => nu + 9,
        };
        let good = *allocated.iter().nth(r.below(allocated.len())).unwrap();
        for (id, bad) in vec![(x, true), (good, false)] {
            let attr_v = *r.pick(&[(":p/l", "7"), (":p/ls", "7"), (":p/s", "\"z\""), (":p/rs", "1"), (":p/k", ":a/b")]);
            let form = r.below(9);
            let t = match form {
                0 => format!("[[:db/add {} {} {}]]", id, attr_v.0, attr_v.1),
                1 => format!("[{{:db/id {} {} {}}}]", id, attr_v.0, attr_v.1),
                2 => format!("[[:db/add 1 :p/_rs {}]]", id),
                3 => format!("[{{:db/id 1 :p/_rs {}}}]", id),
                4 => format!("[[:db/retract {} {} {}]]", id, attr_v.0, attr_v.1),
                5 => format!("[[:db/add 1 :p/ls 3] [:db/add {} {} [{}]]]", id, ":p/ls", r.range(0, 5)),
                6 => format!("[{{:p/idl {} :p/_rs {}}}]", r.range(0, 3), id),
                7 => format!("[{{:p/cs {{:db/id {} :p/l 1}}}}]", id),
                _ => format!("[[:db/retract 1 :p/_rs {}]]", id),
            };
            let before = h.s.dump();
            let res = h.s.t(&t);
            info.note(format!("{} -> {}", t, match &res { Ok(_) => "ok".to_string(), Err(e) => e.to_string() }));
            if bad { chk!(res.is_err(), "{}: {} was never allocated, but is accepted as a subject", t, id); chk!(before == h.s.dump(), "{}: rejected but left a trace", t); info.count("unallocated refused"); }
            else { chk!(res.is_ok(), "{}: {} is allocated, but refused: {:?}", t, id, res.err()); info.count("allocated accepted"); }
            if let Ok(rep) = res { for x in rep.tempids.values() { allocated.insert(*x); } allocated.extend(mentioned(&h.s.dump())); }
        }
    }
    Ok(())
}

/// Literals of every kind, against attributes of every type, in every notation.
pub fn c05_matrix(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    h.s.must("[[:db/add \"a\" :db/ident :who/alice] [:db/add \"b\" :p/idl 5]]");
    for _ in 0..12 {
        let d = h.s.dump();
        let alice = d.ident(":who/alice").unwrap();
        let a = *r.pick(&ATTRS.iter().map(|a| a.kw).collect::<Vec<_>>());
        let ad = attr_def(a);
        // literal, the types it fits, and what it becomes
        let (lit, want): (String, Option<V>) = match r.below(12) {
            0 => { let n = *r.pick(&[0i64, 1, -1, 7, alice]); (n.to_string(), match ad.ty { "long" => Some(V::Long(n)), "ref" if n >= 0 && n <= alice && (n < 41 || n >= 65536) => Some(V::Ref(n)), _ => None }) }
            1 => { let f = *r.pick(&[0.5f64, 1.0, -3.0, 1e9]); (format!("{:?}", f), if ad.ty == "double" { Some(V::dbl(f)) } else { None }) }
            2 => { let b = r.chance(1, 2); (b.to_string(), if ad.ty == "boolean" { Some(V::Bool(b)) } else { None }) }
            3 => { let s = format!("m{}", r.below(3)); (format!("\"{}\"", s), match ad.ty { "string" => Some(V::Str(s)), "ref" => Some(V::Ref(-1)), _ => None }) }
            4 => (":who/alice".into(), match ad.ty { "keyword" => Some(V::Kw(":who/alice".into())), "ref" => Some(V::Ref(alice)), _ => None }),
            5 => (":who/nobody".into(), match ad.ty { "keyword" => Some(V::Kw(":who/nobody".into())), _ => None }),
            6 => { let us = 1_500_000_000_123_456 + r.range(0, 9) * 1_000_000_000; (inst_edn(us), if ad.ty == "instant" { Some(V::Inst(us)) } else { None }) }
            7 => { let v = gen_value(r, "uuid", &[]); (edn(&v), if ad.ty == "uuid" { Some(v) } else { None }) }
            8 => ("123456789012345678901234567890N".into(), None),
            9 => ("nil".into(), None),
            10 => ("(transaction-tx)".into(), match ad.ty { "ref" => Some(V::Ref(-2)), _ => None }),
            _ => ("(lookup-ref :p/idl 5)".into(), match ad.ty { "ref" => d.facts.keys().find(|f| f.1 == h.ids[":p/idl"] && f.2 == V::Long(5)).map(|f| V::Ref(f.0)), _ => None }),
        };
        let form = r.below(5);
        let list = form == 2 && ad.many;
        let t = match form {
            0 => format!("[{{:db/id \"e\" {} {}}}]", a, lit),
            1 => format!("[[:db/add \"e\" {} {}]]", h.ids[a], lit),
            2 if list => format!("[[:db/add \"e\" {} [{}]]]", a, lit),
            3 if ad.many => format!("[{{:db/id \"e\" {} [{}]}}]", a, lit),
            4 => format!("[{{:p/cs {{:db/id \"e\" {} {}}}}}]", a, lit),
            _ => format!("[[:db/add \"e\" {} {}]]", a, lit),
        };
        info.note(t.clone());
        let pre = h.s.dump();
        match h.s.t(&t) {
            Ok(rep) => {
                info.count("accepted");
                let e = rep.tempids["e"];
                let post = h.s.dump();
                let stored: Vec<V> = post.facts.keys().filter(|f| f.0 == e && f.1 == h.ids[a]).map(|f| f.2.clone()).collect();
                match want {
                    None => return Err(format!("{} does not fit {} ({}), but was stored as {:?}", lit, a, ad.ty, stored)),
                    Some(V::Ref(-1)) => chk!(stored.iter().any(|v| matches!(v, V::Ref(x) if Some(x) == rep.tempids.values().find(|y| *y == x))), "temporary id stored as {:?}", stored),
                    Some(V::Ref(-2)) => chk!(stored.contains(&V::Ref(rep.tx_id)), "the transaction id was stored as {:?}", stored),
                    Some(w) => chk!(stored.contains(&w), "{} for {} was stored as {:?}", lit, a, stored),
                }
                crate::schema::typed(&post, &BTreeSet::new())?;
                info.nontrivial = true;
            }
            Err(e) => {
                info.count("refused");
                info.note(format!("  {}", e));
                chk!(pre == h.s.dump(), "a rejected transaction left a trace: {}", t);
                // unique values may conflict with what is stored
                if ad.unique == 0 { chk!(want.is_none(), "{} fits {} ({}) but was refused: {}", lit, a, ad.ty, e); }
                info.nontrivial = true;
            }
        }
        info.feed(&t);
    }
    // unknown attributes
    let bad = *r.pick(&[":no/such", "99", "65535", ":who/alice", "1000000", ":db.type/long"]);
    let before = h.s.dump();
    let t = match r.below(3) { 0 => format!("[[:db/add \"x\" :p/l 1] [:db/add \"x\" {} 1]]", bad), 1 if bad.starts_with(':') => format!("[{{:p/l 1 {} 1}}]", bad), _ => format!("[[:db/retract 1 {} 1]]", bad) };
    info.note(t.clone());
    chk!(h.s.t(&t).is_err(), "a transaction with an unknown attribute was accepted: {}", t);
    chk!(before == h.s.dump(), "a rejected transaction left a trace: {}", t);
    Ok(())
}

/// Recorded findings.  Some(true): still fails.
pub fn probe(name: &str) -> Option<bool> {
    match name {
        "orphan-facts" => {
            let mut s = S::mem();
            s.must("[{:db/ident :x/a :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]");
            s.must("[[:db/add \"e\" :x/a 1]]");
            let a = s.dump().ident(":x/a").unwrap();
            let ok = s.t(&format!("[[:db/retract {} :db/ident :x/a] [:db/retract {} :db/valueType :db.type/long] [:db/retract {} :db/cardinality :db.cardinality/one]]", a, a, a)).is_ok();
            let d = s.dump();
            Some(ok && !d.attrs().contains_key(&a) && d.facts.keys().any(|f| f.1 == a))
        }
        // SELECT DISTINCT merges the long 1 and the double 1.0: both have type tag 5, and 1 = 1.0
        "long-double-merge" => {
            let (mut s, _) = crate::gen::std_store();
            s.must("[[:db/add \"e\" :p/l 77] [:db/add \"e\" :p/d 77.0]]");
            let o = crate::q::run(&s, "[:find ?v :where [?e :p/l 77] [?e _ ?v]]", &Default::default()).unwrap();
            Some(crate::q::rows(&o).len() < 2)
        }
        // a value of an attribute not known when the query is planned joins without its type
        "any-join" => {
            let (mut s, _) = crate::gen::std_store();
            s.must("[[:db/add \"e\" :p/l 7]]");
            let p = crate::q::run(&s, "[:find ?x :where [?x :db/ident :db/valueType] [_ _ ?x] [?e :p/l ?n] [?e _ ?x]]", &Default::default());
            Some(p.map(|o| !crate::q::rows(&o).is_empty()).unwrap_or(false))
        }
        // SQLite 3.33 drops DISTINCT when the columns cover the partial unique index
        "type-duplicates" => {
            let (s, _) = crate::gen::std_store();
            let o = crate::q::run(&s, "[:find ?tx ?v ?a :where [_ ?a ?v ?tx] [(type ?v :db.type/ref)]]", &Default::default()).unwrap();
            let rows = crate::q::rows(&o);
            let set: std::collections::BTreeSet<_> = rows.iter().cloned().collect();
            Some(set.len() != rows.len())
        }
        // nested collections recurse in the parser: enough of them exhaust the stack
        "deep-nesting" => {
            let exe = std::env::current_exe().unwrap();
            let o = std::process::Command::new(exe).args(&["probe", "deep-nesting-here"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
            Some(o.code().is_none())
        }
        "deep-nesting-here" => Some(crate::text::deep_nesting()),
        _ => None,
    }
}
