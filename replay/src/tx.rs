//! C01 (effect of transactions), C02 (log), C03 (temporary ids).
use crate::gen::*;
use crate::store::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

pub const TXI: i64 = 3; // :db/txInstant

pub struct H { pub s: S, pub ids: BTreeMap<&'static str, i64>, pub min: i64 }
pub fn start() -> H { let (s, ids) = std_store(); let min = ids.values().max().unwrap() + 1; H { s, ids, min } }

pub fn user(f: &Fact) -> bool { f.1 != TXI }
pub fn strip(d: &Dump) -> BTreeSet<Fact> { d.facts.keys().filter(|f| user(f)).cloned().collect() }
pub fn diff(a: &BTreeSet<Fact>, b: &BTreeSet<Fact>) -> String {
    format!("missing {:?}; unexpected {:?}", b.difference(a).take(6).collect::<Vec<_>>(), a.difference(b).take(6).collect::<Vec<_>>())
}
pub fn tmap(rep: &mentat::TxReport) -> BTreeMap<String, i64> { rep.tempids.iter().map(|(k, v)| (k.clone(), *v)).collect() }

pub fn c01_history(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    h.s.limit(r);
    let steps = 3 + r.below(8);
    let mut opt = default_opt();
    for _ in 0..steps {
        opt.temps = if r.chance(1, 2) { 3 } else { 0 };
        opt.conflicts = r.chance(1, 4);
        let pre = h.s.dump();
        let at = pre.attrs();
        let ops = gen_ops(r, &pre, &h.ids, h.min, &opt);
        if ops.is_empty() { continue; }
        let text = render(r, &ops);
        info.note(text.clone());
        let res = h.s.t(&text);
        let post = h.s.dump();
        match res {
            Ok(rep) => {
                info.count("committed");
                let g = ground(&ops, &pre, &h.ids, &tmap(&rep), rep.tx_id).ok_or("transaction accepted but an entity place does not resolve")?;
                chk!(!contradictory(&g, &at), "a self-contradictory transaction was accepted: {}", text);
                let want: BTreeSet<Fact> = apply(&strip(&pre), &g, &at);
                let got = strip(&post);
                chk!(want == got, "facts after the transaction differ from what it says: {}", diff(&got, &want));
                info.nontrivial = true;
                info.feed(&text);
                if info.sample.is_empty() { info.sample = text.clone(); }
            }
            Err(e) => {
                info.count("rejected");
                info.note(format!("  rejected: {}", e));
                // A transaction without temporary ids, lookups or unique attributes can only be
                // rejected for contradicting itself.
                let plain = ops.iter().all(|o| attr_def(o.a).unique == 0 && !matches!(o.e, E::Look(..)) && !matches!(o.v, Val::E(E::Look(..))) );
                let temp = ops.iter().any(|o| matches!(o.e, E::Temp(_)) || matches!(o.v, Val::E(E::Temp(_))));
                if plain && !temp {
                    let g = ground(&ops, &pre, &h.ids, &BTreeMap::new(), -1).unwrap();
                    chk!(contradictory(&g, &at), "a consistent transaction was rejected: {}: {}", text, e);
                }
            }
        }
    }
    Ok(())
}

/// The same operations in two orders and notations, against equal stores.
pub fn c01_notation(r: &mut Rng, info: &mut Info) -> Case {
    let seed_ops;
    let (mut a, mut b) = (start(), start());
    b.s.limit(r);
    let mut opt = default_opt();
    opt.temps = 2;
    {
        // a common prefix
        let pre = a.s.dump();
        opt.conflicts = false;
        let ops = gen_ops(r, &pre, &a.ids, a.min, &GenOpt { max: 12, ..default_opt() });
        let text = render(r, &ops);
        let ra = a.s.t(&text);
        let rb = b.s.t(&text);
        chk!(ra.is_ok() == rb.is_ok(), "the same transaction against equal stores was accepted once only");
        seed_ops = text;
    }
    let pre = a.s.dump();
    chk!(pre.set() .iter().filter(|f| user(f)).eq(b.s.dump().set().iter().filter(|f| user(f))), "equal histories gave different facts");
    let ops = gen_ops(r, &pre, &a.ids, a.min, &opt);
    if ops.is_empty() { return Ok(()); }
    let (ta, tb) = (render(r, &ops), render(r, &ops));
    info.note(seed_ops); info.note(ta.clone()); info.note(tb.clone());
    let (ra, rb) = (a.s.t(&ta), b.s.t(&tb));
    chk!(ra.is_ok() == rb.is_ok(), "accepted in one notation, rejected in another:\n{}\n{}\n{:?} {:?}", ta, tb, ra.as_ref().err(), rb.as_ref().err());
    if let (Ok(ra), Ok(rb)) = (ra, rb) {
        info.count("pairs committed");
        // equal up to renaming of new entities
        let (ma, mb) = (tmap(&ra), tmap(&rb));
        chk!(ma.keys().eq(mb.keys()), "different temporary ids reported");
        let ren: BTreeMap<i64, i64> = ma.iter().map(|(k, v)| (*v, mb[k])).collect();
        let f = |x: i64| if x == ra.tx_id { rb.tx_id } else { *ren.get(&x).unwrap_or(&x) };
        let fa: BTreeSet<Fact> = strip(&a.s.dump()).into_iter().map(|(e, a, v)| (f(e), a, if let V::Ref(x) = v { V::Ref(f(x)) } else { v })).collect();
        let fb = strip(&b.s.dump());
        chk!(fa == fb, "two notations of one transaction have different effects: {}", diff(&fa, &fb));
        info.nontrivial = true;
        info.feed(&ta);
        info.sample = format!("{}  ==  {}", ta, tb);
    }
    Ok(())
}

/// Deliberate self-contradictions are rejected.
pub fn c01_reject(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    h.s.t("[{:p/idl 1 :p/l 1 :p/s \"x\"} {:p/idl 2 :p/ls [1 2]}]").map_err(|e| format!("plain transaction rejected: {}", e))?;
    for _ in 0..4 {
        let pre = h.s.dump();
        let at = pre.attrs();
        let ents = entities(&pre, h.min);
        let mut ops = gen_ops(r, &pre, &h.ids, h.min, &GenOpt { temps: 0, conflicts: false, max: 3, ..default_opt() });
        let e = E::Ent(*r.pick(&ents));
        let a = *r.pick(&default_opt().attrs);
        let ad = attr_def(a);
        let v1 = gen_value(r, ad.ty, &ents);
        let v2 = gen_value(r, ad.ty, &ents);
        if r.chance(1, 2) && !ad.many && v1 != v2 {
            ops.push(Op { add: true, e: e.clone(), a, v: Val::V(v1) });
            ops.push(Op { add: true, e, a, v: Val::V(v2) });
        } else {
            ops.push(Op { add: true, e: e.clone(), a, v: Val::V(v1.clone()) });
            ops.push(Op { add: false, e, a, v: Val::V(v1) });
        }
        let text = render(r, &ops);
        info.note(text.clone());
        let res = h.s.t(&text);
        let _ = at;
        chk!(res.is_err(), "a self-contradictory transaction was accepted: {}", text);
        chk!(h.s.dump() == pre, "a rejected transaction changed the store");
        info.nontrivial = true;
        info.feed(&text);
    }
    Ok(())
}

pub fn c02_check(pre: &Dump, post: &Dump, tx: i64) -> Case {
    let (a, b) = (pre.set(), post.set());
    let mut want: BTreeSet<(i64, i64, V, bool)> = BTreeSet::new();
    for f in b.difference(&a) { want.insert((f.0, f.1, f.2.clone(), true)); }
    for f in a.difference(&b) { want.insert((f.0, f.1, f.2.clone(), false)); }
    let got = post.log.get(&(tx, 0)).cloned().unwrap_or_default();
    chk!(want == got, "log of transaction {} is not the difference it made: missing {:?}; unexpected {:?}", tx, want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>());
    chk!(post.dup_log == 0 && post.dup_facts == 0, "a log row or fact is stored twice");
    let instants: Vec<_> = got.iter().filter(|x| x.0 == tx && x.1 == TXI && x.3).collect();
    chk!(instants.len() == 1, "transaction {} has {} instants", tx, instants.len());
    let mut l2 = post.log.clone();
    l2.remove(&(tx, 0));
    chk!(l2 == pre.log, "a transaction changed the log of another");
    chk!(pre.log.keys().all(|k| k.0 < tx), "transaction id {} is not larger than all earlier ones", tx);
    for (f, t) in &post.facts {
        if !pre.facts.contains_key(f) { chk!(*t == tx, "new fact {:?} carries transaction {} instead of {}", f, t, tx); }
        else { chk!(*t == pre.facts[f], "untouched fact {:?} changed its transaction", f); }
    }
    Ok(())
}
/// Fold the main log from the beginning.
pub fn replay_log(d: &Dump) -> Result<BTreeMap<Fact, i64>, String> {
    let mut st: BTreeMap<Fact, i64> = BTreeMap::new();
    for ((tx, tl), rows) in &d.log {
        if *tl != 0 { continue; }
        for (e, a, v, added) in rows { if !added { chk!(st.remove(&(*e, *a, v.clone())).is_some(), "log retracts a fact that does not hold: {:?} in {}", (e, a, v), tx); } }
        for (e, a, v, added) in rows { if *added { chk!(st.insert((*e, *a, v.clone()), *tx).is_none(), "log asserts a fact that already holds: {:?} in {}", (e, a, v), tx); } }
    }
    Ok(st)
}
pub fn c02_history(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    h.s.limit(r);
    let steps = 3 + r.below(6);
    for _ in 0..steps {
        let pre = h.s.dump();
        let ops = gen_ops(r, &pre, &h.ids, h.min, &GenOpt { temps: 2, conflicts: false, ..default_opt() });
        let text = render(r, &ops);
        info.note(text.clone());
        if let Ok(rep) = h.s.t(&text) {
            info.count("committed");
            let post = h.s.dump();
            c02_check(&pre, &post, rep.tx_id)?;
            let ti = post.log[&(rep.tx_id, 0)].iter().find(|x| x.0 == rep.tx_id && x.1 == TXI).unwrap().2.clone();
            use mentat::ToMicros;
            chk!(ti == V::Inst(rep.tx_instant.to_micros()), "the reported instant is not the stored one");
            info.nontrivial = true;
            info.feed(&text);
            if info.sample.is_empty() { info.sample = text; }
        }
    }
    let d = h.s.dump();
    let st = replay_log(&d)?;
    chk!(st == d.facts, "replaying the log does not give the current facts");
    Ok(())
}

pub fn c03_tempids(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    h.s.limit(r);
    let attrs: Vec<&'static str> = vec![":p/idl", ":p/ids", ":p/idr", ":p/idm", ":p/idr", ":p/idrm", ":p/rs", ":p/l", ":p/ls", ":p/uv"];
    let steps = 2 + r.below(5);
    for _ in 0..steps {
        let pre = h.s.dump();
        let at = pre.attrs();
        let opt = GenOpt { attrs: attrs.clone(), temps: 1 + r.below(5), lookups: r.chance(1, 3), retracts: r.chance(1, 5), max: 8, conflicts: r.chance(1, 4), bad_retract_one: true };
        let ops = gen_ops(r, &pre, &h.ids, h.min, &opt);
        if ops.is_empty() { continue; }
        let text = render(r, &ops);
        info.note(text.clone());
        let mut merged = false;
        let spec = spec_tempids(&ops, &pre, &h.ids, -1, &mut merged);
        let res = h.s.t(&text);
        match (&res, &spec) {
            (Ok(rep), Err(e)) => return Err(format!("accepted, but its identities conflict ({}): {} -> {:?}", e, text, rep.tempids)),
            (Ok(rep), Ok(sp)) => {
                info.count("committed");
                let m = tmap(rep);
                info.note(format!("  {} tempids {:?}, specified {:?}", rep.tx_id, m, sp));
                chk!(m.keys().eq(sp.keys()), "reported temporary ids {:?}, used {:?}", m.keys(), sp.keys());
                let known: BTreeSet<i64> = pre.facts.keys().map(|f| f.0).chain(pre.facts.keys().filter_map(|f| if let V::Ref(x) = f.2 { Some(x) } else { None })).collect();
                let mut class: BTreeMap<usize, i64> = BTreeMap::new();
                for (t, want) in sp {
                    match want {
                        T::Old(x) => chk!(m[t] == *x, "temporary id {} must denote existing entity {} but denotes {}: {}", t, x, m[t], text),
                        T::New(c) => {
                            chk!(!known.contains(&m[t]), "temporary id {} must denote a new entity but denotes existing {}: {}", t, m[t], text);
                            if let Some(x) = class.insert(*c, m[t]) { chk!(x == m[t], "temporary ids that must be one entity are {} and {}: {}", x, m[t], text); }
                        }
                    }
                }
                let distinct: BTreeSet<i64> = class.values().cloned().collect();
                chk!(distinct.len() == class.len(), "distinct temporary ids share a new entity: {} -> {:?}", text, m);
                // all uses denote that entity: the facts are those of the grounded operations
                let g = ground(&ops, &pre, &h.ids, &m, rep.tx_id).ok_or("unresolved place")?;
                let want = apply(&strip(&pre), &g, &at);
                let got = strip(&h.s.dump());
                chk!(want == got, "uses of temporary ids denote other entities than reported: {}", diff(&got, &want));
                if !sp.is_empty() { info.nontrivial = true; info.feed(&text); if sp.values().any(|x| matches!(x, T::Old(_))) { info.count("with upserts"); } }
                if info.sample.is_empty() { info.sample = text.clone(); }
            }
            (Err(e), Ok(sp)) => {
                info.count("rejected");
                info.note(format!("  rejected: {}", e));
                // Nothing but a breach of a rule in the specified outcome justifies a rejection.
                let mut m = BTreeMap::new();
                for (t, x) in sp { m.insert(t.clone(), match x { T::Old(x) => *x, T::New(c) => 900_000_000 + *c as i64 }); }
                let temp_retract = ops.iter().any(|o| !o.add && (matches!(o.e, E::Temp(_)) || matches!(o.v, Val::E(E::Temp(_)))));
                if let Some(g) = ground(&ops, &pre, &h.ids, &m, -1) {
                    if !temp_retract && !contradictory(&g, &at) && breach(&apply(&strip(&pre), &g, &at), &at).is_none() {
                        info.count(if merged { "rejected though legal (merged)" } else { "rejected though legal" });
                        if !merged || one_pass(&ops, sp, &pre, &h.ids) { return Err(format!("a legal transaction was rejected: {}: {} {:?}", text, e, sp)); }
                    }
                }
            }
            (Err(_), Err(_)) => { info.count("rejected as specified"); info.nontrivial = true; info.feed(&text); }
        }
    }
    Ok(())
}
