//! C11: caching attributes never changes an answer.
use crate::gen::*;
use crate::q;
use crate::store::*;
use crate::util::*;
use core_traits::TypedValue;
use mentat::{CacheAction, CacheDirection, Queryable, QueryOutput};
use std::collections::{BTreeMap, BTreeSet};

type Rows = Result<BTreeSet<Vec<V>>, String>;
fn set(o: Result<QueryOutput, mentat::MentatError>) -> Rows { o.map(|o| q::rows(&o).into_iter().collect()).map_err(|e| e.to_string()) }

/// The questions asked of every state: query, inputs.
fn questions(r: &mut Rng, d: &Dump, ids: &BTreeMap<&'static str, i64>, min: i64, cached: &[&'static str]) -> Vec<(String, q::B)> {
    let g = q::G::new(d, ids, min);
    let mut out: Vec<(String, q::B)> = vec![];
    let no = q::B::new();
    let ent = |r: &mut Rng| -> i64 { if g.ents.is_empty() || r.chance(1, 15) { 1 } else { *r.pick(&g.ents) } };
    let any = |r: &mut Rng| -> &'static str { if cached.is_empty() || r.chance(1, 6) { *r.pick(q::QA) } else { *r.pick(cached) } };
    for _ in 0..10 {
        let (e, a, b) = (ent(r), any(r), any(r));
        let facts: Vec<&Fact> = g.facts.iter().filter(|f| f.1 == ids[a]).collect();
        let c = if facts.is_empty() || r.chance(1, 4) { gen_value(r, attr_def(a).ty, &g.ents) } else { r.pick(&facts).2.clone() };
        let mut ie = q::B::new(); ie.insert("?e".into(), V::Ref(e));
        let mut iv = q::B::new(); iv.insert("?v".into(), c.clone());
        let mut iev = ie.clone(); iev.insert("?v".into(), c.clone());
        let other = ent(r);
        out.push(match r.below(13) {
            0 => (format!("[:find ?v :where [{} {} ?v]]", e, a), no.clone()),
            1 => (format!("[:find ?v :in ?e :where [?e {} ?v]]", a), ie),
            2 => (format!("[:find ?e :where [?e {} {}]]", a, edn(&c)), no.clone()),
            3 => (format!("[:find ?e :in ?v :where [?e {} ?v]]", a), iv),
            4 => (format!("[:find ?x ?v :in ?e :where [?e {} ?v] [?x {} ?v]]", a, a), ie),
            5 => (format!("[:find ?x ?v :where [?x {} ?v] [{} {} ?v]]", a, e, a), no.clone()),
            6 => (format!("[:find ?x :where [?x {} _] (not [?x {} {}])]", b, a, edn(&c)), no.clone()),
            7 => (format!("[:find ?v ?w :where [{} {} ?v] [{} {} ?w]]", e, a, other, b), no.clone()),
            8 => (format!("[:find ?x :where [?x {} ?w] (or [?x {} {}] [?x {} ?w])]", b, a, edn(&c), b), no.clone()),
            9 => (format!("[:find ?e ?tx :where [?e {} {} ?tx]]", a, edn(&c)), no.clone()),
            10 => (format!("[:find ?e ?w :where [?e {} {}] [?e {} ?w]]", a, edn(&c), b), no.clone()),
            11 => (format!("[:find ?v :in ?e ?v :where [?e {} ?v]]", a), iev),
            _ => (format!("[:find ?x ?v :where [{} {} ?v] (not [?x {} ?v]) [?x {} _]]", e, a, a, b), no.clone()),
        });
    }
    for _ in 0..4 {
        let mut cls = g.clauses(r);
        cls.sort_by_key(|c| match c { q::Cl::Ground(..) => 0, q::Cl::Pat(..) => 1, q::Cl::Or(..) => 2, _ => 3 });
        let vars = q::top_vars(&cls);
        if vars.is_empty() { continue; }
        let f = vars[..vars.len().min(3)].join(" ");
        out.push((q::text(&f, &[], &cls, ""), no.clone()));
    }
    out
}
fn same(what: &str, cached: &[&'static str], qs: &(String, q::B), with: Rows, without: Rows, info: &mut Info) -> Case {
    match (&with, &without) {
        (Ok(a), Ok(b)) => { if !a.is_empty() { info.count("non-empty answers"); info.nontrivial = true; } chk!(a == b, "{}, caching {:?}: {} with {:?} answers {:?} with the cache and {:?} without", what, cached, qs.0, qs.1, a, b) }
        // a query refused without the cache (a variable it leaves unbound) has no answer to agree with
        (_, Err(_)) => info.count("refused"),
        _ => return Err(format!("{}, caching {:?}: {} with {:?} gives {:?} with the cache and {:?} without", what, cached, qs.0, qs.1, with, without)),
    }
    Ok(())
}
fn lookups(what: &str, d: &Dump, ids: &BTreeMap<&'static str, i64>, cached: &[&'static str], ents: &[i64], all: &dyn Fn(i64, &edn::Keyword) -> Result<Vec<TypedValue>, mentat::MentatError>, one: &dyn Fn(i64, &edn::Keyword) -> Result<Option<TypedValue>, mentat::MentatError>, info: &mut Info) -> Case {
    for a in cached {
        for e in ents {
            let mut want: Vec<V> = d.facts.keys().filter(|f| f.0 == *e && f.1 == ids[a]).map(|f| f.2.clone()).collect();
            want.sort();
            let mut got: Vec<V> = all(*e, &q::keyword(a)).map_err(|x| x.to_string())?.iter().map(q::from_tv).collect();
            got.sort();
            if !want.is_empty() { info.count("looked up"); }
            chk!(got == want, "{}: looking up {} of {} gives {:?}, stored {:?}", what, a, e, got, want);
            let o = one(*e, &q::keyword(a)).map_err(|x| x.to_string())?;
            chk!(o.is_some() == !want.is_empty() && o.as_ref().map(|x| want.contains(&q::from_tv(x))).unwrap_or(true), "{}: looking up one {} of {} gives {:?}, stored {:?}", what, a, e, o, want);
        }
    }
    Ok(())
}
fn direction(r: &mut Rng) -> CacheDirection { match r.below(3) { 0 => CacheDirection::Forward, 1 => CacheDirection::Reverse, _ => CacheDirection::Both } }

pub fn c11_history(r: &mut Rng, info: &mut Info) -> Case {
    fractional(true);
    let (mut s, ids) = std_store();
    let min = ids.values().max().unwrap() + 1;
    // few attributes and few values, so that changes meet cached values
    let mut pool: Vec<&'static str> = q::QA.to_vec();
    pool.push(":p/uvm"); pool.push(":p/idm");
    r.shuffle(&mut pool);
    pool.truncate(4);
    let opt = GenOpt { attrs: pool.clone(), temps: 2, lookups: true, retracts: true, max: 6, conflicts: false, bad_retract_one: true };
    let mut cached: Vec<&'static str> = vec![];
    // another handle on the cache is alive now and then
    let mut held = vec![];
    for _ in 0..5 + r.below(7) {
        let d = s.dump();
        match r.below(10) {
            0 | 1 => {
                let a = *r.pick(&pool);
                let schema = s.conn.current_schema();
                if r.chance(3, 4) {
                    let dir = direction(r);
                    info.note(format!("cache {} {:?}", a, dir));
                    s.conn.cache(&mut s.sql, &schema, &q::keyword(a), dir, CacheAction::Register).map_err(|e| format!("caching {}: {}", a, e))?;
                    if !cached.contains(&a) { cached.push(a); }
                } else {
                    info.note(format!("uncache {}", a));
                    s.conn.cache(&mut s.sql, &schema, &q::keyword(a), CacheDirection::Both, CacheAction::Deregister).map_err(|e| format!("uncaching {}: {}", a, e))?;
                    cached.retain(|x| *x != a);
                }
            }
            2 | 3 | 4 | 5 => {
                let ops = gen_ops(r, &d, &ids, min, &opt);
                let t = render(r, &ops);
                info.note(t.clone());
                if let Err(e) = s.t(&t) { info.note(format!("  refused: {}", e)); info.count("refused transactions"); }
            }
            6 => {
                // an attribute changes its cardinality or uniqueness
                let a = *r.pick(&pool);
                let many = d.attrs()[&ids[a]].many;
                let t = match r.below(3) {
                    0 => format!("[{{:db/id {} :db/cardinality :db.cardinality/{} }}]", a, if many { "one" } else { "many" }),
                    1 => format!("[{{:db/id {} :db/unique :db.unique/{} :db/index true}}]", a, if r.chance(1, 2) { "value" } else { "identity" }),
                    _ => format!("[[:db/retract {} :db/unique :db.unique/{}]]", a, if d.attrs()[&ids[a]].unique == 1 { "value" } else { "identity" }),
                };
                info.note(t.clone());
                if let Err(e) = s.t(&t) { info.note(format!("  refused: {}", e)); } else { info.count("alterations"); }
            }
            7 => { if held.is_empty() { info.note("hold the current cache"); held.push(s.conn.current_cache()); } else { held.clear(); } }
            _ => {
                let commit = r.chance(2, 3);
                info.note(format!("begin ({})", if commit { "to commit" } else { "to roll back" }));
                let mut c2 = cached.clone();
                {
                    let mut ip = s.conn.begin_transaction(&mut s.sql).map_err(|e| e.to_string())?;
                    for _ in 0..1 + r.below(4) {
                        let d = dump(&ip.transaction);
                        if r.chance(1, 3) {
                            let a = *r.pick(&pool);
                            if r.chance(1, 2) {
                                let dir = direction(r);
                                info.note(format!("  cache {} {:?}", a, dir));
                                ip.cache(&q::keyword(a), dir, CacheAction::Register).map_err(|e| format!("caching {}: {}", a, e))?;
                                if !c2.contains(&a) { c2.push(a); }
                            } else {
                                info.note(format!("  uncache {}", a));
                                ip.cache(&q::keyword(a), CacheDirection::Both, CacheAction::Deregister).map_err(|e| format!("uncaching {}: {}", a, e))?;
                                c2.retain(|x| *x != a);
                            }
                        } else {
                            let ops = gen_ops(r, &d, &ids, min, &opt);
                            let t = render(r, &ops);
                            info.note(format!("  {}", t));
                            if let Err(e) = ip.transact(t.as_str()) { info.note(format!("    refused: {}", e)); info.count("refused in progress"); }
                        }
                        if r.chance(1, 2) {
                            let d = dump(&ip.transaction);
                            let ents = entities(&d, min);
                            lookups("in progress", &d, &ids, &c2, &ents, &|e, k| ip.lookup_values_for_attribute(e, k), &|e, k| ip.lookup_value_for_attribute(e, k), info)?;
                            for qs in questions(r, &d, &ids, min, &c2).into_iter().take(5) {
                                let with = set(ip.q_once(&qs.0, q::inputs(&qs.1)));
                                ip.use_caching(false);
                                let without = set(ip.q_once(&qs.0, q::inputs(&qs.1)));
                                ip.use_caching(true);
                                same("in progress", &c2, &qs, with, without, info)?;
                            }
                        }
                    }
                    if commit { ip.commit().map_err(|e| format!("commit: {}", e))?; } else if r.chance(1, 2) { ip.rollback().map_err(|e| e.to_string())?; }
                }
                if commit { cached = c2; }
                info.note("end");
            }
        }
        let d = s.dump();
        let ents = entities(&d, min);
        lookups("committed", &d, &ids, &cached, &ents, &|e, k| s.conn.lookup_values_for_attribute(&s.sql, e, k), &|e, k| s.conn.lookup_value_for_attribute(&s.sql, e, k), info)?;
        for qs in questions(r, &d, &ids, min, &cached) {
            let with = set(s.conn.q_once(&s.sql, &qs.0, q::inputs(&qs.1)));
            let without = set(s.conn.q_uncached(&s.sql, &qs.0, q::inputs(&qs.1)));
            same("committed", &cached, &qs, with, without, info)?;
        }
        info.feed(&format!("{:?}{:?}", cached, d.facts.len()));
    }
    Ok(())
}

/// An attribute is removed while it is cached (its facts stay) and installed again, perhaps with
/// another cardinality or uniqueness.
pub fn c11_removed(r: &mut Rng, info: &mut Info) -> Case {
    let (mut s, ids) = std_store();
    let min = ids.values().max().unwrap() + 1;
    let mut pool: Vec<&'static str> = q::QA.to_vec();
    pool.retain(|a| { let d = attr_def(a); !d.fulltext && !d.component });
    r.shuffle(&mut pool);
    pool.truncate(2);
    let opt = GenOpt { attrs: pool.clone(), temps: 2, lookups: false, retracts: true, max: 6, conflicts: false, bad_retract_one: false };
    let a = pool[0];
    let schema = s.conn.current_schema();
    let mut ask = |s: &mut S, r: &mut Rng, info: &mut Info, what: &str| -> Case {
        let d = s.dump();
        let cached = [a];
        let mut qs: Vec<(String, q::B)> = questions(r, &d, &ids, min, &cached).into_iter().take(6).collect();
        qs.push((format!("[:find ?e ?v :where [?e {} ?v]]", ids[a]), q::B::new()));
        qs.push((format!("[:find ?e ?v :where [?e {} ?v]]", a), q::B::new()));
        qs.push((format!("[:find ?e ?a ?v :where [?e ?a ?v] [?e {} _]]", pool[1]), q::B::new()));
        for q in qs {
            let with = set(s.conn.q_once(&s.sql, &q.0, q::inputs(&q.1)));
            let without = set(s.conn.q_uncached(&s.sql, &q.0, q::inputs(&q.1)));
            same(what, &cached, &q, with, without, info)?;
        }
        Ok(())
    };
    for i in 0..1 + r.below(3) {
        let d = s.dump();
        let ops = gen_ops(r, &d, &ids, min, &opt);
        let t = render(r, &ops);
        info.note(t.clone());
        if let Err(e) = s.t(&t) { info.note(format!("  refused: {}", e)); }
        if i == 0 {
            let dir = direction(r);
            info.note(format!("cache {} {:?}", a, dir));
            s.conn.cache(&mut s.sql, &schema, &q::keyword(a), dir, CacheAction::Register).map_err(|e| format!("caching {}: {}", a, e))?;
        }
    }
    let d = s.dump();
    let def: Vec<String> = d.facts.keys().filter(|f| f.0 == ids[a] && f.1 <= 13).map(|f| format!("[:db/retract {} {} {}]", f.0, f.1, edn(&f.2))).collect();
    let t = format!("[{}]", def.join(" "));
    info.note(t.clone());
    match s.t(&t) { Err(e) => { info.note(format!("  refused: {}", e)); info.count("removals refused"); return Ok(()); } Ok(_) => info.count("removals") }
    if d.facts.keys().any(|f| f.1 == ids[a]) { info.count("removals leaving facts"); }
    ask(&mut s, r, info, "removed")?;
    let at = attr_def(a);
    // as strict as the facts left behind are known to allow
    let many = at.many || r.chance(1, 3);
    let uniq = if at.unique == 0 { 1 + r.below(2) } else { r.below(3) };
    let t = format!("[{{:db/id {} :db/ident {} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{} {}}}]", ids[a], a, at.ty, if many { "many" } else { "one" },
        match uniq { 0 => ":db/index true :db/unique :db.unique/value", 1 => ":db/index true", _ => "" });
    info.note(t.clone());
    match s.t(&t) { Err(e) => info.note(format!("  refused: {}", e)), Ok(_) => info.count("installed again") }
    ask(&mut s, r, info, "installed again")?;
    let d = s.dump();
    if d.ident(a).is_some() {
        let ops = gen_ops(r, &d, &ids, min, &opt);
        let t = render(r, &ops);
        info.note(t.clone());
        if let Err(e) = s.t(&t) { info.note(format!("  refused: {}", e)); }
        ask(&mut s, r, info, "changed")?;
    }
    Ok(())
}
