//! C07: every value of every type reads back as the same value of the same type on every path.
use crate::gen::*;
use crate::q;
use crate::store::*;
use crate::util::*;
use core_traits::{Binding, StructuredMap, TypedValue};
use mentat::{CacheAction, CacheDirection};
use mentat::{QueryInputs, Variable};
use mentat_transaction::entity_builder::{BuildTerms, TermBuilder};
use std::collections::BTreeMap;

/// Years 1 to 9999, in microseconds.
const LO: i64 = -62_135_596_800_000_000;
const HI: i64 = 253_402_300_799_999_999;

pub fn exotic(r: &mut Rng, ty: &str, ents: &[i64]) -> V {
    match ty {
        "boolean" => V::Bool(r.chance(1, 2)),
        "long" => V::Long(match r.below(4) { 0 => *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, 0, 1, -1, 1 << 53, (1 << 53) + 1, 10_000_000_000_000_000]), 1 => r.range(-3, 3), 2 => r.next() as i64, _ => (r.next() as i64) >> r.below(63) }),
        "double" => V::Dbl(loop {
            let f = match r.below(4) {
                0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 1e15, 123456789012345680.0]),
                1 => r.range(-100, 100) as f64 / 8.0,
                2 => r.next() as i64 as f64,
                _ => f64::from_bits(r.next()),
            };
            if !f.is_nan() { break f.to_bits(); }
        }),
        "string" => V::Str(match r.below(3) {
            0 => r.pick(&["", "'", "\"", "\\", "a\u{0}b", "\u{0}", "\n\t\r", "1", "1.0", ":db/ident", "true", "\u{1F600}", "e\u{301}", " lead and trail ", "\u{FEFF}x", "x'41'", "NULL"]).to_string(),
            1 => (0..r.below(20)).map(|_| char::from_u32(loop { let c = (r.next() as u32) >> r.below(30); if c != 0 && char::from_u32(c).is_some() { break c; } }).unwrap()).collect(),
            _ => format!("s{}", r.range(0, 3)),
        }),
        "keyword" => V::Kw(match r.below(3) { 0 => r.pick(&[":a/b", ":a.b/c", ":a.b.c/d-e", ":A/B", ":a/_b", ":a1/b2", ":x*!/y+?", ":k/k1", ":a/1"][..8]).to_string(), 1 => r.pick(&[":plain", ":x", ":a-b"]).to_string(), _ => format!(":k/k{}", r.range(0, 3)) }),
        "instant" => V::Inst(match r.below(4) {
            0 => *r.pick(&[0, 1, -1, 999_999, -999_999, -1_000_000, -1_000_001, LO, HI, 951_868_799_999_999, 253_402_300_799_000_001]),
            1 => r.range(-5_000_000, 5_000_000),
            2 => r.range(LO, HI),
            _ => r.range(-100_000, 100_000) * 1_000_000 + *r.pick(&[0, 1, 500_000, 999_999]),
        }),
        "uuid" => V::Uuid(match r.below(3) { 0 => vec![0u8; 16], 1 => vec![0xff; 16], _ => { let mut b = vec![0u8; 16]; for x in b.iter_mut() { *x = if r.chance(1, 4) { 0 } else { r.next() as u8 }; } b } }),
        "ref" => V::Ref(if ents.is_empty() { *r.pick(&[1, 7, 37]) } else { *r.pick(ents) }),
        _ => unreachable!(),
    }
}
/// Text of a value, when EDN text can express it.
fn text(v: &V) -> Option<String> {
    match v {
        V::Dbl(b) => { let f = f64::from_bits(*b); Some(if f.is_infinite() { format!("#f {}Infinity", if f > 0.0 { "+" } else { "-" }) } else { format!("{:?}", f) }) }
        V::Inst(us) if *us < LO || *us > HI => None,
        v => Some(edn(v)),
    }
}
/// As q::from_tv, keeping the exact bits of doubles.
pub fn exact(t: &TypedValue) -> V { match t { TypedValue::Double(f) => V::Dbl(f.into_inner().to_bits()), t => q::from_tv(t) } }
fn exact_b(b: &Binding) -> V { match b { Binding::Scalar(t) => exact(t), b => V::Bad(-1, format!("{:?}", b)) } }
fn all(o: &mentat::QueryOutput) -> Vec<Vec<V>> {
    use mentat::QueryResults::*;
    match &o.results {
        Scalar(x) => x.iter().map(|b| vec![exact_b(b)]).collect(),
        Tuple(x) => x.iter().map(|t| t.iter().map(exact_b).collect()).collect(),
        Coll(x) => x.iter().map(|b| vec![exact_b(b)]).collect(),
        Rel(x) => x.rows().map(|t| t.iter().map(exact_b).collect()).collect(),
    }
}
fn pulled(m: &StructuredMap, k: &str) -> Vec<V> {
    match m.0.get(&mentat_core::ValueRc::new(q::keyword(k))) {
        None => vec![],
        Some(Binding::Vec(v)) => v.iter().map(exact_b).collect(),
        Some(b) => vec![exact_b(b)],
    }
}

pub fn c07_values(r: &mut Rng, info: &mut Info) -> Case {
    let (mut s, ids) = std_store();
    s.limit(r);
    let ty_of = |a: &str| attr_def(a).ty;
    let many = r.chance(1, 2);
    let by: Vec<(&'static str, &'static str)> = ATTRS.iter().filter(|a| a.unique == 0 && !a.component && !a.fulltext && a.many == many).map(|a| (a.ty, a.kw)).collect();
    let mut facts: Vec<(i64, &'static str, V)> = vec![];
    let mut ents: Vec<i64> = vec![];
    let fts = if many { ":p/fs" } else { ":p/f" };
    let mut cached: Vec<&'static str> = vec![];
    for round in 0..1 + r.below(3) {
        let mut new: Vec<(String, &'static str, V)> = vec![];
        for i in 0..1 + r.below(6) {
            let (ty, mut a) = *r.pick(&by);
            let v = exotic(r, ty, &ents);
            if ty == "string" && r.chance(1, 3) { a = fts; }
            new.push((format!("t{}_{}", round, i), a, v));
            if many && r.chance(1, 2) { let v = exotic(r, ty_of(a), &ents); new.push((format!("t{}_{}", round, i), a, v)); }
        }
        let textual = r.chance(1, 2) && new.iter().all(|n| text(&n.2).is_some());
        let rep = if textual {
            let t = format!("[{}]", new.iter().map(|(t, a, v)| format!("[:db/add \"{}\" {} {}]", t, a, text(v).unwrap())).collect::<Vec<_>>().join(" "));
            info.note(t.clone());
            s.t(&t)
        } else {
            let mut b = TermBuilder::new();
            info.note(format!("builder {:?}", new));
            for (t, a, v) in &new {
                let e = b.named_tempid(t.clone());
                b.add(e, q::keyword(a), q::to_tv(v)).unwrap();
            }
            (|| { let mut ip = s.conn.begin_transaction(&mut s.sql)?; let rep = ip.transact_builder(b)?; ip.commit()?; Ok(rep) })().map_err(|e: mentat::MentatError| format!("{}", e))
        };
        let rep = match rep { Ok(x) => x, Err(e) => return Err(format!("a transaction storing {:?} was refused: {}", new, e)) };
        for (t, a, v) in new {
            let e = rep.tempids[&t];
            if !ents.contains(&e) { ents.push(e); }
            // numerically equal doubles are one value
            if facts.iter().any(|(e1, a1, v1)| *e1 == e && *a1 == a && same_val(v1, &v)) { continue; }
            facts.push((e, a, v));
        }
    }
    if r.chance(1, 3) {
        // cached lookups are a reading path too
        let a = r.pick(&by).1;
        let schema = s.conn.current_schema();
        let dir = match r.below(3) { 0 => CacheDirection::Forward, 1 => CacheDirection::Both, _ => CacheDirection::Reverse };
        if let Err(e) = s.conn.cache(&mut s.sql, &schema, &q::keyword(a), dir, CacheAction::Register) { return Err(format!("caching {} with stored values fails: {}", a, e)); }
        cached.push(a);
        info.note(format!("cache {}", a));
    }
    info.nontrivial = true;
    for f in &facts { info.feed(&format!("{:?}", f)); }
    // every path
    let d = s.dump();
    for e in &ents {
        let attrs: std::collections::BTreeSet<&'static str> = facts.iter().filter(|f| f.0 == *e).map(|f| f.1).collect();
        let mut whole: Vec<Vec<V>> = vec![];
        for a in &attrs {
            let mut want: Vec<V> = facts.iter().filter(|f| f.0 == *e && f.1 == *a).map(|f| f.2.clone()).collect();
            want.sort();
            for v in &want { whole.push(vec![V::Ref(ids[a]), v.clone()]); }
            let got = |path: &str, mut g: Vec<V>| -> Case {
                g.sort();
                if g != want { Err(format!("{} of entity {}, {}: stored {:?}, read {:?}", path, e, a, want, g)) } else { Ok(()) }
            };
            info.count("facts");
            // raw tables, and the log
            let raw: Vec<V> = { let mut v: Vec<V> = d.facts.keys().filter(|f| f.0 == *e && f.1 == ids[a]).map(|f| f.2.clone()).collect(); v.sort(); v };
            let norm: Vec<V> = { let mut v: Vec<V> = want.iter().map(norm_v).collect(); v.sort(); v };
            chk!(raw == norm, "datoms table of entity {}, {}: stored {:?}, is {:?}", e, a, norm, raw);
            let mut log: Vec<V> = d.log.values().flat_map(|l| l.iter()).filter(|l| l.0 == *e && l.1 == ids[a] && l.3).map(|l| l.2.clone()).collect();
            log.sort();
            chk!(log == norm, "log of entity {}, {}: stored {:?}, is {:?}", e, a, norm, log);
            let mut inp: BTreeMap<String, V> = BTreeMap::new();
            inp.insert("?e".into(), V::Ref(*e));
            let qs = |q: String, inp: &BTreeMap<String, V>| -> Result<Vec<Vec<V>>, String> {
                match q::run(&s, &q, inp) { Ok(o) => Ok(all(&o)), Err(x) => Err(format!("{} fails: {}", q, x)) }
            };
            let col = |v: Vec<Vec<V>>| -> Vec<V> { v.into_iter().map(|r| r[0].clone()).collect() };
            got("query (coll, input)", col(qs(format!("[:find [?v ...] :in ?e :where [?e {} ?v]]", a), &inp)?))?;
            got("query (rel)", col(qs(format!("[:find ?v ?e :where [{} {} ?v] [?e {} ?v]]", e, a, a), &BTreeMap::new())?).into_iter().fold(vec![], |mut l, v| { if !l.contains(&v) { l.push(v) } l }))?;
            if want.len() == 1 {
                got("query (scalar)", col(qs(format!("[:find ?v . :where [{} {} ?v]]", e, a), &BTreeMap::new())?))?;
                got("query (tuple)", col(qs(format!("[:find [?v ?x] :where [{} {} ?v ?x]]", e, a), &BTreeMap::new())?))?;
            }
            got("lookup_values_for_attribute", s.conn.lookup_values_for_attribute(&s.sql, *e, &q::keyword(a)).map_err(|x| format!("lookup fails: {}", x))?.iter().map(exact).collect())?;
            let one = s.conn.lookup_value_for_attribute(&s.sql, *e, &q::keyword(a)).map_err(|x| format!("lookup fails: {}", x))?;
            chk!(one.as_ref().map(|x| want.contains(&exact(x))).unwrap_or(false), "lookup_value_for_attribute of entity {}, {}: stored {:?}, read {:?}", e, a, want, one);
            let m = s.conn.pull_attributes_for_entity(&s.sql, *e, vec![ids[a]]).map_err(|x| format!("pull fails: {}", x))?;
            got("pull", pulled(&m, a))?;
            let p = q::run(&s, &format!("[:find (pull ?e [{}]) . :where [?e {} _] [(ground {}) ?e]]", a, a, e), &BTreeMap::new());
            if let Ok(o) = p { if let mentat::QueryResults::Scalar(Some(Binding::Map(m))) = &o.results { got("pull in a query", pulled(m, a))?; info.count("pull in query"); } }
            // find the entity again by each value: as an input, and as text
            for v in &want {
                let holders: std::collections::BTreeSet<i64> = facts.iter().filter(|f| f.1 == *a && same_val(&f.2, v)).map(|f| f.0).collect();
                let mut inp: BTreeMap<String, V> = BTreeMap::new();
                inp.insert("?v".into(), v.clone());
                let es = |o: mentat::QueryOutput| -> std::collections::BTreeSet<i64> { all(&o).iter().map(|r| match r[0] { V::Ref(x) => x, _ => -1 }).collect() };
                match run_in(&s, &format!("[:find [?e ...] :in ?v :where [?e {} ?v]]", a), v) {
                    Ok(o) => chk!(es(o) == holders, "looking for {} {:?} as an input: not exactly {:?}", a, v, holders),
                    Err(x) => return Err(format!("query with input {:?} fails: {}", v, x)),
                }
                if let (Some(t), true) = (text(v), !matches!(v, V::Ref(_))) {
                    let qq = format!("[:find [?e ...] :where [?e {} {}]]", a, t);
                    match q::run(&s, &qq, &BTreeMap::new()) {
                        Ok(o) => { let g = es(o); chk!(g == holders, "{}: {:?}, not {:?}", qq, g, holders) }
                        Err(x) => return Err(format!("{} fails: {}", qq, x)),
                    }
                }
            }
        }
        // all attributes at once
        whole.sort();
        let o = q::run(&s, &format!("[:find ?a ?v :where [{} ?a ?v]]", e), &BTreeMap::new()).map_err(|x| format!("query by entity fails: {}", x))?;
        let mut g = all(&o);
        g.sort();
        chk!(g == whole, "attributes of {}: stored {:?}, read {:?}", e, whole, g);
    }
    info.sample = format!("{:?}", facts.first());
    info.count(if cached.is_empty() { "uncached" } else { "cached" });
    Ok(())
}
fn run_in(s: &S, text: &str, v: &V) -> Result<mentat::QueryOutput, String> {
    let i = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?v"), q::to_tv(v))]);
    s.conn.q_once(&s.sql, text, Some(i)).map_err(|e| format!("{}", e))
}
fn norm_v(v: &V) -> V { match v { V::Dbl(b) => V::dbl(f64::from_bits(*b)), v => v.clone() } }
fn same_val(a: &V, b: &V) -> bool { norm_v(a) == norm_v(b) }
