//! C18: pull, through queries and through the API, against the raw facts.
use crate::gen::*;
use crate::q::*;
use crate::store::*;
use crate::util::*;
use core_traits::{Binding, StructuredMap};
use mentat::QueryResults;
use std::collections::{BTreeMap, BTreeSet};

/// What a pulled map holds: name -> one value or several.
type M = BTreeMap<String, Vec<(bool, BTreeSet<V>)>>;
fn from_map(m: &StructuredMap) -> Result<BTreeMap<String, (bool, BTreeSet<V>)>, String> {
    let mut out = BTreeMap::new();
    for (k, b) in &m.0 {
        let v = match b {
            Binding::Scalar(_) => (false, { let mut s = BTreeSet::new(); s.insert(from_b(b)); s }),
            Binding::Vec(vs) => {
                let s: BTreeSet<V> = vs.iter().map(from_b).collect();
                if s.len() != vs.len() { return Err(format!("{} repeats a value: {:?}", k, vs)); }
                (true, s)
            }
            x => return Err(format!("{}: unexpected {:?}", k, x)),
        };
        out.insert(k.to_string(), v);
    }
    Ok(out)
}
pub struct Spec { pub text: String, pub names: Vec<(i64, String)>, pub dbid: Option<String> }
/// A pull pattern: attributes once each, with or without aliases, perhaps :db/id or everything.
fn spec(r: &mut Rng, ids: &BTreeMap<&'static str, i64>, d: &Dump, idents: &BTreeMap<i64, String>) -> Spec {
    let star = r.chance(1, 7);
    if star && r.chance(1, 2) { return Spec { text: "*".into(), names: d.attrs().keys().map(|a| (*a, idents[a].clone())).collect(), dbid: None }; }
    let mut all: Vec<(&str, i64)> = ids.iter().map(|(k, v)| (*k, *v)).collect();
    if r.chance(1, 4) { all.push((":db/ident", 1)); all.push((":db/txInstant", 3)); }
    r.shuffle(&mut all);
    all.truncate(1 + r.below(6));
    let mut parts = vec![];
    let mut names = vec![];
    for (i, (k, a)) in all.iter().enumerate() {
        if r.chance(1, 3) { let al = if r.chance(1, 2) { format!(":x/n{}", i) } else { format!(":n{}", i) }; parts.push(format!("{} :as {}", k, al)); names.push((*a, al)); }
        else { parts.push(k.to_string()); names.push((*a, k.to_string())); }
    }
    let mut dbid = None;
    if r.chance(1, 3) {
        let al = if r.chance(1, 3) { Some(":my/id".to_string()) } else { None };
        let p = match &al { Some(a) => format!(":db/id :as {}", a), None => ":db/id".into() };
        let at = r.below(parts.len() + 1);
        parts.insert(at, p);
        dbid = Some(al.unwrap_or_else(|| ":db/id".into()));
    }
    // the same attribute under two names
    if r.chance(1, 8) { let (k, a) = all[r.below(all.len())]; parts.push(format!("{} :as :again", k)); names.push((a, ":again".into())); }
    // everything else under its own name
    if star {
        let at = r.below(parts.len() + 1);
        parts.insert(at, "*".into());
        for a in d.attrs().keys() { if !all.iter().any(|x| x.1 == *a) { names.push((*a, idents[a].clone())); } }
    }
    Spec { text: parts.join(" "), names, dbid }
}
fn expected(e: i64, sp: &Spec, d: &Dump, at: &BTreeMap<i64, Attr>) -> BTreeMap<String, (bool, BTreeSet<V>)> {
    let mut out = BTreeMap::new();
    for (a, name) in &sp.names {
        let vs: BTreeSet<V> = d.facts.keys().filter(|f| f.0 == e && f.1 == *a).map(|f| f.2.clone()).collect();
        if !vs.is_empty() { out.insert(name.clone(), (at[a].many, vs)); }
    }
    if let Some(n) = &sp.dbid { out.insert(n.clone(), (false, { let mut s = BTreeSet::new(); s.insert(V::Ref(e)); s })); }
    out
}
fn map_of(b: &Binding) -> Result<BTreeMap<String, (bool, BTreeSet<V>)>, String> { match b { Binding::Map(m) => from_map(m), x => Err(format!("not a map: {:?}", x)) } }

fn names(d: &Dump) -> BTreeMap<i64, String> { d.facts.keys().filter(|f| f.1 == 1).filter_map(|f| if let V::Kw(k) = &f.2 { Some((f.0, k.clone())) } else { None }).collect() }

pub fn c18_api(r: &mut Rng, info: &mut Info) -> Case {
    let (s, ids, min) = populated(r);
    let d = s.dump();
    let at = d.attrs();
    let nm = names(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..10 {
        let mut es: Vec<i64> = g.ents.clone();
        es.push(ids[":p/l"]); es.push(999_999); es.push(1);
        r.shuffle(&mut es);
        let n = r.below(es.len() + 1);
        es.truncate(n);
        if r.chance(1, 5) && !es.is_empty() { let x = es[0]; es.push(x); }
        let mut attrs: Vec<i64> = at.keys().cloned().collect();
        r.shuffle(&mut attrs);
        let n = r.below(8);
        if r.chance(1, 2) { attrs.retain(|a| *a >= 65536); }
        attrs.truncate(n);
        let sp = Spec { text: String::new(), names: attrs.iter().map(|a| (*a, nm[a].clone())).collect(), dbid: None };
        let got = s.conn.pull_attributes_for_entities(&s.sql, es.iter().cloned(), attrs.iter().cloned()).map_err(|e| format!("pull {:?} for {:?}: {}", attrs, es, e))?;
        for e in got.keys() { chk!(es.contains(e), "pull {:?} for {:?} answers for {}", attrs, es, e); }
        for e in &es {
            let want = expected(*e, &sp, &d, &at);
            let have = match got.get(e) { Some(m) => from_map(m)?, None => BTreeMap::new() };
            if want != have { info.note(format!("{:?}", d.facts)); }
            chk!(want == have, "pull {:?} for {}: {:?}, the facts are {:?}", attrs, e, have, want);
            let single = s.conn.pull_attributes_for_entity(&s.sql, *e, attrs.iter().cloned()).map_err(|e| format!("pull one: {}", e))?;
            chk!(from_map(&single)? == want, "pull {:?} for the single {}: {:?}, the facts are {:?}", attrs, e, single, want);
            if !want.is_empty() { info.nontrivial = true; info.count("entities"); info.feed(&format!("{:?}", want)); }
        }
    }
    Ok(())
}

pub fn c18_query(r: &mut Rng, info: &mut Info) -> Case {
    let (s, ids, min) = populated(r);
    let d = s.dump();
    let db = Db::of(&d);
    let at = d.attrs();
    let nm = names(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..8 {
        let cls = { let mut c = g.clauses(r); c.retain(|c| if let Cl::Type(..) = c { false } else { true }); c.sort_by_key(|c| match c { Cl::Cmp(..) | Cl::Not(..) => 1, _ => 0 }); c };
        let evars: Vec<String> = top_vars(&cls).into_iter().filter(|v| v.starts_with("?e")).collect();
        if evars.is_empty() { continue; }
        let bs = match eval(&db, &cls, vec![B::new()]) { Some(b) => b, None => continue };
        // columns: plain variables and pulls
        let sp0 = spec(r, &ids, &d, &nm);
        let mut cols: Vec<(String, Option<Spec>)> = vec![];
        let v0 = r.pick(&evars).clone();
        cols.push((v0.clone(), Some(sp0)));
        let kind = *r.pick(&["rel", "rel", "rel", "coll", "scalar", "tuple"]);
        if kind == "rel" || kind == "tuple" {
            for v in top_vars(&cls) { if v != v0 && r.chance(1, 3) { let p = if v.starts_with("?e") && r.chance(1, 2) { Some(spec(r, &ids, &d, &nm)) } else { None }; cols.push((v, p)); } }
            cols.truncate(3);
            r.shuffle(&mut cols);
        }
        let find: Vec<String> = cols.iter().map(|(v, p)| match p { Some(p) => format!("(pull {} [{}])", v, p.text), None => v.clone() }).collect();
        let f = find.join(" ");
        let f = match kind { "rel" => f, "coll" => format!("[{} ...]", f), "scalar" => format!("{} .", f), _ => format!("[{}]", f) };
        let ord = if (kind == "rel" || kind == "coll") && r.chance(1, 3) { Some((r.chance(1, 2), v0.clone())) } else { None };
        let q = text(&f, &[], &cls, &match &ord { Some((asc, v)) => format!(" :order ({} {})", if *asc { "asc" } else { "desc" }, v), None => String::new() });
        info.note(q.clone());
        let o = match run(&s, &q, &B::new()) { Ok(o) => o, Err(e) => { info.count("refused"); if e.contains("SQL") { return Err(format!("{}: {}", q, e)); } continue } };
        let vars: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
        let want = project(&bs, &vars);
        let got: Vec<Vec<Binding>> = match o.results {
            QueryResults::Scalar(x) => x.into_iter().map(|b| vec![b]).collect(),
            QueryResults::Tuple(x) => x.into_iter().collect(),
            QueryResults::Coll(x) => x.into_iter().map(|b| vec![b]).collect(),
            QueryResults::Rel(x) => x.rows().map(|r| r.to_vec()).collect(),
        };
        // expected rows, as the maps the facts give
        let cell = |v: &V, p: &Option<Spec>| -> String { match p { None => format!("{:?}", v), Some(p) => { let e = if let V::Ref(e) = v { *e } else { -1 }; format!("{:?}", expected(e, p, &d, &at)) } } };
        let seen = |b: &Binding, p: &Option<Spec>| -> Result<String, String> { Ok(match p { None => format!("{:?}", from_b(b)), Some(_) => format!("{:?}", map_of(b)?) }) };
        let mut wrows: Vec<Vec<String>> = want.iter().map(|w| w.iter().zip(&cols).map(|(v, c)| cell(v, &c.1)).collect()).collect();
        if kind == "coll" { wrows.retain(|w| w[0] != "{}"); }
        if let Some((asc, v)) = &ord { if cols.len() == 1 && cols[0].0 == *v && !*asc { wrows.reverse(); } }
        let mut grows = vec![];
        for g in &got { let mut x = vec![]; for (b, c) in g.iter().zip(&cols) { x.push(seen(b, &c.1).map_err(|e| format!("{}: {}", q, e))?); } chk!(g.len() == cols.len(), "{}: {} columns", q, g.len()); grows.push(x); }
        let mut grows: Vec<Vec<String>> = if kind == "coll" { grows.into_iter().filter(|g| g[0] != "{}").collect() } else { grows };
        if kind == "scalar" || kind == "tuple" {
            chk!(grows.len() == if wrows.is_empty() { 0 } else { 1 }, "{}: {} results, expected from {}", q, grows.len(), wrows.len());
            for x in &grows { chk!(wrows.contains(x), "{}: {:?} is not what any of the entities has: {:?}", q, x, wrows); }
        } else {
            let ordered = ord.is_some() && cols.len() == 1;
            if !ordered { grows.sort(); wrows.sort(); }
            if grows != wrows { info.note(format!("{:?}", d.facts)); }
            chk!(grows == wrows, "{}: {:?}, expected {:?}", q, grows.iter().take(4).collect::<Vec<_>>(), wrows.iter().take(4).collect::<Vec<_>>());
        }
        info.count(kind);
        if !want.is_empty() { info.nontrivial = true; info.count("non-empty"); info.feed(&q); if info.sample.is_empty() { info.sample = format!("{}: {} rows", q, want.len()); } }
    }
    Ok(())
}
