//! User data never alters generated SQL (C16): text that looks like SQL as values, names that SQLite
//! might confuse as variables and idents, and the query builder on its own.
use crate::gen::*;
use crate::q::{self, to_tv};
use crate::store::*;
use crate::util::*;
use crate::{find, tx};
use core_traits::TypedValue;
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat::{QueryExplanation, QueryInputs, Variable};
use mentat_sql::{QueryBuilder, SQLiteQueryBuilder};
use std::collections::{BTreeMap, BTreeSet};
use rusqlite::types::Value as SV;

fn any_value(r: &mut Rng) -> V {
    match r.below(10) {
        0 => V::Ref(r.range(0, 1 << 40)),
        1 => V::Bool(r.chance(1, 2)),
        2 => V::Long(match r.below(3) { 0 => r.range(-3, 3), 1 => r.next() as i64, _ => *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1]) }),
        3 => { let f = match r.below(3) { 0 => r.range(-9, 9) as f64 / 4.0, 1 => f64::from_bits(r.next()), _ => *r.pick(&[1e300, -1e-300, f64::INFINITY, f64::NEG_INFINITY, 0.1, 123456789012.0, 1e12, 0.30000000000000004]) }; V::dbl(if f.is_nan() { 0.5 } else { f }) }
        4 => V::Inst(r.range(-10_000_000_000_000_000, 10_000_000_000_000_000)),
        5 => { let mut b = vec![7u8; 16]; if r.chance(1, 2) { b[3] = r.next() as u8; b[15] = r.next() as u8; } V::Uuid(b) }
        6 => gen_value(r, "keyword", &[]),
        _ => gen_value(r, "string", &[]),
    }
}
fn same(v: &V, x: &SV) -> bool {
    match (v, x) {
        (V::Ref(a), SV::Integer(b)) | (V::Long(a), SV::Integer(b)) | (V::Inst(a), SV::Integer(b)) => a == b,
        (V::Bool(a), SV::Integer(b)) => *a as i64 == *b,
        (V::Dbl(a), SV::Real(b)) => *a == b.to_bits() || f64::from_bits(*a) == 0.0 && *b == 0.0,
        (V::Str(a), SV::Text(b)) | (V::Kw(a), SV::Text(b)) => a == b,
        (V::Uuid(a), SV::Blob(b)) => a == b,
        _ => false,
    }
}
fn ident(r: &mut Rng) -> String { let s: String = (0..1 + r.below(4)).map(|_| *r.pick(&["`", "``", "'", "\"", "$v0", "?x", "x", " ", ";", "--", "a.b", "é", "]", "["])).collect(); s }

/// Names of placeholders in SQL text, outside literals and quoted names.
fn placeholders(sql: &str) -> Vec<String> {
    let mut out = vec![];
    let c: Vec<char> = sql.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            q @ '\'' | q @ '"' | q @ '`' => { i += 1; loop { if c[i] == q { if i + 1 < c.len() && c[i + 1] == q { i += 2; continue; } break; } i += 1; } i += 1; }
            '$' | ':' | '@' => { let s = i; i += 1; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; } out.push(c[s..i].iter().collect()); }
            '?' => { out.push("?".into()); i += 1; }
            _ => i += 1,
        }
    }
    out
}
/// Every placeholder has exactly one binding, every binding is used, and strings share theirs.
fn bindings(sql: &str, args: &[(String, std::rc::Rc<SV>)]) -> Result<BTreeMap<String, SV>, String> {
    let used: BTreeSet<String> = placeholders(sql).into_iter().collect();
    let mut m = BTreeMap::new();
    for (k, v) in args { if m.insert(k.clone(), (**v).clone()).is_some() { return Err(format!("{} is bound twice in {}", k, sql)); } }
    let have: BTreeSet<String> = m.keys().cloned().collect();
    if used != have { return Err(format!("placeholders {:?} but bindings {:?} in {}", used, have, sql)); }
    Ok(m)
}

/// What is pushed is what SQLite sees.
pub fn c16_builder(r: &mut Rng, info: &mut Info) -> Case {
    hostile(true);
    let conn = rusqlite::Connection::open_in_memory().unwrap();
    for _ in 0..20 {
        let n = 1 + r.below(16);
        let vals: Vec<V> = (0..n).map(|_| any_value(r)).collect();
        let mut names: Vec<String> = vec![];
        let mut b = if r.chance(1, 5) { SQLiteQueryBuilder::with_prefix("$arg".into()) } else { SQLiteQueryBuilder::new() };
        b.push_sql("SELECT ");
        for (i, v) in vals.iter().enumerate() {
            if i > 0 { b.push_sql(", "); }
            b.push_typed_value(&to_tv(v)).map_err(|e| e.to_string())?;
            b.push_sql(" AS ");
            let mut id = ident(r);
            while names.iter().any(|n| n.eq_ignore_ascii_case(&id)) { id.push('z'); }
            b.push_identifier(&id).map_err(|e| e.to_string())?;
            names.push(id);
        }
        // a bound parameter, named alike
        let param = if r.chance(1, 2) { Some((*r.pick(&["v0", "v1", "ilimit", "v", "arg0", "v0x", "i_v0", "v10", "a'b", "v0 "])).to_string()) } else { None };
        let mut bound = None;
        if let Some(p) = &param {
            let before = b.sql.clone();
            b.push_sql(", ");
            match b.push_bind_param(p) {
                Ok(()) => { b.push_sql(" AS `the parameter`"); bound = Some(p.clone()); names.push("the parameter".into()); }
                Err(_) => { b.sql = before; info.count("parameter refused") }
            }
        }
        let q = b.finish();
        let mut args = q.args.clone();
        if let Some(p) = &bound {
            let name = format!("${}", p);
            if args.iter().any(|a| a.0 == name) { return Err(format!("the parameter {} was accepted but is also a generated name in {}", name, q.sql)); }
            args.push((name, std::rc::Rc::new(SV::Text("the parameter's value".into()))));
        }
        let m = bindings(&q.sql, &args)?;
        // equal strings (and equal uuids) share one parameter
        for v in vals.iter().collect::<BTreeSet<_>>() {
            if let V::Str(s) = v {
                let kws = vals.iter().filter(|x| **x == V::Kw(s.clone())).count();
                let k = m.values().filter(|x| **x == SV::Text(s.clone())).count();
                if k != 1 + kws { return Err(format!("the string {:?} has {} bindings in {}", s, k, q.sql)); }
            }
        }
        let mut st = conn.prepare(&q.sql).map_err(|e| format!("{}: {}", e, q.sql))?;
        let cols: Vec<String> = st.column_names().into_iter().map(|s| s.to_string()).collect();
        if cols != names { return Err(format!("identifiers {:?} came out as {:?} in {}", names, cols, q.sql)); }
        let p: Vec<(&str, &dyn rusqlite::ToSql)> = args.iter().map(|(k, v)| (k.as_str(), &**v as &dyn rusqlite::ToSql)).collect();
        let got: Vec<SV> = st.query_row_named(&p, |row| Ok((0..names.len()).map(|i| row.get::<_, SV>(i).unwrap()).collect())).map_err(|e| format!("{}: {}", e, q.sql))?;
        for (v, x) in vals.iter().zip(&got) { chk!(same(v, x), "{:?} reached SQLite as {:?} in {} with {:?}", v, x, q.sql, args); }
        if bound.is_some() { chk!(got[vals.len()] == SV::Text("the parameter's value".into()), "the parameter arrived as {:?} in {}", got[vals.len()], q.sql); }
        info.count("statements");
        info.nontrivial = true;
        info.feed(&q.sql);
        if info.sample.is_empty() { info.sample = q.sql.clone(); }
    }
    Ok(())
}

const NAMES: &[&str] = &["?x", "?X", "?x_value_type_tag", "?X_value_type_tag", "?x_VALUE_TYPE_TAG", "?x_value_type_tag_value_type_tag", "?datoms00", "?DATOMS00", "?v", "?V", "?e", "?E", "?a", "?tx", "?value_type_tag", "?*", "?%", "?_", "?=", "?<x>", "?$v0", "?v0", "?select", "?SELECT", "?xX", "?Xx", "?XX", "?xx", "?x-y", "?x_y", "?x+y", "?rowid", "?0", "?c00"];
/// Other names for the variables the generators use.
fn rename_all(r: &mut Rng) {
    let mut vars: Vec<String> = vec!["?e0", "?e1", "?e2", "?tx", "?a0", "?kan0", "?kan1"].into_iter().map(|s| s.to_string()).collect();
    for t in &["boolean", "long", "double", "string", "keyword", "instant", "uuid"] { for i in 0..2 { vars.push(format!("?{}{}", t, i)); } }
    for i in 0..4 { vars.push(format!("?loc{}", i)); }
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    // names alike are near each other in the list: take a window of a sorted order half of the time
    if r.chance(1, 2) { names.sort_by_key(|n| n.to_lowercase()); let k = r.below(names.len()); names.rotate_left(k); r.shuffle(&mut vars); }
    q::RENAME.with(|m| *m.borrow_mut() = Some(vars.into_iter().zip(names).collect()));
}
pub fn c16_queries(r: &mut Rng, info: &mut Info) -> Case {
    hostile(r.chance(2, 3));
    rename_all(r);
    match r.below(4) { 0 => find::c17_rows(r, info), 1 => find::c17_aggregates(r, info), _ => q::c14_query(r, info) }
}
pub fn c16_transactions(r: &mut Rng, info: &mut Info) -> Case {
    hostile(true);
    match r.below(4) { 0 => tx::c01_notation(r, info), 1 => tx::c02_history(r, info), _ => tx::c01_history(r, info) }
}

/// The SQL of a query and its arguments.
pub fn c16_placeholders(r: &mut Rng, info: &mut Info) -> Case {
    hostile(true);
    let (s, ids, min) = q::populated(r);
    let d = s.dump();
    let g = q::G::new(&d, &ids, min);
    let limit = Variable::from_valid_name("?limit");
    for _ in 0..16 {
        let cls = g.clauses(r);
        let vars = q::top_vars(&cls);
        if vars.is_empty() { continue; }
        let mut strings = BTreeSet::new();
        let t = q::text(&vars.join(" "), &[], &cls, "");
        let mut keywords = 0;
        fn walk(c: &q::Cl, ss: &mut BTreeSet<String>, kw: &mut usize) {
            let mut v = |x: &V| match x { V::Str(s) => { ss.insert(s.clone()); } V::Kw(_) => *kw += 1, _ => {} };
            match c {
                q::Cl::Pat(a, b, c, d) => for t in [a, b, c, d].iter() { if let q::T::C(x) = t { v(x) } },
                q::Cl::Ground(_, vs) => for x in vs { v(x) },
                q::Cl::Cmp(_, a, b) => for t in [a, b].iter() { if let q::T::C(x) = t { v(x) } },
                q::Cl::Or(_, bs) => for b in bs { for c in b { walk(c, ss, kw) } },
                q::Cl::Not(_, b) => for c in b { walk(c, ss, kw) },
                q::Cl::Type(..) => {}
            }
        }
        for c in &cls { walk(c, &mut strings, &mut keywords); }
        let (t, lim) = if r.chance(1, 4) { (t.replacen(" :where", " :in ?limit :where", 1).trim_end_matches(']').to_string() + "", true) } else { (t, false) };
        let t = if lim { q::text(&vars.join(" "), &["?limit".to_string()], &cls, " :limit ?limit") } else { t };
        let ins = if lim { QueryInputs::with_value_sequence(vec![(limit.clone(), TypedValue::Long(3))]) } else { QueryInputs::default() };
        match s.conn.q_explain(&s.sql, &t, ins) {
            Ok(QueryExplanation::ExecutionPlan { query, .. }) => {
                let m = bindings(&query.sql, &query.args).map_err(|e| format!("{}: {}", t, e))?;
                let mut texts = 0;
                for s in &strings {
                    let k = m.values().filter(|x| **x == SV::Text(s.clone())).count();
                    chk!(k <= 1, "{}: the string {:?} has {} bindings in {}", t, s, k, query.sql);
                    texts += k;
                }
                // every other text is a keyword of the query
                for v in m.values() { if let SV::Text(s) = v { if !strings.contains(s) { let k = format!("{}", s); chk!(k.starts_with(':') && t.contains(&k), "{}: the text {:?} is bound but not in the query", t, s); } } }
                if texts > 0 { info.nontrivial = true; info.feed(&t); if info.sample.is_empty() { info.sample = format!("{} => {}", t, query.sql); } }
                info.count("explained");
            }
            Ok(_) => info.count("constant"),
            Err(e) => { let e = e.to_string(); chk!(!q::sql_error(&e), "{}: {}", t, e); info.count("refused") }
        }
    }
    Ok(())
}

/// Idents made of whatever text: programmatic ones can hold quotes.
pub fn c16_idents(r: &mut Rng, info: &mut Info) -> Case {
    let dir = std::env::temp_dir().join(format!("c16-{}-{}", std::process::id(), r.next()));
    std::fs::create_dir_all(&dir).unwrap();
    let res = idents(r, info, dir.join("db").to_str().unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    res
}
fn idents(r: &mut Rng, info: &mut Info, path: &str) -> Case {
    let mut s = S::file(path);
    let part = |r: &mut Rng, quoting: bool| -> String { (0..1 + r.below(3)).map(|_| if quoting { *r.pick(&["'", "\"", "`", "$v0", " ", ";", "--", "x", "?1", "%"]) } else { *r.pick(&["a", "A", "$v0", "%", "*", "=", "<", ">", "x", "&"]) }).collect() };
    let mut attrs: Vec<(mentat::Keyword, &'static str)> = vec![];
    let mut b = TermBuilder::new();
    let mut seen = BTreeSet::new();
    for i in 0..2 + r.below(4) {
        let quoting = r.chance(1, 2);
        let (ns, n) = (part(r, quoting), part(r, quoting));
        if !seen.insert((ns.clone(), n.clone())) || n.starts_with('_') { continue; }
        let k = mentat::Keyword::namespaced(ns.as_str(), n.as_str());
        let ty = *r.pick(&["string", "long", "keyword"]);
        let t = b.named_tempid(format!("t{}", i));
        let kw = |s: &str| ::edn::entities::ValuePlace::<TypedValue>::Entid(::edn::entities::EntidOrIdent::Ident(q::keyword(s)));
        b.add(t.clone(), q::keyword(":db/ident"), TypedValue::Keyword(mentat_core::ValueRc::new(k.clone()))).map_err(|e| e.to_string())?;
        b.add(t.clone(), q::keyword(":db/valueType"), kw(&format!(":db.type/{}", ty))).map_err(|e| e.to_string())?;
        b.add(t.clone(), q::keyword(":db/cardinality"), kw(":db.cardinality/many")).map_err(|e| e.to_string())?;
        b.add(t.clone(), q::keyword(":db/index"), TypedValue::Boolean(true)).map_err(|e| e.to_string())?;
        b.add(t, q::keyword(":db/unique"), kw(":db.unique/identity")).map_err(|e| e.to_string())?;
        attrs.push((k, ty));
    }
    info.note(format!("{:?}", attrs));
    let run = |s: &mut S, b: TermBuilder| -> Result<mentat::TxReport, String> {
        let mut ip = s.conn.begin_transaction(&mut s.sql).map_err(|e| e.to_string())?;
        let rep = ip.transact_builder(b).map_err(|e| e.to_string())?;
        ip.commit().map_err(|e| e.to_string())?;
        Ok(rep)
    };
    run(&mut s, b).map_err(|e| format!("installing {:?}: {}", attrs, e))?;
    hostile(true);
    let mut facts: BTreeSet<(i64, usize, V)> = BTreeSet::new();
    let mut b = TermBuilder::new();
    let mut new = vec![];
    for i in 0..1 + r.below(6) {
        let k = r.below(attrs.len());
        let v = gen_value(r, attrs[k].1, &[]);
        if new.iter().any(|n: &(String, usize, V)| n.1 == k && n.2 == v) { continue; }
        let t = format!("n{}", i);
        let tid = b.named_tempid(t.clone());
        b.add(tid, attrs[k].0.clone(), to_tv(&v)).map_err(|e| e.to_string())?;
        new.push((t, k, v));
    }
    let rep = run(&mut s, b).map_err(|e| format!("facts {:?}: {}", new, e))?;
    for (t, k, v) in new { facts.insert((rep.tempids[&t], k, v)); }
    for round in 0..2 {
        for (k, (a, _)) in attrs.iter().enumerate() {
            let want: BTreeSet<Vec<V>> = facts.iter().filter(|f| f.1 == k).map(|f| vec![V::Ref(f.0), f.2.clone()]).collect();
            let i = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?k"), TypedValue::Keyword(mentat_core::ValueRc::new(a.clone())))]);
            let o = s.conn.q_once(&s.sql, "[:find ?e ?v :in ?k :where [?a :db/ident ?k] [?e ?a ?v]]", i).map_err(|e| format!("{:?}: {}", a, e))?;
            let got: BTreeSet<Vec<V>> = q::rows(&o).into_iter().collect();
            chk!(got == want, "round {}: {:?} has {:?}, expected {:?}", round, a, got, want);
            for f in facts.iter().filter(|f| f.1 == k) {
                let i = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?k"), TypedValue::Keyword(mentat_core::ValueRc::new(a.clone()))), (Variable::from_valid_name("?v"), to_tv(&f.2))]);
                let q2 = "[:find ?e :in ?k ?v :where [?a :db/ident ?k] [?e ?a ?v]]";
                let o = s.conn.q_once(&s.sql, q2, i).map_err(|e| format!("{:?} {:?}: {}", a, f, e))?;
                let got: BTreeSet<Vec<V>> = q::rows(&o).into_iter().collect();
                let want: BTreeSet<Vec<V>> = facts.iter().filter(|g| g.1 == k && g.2 == f.2).map(|g| vec![V::Ref(g.0)]).collect();
                chk!(got == want, "round {}: {:?} {:?} found {:?}, expected {:?}", round, a, f.2, got, want);
                info.count("lookups");
            }
        }
        if round == 0 { drop(s); s = S::file(path); }
    }
    info.nontrivial = true;
    info.feed(&format!("{:?}{:?}", attrs, facts));
    if info.sample.is_empty() { info.sample = format!("{:?}", attrs); }
    Ok(())
}
