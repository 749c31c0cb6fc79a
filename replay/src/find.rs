//! C17: find specs, ordering, limits and aggregates, against a naive evaluation.
use crate::gen::*;
use crate::q::*;
use crate::store::*;
use crate::util::*;
use mentat::{QueryOutput, QueryResults};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum El { Var(String), The(String), Agg(&'static str, String) }
fn el_edn(e: &El) -> String { match e { El::Var(v) => v.clone(), El::The(v) => format!("(the {})", v), El::Agg(f, v) => format!("({} {})", f, v) } }
fn el_var(e: &El) -> &String { match e { El::Var(v) | El::The(v) | El::Agg(_, v) => v } }

fn tag(v: &V) -> i64 { match v { V::Ref(_) => 0, V::Bool(_) => 1, V::Inst(_) => 4, V::Long(_) | V::Dbl(_) => 5, V::Str(_) => 10, V::Uuid(_) => 11, V::Kw(_) => 13, V::Bad(..) => 99 } }
fn n(v: &V) -> f64 { match v { V::Long(x) => *x as f64, V::Dbl(b) => f64::from_bits(*b), _ => 0.0 } }
/// The order results are sorted by: type, then value.
pub fn order(a: &V, b: &V) -> Ordering {
    tag(a).cmp(&tag(b)).then_with(|| match (a, b) {
        (V::Ref(x), V::Ref(y)) | (V::Inst(x), V::Inst(y)) | (V::Long(x), V::Long(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Str(x), V::Str(y)) | (V::Kw(x), V::Kw(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Uuid(x), V::Uuid(y)) => x.cmp(y),
        _ => n(a).partial_cmp(&n(b)).unwrap(),
    })
}
fn shape(o: &QueryOutput) -> &'static str { match o.results { QueryResults::Scalar(_) => "scalar", QueryResults::Tuple(_) => "tuple", QueryResults::Coll(_) => "coll", QueryResults::Rel(_) => "rel" } }

/// A row of the specification: the find columns, and the values of the order variables.
#[derive(Clone, Debug)]
struct Want { row: Vec<Col>, key: Vec<V> }
/// A column: exactly this value, or one of several (for `the`).
#[derive(Clone, Debug)]
enum Col { Is(V), Near(f64), OneOf(BTreeSet<V>) }
fn col_ok(c: &Col, v: &V) -> bool {
    match c { Col::Is(x) => x == v, Col::Near(f) => if let V::Dbl(b) = v { (f64::from_bits(*b) - f).abs() <= 1e-9 * f.abs().max(1.0) } else { false }, Col::OneOf(s) => s.contains(v) }
}
fn row_ok(w: &Want, r: &Row) -> bool { w.row.len() == r.len() && w.row.iter().zip(r).all(|(c, v)| col_ok(c, v)) }

/// Do the rows come as a limited prefix of the wanted rows sorted by their keys?
fn check_rows(mut want: Vec<Want>, dirs: &[bool], got: &[Row], limit: Option<usize>) -> Result<(), String> {
    let kc = |a: &Want, b: &Want| { for (i, asc) in dirs.iter().enumerate() { let o = order(&a.key[i], &b.key[i]); let o = if *asc { o } else { o.reverse() }; if o != Ordering::Equal { return o; } } Ordering::Equal };
    want.sort_by(kc);
    let expect = limit.map_or(want.len(), |l| l.min(want.len()));
    if got.len() != expect { return Err(format!("{} rows, expected {}", got.len(), expect)); }
    let mut i = 0;
    while i < got.len() {
        let mut j = i + 1;
        while j < want.len() && kc(&want[i], &want[j]) == Ordering::Equal { j += 1; }
        let mut pool: Vec<&Want> = want[i..j].iter().collect();
        for k in i..j.min(got.len()) {
            match pool.iter().position(|w| row_ok(w, &got[k])) {
                Some(p) => { pool.remove(p); }
                None => return Err(format!("row {} is {:?}, expected one of {:?}", k, got[k], pool.iter().take(4).collect::<Vec<_>>())),
            }
        }
        i = j;
    }
    Ok(())
}

fn combos(find: &[El], orders: &[(bool, String)], with: &[String], bs: &[B]) -> Vec<Want> {
    let aggs = find.iter().any(|e| if let El::Agg(..) = e { true } else { false });
    let keyvars: Vec<String> = orders.iter().map(|o| o.1.clone()).collect();
    let mut all: Vec<String> = find.iter().map(|e| el_var(e).clone()).chain(keyvars.iter().cloned()).collect();
    if aggs { all.extend(with.iter().cloned()); }
    all.sort(); all.dedup();
    let distinct: BTreeSet<Row> = project(bs, &all);
    let at = |v: &String| all.iter().position(|x| x == v).unwrap();
    if !aggs {
        return distinct.iter().map(|r| Want { row: find.iter().map(|e| Col::Is(r[at(el_var(e))].clone())).collect(), key: keyvars.iter().map(|v| r[at(v)].clone()).collect() }).collect();
    }
    let the: Vec<&String> = find.iter().filter_map(|e| if let El::The(v) = e { Some(v) } else { None }).collect();
    let mut gv: Vec<String> = find.iter().filter_map(|e| if let El::Var(v) = e { Some(v.clone()) } else { None }).chain(keyvars.iter().filter(|v| !the.contains(v)).cloned()).collect();
    gv.sort(); gv.dedup();
    let mut groups: BTreeMap<Row, Vec<&Row>> = BTreeMap::new();
    for r in &distinct { groups.entry(gv.iter().map(|v| r[at(v)].clone()).collect()).or_insert_with(Vec::new).push(r); }
    groups.values().map(|rows| {
        let ext: Option<(&&str, &String)> = find.iter().filter_map(|e| if let El::Agg(f @ "min", v) | El::Agg(f @ "max", v) = e { Some((f, v)) } else { None }).next();
        let row: Vec<Col> = find.iter().map(|e| match e {
            El::Var(v) => Col::Is(rows[0][at(v)].clone()),
            El::The(v) => {
                let (f, mv) = ext.unwrap();
                let m = extreme(f, rows.iter().map(|r| &r[at(mv)]));
                Col::OneOf(rows.iter().filter(|r| order(&r[at(mv)], &m) == Ordering::Equal).map(|r| r[at(v)].clone()).collect())
            }
            El::Agg(f, v) => {
                let vals: Vec<&V> = rows.iter().map(|r| &r[at(v)]).collect();
                let sum: f64 = vals.iter().map(|v| n(v)).sum();
                match *f {
                    "count" => Col::Is(V::Long(vals.len() as i64)),
                    "sum" => if let V::Long(_) = vals[0] { Col::Is(V::Long(vals.iter().map(|v| if let V::Long(x) = v { *x as i128 } else { 0 }).sum::<i128>() as i64)) } else { Col::Near(sum) },
                    "avg" => Col::Near(sum / vals.len() as f64),
                    f => Col::Is(extreme(f, vals.into_iter())),
                }
            }
        }).collect();
        // ordered by `the` value: the one of the row; a tie leaves it open (the key is then no value)
        let key = keyvars.iter().map(|v| match find.iter().position(|e| *e == El::The(v.clone())) { Some(i) => match &row[i] { Col::OneOf(s) if s.len() == 1 => s.iter().next().unwrap().clone(), _ => V::Bad(0, "tie".into()) }, None => rows[0][at(v)].clone() }).collect();
        Want { row, key }
    }).collect()
}
fn extreme<'a, I: Iterator<Item = &'a V>>(f: &str, it: I) -> V {
    let mut vs: Vec<&V> = it.collect();
    vs.sort_by(|a, b| order(a, b));
    if f == "min" { vs[0].clone() } else { vs[vs.len() - 1].clone() }
}

fn ty_of(v: &str) -> &str { if v.starts_with("?e") || v.starts_with("?tx") { "ref" } else { v[1..].trim_end_matches(|c: char| c.is_ascii_digit()) } }
fn pick_spec(r: &mut Rng, width: usize) -> &'static str { if width == 1 { *r.pick(&["rel", "coll", "scalar", "tuple"]) } else { *r.pick(&["rel", "rel", "tuple"]) } }
fn spec_edn(spec: &str, cols: &str) -> String { match spec { "rel" => cols.to_string(), "coll" => format!("[{} ...]", cols), "scalar" => format!("{} .", cols), _ => format!("[{}]", cols) } }

fn one(s: &S, db: &Db, g: &G, r: &mut Rng, info: &mut Info, aggs: bool) -> Case {
    let mut cls = g.clauses(r);
    if r.chance(1, 5) { cls = vec![]; let t = *r.pick(&["long", "string", "keyword"]); cls.push(Cl::Ground(format!("?{}0", t), { let s: BTreeSet<V> = (0..1 + r.below(4)).map(|_| gen_value(r, t, &g.ents)).collect(); s.into_iter().collect() })); if r.chance(1, 2) { cls.push(g.pat(r)); } }
    let vars = top_vars(&cls);
    if vars.is_empty() { return Ok(()); }
    let mut pool = vars.clone();
    r.shuffle(&mut pool);
    let mut find: Vec<El> = pool.iter().take(1 + r.below(3)).map(|v| El::Var(v.clone())).collect();
    let mut with: Vec<String> = vec![];
    if aggs {
        let k = r.below(find.len());
        let tail: Vec<String> = find[k..].iter().map(|e| el_var(e).clone()).collect();
        find.truncate(k);
        for v in tail {
            let num = ["long", "double"].contains(&ty_of(&v));
            let f = if num { *r.pick(&["count", "sum", "avg", "min", "max"]) } else if ["instant", "string", "boolean"].contains(&ty_of(&v)) { *r.pick(&["count", "min", "max"]) } else { "count" };
            find.push(El::Agg(f, v.clone()));
            if r.chance(1, 6) { find.push(El::Agg("count", v)); }
        }
        let ext = find.iter().filter(|e| if let El::Agg("min", _) | El::Agg("max", _) = e { true } else { false }).count();
        if ext == 1 && r.chance(1, 2) {
            if let Some(v) = pool.iter().find(|v| !find.iter().any(|e| el_var(e) == *v)) { let at = r.below(find.len() + 1); find.insert(at, El::The(v.clone())); }
        }
        for v in &pool { if r.chance(1, 5) && !v.starts_with("?any") { with.push(v.clone()); } }
        r.shuffle(&mut find);
    }
    let mut orders: Vec<(bool, String)> = vec![];
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            let v = if r.chance(2, 3) { el_var(r.pick(&find)).clone() } else { r.pick(&vars).clone() };
            // an aggregated variable is not a column of the result
            let aggd = find.iter().any(|e| if let El::Agg(_, x) = e { *x == v } else { false });
            if !aggd && !orders.iter().any(|o| o.1 == v) { orders.push((r.chance(1, 2), v)); }
        }
    }
    let width = find.len();
    let spec = pick_spec(r, width);
    let mut ins = B::new();
    if r.chance(1, 5) {
        let v = r.pick(&vars).clone();
        if ["long", "double", "string", "keyword", "boolean", "instant"].contains(&ty_of(&v)) { ins.insert(v.clone(), gen_value(r, ty_of(&v), &g.ents)); }
        else if ty_of(&v) == "ref" && v.starts_with("?e") && !g.ents.is_empty() { ins.insert(v.clone(), V::Ref(*r.pick(&g.ents))); }
    }
    cls.sort_by_key(|c| match c { Cl::Cmp(..) | Cl::Not(..) | Cl::Type(..) => 1, _ => 0 });
    let limit: Option<usize> = if spec == "rel" || spec == "coll" { if r.chance(1, 3) { Some(1 + r.below(5)) } else { None } } else { Some(1) };
    let mut tail = String::new();
    if !orders.is_empty() { tail += &format!(" :order {}", orders.iter().map(|(a, v)| if *a { if r.chance(1, 2) { v.clone() } else { format!("(asc {})", v) } } else { format!("(desc {})", v) }).collect::<Vec<_>>().join(" ")); }
    let mut all_ins = ins.clone();
    if spec == "rel" || spec == "coll" { if let Some(l) = limit { if r.chance(1, 2) { tail += &format!(" :limit {}", l); } else { tail += " :limit ?lim"; all_ins.insert("?lim".into(), V::Long(l as i64)); } } }
    if !with.is_empty() { tail += &format!(" :with {}", with.join(" ")); }
    let cols = find.iter().map(el_edn).collect::<Vec<_>>().join(" ");
    let q = text(&spec_edn(spec, &cols), &all_ins.keys().cloned().collect::<Vec<_>>(), &cls, &tail);
    let bs = match eval(db, &cls, vec![ins.clone()]) { Some(b) => b, None => { info.count("too large"); return Ok(()) } };
    if std::env::var("SHOWQ").is_ok() { info.note(format!("{} with {:?}", q, all_ins)); }
    // an ordering by a variable with more than one type is by type first; fractions and integers share one
    let o = match run(s, &q, &all_ins) { Ok(o) => o, Err(e) => { if sql_error(&e) { return Err(format!("{} with {:?}: {}", q, all_ins, e)); } info.count("refused"); if std::env::var("SHOWREF").is_ok() { println!("REF {} {:?} {}", q, all_ins, e); } return Ok(()) } };
    chk!(shape(&o) == spec, "{}: a {} where a {} was asked for", q, shape(&o), spec);
    let got = rows(&o);
    for x in &got { chk!(x.len() == width, "{}: {} columns", q, x.len()); }
    if let QueryResults::Rel(ref rel) = o.results {
        chk!(rel.width == width && rel.row_count() == got.len() && rel.row(got.len()).is_none(), "{}: width {} count {}", q, rel.width, rel.row_count());
        for (i, x) in got.iter().enumerate() { chk!(rel.row(i).map(|w| w.iter().map(from_b).collect::<Row>()) == Some(x.clone()), "{}: row({}) is not the row", q, i); }
    }
    chk!(o.len() == got.len() && o.is_empty() == got.is_empty(), "{}: len", q);
    let dirs: Vec<bool> = orders.iter().map(|o| o.0).collect();
    let want = combos(&find, &orders, &with, &bs);
    if want.iter().any(|w| w.key.iter().any(|k| if let V::Bad(..) = k { true } else { false })) { info.count("tie"); return Ok(()); }
    // Type predicates: see the known finding type-duplicates.
    if cls.iter().any(|c| if let Cl::Type(..) = c { true } else { false }) {
        if aggs { return Ok(()); }
        for x in &got { chk!(want.iter().any(|w| row_ok(w, x)), "{}: {:?} is no answer", q, x); }
        return Ok(());
    }
    if aggs && want.is_empty() {
        // over no bindings at all SQL gives one row of counts; either is an honest answer
        if got.len() == 1 && find.iter().zip(&got[0]).all(|(e, v)| if let El::Agg("count", _) = e { *v == V::Long(0) } else { false }) { info.count("empty aggregate"); return Ok(()); }
    }
    if let Err(e) = check_rows(want.clone(), &dirs, &got, limit) {
        info.note(format!("{} with {:?}", q, all_ins));
        info.note(format!("got {:?}", got));
        for f in &db.facts { if f.1 >= 65536 { info.note(format!("  {:?}", f)); } }
        return Err(format!("{} with {:?}: {}; got {:?}", q, all_ins, e, got.iter().take(6).collect::<Vec<_>>()));
    }
    info.count("compared");
    if !want.is_empty() { info.count(if aggs { "aggregates compared" } else { "rows compared" }); if !orders.is_empty() { info.count("ordered"); } if limit.is_some() { info.count("limited"); } info.nontrivial = true; info.feed(&q); if info.sample.is_empty() { info.sample = format!("{} with {:?}: {:?}", q, all_ins, got.iter().take(4).collect::<Vec<_>>()); } }
    Ok(())
}
pub fn c17_rows(r: &mut Rng, info: &mut Info) -> Case {
    fractional(r.chance(1, 2));
    let (s, ids, min) = populated(r);
    let d = s.dump();
    let db = Db::of(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..14 { one(&s, &db, &g, r, info, false)?; }
    Ok(())
}
pub fn c17_aggregates(r: &mut Rng, info: &mut Info) -> Case {
    fractional(r.chance(1, 2));
    let (s, ids, min) = populated(r);
    let d = s.dump();
    let db = Db::of(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..14 { one(&s, &db, &g, r, info, true)?; }
    Ok(())
}
