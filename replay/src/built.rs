//! Programmatic building (C23): the same operations as text and through the builders, against equal stores.
use crate::gen::*;
use crate::q::{self, Cl, Db, G, T, B};
use crate::schema::memory;
use crate::store::*;
use crate::tx::*;
use crate::util::*;
use core_traits::{KnownEntid, TypedValue, ValueType};
use ::edn::entities::{AttributePlace, EntidOrIdent, EntityPlace, LookupRef, ValuePlace};
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat::{Binding, Queryable, Store, TxReport, Variable, QueryInputs, IntoResult};
use std::collections::{BTreeMap, BTreeSet};

/// The store as comparable data: the instants of the transactions made here are left out.
fn plain(mut d: Dump) -> Dump {
    let f = |v: &V| if let V::Inst(_) = v { V::Inst(0) } else { v.clone() };
    d.facts = d.facts.iter().map(|((e, a, v), t)| ((*e, *a, if *a == TXI { f(v) } else { v.clone() }), *t)).collect();
    d.flags = d.flags.iter().map(|((e, a, v), t)| ((*e, *a, if *a == TXI { f(v) } else { v.clone() }), *t)).collect();
    for l in d.log.values_mut() { *l = l.iter().map(|(e, a, v, x)| (*e, *a, if *a == TXI { f(v) } else { v.clone() }, *x)).collect(); }
    d
}
fn kw(a: &str) -> mentat::Keyword { q::keyword(a) }

/// A term, as text and as builder places.
#[derive(Clone, Debug)]
struct Tm { add: bool, e: E, a: String, v: Val, style: usize }

fn e_text(e: &E, num: &BTreeMap<String, i64>) -> String { match e { E::Temp(t) => match num.get(t) { Some(n) => format!("\"z{}\"", n), None => format!("\"{}\"", t) }, e => e_edn(e) } }
fn tm_text(t: &Tm, num: &BTreeMap<String, i64>) -> String {
    format!("[:db/{} {} {} {}]", if t.add { "add" } else { "retract" }, e_text(&t.e, num), t.a, match &t.v { Val::V(v) => edn(v), Val::E(e) => e_text(e, num) })
}
fn place<B: BuildTerms>(b: &mut B, tb: Option<&mut TermBuilder>, e: &E, num: &BTreeMap<String, i64>, style: usize) -> EntityPlace<TypedValue> {
    let _ = tb;
    match e {
        E::Ent(i) => if style % 2 == 0 { EntityPlace::from(*i) } else { KnownEntid(*i).into() },
        E::Ident(k, _) => EntityPlace::from(kw(k)),
        E::Temp(t) => match num.get(t) { Some(n) => EntityPlace::from(::edn::entities::TempId::Internal(*n)), None => EntityPlace::from(b.named_tempid(t.clone())) },
        E::Look(a, v) => EntityPlace::from(LookupRef { a: AttributePlace::Entid(EntidOrIdent::Ident(kw(a))), v: q::to_tv(v) }),
        E::Tx => EntityPlace::from(TermBuilder::tx_function("transaction-tx")),
    }
}
fn vplace<B: BuildTerms>(b: &mut B, v: &Val, num: &BTreeMap<String, i64>, style: usize) -> ValuePlace<TypedValue> {
    match v {
        Val::V(v) => ValuePlace::from(q::to_tv(v)),
        Val::E(e) => match place(b, None, e, num, style) {
            EntityPlace::Entid(EntidOrIdent::Entid(i)) => if style % 3 == 0 { ValuePlace::Entid(EntidOrIdent::Entid(i)) } else { ValuePlace::from(TypedValue::Ref(i)) },
            EntityPlace::Entid(i) => ValuePlace::Entid(i),
            EntityPlace::TempId(t) => if style % 5 == 0 { match e { E::Temp(n) if !num.contains_key(n) => ValuePlace::from(TypedValue::typed_string(n)), _ => ValuePlace::TempId(t) } } else { ValuePlace::TempId(t) },
            EntityPlace::LookupRef(l) => ValuePlace::LookupRef(l),
            EntityPlace::TxFunction(f) => ValuePlace::TxFunction(f),
        },
    }
}
fn aplace(h: &H, a: &str, style: usize) -> AttributePlace {
    match h.ids.get(a) { Some(i) if style % 4 == 0 => KnownEntid(*i).into(), Some(i) if style % 4 == 1 => AttributePlace::from(*i), _ => AttributePlace::from(kw(a)) }
}
fn fill<B: BuildTerms>(b: &mut B, h: &H, ts: &[Tm], num: &BTreeMap<String, i64>) -> Result<(), String> {
    for t in ts {
        let e = place(b, None, &t.e, num, t.style);
        let v = vplace(b, &t.v, num, t.style);
        let a = aplace(h, &t.a, t.style);
        (if t.add { b.add(e, a, v) } else { b.retract(e, a, v) }).map_err(|e| e.to_string())?;
    }
    Ok(())
}
fn tempids(r: &TxReport) -> BTreeMap<String, i64> { tmap(r) }

pub fn c23_terms(r: &mut Rng, info: &mut Info) -> Case {
    let (mut a, mut b) = (start(), start());
    let mut opt = default_opt();
    for _ in 0..2 + r.below(6) {
        opt.temps = 3;
        opt.conflicts = r.chance(1, 5);
        let pre = a.s.dump();
        let ops = gen_ops(r, &pre, &a.ids, a.min, &opt);
        // which temporary ids are numbered ones
        let mut num: BTreeMap<String, i64> = BTreeMap::new();
        for k in 0..3 { if r.chance(1, 6) { num.insert(format!("t{}", k), 40 + k as i64); } }
        let mut ts: Vec<Tm> = vec![];
        for o in &ops {
            let mut t = Tm { add: o.add, e: o.e.clone(), a: o.a.to_string(), v: o.v.clone(), style: r.below(60) };
            let ty = attr_def(o.a).ty;
            if ty == "ref" && r.chance(1, 5) {
                // reversed notation
                let ve = match &o.v { Val::E(e) => e.clone(), Val::V(V::Ref(x)) => E::Ent(*x), _ => continue };
                let i = o.a.find('/').unwrap();
                t = Tm { add: o.add, e: ve, a: format!("{}/_{}", &o.a[..i], &o.a[i + 1..]), v: Val::E(o.e.clone()), style: t.style };
            } else if r.chance(1, 40) {
                // a value of another type, which no reading of the text takes for the right one
                let wrong = match ty { "boolean" => V::Str("x".into()), "ref" | "uuid" | "instant" => V::Bool(true), "keyword" | "string" => V::Long(1), _ => V::Kw(":k/x".into()) };
                t.v = Val::V(wrong);
            } else if r.chance(1, 60) { t.a = ":no/such".into(); t.style = 3; }
            else if r.chance(1, 60) { t.e = E::Ent(0x10000000 + 900); }
            else if r.chance(1, 30) { if let (Some((k, i)), true) = (a.ids.iter().next(), ty != "ref") { t.e = E::Ident(k.to_string(), *i); if !attr_def(o.a).many || attr_def(o.a).unique > 0 { t.a = ":db/doc".into(); t.v = Val::V(V::Str(format!("d{}", r.below(3)))); } } }
            ts.push(t);
        }
        let text = format!("[{}]", ts.iter().map(|t| tm_text(t, &num)).collect::<Vec<_>>().join("\n "));
        info.note(text.clone());
        let ra = a.s.t(&text);
        let (before, mem_before) = (b.s.dump(), memory(&mut b.s));
        let way = r.below(5);
        let keep = H { s: S::mem(), ids: b.ids.clone(), min: b.min };
        let rb: Result<TxReport, String> = match way {
            0 => {
                let mut tb = TermBuilder::new();
                fill(&mut tb, &keep, &ts, &num)?;
                chk!(tb.is_empty() == ts.is_empty(), "a builder of {} terms says is_empty() = {}", ts.len(), tb.is_empty());
                let mut ip = b.s.conn.begin_transaction(&mut b.s.sql).map_err(|e| e.to_string())?;
                match ip.transact_builder(tb) { Ok(rep) => ip.commit().map(|_| rep).map_err(|e| e.to_string()), Err(e) => { ip.rollback().map_err(|e| e.to_string())?; Err(e.to_string()) } }
            }
            1 => {
                let mut tb = b.s.conn.begin_transaction(&mut b.s.sql).map_err(|e| e.to_string())?.builder();
                fill(&mut tb, &keep, &ts, &num)?;
                tb.commit().map_err(|e| e.to_string())
            }
            2 => {
                let mut tb = b.s.conn.begin_transaction(&mut b.s.sql).map_err(|e| e.to_string())?.builder();
                fill(&mut tb, &keep, &ts, &num)?;
                let (ip, res) = tb.transact();
                match res { Ok(rep) => ip.commit().map(|_| rep).map_err(|e| e.to_string()), Err(e) => { if r.chance(1, 2) { ip.commit() } else { ip.rollback() }.map_err(|e| e.to_string())?; Err(e.to_string()) } }
            }
            3 => {
                // entity by entity
                let mut tb = b.s.conn.begin_transaction(&mut b.s.sql).map_err(|e| e.to_string())?.builder();
                for t in &ts {
                    let e = place(&mut tb, None, &t.e, &num, t.style);
                    let v = vplace(&mut tb, &t.v, &num, t.style);
                    let at = aplace(&keep, &t.a, t.style);
                    let mut eb = match (&t.e, e) { (E::Temp(n), _) if !num.contains_key(n) => tb.describe_tempid(n), (_, EntityPlace::Entid(i)) => tb.describe(i), (_, EntityPlace::TempId(i)) => tb.describe(i), (_, EntityPlace::LookupRef(l)) => tb.describe(l), (_, EntityPlace::TxFunction(f)) => tb.describe(f) };
                    (if t.add { eb.add(at, v) } else { eb.retract(at, v) }).map_err(|e| e.to_string())?;
                    tb = eb.finish().0;
                }
                tb.commit().map_err(|e| e.to_string())
            }
            _ => {
                let mut tb = TermBuilder::new();
                for t in &ts {
                    let e = place(&mut tb, None, &t.e, &num, t.style);
                    let v = vplace(&mut tb, &t.v, &num, t.style);
                    let at = aplace(&keep, &t.a, t.style);
                    let mut eb = tb.describe(KnownEntid(1));
                    let (t2, _) = { let _ = &mut eb; eb.finish() };
                    tb = t2;
                    (if t.add { tb.add(e, at, v) } else { tb.retract(e, at, v) }).map_err(|e| e.to_string())?;
                }
                let (terms, _) = tb.build().map_err(|e| e.to_string())?;
                let mut ip = b.s.conn.begin_transaction(&mut b.s.sql).map_err(|e| e.to_string())?;
                match ip.transact_entities(terms) { Ok(rep) => ip.commit().map(|_| rep).map_err(|e| e.to_string()), Err(e) => { drop(ip); Err(e.to_string()) } }
            }
        };
        info.note(format!("  way {}: text {} builder {}", way, ra.as_ref().map(|_| "ok").unwrap_or_else(|e| e), rb.as_ref().map(|_| "ok").unwrap_or_else(|e| e)));
        match (ra, rb) {
            (Ok(x), Ok(y)) => {
                info.count("committed");
                info.nontrivial = true;
                info.feed(&text);
                let want: BTreeMap<String, i64> = tempids(&x).into_iter().filter(|(k, _)| !k.starts_with("z")).collect();
                chk!(want == tempids(&y), "the text gives the temporary ids {:?}, the builder {:?}", want, tempids(&y));
                chk!(x.tx_id == y.tx_id, "the text makes transaction {}, the builder {}", x.tx_id, y.tx_id);
            }
            (Err(_), Err(_)) => {
                info.count("refused");
                chk!(b.s.dump() == before, "a builder that failed changed the store");
                chk!(memory(&mut b.s) == mem_before, "a builder that failed changed the schema or partitions in memory");
            }
            (Ok(_), Err(e)) => return Err(format!("the text is accepted, the builder refused ({}): {}", e, text)),
            (Err(e), Ok(_)) => return Err(format!("the builder is accepted, the text refused ({}): {}", e, text)),
        }
        let (da, db) = (plain(a.s.dump()), plain(b.s.dump()));
        chk!(da == db, "the text and the builder (way {}) differ: {}", way, crate::hist::differ(&db, &da).unwrap_or_default());
        chk!(memory(&mut a.s) == memory(&mut b.s), "the text and the builder leave different schemas or partitions in memory");
    }
    Ok(())
}

fn subst_t(t: &T, b: &B) -> T { match t { T::Var(v) => b.get(v).map(|x| T::C(x.clone())).unwrap_or_else(|| t.clone()), t => t.clone() } }
/// The clauses with the variables replaced by constants, where that can be written.
fn subst(c: &Cl, b: &B) -> Option<Cl> {
    Some(match c {
        Cl::Pat(e, a, v, tx) => Cl::Pat(subst_t(e, b), subst_t(a, b), subst_t(v, b), subst_t(tx, b)),
        Cl::Cmp(o, x, y) => Cl::Cmp(o, subst_t(x, b), subst_t(y, b)),
        Cl::Or(vs, bs) => { if vs.as_ref().map_or(false, |vs| vs.iter().any(|v| b.contains_key(v))) { return None; } if vs.is_some() { return Some(c.clone()); } let mut o = vec![]; for x in bs { let mut p = vec![]; for y in x { p.push(subst(y, b)?); } o.push(p); } Cl::Or(vs.clone(), o) }
        Cl::Not(vs, bs) => { if vs.as_ref().map_or(false, |vs| vs.iter().any(|v| b.contains_key(v))) { return None; } if vs.is_some() { return Some(c.clone()); } let mut p = vec![]; for y in bs { p.push(subst(y, b)?); } Cl::Not(vs.clone(), p) }
        Cl::Ground(v, _) | Cl::Type(_, v) => { if b.contains_key(v) { return None; } c.clone() }
    })
}
fn vt(ty: &str) -> ValueType { match ty { "long" => ValueType::Long, "double" => ValueType::Double, "string" => ValueType::String, "keyword" => ValueType::Keyword, "instant" => ValueType::Instant, "uuid" => ValueType::Uuid, "boolean" => ValueType::Boolean, _ => ValueType::Ref } }

pub fn c23_queries(r: &mut Rng, info: &mut Info) -> Case {
    fractional(true);
    let res = queries(r, info);
    fractional(false);
    res
}
fn queries(r: &mut Rng, info: &mut Info) -> Case {
    // the same history in a store and in a connection whose tables can be read
    let mut st = Store::open("").map_err(|e| e.to_string())?;
    st.transact(&vocabulary()).map_err(|e| e.to_string())?;
    let (mut s, ids) = std_store();
    let min = ids.values().max().unwrap() + 1;
    for _ in 0..2 + r.below(3) {
        let d = s.dump();
        let ops = gen_ops(r, &d, &ids, min, &GenOpt { attrs: q::QA.to_vec(), temps: 5, lookups: false, retracts: true, max: 22, conflicts: false, bad_retract_one: true });
        let text = render(r, &ops);
        let (x, y) = (s.t(&text), st.transact(&text).map_err(|e| e.to_string()));
        chk!(x.is_ok() == y.is_ok(), "equal stores, one transaction, two answers");
    }
    let d = s.dump();
    let db = Db::of(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..10 {
        let mut cls = g.clauses(r);
        if cls.iter().any(|c| matches!(c, Cl::Type(..))) { continue; }
        let vars: Vec<String> = q::top_vars(&cls).into_iter().filter(|v| !v.starts_with("?any") && !v.starts_with("?kan")).collect();
        if vars.is_empty() { continue; }
        r.shuffle(&mut cls);
        cls.sort_by_key(|c| q::rank(c) >= 3);
        // inputs: mostly from a row of the result
        let all = match q::eval(&db, &cls, vec![B::new()]) { Some(w) => w, None => continue };
        let mut ins = B::new();
        let ty = |v: &str| -> String { if v.starts_with("?e") || v.starts_with("?a0") || v.starts_with("?tx") { "ref".into() } else { v[1..].trim_end_matches(|c: char| c.is_ascii_digit()).to_string() } };
        for v in &vars {
            if !r.chance(1, 2) || ins.len() == 2 { continue; }
            let x = if !all.is_empty() && r.chance(4, 5) { r.pick(&all)[v].clone() } else if ty(v) == "ref" { V::Ref(*r.pick(&ids.values().cloned().collect::<Vec<_>>())) } else { gen_value(r, &ty(v), &g.ents) };
            if x.ty() != ty(v) { continue; }
            ins.insert(v.clone(), x);
        }
        if ins.is_empty() { continue; }
        let mut find: Vec<String> = vars.clone();
        r.shuffle(&mut find);
        find.truncate(1 + r.below(3));
        let inv: Vec<String> = ins.keys().cloned().collect();
        let qt = q::text(&find.join(" "), &inv, &cls, "");
        let want = match q::eval(&db, &cls, vec![ins.clone()]) { Some(w) => q::project(&w, &find), None => continue };
        let set = |x: Vec<q::Row>| -> BTreeSet<q::Row> { x.into_iter().collect() };
        // through the builder
        let how = r.below(3);
        let refs: BTreeMap<i64, String> = ids.iter().map(|(k, v)| (*v, k.to_string())).collect();
        let got = bound(&mut st, &qt, &ins, how, &refs, |b| b.execute_rel().map(|x| x.rows().map(|t| t.iter().map(q::from_b).collect::<q::Row>()).collect::<Vec<_>>()));
        // the equivalent text
        info.note(format!("{} {:?}", qt, ins)); let direct = { let i = QueryInputs::with_value_sequence(ins.iter().map(|(k, v)| (Variable::from_valid_name(k), q::to_tv(v))).collect()); st.q_once(&qt, i).map(|o| q::rows(&o)) };
        let mut text2 = None;
        if find.iter().all(|v| !ins.contains_key(v)) {
            let mut o = vec![];
            for c in &cls { match subst(c, &ins) { Some(c) => o.push(c), None => { o.clear(); break } } }
            if !o.is_empty() { text2 = Some(q::text(&find.join(" "), &[], &o, "")); }
        }
        let got = match got {
            Ok(x) => x,
            Err(e) => {
                info.count("refused");
                if let Ok(x) = direct { return Err(format!("{} with {:?} is answered ({} rows), but refused when built: {}", qt, ins, x.len(), e)); }
                continue;
            }
        };
        info.count("compared");
        chk!(set(got.clone()) == want, "{} built with {:?}: missing {:?}, unexpected {:?}", qt, ins, want.difference(&set(got.clone())).take(4).collect::<Vec<_>>(), set(got.clone()).difference(&want).take(4).collect::<Vec<_>>());
        chk!(got.len() == want.len(), "{} built with {:?} has duplicate rows", qt, ins);
        if !want.is_empty() { info.nontrivial = true; info.count("non-empty"); info.feed(&qt); info.sample = format!("{} with {:?}: {} rows", qt, ins, want.len()); }
        match direct { Ok(x) => chk!(set(x) == want, "{} asked directly with {:?} differs from the built query", qt, ins), Err(e) => return Err(format!("{} asked directly with {:?}: {}", qt, ins, e)) }
        if let Some(t) = text2 {
            if let Ok(o) = st.q_once(&t, None) { info.count("written out"); chk!(set(q::rows(&o)) == want, "{} differs from {} built with {:?}: {:?} against {:?}", t, qt, ins, q::rows(&o), want); }
        }
        // prepared, and run twice
        {
            let i = QueryInputs::with_value_sequence(ins.iter().map(|(k, v)| (Variable::from_valid_name(k), q::to_tv(v))).collect());
            let rd = st.begin_read().map_err(|e| e.to_string())?;
            match rd.q_prepare(&qt, i) {
                Ok(mut p) => for k in 0..2 { let x = p.run(None).map(|o| q::rows(&o)).map_err(|e| format!("{} prepared: {}", qt, e))?; chk!(set(x) == want, "{} prepared with {:?} gives other rows (run {})", qt, ins, k + 1); },
                Err(e) => return Err(format!("{} cannot be prepared with {:?}: {}", qt, ins, e)),
            };
        }
        // the other shapes
        let col = &find[0];
        let w1: BTreeSet<V> = want.iter().map(|x| x[0].clone()).collect();
        let q1 = q::text(&format!("{} .", col), &inv, &cls, "");
        let x: Option<V> = bound(&mut st, &q1, &ins, how, &refs, |b| b.execute_scalar()).map_err(|e| format!("{}: {}", q1, e))?.map(|b: Binding| q::from_b(&b));
        chk!(match &x { None => w1.is_empty(), Some(v) => w1.contains(v) }, "{} built with {:?} gives {:?}, not one of {:?}", q1, ins, x, w1);
        let q2 = q::text(&format!("[{} ...]", col), &inv, &cls, "");
        let x: Vec<V> = bound(&mut st, &q2, &ins, how, &refs, |b| b.execute_coll()).map_err(|e| format!("{}: {}", q2, e))?.iter().map(q::from_b).collect();
        chk!(x.iter().cloned().collect::<BTreeSet<V>>() == w1 && x.len() == w1.len(), "{} built with {:?} gives {:?} instead of {:?}", q2, ins, x, w1);
        let q3 = q::text(&format!("[{}]", find.join(" ")), &inv, &cls, "");
        let x: Option<Vec<Binding>> = bound(&mut st, &q3, &ins, how, &refs, |b| b.execute_tuple()).map_err(|e| format!("{}: {}", q3, e))?;
        chk!(match &x { None => want.is_empty(), Some(t) => want.contains(&t.iter().map(q::from_b).collect::<q::Row>()) }, "{} built with {:?} gives {:?}, not one of the rows", q3, ins, x);
        // a type that contradicts a value is refused; the right one changes nothing; bindings do not outlive an execution
        let (v, x) = ins.iter().next().unwrap();
        let right = vt(x.ty());
        let wrong = if right == ValueType::Long { ValueType::String } else { ValueType::Long };
        let y = bound(&mut st, &qt, &ins, how, &refs, |b| { b.bind_type(v, right); b.execute_rel().map(|x| x.rows().map(|t| t.iter().map(q::from_b).collect::<q::Row>()).collect::<Vec<_>>()) }).map_err(|e| format!("{} with types: {}", qt, e))?;
        chk!(set(y) == want, "{} built with {:?} and its type gives other rows", qt, ins);
        chk!(bound(&mut st, &qt, &ins, how, &refs, |b| { b.bind_type(v, wrong); b.execute() }).is_err(), "{}: {} was bound to {:?} and to the type {:?}", qt, v, x, wrong);
        let (r1, r2) = bound(&mut st, &qt, &ins, how, &refs, |b| { let x = b.execute().into_rel_result()?.rows().count(); for (k, v) in &ins { b.bind_value(k, q::to_tv(v)); } let y = b.execute_rel()?.rows().count(); Ok((x, y)) }).map_err(|e| format!("{} executed twice: {}", qt, e))?;
        chk!(r1 == want.len() && r2 == want.len(), "{} executed twice gives {} and {} rows instead of {}", qt, r1, r2, want.len());
    }
    Ok(())
}
fn bound<X>(st: &mut Store, qt: &str, ins: &B, how: usize, refs: &BTreeMap<i64, String>, f: impl FnOnce(&mut mentat::QueryBuilder) -> Result<X, mentat::MentatError>) -> Result<X, String> {
    let mut b = mentat::QueryBuilder::new(st, qt.to_string());
    for (k, v) in ins {
        match (v, how) {
            (_, 0) => { b.bind_value(k, q::to_tv(v)); }
            (V::Ref(x), 1) => match refs.get(x) { Some(n) => { b.bind_ref_from_kw(k, kw(n)).map_err(|e| e.to_string())?; } None => { b.bind_ref(k, *x); } },
            (V::Ref(x), _) => { b.bind_ref(k, KnownEntid(*x)); }
            (V::Long(x), 1) => { b.bind_long(k, *x); }
            (V::Long(x), _) => { b.bind_value(k, TypedValue::Long(*x)); }
            (V::Inst(us), 1) => { b.bind_instant(k, *us); }
            (V::Inst(us), _) => { b.bind_date_time(k, q::datetime(*us) + chrono::Duration::nanoseconds(*us & 511)); }
            (V::Bool(x), _) => { b.bind_value(k, *x); }
            (V::Str(x), 1) => { b.bind_value(k, x.as_str()); }
            (V::Str(x), _) => { b.bind_value(k, x.clone()); }
            (V::Kw(x), _) => { b.bind_value(k, kw(x)); }
            (v, _) => { b.bind_value(k, q::to_tv(v)); }
        }
    }
    f(&mut b).map_err(|e| e.to_string())
}
