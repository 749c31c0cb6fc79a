//! Histories that change the schema: C05, C06, C08, C09 (and C10's in-memory part).
use crate::gen::*;
use crate::store::*;
use crate::tx::*;
use crate::util::*;
use core_traits::{attribute, Attribute, ValueType};
use mentat_core::Schema;
use std::collections::{BTreeMap, BTreeSet};

pub type Parts = BTreeMap<String, (i64, i64, i64, bool)>;
/// The in-memory schema and partitions of a connection.
pub fn memory(s: &mut S) -> (Schema, Parts) {
    let ip = s.conn.begin_transaction(&mut s.sql).expect("begin");
    let p = parts(&ip.partition_map);
    let sc = ip.schema.clone();
    ip.rollback().expect("rollback");
    (sc, p)
}
pub fn parts(pm: &mentat_db::PartitionMap) -> Parts {
    pm.iter().map(|(k, p)| (k.clone(), (p.start, p.end, p.next_entid(), p.allow_excision))).collect()
}
/// What reopening the store gives.
pub fn reopened(s: &mut S) -> Result<(Schema, Parts), String> {
    let db = mentat_db::db::ensure_current_version(&mut s.sql).map_err(|e| format!("the store cannot be reopened: {}", e))?;
    Ok((db.schema.clone(), parts(&db.partition_map)))
}
pub fn vt_of(v: ValueType) -> i64 {
    match v { ValueType::Ref => 23, ValueType::Keyword => 24, ValueType::Long => 25, ValueType::Double => 26, ValueType::String => 27, ValueType::Uuid => 28, ValueType::Boolean => 30, ValueType::Instant => 31 }
}
/// The schema the facts describe, as the specification reads them, against an in-memory one.
pub fn schema_is(d: &Dump, sc: &Schema) -> Case {
    let at = d.attrs();
    let mem: BTreeMap<i64, Attr> = sc.attribute_map.iter().map(|(k, a): (&i64, &Attribute)| (*k, Attr {
        vt: vt_of(a.value_type), many: a.multival,
        unique: match a.unique { None => 0, Some(attribute::Unique::Value) => 1, Some(attribute::Unique::Identity) => 2 },
        index: a.index, fulltext: a.fulltext, component: a.component, no_history: a.no_history })).collect();
    for (k, a) in &at { chk!(mem.get(k) == Some(a), "attribute {} is {:?} by its facts, {:?} in memory", k, a, mem.get(k)); }
    for k in mem.keys() { chk!(at.contains_key(k), "attribute {} is in memory, but no facts describe it", k); }
    let ids: BTreeMap<String, i64> = d.facts.keys().filter(|f| f.1 == 1).filter_map(|f| if let V::Kw(k) = &f.2 { Some((k.clone(), f.0)) } else { None }).collect();
    let im: BTreeMap<String, i64> = sc.ident_map.iter().map(|(k, e)| (k.to_string(), *e)).collect();
    let em: BTreeMap<String, i64> = sc.entid_map.iter().map(|(e, k)| (k.to_string(), *e)).collect();
    for (k, e) in &ids { chk!(im.get(k) == Some(e), "ident {} names {} by its facts, {:?} in memory", k, e, im.get(k)); chk!(em.get(k) == Some(e), "entity {} is {} by its facts, {:?} in memory", e, k, em.get(k)); }
    chk!(im.len() == ids.len() && em.len() == ids.len(), "idents in memory that no fact asserts: {:?}", im.keys().filter(|k| !ids.contains_key(*k)).chain(em.keys().filter(|k| !ids.contains_key(*k))).collect::<Vec<_>>());
    let comp: BTreeSet<i64> = at.iter().filter(|(_, a)| a.component).map(|(k, _)| *k).collect();
    let mc: BTreeSet<i64> = sc.component_attributes.iter().cloned().collect();
    chk!(comp == mc && mc.len() == sc.component_attributes.len(), "component attributes {:?} by the facts, {:?} in memory", comp, sc.component_attributes);
    Ok(())
}
pub fn legal(a: &Attr) -> Option<&'static str> {
    if a.unique > 0 && !a.index { return Some("unique without index"); }
    if a.fulltext && a.vt != 27 { return Some("fulltext on a non-string"); }
    if a.fulltext && !a.index { return Some("fulltext without index"); }
    if a.component && a.vt != 23 { return Some("component on a non-reference"); }
    None
}
/// Every fact has a known attribute and a value of its type (except facts a removed attribute left behind:
/// a recorded finding).
pub fn typed(d: &Dump, orphans: &BTreeSet<i64>) -> Case {
    let at = d.attrs();
    for (e, a, v) in d.facts.keys() {
        if orphans.contains(a) && !at.contains_key(a) { continue; }
        let x = at.get(a).ok_or(format!("fact {:?} has an unknown attribute", (e, a, v)))?;
        let t = vt_name(x.vt);
        let ok = v.ty() == t || (t == "double" && matches!(v, V::Dbl(_))) ;
        chk!(ok, "fact {:?} does not have the type {} of its attribute", (e, a, v), t);
    }
    Ok(())
}
/// Index flags stored with every fact are those of its attribute.
pub fn flags(d: &Dump) -> Case {
    let at = d.attrs();
    for (f, fl) in &d.flags {
        if let Some(x) = at.get(&f.1) {
            let want = (x.index, x.vt == 23, x.fulltext, x.unique > 0);
            chk!(*fl == want, "fact {:?} carries index flags {:?}, its attribute says {:?}", f, fl, want);
        }
    }
    Ok(())
}
pub fn materialised(d: &Dump) -> Case {
    let want: BTreeSet<Fact> = d.facts.keys().filter(|f| f.1 == 1).cloned().collect();
    chk!(d.idents == want, "the idents table is not the ident facts");
    Ok(())
}

const TYPES: &[&str] = &["ref", "keyword", "long", "double", "string", "uuid", "boolean", "instant"];
/// One random transaction that may touch the schema.
pub fn schema_tx(r: &mut Rng, d: &Dump, base: &BTreeSet<i64>, n: &mut usize) -> String {
    let mut out: Vec<String> = vec![];
    let mut at: Vec<(i64, Attr)> = d.attrs().into_iter().filter(|(k, _)| !base.contains(k)).collect();
    at.sort_by_key(|x| x.0);
    let mut idents: Vec<(i64, String)> = d.facts.keys().filter(|f| f.1 == 1 && !base.contains(&f.0)).filter_map(|f| if let V::Kw(k) = &f.2 { Some((f.0, k.clone())) } else { None }).collect();
    idents.sort();
    let k = 1 + r.below(4);
    for _ in 0..k {
        let c = if at.is_empty() { 0 } else { r.below(17) };
        match c {
            0 | 1 => {
                // a new attribute, mostly legal
                let ty = *r.pick(TYPES);
                let kw = if r.chance(1, 8) && !idents.is_empty() { r.pick(&idents).1.clone() } else { *n += 1; format!(":s/a{}", *n) };
                let mut s = format!("{{:db/ident {} :db/cardinality :db.cardinality/{}", kw, if r.chance(1, 2) { "many" } else { "one" });
                if !r.chance(1, 16) { s += &format!(" :db/valueType :db.type/{}", ty); }
                let uniq = r.chance(1, 3);
                if uniq { s += &format!(" :db/unique :db.unique/{}", if r.chance(1, 2) { "value" } else { "identity" }); }
                let full = if ty == "string" { r.chance(1, 4) } else { r.chance(1, 20) };
                if full { s += " :db/fulltext true"; }
                let index = if uniq || full { !r.chance(1, 8) } else { r.chance(1, 2) };
                if index || r.chance(1, 4) { s += &format!(" :db/index {}", index); }
                if (ty == "ref" && r.chance(1, 3)) || r.chance(1, 20) { s += &format!(" :db/isComponent {}", r.chance(5, 6)); }
                if r.chance(1, 8) { s += " :db/noHistory true"; }
                out.push(s + "}");
            }
            2 | 3 => { // alteration
                let (e, _) = *r.pick(&at);
                let p = match r.below(8) {
                    0 => ":db/cardinality :db.cardinality/many".to_string(),
                    1 => ":db/cardinality :db.cardinality/one".to_string(),
                    2 => ":db/unique :db.unique/identity".to_string(),
                    3 => ":db/unique :db.unique/value".to_string(),
                    4 | 5 => format!(":db/index {}", r.chance(1, 2)),
                    6 => format!(":db/isComponent {}", r.chance(1, 2)),
                    _ => match r.below(4) { 0 => format!(":db/valueType :db.type/{}", r.pick(TYPES)), 1 => format!(":db/fulltext {}", r.chance(1, 2)), 2 => format!(":db/noHistory {}", r.chance(1, 2)), _ => ":db/doc \"d\"".to_string() },
                };
                out.push(format!("[:db/add {} {}]", e, p));
            }
            4 => { // retract a property that holds
                let (e, _) = *r.pick(&at);
                let fs: Vec<&Fact> = d.facts.keys().filter(|f| f.0 == e && f.1 <= 13).collect();
                if !fs.is_empty() { let f = *r.pick(&fs); out.push(format!("[:db/retract {} {} {}]", f.0, f.1, edn(&f.2))); }
            }
            5 => { // remove an attribute entirely
                let (e, _) = *r.pick(&at);
                let part = r.chance(1, 6);
                for f in d.facts.keys().filter(|f| f.0 == e && f.1 <= 13) { if !part || r.chance(3, 4) { out.push(format!("[:db/retract {} {} {}]", f.0, f.1, edn(&f.2))); } }
            }
            6 | 7 => { // rename, swap, reuse of idents
                if idents.len() > 1 && r.chance(1, 2) {
                    let (a, b) = (r.pick(&idents).clone(), r.pick(&idents).clone());
                    if a.0 != b.0 {
                        out.push(format!("[:db/add {} :db/ident {}]", a.0, b.1));
                        match r.below(3) { 0 => out.push(format!("[:db/add {} :db/ident {}]", b.0, a.1)), 1 => { *n += 1; out.push(format!("[:db/add {} :db/ident :s/r{}]", b.0, *n)) } _ => out.push(format!("[:db/retract {} :db/ident {}]", b.0, b.1)) }
                    }
                } else if !idents.is_empty() { let a = r.pick(&idents).clone(); *n += 1; out.push(format!("[:db/add {} :db/ident :s/r{}]", a.0, *n)); }
            }
            8 => { *n += 1; out.push(format!("[:db/add \"x{}\" :db/ident :s/e{}]", r.below(2), *n)); }
            9 => if !idents.is_empty() { let a = r.pick(&idents).clone(); out.push(format!("[:db/retract {} :db/ident {}]", a.0, a.1)); },
            10 | 11 => { // install an attribute on an entity that is there, or was one
                let used: BTreeSet<i64> = d.facts.keys().map(|f| f.1).collect();
                let known = d.attrs();
                let c: Vec<i64> = (65536..65536 + 24).filter(|e| !used.contains(e) && !known.contains_key(e)).filter(|e| d.facts.keys().any(|f| f.0 == *e) || d.log.values().any(|l| l.iter().any(|x| x.0 == *e))).collect();
                if !c.is_empty() {
                    let e = *r.pick(&c);
                    out.push(format!("[:db/add {} :db/valueType :db.type/{}]", e, r.pick(TYPES)));
                    if r.chance(7, 8) { out.push(format!("[:db/add {} :db/cardinality :db.cardinality/{}]", e, if r.chance(1, 2) { "many" } else { "one" })); }
                    if r.chance(1, 2) { out.push(format!("[:db/add {} :db/index {}]", e, r.chance(3, 4))); }
                    if r.chance(1, 2) { *n += 1; out.push(format!("[:db/add {} :db/ident :s/i{}]", e, *n)); }
                }
            }
            _ => { // data of some attribute
                let (a, x) = *r.pick(&at);
                let ents: Vec<i64> = d.facts.keys().filter(|f| f.0 >= 65536 && f.0 < 0x10000000).map(|f| f.0).collect::<BTreeSet<_>>().into_iter().collect();
                let fs: Vec<&Fact> = d.facts.keys().filter(|f| f.1 == a).collect();
                if !fs.is_empty() && r.chance(1, 4) { let f = *r.pick(&fs); out.push(format!("[:db/retract {} {} {}]", f.0, a, edn(&f.2))); }
                else {
                    let v = if x.vt == 23 && r.chance(1, 3) { format!("\"x{}\"", r.below(2)) } else { edn(&gen_value(r, vt_name(x.vt), &ents)) };
                    let e = if ents.is_empty() || r.chance(1, 3) { format!("\"x{}\"", r.below(2)) } else { r.pick(&ents).to_string() };
                    out.push(format!("[:db/add {} {} {}]", e, a, v));
                }
            }
        }
    }
    format!("[{}]", out.join("\n "))
}

fn history(r: &mut Rng, info: &mut Info, mut check: impl FnMut(&Dump, &(Schema, Parts), &mut S, bool, &str, &Dump) -> Case) -> Case {
    let mut s = S::mem();
    let base: BTreeSet<i64> = s.dump().facts.keys().map(|f| f.0).collect();
    let mut n = 0;
    let steps = 4 + r.below(9);
    for _ in 0..steps {
        let pre = s.dump();
        let prem = memory(&mut s);
        let text = schema_tx(r, &pre, &base, &mut n);
        info.note(text.clone());
        let res = s.t(&text);
        let ok = res.is_ok();
        if let Err(e) = &res { info.note(format!("  rejected: {}", e)); }
        info.count(if ok { "committed" } else { "rejected" });
        let post = s.dump();
        check(&pre, &prem, &mut s, ok, &text, &post)?;
        info.nontrivial = true;
        info.feed(&text);
    }
    Ok(())
}
pub fn c05_history(r: &mut Rng, info: &mut Info) -> Case {
    let mut orphans: BTreeSet<i64> = BTreeSet::new();
    history(r, info, |pre, _, _, ok, _, post| {
        let (a, b) = (pre.attrs(), post.attrs());
        for k in a.keys() { if !b.contains_key(k) { orphans.insert(*k); } }
        if ok { typed(post, &orphans)?; }
        Ok(())
    })
}
pub fn c06_schema(r: &mut Rng, info: &mut Info) -> Case {
    history(r, info, |_, _, _, ok, _, post| {
        if !ok { return Ok(()); }
        if let Some(b) = breach(&post.set(), &post.attrs()) { return Err(b); }
        flags(post)
    })
}
pub fn c08_history(r: &mut Rng, info: &mut Info) -> Case {
    history(r, info, |_, _, s, ok, _, post| {
        if !ok { return Ok(()); }
        let mem = memory(s);
        let disk = reopened(s)?;
        schema_is(post, &mem.0)?;
        chk!(mem.0 == disk.0, "the schema in memory is not the one a reopened store has:\n{:?}\n{:?}", mem.0, disk.0);
        chk!(mem.1 == disk.1, "partitions in memory {:?}, after reopening {:?}", mem.1, disk.1);
        flags(post)?;
        materialised(post)
    })
}
pub fn c09_history(r: &mut Rng, info: &mut Info) -> Case {
    history(r, info, |pre, prem, s, ok, text, post| {
        let mem = memory(s);
        if !ok { chk!(pre == post && *prem == mem, "a rejected transaction left a trace"); return Ok(()); }
        let (a0, a1) = (pre.attrs(), post.attrs());
        for (k, a) in &a1 {
            if let Some(w) = legal(a) { return Err(format!("attribute {} is illegal ({}) after {}", k, w, text)); }
            if let Some(b) = a0.get(k) {
                chk!(a.vt == b.vt, "the value type of attribute {} changed", k);
                chk!(a.fulltext == b.fulltext, "the full-text flag of attribute {} changed", k);
            }
        }
        for f in post.facts.keys().filter(|f| f.1 > 7 && f.1 <= 12) { chk!(a1.contains_key(&f.0) || pre.facts.contains_key(f), "an attribute without a value type was installed: {:?}", f); }
        for (k, a) in &mem.0.attribute_map {
            let x = a1.get(k).ok_or("an attribute without facts is in memory")?;
            chk!(vt_of(a.value_type) == x.vt, "value type in memory differs");
        }
        if let Some(b) = breach(&post.set(), &a1) { return Err(format!("an incompatible schema change was accepted: {}: {}", text, b)); }
        Ok(())
    })
}
/// Schema alterations that keep everything legal are accepted, others rejected: one attribute, its data, one change.
pub fn c09_alter(r: &mut Rng, info: &mut Info) -> Case {
    let mut s = S::mem();
    let ty = *r.pick(&["ref", "long", "string", "keyword"][..]);
    let many = r.chance(1, 2);
    let uniq = r.below(3);
    let index = uniq > 0 || r.chance(1, 2);
    let comp = ty == "ref" && r.chance(1, 2);
    let full = ty == "string" && index && r.chance(1, 3);
    let mut t = format!("[{{:db/ident :x/a :db/valueType :db.type/{} :db/cardinality :db.cardinality/{} :db/index {}", ty, if many { "many" } else { "one" }, index);
    if uniq > 0 { t += if uniq == 1 { " :db/unique :db.unique/value" } else { " :db/unique :db.unique/identity" }; }
    if comp { t += " :db/isComponent true"; }
    if full { t += " :db/fulltext true"; }
    t += "}]";
    s.t(&t).map_err(|e| format!("a legal attribute was refused: {}: {}", t, e))?;
    info.note(t.clone());
    for _ in 0..r.below(5) {
        let v = match ty { "ref" => r.range(1, 4).to_string(), "long" => r.range(0, 4).to_string(), "string" => format!("\"v{}\"", r.below(4)), _ => format!(":k/v{}", r.below(4)) };
        let ents: Vec<i64> = entities(&s.dump(), 65537);
        let e = if ents.is_empty() || r.chance(1, 2) { "\"n\"".to_string() } else { r.pick(&ents).to_string() };
        let tx = format!("[[:db/add {} :x/a {}]]", e, v);
        info.note(tx.clone());
        let _ = s.t(&tx);
    }
    let pre = s.dump();
    let a = pre.ident(":x/a").unwrap();
    let cur = pre.attrs()[&a];
    let facts: Vec<Fact> = pre.facts.keys().filter(|f| f.1 == a).cloned().collect();
    let (change, new) = match r.below(10) {
        9 => (":db/noHistory true".to_string(), Attr { no_history: true, ..cur }),
        0 => (":db/cardinality :db.cardinality/many".to_string(), Attr { many: true, ..cur }),
        1 | 2 => (":db/cardinality :db.cardinality/one".to_string(), Attr { many: false, ..cur }),
        3 => (":db/unique :db.unique/identity".to_string(), Attr { unique: 2, ..cur }),
        4 => (":db/unique :db.unique/value".to_string(), Attr { unique: 1, ..cur }),
        5 => (":db/index true".to_string(), Attr { index: true, ..cur }),
        6 => (":db/index false".to_string(), Attr { index: false, ..cur }),
        7 => (":db/isComponent true".to_string(), Attr { component: true, ..cur }),
        _ => (":db/isComponent false".to_string(), Attr { component: false, ..cur }),
    };
    let text = format!("[[:db/add :x/a {}]]", change);
    info.note(text.clone());
    let mut at = pre.attrs();
    at.insert(a, new);
    let want = legal(&new).is_none() && breach(&facts.iter().cloned().collect(), &at).is_none();
    let prem = memory(&mut s);
    let res = s.t(&text);
    match res {
        Ok(_) => {
            chk!(want, "an illegal alteration was accepted: {} on {:?} with {:?}", change, cur, facts);
            let post = s.dump();
            chk!(post.attrs()[&a] == new, "the alteration did not happen");
            schema_is(&post, &memory(&mut s).0)?;
            flags(&post)?;
            info.count("accepted");
        }
        Err(e) => {
            chk!(!want, "a legal alteration was refused: {} on {:?} with {:?}: {}", change, cur, facts, e);
            chk!(s.dump() == pre && memory(&mut s) == prem, "a rejected alteration left a trace");
            info.count("refused");
        }
    }
    info.nontrivial = true;
    info.feed(&info.trace.join("\n"));
    Ok(())
}
/// C06 over ordinary data.
pub fn c06_data(r: &mut Rng, info: &mut Info) -> Case {
    let mut h = start();
    let attrs: Vec<&'static str> = vec![":p/uv", ":p/uvm", ":p/idl", ":p/ids", ":p/idr", ":p/idm", ":p/l", ":p/s", ":p/r", ":p/f", ":p/d", ":p/i"];
    for _ in 0..3 + r.below(7) {
        let pre = h.s.dump();
        let opt = GenOpt { attrs: attrs.clone(), temps: 2, lookups: true, retracts: true, max: 6, conflicts: r.chance(1, 3), bad_retract_one: true };
        let ops = gen_ops(r, &pre, &h.ids, h.min, &opt);
        let text = render(r, &ops);
        info.note(text.clone());
        if h.s.t(&text).is_ok() {
            let post = h.s.dump();
            if let Some(b) = breach(&post.set(), &post.attrs()) { return Err(b); }
            flags(&post)?;
            info.nontrivial = true;
            info.feed(&text);
            info.count("committed");
        } else { info.count("rejected"); }
    }
    Ok(())
}
