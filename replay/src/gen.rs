//! Generators: a standard vocabulary, values, transactions in every notation; and the reference
//! semantics of transactions (the specification side).
use crate::store::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct AttrDef { pub kw: &'static str, pub ty: &'static str, pub many: bool, pub unique: u8, pub component: bool, pub fulltext: bool, pub index: bool }
const fn ad(kw: &'static str, ty: &'static str, many: bool, unique: u8, component: bool, fulltext: bool, index: bool) -> AttrDef {
    AttrDef { kw, ty, many, unique, component, fulltext, index }
}
pub const ATTRS: &[AttrDef] = &[
    ad(":p/b", "boolean", false, 0, false, false, false),
    ad(":p/bs", "boolean", true, 0, false, false, false),
    ad(":p/l", "long", false, 0, false, false, false),
    ad(":p/ls", "long", true, 0, false, false, true),
    ad(":p/d", "double", false, 0, false, false, false),
    ad(":p/ds", "double", true, 0, false, false, false),
    ad(":p/s", "string", false, 0, false, false, true),
    ad(":p/ss", "string", true, 0, false, false, false),
    ad(":p/k", "keyword", false, 0, false, false, false),
    ad(":p/ks", "keyword", true, 0, false, false, true),
    ad(":p/i", "instant", false, 0, false, false, false),
    ad(":p/is", "instant", true, 0, false, false, false),
    ad(":p/u", "uuid", false, 0, false, false, false),
    ad(":p/us", "uuid", true, 0, false, false, false),
    ad(":p/r", "ref", false, 0, false, false, false),
    ad(":p/rs", "ref", true, 0, false, false, true),
    ad(":p/cs", "ref", true, 0, true, false, false),
    ad(":p/idl", "long", false, 2, false, false, true),
    ad(":p/ids", "string", false, 2, false, false, true),
    ad(":p/idr", "ref", false, 2, false, false, true),
    ad(":p/idm", "long", true, 2, false, false, true),
    ad(":p/idrm", "ref", true, 2, false, false, true),
    ad(":p/uv", "string", false, 1, false, false, true),
    ad(":p/uvm", "keyword", true, 1, false, false, true),
    ad(":p/f", "string", false, 0, false, true, true),
    ad(":p/fs", "string", true, 0, false, true, true),
];
pub fn attr_def(kw: &str) -> &'static AttrDef { ATTRS.iter().find(|a| a.kw == kw).unwrap() }
pub fn vocabulary() -> String {
    let mut s = String::from("[");
    for a in ATTRS {
        s += &format!("{{:db/ident {} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{} :db/index {}", a.kw, a.ty, if a.many { "many" } else { "one" }, a.index);
        if a.unique == 1 { s += " :db/unique :db.unique/value"; }
        if a.unique == 2 { s += " :db/unique :db.unique/identity"; }
        if a.component { s += " :db/isComponent true"; }
        if a.fulltext { s += " :db/fulltext true"; }
        s += "}\n";
    }
    s + "]"
}
/// A store with the standard vocabulary; the map gives each attribute's id.
pub fn std_store() -> (S, BTreeMap<&'static str, i64>) {
    let mut s = S::mem();
    let ids = install(&mut s);
    (s, ids)
}
pub fn install(s: &mut S) -> BTreeMap<&'static str, i64> {
    s.must(&vocabulary());
    ids(&s.dump())
}
pub fn ids(d: &Dump) -> BTreeMap<&'static str, i64> {
    ATTRS.iter().filter_map(|a| d.ident(a.kw).map(|e| (a.kw, e))).collect()
}

thread_local! { pub static FRACTIONAL: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// Doubles that equal no long (see the known finding long-double-merge).
pub fn fractional(on: bool) { FRACTIONAL.with(|f| f.set(on)) }
// Text that looks like SQL, placeholders or quoting (C16).
thread_local! { pub static HOSTILE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn hostile(on: bool) { HOSTILE.with(|f| f.set(on)) }
pub const BITS: &[&str] = &["'", "''", "\"", "`", "``", "$v0", "$v1", "$v2", "$v10", "?1", "?", ":v0", "@v", "--", ";", "/*", "*/", "\\", "%", "_", "*", " OR 1=1", "DROP TABLE datoms", "NULL", "0", "1", "s1", "x'00'", "\n", "\t", " ", "\u{0}", "\u{fffd}", "é", "A", "a"];
pub fn gen_value(r: &mut Rng, ty: &str, ents: &[i64]) -> V {
    if HOSTILE.with(|f| f.get()) {
        if ty == "string" {
            // few distinct strings, so that equal ones meet
            if r.chance(1, 2) { return V::Str(r.pick(&["'", "$v0", "$v1", "it''s", "' OR '1'='1", "\"`", "A", "a", ""]).to_string()); }
            return V::Str((0..1 + r.below(3)).map(|_| *r.pick(BITS)).collect());
        }
        if ty == "keyword" { return V::Kw(r.pick(&[":k/v0", ":$v0/$v1", ":k/a", ":k/A", ":%/_", ":*/*", ":k/null", ":k/x=1", ":k.k/<>", ":select/from"]).to_string()); }
    }
    if ty == "double" && FRACTIONAL.with(|f| f.get()) { return V::dbl(r.range(-2, 4) as f64 + *r.pick(&[0.5, 0.25])); }
    let exotic = r.chance(1, 8);
    match ty {
        "boolean" => V::Bool(r.chance(1, 2)),
        "long" => if exotic { V::Long(*r.pick(&[i64::MAX, i64::MIN + 1, 1 << 53, -(1 << 33), 65536, 0])) } else { V::Long(r.range(-1, 4)) },
        "double" => if exotic { V::dbl(*r.pick(&[1e300, -2.5e-7, 9007199254740993.0, 0.1, 1e21, -1e16, f64::MIN_POSITIVE])) } else { V::dbl(r.range(-1, 4) as f64 / 2.0) },
        "string" => if exotic { V::Str(r.pick(&["it's", "a \"quoted\" one", "back\\slash", "ünïcödé ☃", "?x $v0 :k", "", "1", "new\nline", "%_"]).to_string()) } else { V::Str(format!("s{}", r.range(0, 4))) },
        "keyword" => if exotic { V::Kw(r.pick(&[":k.with.dots/name", ":k/n-a-m-e", ":plainns/x_y", ":db/ident", ":a/b.c"][..4]).to_string()) } else { V::Kw(format!(":k/k{}", r.range(0, 4))) },
        "instant" => if exotic { V::Inst(*r.pick(&[0, 1, 999_999, 1_500_000_000_123_456, 4_102_444_800_000_000, 951_868_799_999_999])) } else { V::Inst(1_600_000_000_000_000 + r.range(0, 4) * 1_000_001) },
        "uuid" => { let mut b = vec![0x11u8; 16]; b[15] = r.range(1, 4) as u8; if exotic { for x in b.iter_mut() { *x = r.next() as u8; } b[0] |= 1; } V::Uuid(b) }
        "ref" => V::Ref(if ents.is_empty() || r.chance(1, 10) { *r.pick(&[1, 7, 37]) } else { *r.pick(ents) }),
        _ => unreachable!(),
    }
}
/// EDN text of a value.
pub fn edn(v: &V) -> String {
    match v {
        V::Ref(i) | V::Long(i) => i.to_string(),
        V::Bool(b) => b.to_string(),
        V::Inst(us) => inst_edn(*us),
        V::Dbl(b) => { let s = format!("{:?}", f64::from_bits(*b)); s }
        V::Str(s) => str_edn(s),
        V::Kw(k) => k.clone(),
        V::Uuid(b) => format!("#uuid \"{}\"", uuid::Uuid::from_slice(b).unwrap()),
        V::Bad(..) => "bad".into(),
    }
}
pub fn str_edn(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }
pub fn civil(us: i64) -> String {
    // independent micros -> RFC 3339 (proleptic Gregorian)
    let secs = us.div_euclid(1_000_000);
    let frac = us.rem_euclid(1_000_000);
    let days = secs.div_euclid(86400);
    let sod = secs.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = if m <= 2 { y + 1 } else { y };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}Z", y, m, d, sod / 3600, sod / 60 % 60, sod % 60, frac)
}
// Now and then with digits below the microsecond, which do not count.
std::thread_local! { pub static SPELT: std::cell::Cell<u32> = std::cell::Cell::new(0); }
pub fn inst_edn(us: i64) -> String {
    let n = SPELT.with(|c| { c.set(c.get().wrapping_add(1)); c.get() });
    let t = civil(us);
    if n % 4 == 1 { format!("#inst \"{}{:03}Z\"", &t[..t.len() - 1], 1 + n * 7 % 999) } else { format!("#inst \"{}\"", t) }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E { Ent(i64), Temp(String), Look(&'static str, V), Tx, Ident(String, i64) }
#[derive(Clone, Debug, PartialEq)]
pub enum Val { V(V), E(E) }
#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub add: bool, pub e: E, pub a: &'static str, pub v: Val }

pub fn e_edn(e: &E) -> String {
    match e {
        E::Ent(i) => i.to_string(),
        E::Temp(t) => format!("\"{}\"", t),
        E::Look(a, v) => format!("(lookup-ref {} {})", a, edn(v)),
        E::Tx => "(transaction-tx)".into(),
        E::Ident(k, _) => k.clone(),
    }
}
pub fn val_edn(v: &Val) -> String { match v { Val::V(v) => edn(v), Val::E(e) => e_edn(e) } }
fn rev(a: &str) -> String { let i = a.find('/').unwrap(); format!("{}/_{}", &a[..i], &a[i + 1..]) }

/// Render the operations in random notations and order.  `nested` allows nested maps.
pub fn render(r: &mut Rng, ops: &[Op]) -> String {
    let mut ops: Vec<Op> = ops.to_vec();
    r.shuffle(&mut ops);
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    let mut used = vec![false; ops.len()];
    while i < ops.len() {
        if used[i] { i += 1; continue; }
        used[i] = true;
        let o = &ops[i];
        let d = attr_def(o.a);
        let style = r.below(6);
        if o.add && style == 0 {
            // map form gathering the other adds of the same entity
            let mut m = format!("{{:db/id {}", e_edn(&o.e));
            let mut seen: BTreeSet<&'static str> = BTreeSet::new();
            let mut members = vec![i];
            for j in i + 1..ops.len() { if !used[j] && ops[j].add && ops[j].e == o.e && !seen.contains(ops[j].a) && ops[j].a != o.a { seen.insert(ops[j].a); members.push(j); used[j] = true; } }
            for j in members {
                let q = &ops[j];
                if attr_def(q.a).many && r.chance(1, 2) {
                    // explode a list: this attribute's other adds for the same entity join it
                    let mut vs = vec![val_edn(&q.v)];
                    for k in 0..ops.len() { if !used[k] && ops[k].add && ops[k].e == q.e && ops[k].a == q.a { used[k] = true; vs.push(val_edn(&ops[k].v)); } }
                    m += &format!(" {} [{}]", q.a, vs.join(" "));
                } else { m += &format!(" {} {}", q.a, val_edn(&q.v)); }
            }
            out.push(m + "}");
        } else if style == 1 && d.ty == "ref" && matches!(o.v, Val::E(_) | Val::V(V::Ref(_))) {
            // reversed: the value's entity place comes first
            let ve = match &o.v { Val::E(e) => e.clone(), Val::V(V::Ref(x)) => E::Ent(*x), _ => unreachable!() };
            if o.add && r.chance(1, 2) { out.push(format!("{{:db/id {} {} {}}}", e_edn(&ve), rev(o.a), e_edn(&o.e))); }
            else { out.push(format!("[:db/{} {} {} {}]", if o.add { "add" } else { "retract" }, e_edn(&ve), rev(o.a), e_edn(&o.e))); }
        } else if style == 2 && d.many {
            let mut vs = vec![val_edn(&o.v)];
            for j in i + 1..ops.len() { if !used[j] && ops[j].add == o.add && ops[j].e == o.e && ops[j].a == o.a { used[j] = true; vs.push(val_edn(&ops[j].v)); } }
            out.push(format!("[:db/{} {} {} [{}]]", if o.add { "add" } else { "retract" }, e_edn(&o.e), o.a, vs.join(" ")));
        } else {
            out.push(format!("[:db/{} {} {} {}]", if o.add { "add" } else { "retract" }, e_edn(&o.e), o.a, val_edn(&o.v)));
        }
        i += 1;
    }
    format!("[{}]", out.join("\n "))
}

/// Entities (ids of the user partition that are not attributes) appearing in the facts.
pub fn entities(d: &Dump, min: i64) -> Vec<i64> {
    let at = d.attrs();
    let s: BTreeSet<i64> = d.facts.keys().map(|f| f.0).filter(|e| *e >= min && *e < 0x10000000 && !at.contains_key(e)).collect();
    s.into_iter().collect()
}

pub struct GenOpt { pub attrs: Vec<&'static str>, pub temps: usize, pub lookups: bool, pub retracts: bool, pub max: usize, pub conflicts: bool, pub bad_retract_one: bool }
pub fn default_opt() -> GenOpt { GenOpt { attrs: ATTRS.iter().map(|a| a.kw).collect(), temps: 2, lookups: true, retracts: true, max: 7, conflicts: true, bad_retract_one: true } }

pub fn gen_ops(r: &mut Rng, d: &Dump, ids: &BTreeMap<&'static str, i64>, min: i64, o: &GenOpt) -> Vec<Op> {
    let ents = entities(d, min);
    let n = 1 + r.below(o.max);
    let byid: BTreeMap<i64, &'static str> = ids.iter().map(|(k, v)| (*v, *k)).collect();
    let facts: Vec<&Fact> = d.facts.keys().filter(|f| byid.contains_key(&f.1) && o.attrs.contains(&byid[&f.1])).collect();
    let uniq: Vec<&Fact> = facts.iter().cloned().filter(|f| { let a = attr_def(byid[&f.1]); a.unique > 0 && !a.fulltext }).collect();
    let mut ops: Vec<Op> = vec![];
    let place = |r: &mut Rng| -> E {
        if o.lookups && !uniq.is_empty() && r.chance(1, 8) { let f = *r.pick(&uniq); return E::Look(byid[&f.1], f.2.clone()); }
        if o.temps > 0 && (ents.is_empty() || r.chance(2, 5)) { return E::Temp(format!("t{}", r.below(o.temps))); }
        if ents.is_empty() { return E::Tx; }
        if r.chance(1, 40) { return E::Tx; }
        E::Ent(*r.pick(&ents))
    };
    let identities: Vec<&'static str> = o.attrs.iter().cloned().filter(|a| attr_def(a).unique == 2).collect();
    if o.temps > 2 && !identities.is_empty() && r.chance(1, 5) {
        // several temporary ids that have to be one entity
        let a = *r.pick(&identities);
        let v = if attr_def(a).ty == "ref" && r.chance(1, 2) { Val::E(E::Temp(format!("t{}", r.below(o.temps)))) } else { Val::V(gen_value(r, attr_def(a).ty, &ents)) };
        for k in 0..o.temps { if r.chance(2, 3) { ops.push(Op { add: true, e: E::Temp(format!("t{}", k)), a, v: v.clone() }); } }
    }
    for _ in 0..n {
        if o.retracts && !facts.is_empty() && r.chance(1, 4) {
            let f = *r.pick(&facts);
            let e = E::Ent(f.0);
            let a = byid[&f.1];
            let mut v = f.2.clone();
            if r.chance(1, 4) { let nv = gen_value(r, attr_def(a).ty, &ents); if attr_def(a).many || o.bad_retract_one { v = nv; } }
            ops.push(Op { add: false, e, a, v: Val::V(v) });
            continue;
        }
        let a = *r.pick(&o.attrs);
        let ad = attr_def(a);
        let e = place(r);
        let v = if ad.ty == "ref" && r.chance(1, 2) { Val::E(place(r)) } else {
            // often re-use a value already stored for this attribute
            let same: Vec<&&Fact> = facts.iter().filter(|f| f.1 == ids[a]).collect();
            if !same.is_empty() && r.chance(1, 3) { Val::V(r.pick(&same).2.clone()) } else { Val::V(gen_value(r, ad.ty, &ents)) }
        };
        let op = Op { add: true, e, a, v };
        if !o.conflicts && !ad.many && ops.iter().any(|q| q.e == op.e && q.a == op.a) { continue; }
        ops.push(op);
    }
    ops
}

/// Resolve an entity place against the pre-state, the tempid map and the transaction id.
pub fn res_e(e: &E, d: &Dump, ids: &BTreeMap<&'static str, i64>, tm: &BTreeMap<String, i64>, tx: i64) -> Option<i64> {
    match e {
        E::Ent(i) => Some(*i),
        E::Ident(_, i) => Some(*i),
        E::Tx => Some(tx),
        E::Temp(t) => tm.get(t).cloned(),
        E::Look(a, v) => { let m: Vec<i64> = d.facts.keys().filter(|f| f.1 == ids[a] && f.2 == *v).map(|f| f.0).collect(); if m.len() == 1 { Some(m[0]) } else { None } }
    }
}
pub type Delta = (BTreeSet<Fact>, BTreeSet<Fact>);
/// Ground the operations: (adds, retracts).
pub fn ground(ops: &[Op], d: &Dump, ids: &BTreeMap<&'static str, i64>, tm: &BTreeMap<String, i64>, tx: i64) -> Option<Delta> {
    let (mut add, mut ret) = (BTreeSet::new(), BTreeSet::new());
    for o in ops {
        let e = res_e(&o.e, d, ids, tm, tx)?;
        let v = match &o.v { Val::V(v) => v.clone(), Val::E(x) => V::Ref(res_e(x, d, ids, tm, tx)?) };
        if o.add { add.insert((e, ids[o.a], v)); } else { ret.insert((e, ids[o.a], v)); }
    }
    Some((add, ret))
}
/// Does the transaction contradict itself (C01's last sentence)?
pub fn contradictory(g: &Delta, at: &BTreeMap<i64, Attr>) -> bool {
    if g.0.intersection(&g.1).next().is_some() { return true; }
    let mut one: BTreeMap<(i64, i64), &V> = BTreeMap::new();
    for (e, a, v) in &g.0 { if !at[a].many { if let Some(x) = one.insert((*e, *a), v) { if x != v { return true; } } } }
    false
}
/// The facts after the transaction (C01).
pub fn apply(pre: &BTreeSet<Fact>, g: &Delta, at: &BTreeMap<i64, Attr>) -> BTreeSet<Fact> {
    let mut post = pre.clone();
    for f in &g.1 { post.remove(f); }
    for (e, a, v) in &g.0 {
        if !at[a].many { let old: Vec<Fact> = post.range((*e, *a, V::Ref(i64::MIN))..(*e, *a + 1, V::Ref(i64::MIN))).cloned().collect(); for f in old { if f.2 != *v { post.remove(&f); } } }
    }
    for f in &g.0 { post.insert(f.clone()); }
    post
}
/// First uniqueness or cardinality breach of a fact set.
pub fn breach(facts: &BTreeSet<Fact>, at: &BTreeMap<i64, Attr>) -> Option<String> {
    let mut u: BTreeMap<(i64, &V), i64> = BTreeMap::new();
    let mut c: BTreeMap<(i64, i64), &V> = BTreeMap::new();
    for (e, a, v) in facts {
        if let Some(x) = at.get(a) {
            if x.unique > 0 { if let Some(o) = u.insert((*a, v), *e) { if o != *e { return Some(format!("unique value {:?} of attribute {} held by {} and {}", v, a, o, e)); } } }
            if !x.many { if let Some(o) = c.insert((*e, *a), v) { if o != v { return Some(format!("entity {} has two values {:?} and {:?} for single-valued attribute {}", e, o, v, a)); } } }
        }
    }
    None
}
/// C03: what the temporary ids must denote.  Err = must be rejected; Ok(classes): tempid -> Existing id or class number.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T { Old(i64), New(usize) }
pub fn spec_tempids(ops: &[Op], d: &Dump, ids: &BTreeMap<&'static str, i64>, tx: i64, merged: &mut bool) -> Result<BTreeMap<String, T>, String> {
    let none = BTreeMap::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for o in ops { if let E::Temp(t) = &o.e { names.insert(t.clone()); } if let Val::E(E::Temp(t)) = &o.v { names.insert(t.clone()); } }
    let names: Vec<String> = names.into_iter().collect();
    let idx = |t: &String| names.iter().position(|x| x == t).unwrap();
    // union-find over tempids, with at most one existing entity per class
    let mut cls: Vec<usize> = (0..names.len()).collect();
    let mut old: Vec<Option<i64>> = vec![None; names.len()];
    loop {
        let mut changed = false;
        // unique-identity assertions: (a, value) -> subject
        let mut subj: BTreeMap<(i64, Result<V, usize>), Result<i64, usize>> = BTreeMap::new();
        for f in d.facts.keys() { if ids.values().any(|x| *x == f.1) && at_unique(ids, f.1) == 2 { subj.insert((f.1, Ok(f.2.clone())), Ok(f.0)); } }
        for o in ops {
            if !o.add || attr_def(o.a).unique != 2 { continue; }
            let v: Result<V, usize> = match &o.v {
                Val::V(v) => Ok(v.clone()),
                Val::E(E::Temp(t)) => { let c = cls[idx(t)]; match old[c] { Some(x) => Ok(V::Ref(x)), None => Err(c) } }
                Val::E(e) => Ok(V::Ref(res_e(e, d, ids, &none, tx).ok_or("unresolvable lookup")?)),
            };
            let e: Result<i64, usize> = match &o.e {
                E::Temp(t) => { let c = cls[idx(t)]; match old[c] { Some(x) => Ok(x), None => Err(c) } }
                e => Ok(res_e(e, d, ids, &none, tx).ok_or("unresolvable lookup")?),
            };
            let is_temp = matches!(o.e, E::Temp(_));
            let key = (ids[o.a], v);
            let prev = subj.get(&key).cloned();
            match (prev, e) {
                // facts of existing entities asserted in the same transaction do not resolve tempids,
                // unless the fact already holds
                (Some(Ok(x)), Err(c)) => { if old[c].is_none() { old[c] = Some(x); changed = true; } else if old[c] != Some(x) { return Err("two existing entities".into()); } }
                (Some(Ok(x)), Ok(y)) => { if x != y && is_temp { return Err(format!("tempid denotes {} and {}", x, y)); } }
                (Some(Err(c1)), Err(c2)) => { if c1 != c2 { *merged = true; for k in cls.iter_mut() { if *k == c2 { *k = c1; } } if old[c1].is_none() { old[c1] = old[c2]; } changed = true; } }
                (None, Err(c)) => { subj.insert(key, Err(c)); }
                (Some(Err(_)), Ok(_)) | (None, Ok(_)) => {}
            }
            if changed { break; }
        }
        if !changed { break; }
    }
    Ok(names.iter().map(|t| { let c = cls[idx(t)]; (t.clone(), match old[c] { Some(x) => T::Old(x), None => T::New(c) }) }).collect())
}
/// True when the temporary ids that must be one new entity are exactly those given literally the same
/// unique-identity assertion (no identification that follows only from another).
pub fn one_pass(ops: &[Op], sp: &BTreeMap<String, T>, d: &Dump, ids: &BTreeMap<&'static str, i64>) -> bool {
    let names: Vec<&String> = sp.keys().collect();
    let none = BTreeMap::new();
    // what a value place denotes: an id, a temporary id that is new, or a literal
    let denotes = |v: &Val| -> String {
        match v {
            Val::V(V::Ref(x)) => x.to_string(),
            Val::V(v) => edn(v),
            Val::E(E::Temp(t)) => match sp.get(t) { Some(T::Old(x)) => x.to_string(), Some(T::New(c)) => format!("new {}", c), None => t.clone() },
            Val::E(e) => res_e(e, d, ids, &none, -1).map(|x| x.to_string()).unwrap_or_default(),
        }
    };
    let classes = |same: &dyn Fn(&Val, &Val) -> bool| -> Vec<usize> {
        let mut cls: Vec<usize> = (0..names.len()).collect();
        let idx = |t: &String| names.iter().position(|x| *x == t).unwrap();
        for (i, o) in ops.iter().enumerate() {
            if !o.add || attr_def(o.a).unique != 2 { continue; }
            for q in &ops[..i] {
                if !q.add || q.a != o.a || !same(&q.v, &o.v) { continue; }
                if let (E::Temp(x), E::Temp(y)) = (&o.e, &q.e) { let (a, b) = (cls[idx(x)], cls[idx(y)]); for k in cls.iter_mut() { if *k == a { *k = b; } } }
            }
        }
        cls
    };
    let cls = classes(&|x, y| val_edn(x) == val_edn(y));
    let all = classes(&|x, y| denotes(x) == denotes(y));
    (0..names.len()).all(|i| (0..i).all(|j| match (&sp[names[i]], &sp[names[j]]) { (T::New(a), T::New(b)) => (a == b) == (cls[i] == cls[j]), _ => all[i] != all[j] }))
}
fn at_unique(ids: &BTreeMap<&'static str, i64>, a: i64) -> u8 { ids.iter().find(|(_, v)| **v == a).map(|(k, _)| attr_def(k).unique).unwrap_or(0) }
