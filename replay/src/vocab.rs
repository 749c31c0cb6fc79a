//! Vocabularies (C21): every sequence of definitions against a store, compared with what the definitions say.
use crate::schema::{schema_is, materialised};
use crate::store::*;
use crate::util::*;
use core_traits::{attribute, Attribute, ValueType};
use mentat::vocabulary::{AttributeBuilder, Definition, HasVocabularies, SimpleVocabularySource, Vocabulary, VocabularyOutcome, VersionedStore};
use mentat::{InProgress, Keyword, MentatError, Queryable};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

thread_local!(static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]));
fn call(s: String) { CALLS.with(|c| c.borrow_mut().push(s)); }
fn calls() -> Vec<String> { CALLS.with(|c| std::mem::replace(&mut *c.borrow_mut(), vec![])) }
fn listed(v: &Vocabulary) -> String { let mut a: Vec<i64> = v.attributes().iter().map(|x| x.0).collect(); a.sort(); format!("{} {:?}", v.version, a) }
fn pre(_: &mut InProgress, v: &Vocabulary) -> Result<(), MentatError> { call(format!("pre {}", listed(v))); Ok(()) }
fn post(_: &mut InProgress, v: &Vocabulary) -> Result<(), MentatError> { call(format!("post {}", listed(v))); Ok(()) }
fn src_pre(_: &mut InProgress) -> Result<(), MentatError> { call("source pre".into()); Ok(()) }
fn src_post(_: &mut InProgress) -> Result<(), MentatError> { call("source post".into()); Ok(()) }
fn bad_post(ip: &mut InProgress, _: &Vocabulary) -> Result<(), MentatError> { ip.transact("[[:db/add \"x\" :no/such 1]]").map(|_| ()) }

fn attr_def(r: &mut Rng, i: usize) -> Attribute {
    let vts = [ValueType::String, ValueType::Long, ValueType::Ref, ValueType::Keyword, ValueType::Boolean, ValueType::String];
    let mut b = AttributeBuilder::helpful();
    let vt = if r.chance(1, 25) { *r.pick(&vts) } else { vts[i % vts.len()] };
    b.value_type(vt);
    b.multival(r.chance(1, 3));
    match r.below(5) {
        0 => { b.unique(attribute::Unique::Identity); }
        1 => { b.unique(attribute::Unique::Value); b.index(true); }
        2 => { b.index(true); }
        3 => { b.non_unique(); }
        _ => {}
    }
    if vt == ValueType::String && i == 5 { b.fulltext(true); }
    if vt == ValueType::Ref && r.chance(1, 3) { b.component(true); }
    if r.chance(1, 10) { b.no_history(true); }
    b.build()
}
/// May turning `a` into `b` be refused (by data, or because it is no legal alteration)?
fn may_refuse(a: &Attribute, b: &Attribute) -> bool {
    a.value_type != b.value_type || a.fulltext != b.fulltext || (a.multival && !b.multival) || (b.unique.is_some() && a.unique != b.unique) || a.component != b.component
}

struct World { s: S, note: Vec<String>, fails: bool }

/// What a connection knows, in names.
struct Seen { schema: mentat_core::Schema, dump: Dump }
fn seen(ip: &InProgress) -> Seen { Seen { schema: ip.schema.clone(), dump: dump(&ip.transaction) } }
fn attr_of<'a>(s: &'a mentat_core::Schema, k: &Keyword) -> Option<(i64, &'a Attribute)> {
    s.ident_map.get(k).and_then(|e| s.attribute_map.get(e).map(|a| (*e, a)))
}
/// The vocabularies the facts describe.
fn vocabs(x: &Seen) -> BTreeMap<String, (i64, BTreeSet<i64>)> {
    let (ver, att) = (x.schema.ident_map[&kwd("db.schema", "version")], x.schema.ident_map[&kwd("db.schema", "attribute")]);
    let mut m = BTreeMap::new();
    for (e, a, v) in x.dump.facts.keys() {
        if *a == ver { if let (V::Long(n), Some(k)) = (v, x.schema.entid_map.get(e)) { m.insert(k.to_string(), (*n, BTreeSet::new())); } }
    }
    for (e, a, v) in x.dump.facts.keys() {
        if *a == att { if let (V::Ref(n), Some(k)) = (v, x.schema.entid_map.get(e)) { if let Some(w) = m.get_mut(&k.to_string()) { w.1.insert(*n); } } }
    }
    m
}
fn kwd(ns: &str, n: &str) -> Keyword { Keyword::namespaced(ns, n) }
fn user_facts(x: &Seen) -> BTreeSet<Fact> {
    // facts that are neither schema nor vocabulary nor transaction facts
    x.dump.facts.keys().filter(|f| x.schema.entid_map.get(&f.1).map_or(true, |k| !k.namespace().map_or(false, |n| n == "db" || n.starts_with("db.")))).cloned().collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Installed, Existed, Missing, Upgraded, Conflict, TooNew, Invalid }

/// What a definition should meet in the store.
fn expect(d: &Definition, x: &Seen) -> Want {
    if d.version == 0 { return Want::Invalid; }
    match vocabs(x).get(&d.name.to_string()) {
        None => Want::Installed,
        Some((v, _)) if *v < d.version as i64 => Want::Upgraded,
        Some((v, _)) if *v > d.version as i64 => Want::TooNew,
        Some((_, l)) => {
            let mut missing = false;
            for (k, a) in &d.attributes {
                match attr_of(&x.schema, k) { Some((e, b)) if l.contains(&e) => { if a != b { return Want::Conflict; } } _ => missing = true }
            }
            if missing { Want::Missing } else { Want::Existed }
        }
    }
}
fn show(d: &Definition) -> String { format!("{} v{} {}", d.name, d.version, d.attributes.iter().map(|(k, a)| format!("{}={:?}{}{}{}{}{}{}", k, a.value_type, if a.multival { " many" } else { "" }, match a.unique { Some(u) => format!(" {:?}", u), None => "".into() }, if a.index { " index" } else { "" }, if a.fulltext { " fulltext" } else { "" }, if a.component { " component" } else { "" }, if a.no_history { " nohistory" } else { "" })).collect::<Vec<_>>().join(", ")) }

/// After the definitions `ds` have been ensured.
fn after(ds: &[(&Definition, Want)], b: &Seen, ip: &InProgress) -> Case {
    let a = seen(ip);
    schema_is(&a.dump, &a.schema)?;
    materialised(&a.dump)?;
    let (vb, va) = (vocabs(b), vocabs(&a));
    let mut want = vb.clone();
    let mut mine: BTreeSet<String> = BTreeSet::new();
    let mut last: BTreeMap<String, &Attribute> = BTreeMap::new();
    for (d, w) in ds {
        if *w == Want::Existed { continue; }
        let e = want.entry(d.name.to_string()).or_insert((0, BTreeSet::new()));
        e.0 = d.version as i64;
        for (k, at) in &d.attributes {
            let (id, _) = attr_of(&a.schema, k).ok_or(format!("attribute {} of {} is not installed", k, d.name))?;
            e.1.insert(id);
            mine.insert(k.to_string());
            last.insert(k.to_string(), at);
        }
    }
    for (k, at) in &last {
        let (_, got) = attr_of(&a.schema, &edn_kw(k)).unwrap();
        chk!(got == *at, "attribute {} was defined as {:?}, and is {:?}", k, at, got);
    }
    chk!(va == want, "the vocabularies are {:?} instead of {:?}", va, want);
    // what is read back
    let rv = ip.read_vocabularies().map_err(|e| format!("the vocabularies cannot be read: {}", e))?;
    let got: BTreeMap<String, (i64, BTreeSet<i64>)> = rv.iter().map(|(k, v)| (k.to_string(), (v.version as i64, v.attributes().iter().map(|x| x.0).collect()))).collect();
    chk!(got == want, "read_vocabularies gives {:?} instead of {:?}", got, want);
    for (d, _) in ds {
        let v = ip.read_vocabulary_named(&d.name).map_err(|e| format!("{} cannot be read: {}", d.name, e))?.ok_or(format!("{} is not there", d.name))?;
        let w = &want[&d.name.to_string()];
        chk!(v.version as i64 == w.0 && v.attributes().iter().map(|x| x.0).collect::<BTreeSet<i64>>() == w.1, "read_vocabulary_named gives {:?} for {}", v, d.name);
        for (e, at) in v.attributes() { chk!(a.schema.attribute_map.get(e) == Some(at), "read_vocabulary_named gives {:?} for attribute {}", at, e); }
    }
    // everything else as before
    for (k, e) in &b.schema.ident_map { chk!(a.schema.ident_map.get(k) == Some(e), "ident {} changed from {} to {:?}", k, e, a.schema.ident_map.get(k)); }
    for (k, e) in &a.schema.ident_map {
        if mine.contains(&k.to_string()) || ds.iter().any(|d| d.0.name == *k) { continue; }
        chk!(b.schema.ident_map.get(k) == Some(e), "ident {} appeared", k);
    }
    for (e, at) in &b.schema.attribute_map {
        let k = b.schema.entid_map[e].to_string();
        if !mine.contains(&k) { chk!(a.schema.attribute_map.get(e) == Some(at), "attribute {} outside the vocabulary changed from {:?} to {:?}", k, at, a.schema.attribute_map.get(e)); }
    }
    for e in a.schema.attribute_map.keys() { chk!(b.schema.attribute_map.contains_key(e) || mine.contains(&a.schema.entid_map[e].to_string()), "attribute {} appeared", e); }
    chk!(user_facts(b) == user_facts(&a), "facts of the user changed");
    if ds.iter().all(|d| d.1 == Want::Existed) { chk!(a.dump == b.dump, "there was nothing to do, but the store changed"); }
    Ok(())
}
fn edn_kw(s: &str) -> Keyword {
    let t = &s[1..];
    let i = t.find('/').unwrap();
    kwd(&t[..i], &t[i + 1..])
}

pub fn c21_ensure(r: &mut Rng, info: &mut Info) -> Case {
    let mut w = World { s: S::mem(), note: vec![], fails: false };
    let names = ["a", "b", "c"];
    let res = run(r, info, &mut w, &names);
    for n in w.note { info.note(n); }
    let _ = w.fails;
    res
}

fn run(r: &mut Rng, info: &mut Info, w: &mut World, names: &[&str]) -> Case {
    // a catalogue of two definitions per attribute
    let cat: Vec<[Attribute; 2]> = (0..6).map(|i| { let a = attr_def(r, i); let b = if r.chance(1, 4) { a.clone() } else { attr_def(r, i) }; [a, b] }).collect();
    let key = |i: usize| kwd("p", ["a", "b", "c", "d", "e", "f"][i]);
    // something is there already
    if r.chance(1, 4) { w.s.must("[{:db/ident :v/b}]"); }
    if r.chance(1, 3) {
        let t = format!("[{{:db/ident :p/{} :db/valueType :db.type/{} :db/fulltext false :db/cardinality :db.cardinality/{} {}}}]", "abcd".chars().nth(0).unwrap(), "string", r.pick(&["one", "many"]), r.pick(&["", ":db/unique :db.unique/identity :db/index true", ":db/index true", ":db/unique :db.unique/value :db/index true"]));
        w.note.push(t.clone());
        w.s.must(&t);
    }
    w.s.must("[{:db/ident :other/x :db/valueType :db.type/long :db/cardinality :db.cardinality/many :db/index true}]");
    let mut ver = [1u32, 1, 1];
    let steps = 3 + r.below(7);
    for _ in 0..steps {
        if r.chance(1, 3) {
            // some data
            let mut ip = w.s.conn.begin_transaction(&mut w.s.sql).map_err(|e| e.to_string())?;
            let i = r.below(6);
            let t = format!("[[:db/add \"x\" {} {}] [:db/add \"y\" :other/x {}]]", key(i), ["\"s\"", "1", "[:db/ident :db/ident]", ":k/w", "true", "\"some text\""][i].replace("[:db/ident :db/ident]", ":db/ident"), r.below(5));
            w.note.push(t.clone());
            if ip.transact(t).is_ok() { ip.commit().map_err(|e| e.to_string())?; } else { ip.rollback().map_err(|e| e.to_string())?; }
            continue;
        }
        // definitions
        let several = r.chance(1, 3);
        let same = r.below(2);
        let mut which: Vec<usize> = (0..names.len()).collect();
        r.shuffle(&mut which);
        which.truncate(if several { r.below(4) } else { 1 });
        let mut ds: Vec<Definition> = vec![];
        for n in &which {
            let v = match r.below(8) { 0 => ver[*n] + 1, 1 => ver[*n] + 2, 2 if ver[*n] > 1 => ver[*n] - 1, 3 if r.chance(1, 6) => 0, 4 if r.chance(1, 6) => u32::max_value() - r.below(2) as u32, _ => ver[*n] };
            let mut at = vec![];
            for i in 0..6 { if if i % 3 == *n { r.chance(2, 3) } else { r.chance(1, 16) } { at.push((key(i), cat[i][if r.chance(1, 8) && !several { 1 - same } else { same }].clone())); } }
            r.shuffle(&mut at);
            ds.push(Definition { name: kwd("v", names[*n]), version: v, attributes: at, pre, post });
        }
        if r.chance(1, 12) { for d in ds.iter_mut() { d.post = bad_post; } }
        for d in &ds { w.note.push(format!("{} {}", if several { "ensure together:" } else { "ensure" }, show(d))); info.feed(&show(d)); }
        let mut ip = w.s.conn.begin_transaction(&mut w.s.sql).map_err(|e| e.to_string())?;
        let b = seen(&ip);
        let wants: Vec<Want> = ds.iter().map(|d| expect(d, &b)).collect();
        let vb = vocabs(&b);
        calls();
        let src_hooks = r.chance(1, 2);
        let got: Result<BTreeMap<Keyword, VocabularyOutcome>, MentatError> = if several {
            let mut src = if src_hooks { SimpleVocabularySource::new(ds.clone(), Some(src_pre), Some(src_post)) } else { SimpleVocabularySource::with_definitions(ds.clone()) };
            ip.ensure_vocabularies(&mut src)
        } else {
            ip.ensure_vocabulary(&ds[0]).map(|o| std::iter::once((ds[0].name.clone(), o)).collect())
        };
        let log = calls();
        w.note.push(format!("  -> {:?} ({:?})", got, wants));
        let fatal = wants.iter().any(|x| [Want::Conflict, Want::TooNew, Want::Invalid].contains(x));
        match got {
            Ok(o) => {
                chk!(!fatal, "the definitions {} were accepted; {:?} was expected", ds.iter().map(show).collect::<Vec<_>>().join("; "), wants);
                for (d, x) in ds.iter().zip(&wants) {
                    let e = match x { Want::Installed => VocabularyOutcome::Installed, Want::Existed => VocabularyOutcome::Existed, Want::Missing => VocabularyOutcome::InstalledMissingAttributes, _ => VocabularyOutcome::Upgraded };
                    chk!(o.get(&d.name) == Some(&e), "the outcome for {} is {:?} instead of {:?}", show(d), o.get(&d.name), e);
                }
                chk!(o.len() == ds.len(), "outcomes for vocabularies that were not asked for: {:?}", o);
                // hooks
                let mut hooks: Vec<String> = vec![];
                for (d, x) in ds.iter().zip(&wants) {
                    if *x == Want::Upgraded { let (v, l) = &vb[&d.name.to_string()]; let l: Vec<i64> = l.iter().cloned().collect(); hooks.push(format!("pre {} {:?}", v, l)); hooks.push(format!("post {} {:?}", v, l)); }
                }
                let busy = wants.iter().any(|x| *x != Want::Existed);
                if several && src_hooks && busy {
                    chk!(log.first().map_or(false, |s| s == "source pre") && log.last().map_or(false, |s| s == "source post"), "the source's hooks do not surround the work: {:?}", log);
                    hooks.push("source pre".into()); hooks.push("source post".into());
                }
                let (mut l1, mut l2) = (log.clone(), hooks.clone());
                l1.sort(); l2.sort();
                chk!(l1 == l2, "hooks ran as {:?}, {:?} was expected", log, hooks);
                let p: Vec<(&Definition, Want)> = ds.iter().zip(wants.iter().cloned()).collect();
                // the order definitions are applied in: installations by name, then upgrades, then missing attributes
                let mut q = p.clone();
                q.sort_by_key(|(d, x)| (match x { Want::Installed => 0, Want::Upgraded => 1, _ => 2 }, d.name.clone()));
                after(&q, &b, &ip)?;
                info.count("ensured");
                if busy { info.nontrivial = true; }
                for x in &wants { info.count(match x { Want::Installed => "installed", Want::Existed => "existed", Want::Missing => "missing", _ => "upgraded" }); }
                // a second time, there is nothing to do
                let b2 = seen(&ip);
                for d in &ds {
                    let cut = p.iter().any(|(e, _)| e.attributes.iter().any(|(k, x)| d.attributes.iter().any(|(k2, x2)| k == k2 && x != x2)));
                    if cut { continue; }
                    match ip.ensure_vocabulary(d) {
                        Ok(VocabularyOutcome::Existed) => {}
                        x => return Err(format!("ensuring {} once more gives {:?}", show(d), x)),
                    }
                }
                chk!(calls().is_empty(), "ensuring once more ran hooks");
                chk!(seen(&ip).dump == b2.dump, "ensuring once more changed the store");
                if r.chance(1, 6) { ip.rollback().map_err(|e| e.to_string())?; } else {
                    ip.commit().map_err(|e| e.to_string())?;
                    for (n, d) in which.iter().zip(&ds) { if d.version < 1000 { ver[*n] = d.version; } }
                }
            }
            Err(e) => {
                let bad = ds.iter().zip(&wants).any(|(d, x)| *x == Want::Upgraded && d.post as usize == bad_post as usize);
                // :db.schema/attribute is unique: an attribute belongs to one vocabulary
                let taken = |d: &Definition, k: &Keyword| attr_of(&b.schema, k).map_or(false, |(e, _)| vb.iter().any(|(n, (_, l))| *n != d.name.to_string() && l.contains(&e))) || ds.iter().any(|d2| d2.name != d.name && d2.attributes.iter().any(|a| a.0 == *k));
                let refuse = ds.iter().any(|d| d.attributes.iter().any(|(k, _)| taken(d, k))) || ds.iter().any(|d| d.attributes.iter().any(|(k, a)| attr_of(&b.schema, k).map_or(false, |(_, x)| may_refuse(x, a))));
                chk!(fatal || bad || refuse, "ensuring {} failed: {}", ds.iter().map(show).collect::<Vec<_>>().join("; "), e);
                if !several && !bad {
                    match (wants[0], &e) {
                        (Want::Conflict, MentatError::ConflictingAttributeDefinitions(..)) | (Want::TooNew, MentatError::ExistingVocabularyTooNew(..)) => {}
                        (Want::Conflict, _) | (Want::TooNew, _) => return Err(format!("{:?} was refused with {}", wants[0], e)),
                        _ => {}
                    }
                }
                chk!(!(fatal && log.iter().any(|l| !l.starts_with("source"))) , "hooks ran although the definitions were refused: {:?}", log);
                info.count("refused");
                if fatal { chk!(seen(&ip).dump == b.dump, "the definitions were refused, but the transaction in progress changed"); }
                ip.rollback().map_err(|e| e.to_string())?;
                let now = w.s.dump();
                chk!(now == b.dump, "the definitions were refused, but the store changed");
            }
        }
    }
    Ok(())
}
