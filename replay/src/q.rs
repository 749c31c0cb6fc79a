//! Queries: generator, text, and a naive evaluator over the raw facts (the specification side).
use crate::gen::*;
use crate::store::*;
use crate::util::*;
use core_traits::{Binding, TypedValue};
use mentat::{QueryInputs, QueryOutput, QueryResults, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub fn from_tv(t: &TypedValue) -> V {
    match t {
        TypedValue::Ref(x) => V::Ref(*x), TypedValue::Boolean(b) => V::Bool(*b), TypedValue::Long(x) => V::Long(*x),
        TypedValue::Double(f) => V::dbl(f.into_inner()),
        TypedValue::Instant(i) => V::Inst(i.timestamp() * 1_000_000 + i.timestamp_subsec_micros() as i64),
        TypedValue::String(s) => V::Str(s.to_string()), TypedValue::Keyword(k) => V::Kw(k.to_string()),
        TypedValue::Uuid(u) => V::Uuid(u.as_bytes().to_vec()),
    }
}
pub fn keyword(k: &str) -> edn::Keyword {
    let k = &k[1..];
    match k.find('/') { Some(i) => edn::Keyword::namespaced(&k[..i], &k[i + 1..]), None => edn::Keyword::plain(k) }
}
pub fn to_tv(v: &V) -> TypedValue {
    match v {
        V::Ref(x) => TypedValue::Ref(*x), V::Bool(b) => TypedValue::Boolean(*b), V::Long(x) => TypedValue::Long(*x),
        V::Dbl(b) => TypedValue::Double(ordered_float::OrderedFloat(f64::from_bits(*b))),
        V::Inst(us) => TypedValue::Instant(datetime(*us)),
        V::Str(s) => TypedValue::typed_string(s), V::Kw(k) => TypedValue::Keyword(mentat_core::ValueRc::new(keyword(k))),
        V::Uuid(b) => TypedValue::Uuid(uuid::Uuid::from_slice(b).unwrap()), V::Bad(..) => panic!(),
    }
}
pub fn datetime(us: i64) -> chrono::DateTime<chrono::Utc> {
    use chrono::TimeZone;
    chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32)
}
pub fn from_b(b: &Binding) -> V { match b { Binding::Scalar(t) => from_tv(t), x => V::Bad(-1, format!("{:?}", x)) } }

pub type Row = Vec<V>;
/// The rows of a result, whatever its shape.
pub fn rows(o: &QueryOutput) -> Vec<Row> {
    match &o.results {
        QueryResults::Scalar(x) => x.iter().map(|b| vec![from_b(b)]).collect(),
        QueryResults::Tuple(x) => x.iter().map(|t| t.iter().map(from_b).collect()).collect(),
        QueryResults::Coll(x) => x.iter().map(|b| vec![from_b(b)]).collect(),
        QueryResults::Rel(x) => x.rows().map(|t| t.iter().map(from_b).collect()).collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum T { Var(String), C(V), Ident(String, i64), Any }
#[derive(Clone, Debug, PartialEq)]
pub enum Cl {
    Pat(T, T, T, T),
    Or(Option<Vec<String>>, Vec<Vec<Cl>>),
    Not(Option<Vec<String>>, Vec<Cl>),
    Cmp(&'static str, T, T),
    Ground(String, Vec<V>),
    Type(&'static str, String),
}
pub type B = BTreeMap<String, V>;

pub fn t_edn(t: &T) -> String { match t { T::Var(v) => v.clone(), T::C(v) => edn(v), T::Ident(k, _) => k.clone(), T::Any => "_".into() } }
pub fn cl_edn(c: &Cl) -> String {
    match c {
        Cl::Pat(e, a, v, x) => if *x == T::Any { if *v == T::Any { format!("[{} {}]", t_edn(e), t_edn(a)) } else { format!("[{} {} {}]", t_edn(e), t_edn(a), t_edn(v)) } } else { format!("[{} {} {} {}]", t_edn(e), t_edn(a), t_edn(v), t_edn(x)) },
        Cl::Or(j, bs) => {
            let b: Vec<String> = bs.iter().map(|b| if b.len() == 1 { cl_edn(&b[0]) } else { format!("(and {})", b.iter().map(cl_edn).collect::<Vec<_>>().join(" ")) }).collect();
            match j { None => format!("(or {})", b.join(" ")), Some(v) => format!("(or-join [{}] {})", v.join(" "), b.join(" ")) }
        }
        Cl::Not(j, b) => {
            let s = b.iter().map(cl_edn).collect::<Vec<_>>().join(" ");
            match j { None => format!("(not {})", s), Some(v) => format!("(not-join [{}] {})", v.join(" "), s) }
        }
        Cl::Cmp(op, a, b) => format!("[({} {} {})]", op, t_edn(a), t_edn(b)),
        Cl::Ground(v, vs) => if vs.len() == 1 { format!("[(ground {}) {}]", edn(&vs[0]), v) } else { format!("[(ground [{}]) [{} ...]]", vs.iter().map(edn).collect::<Vec<_>>().join(" "), v) },
        Cl::Type(t, v) => format!("[(type {} :db.type/{})]", v, t),
    }
}
pub fn vars_of(c: &Cl, out: &mut BTreeSet<String>) {
    let mut t = |x: &T| if let T::Var(v) = x { out.insert(v.clone()); };
    match c {
        Cl::Pat(a, b, c, d) => { t(a); t(b); t(c); t(d) }
        Cl::Cmp(_, a, b) => { t(a); t(b) }
        Cl::Ground(v, _) | Cl::Type(_, v) => { out.insert(v.clone()); }
        Cl::Or(None, bs) => for b in bs { for c in b { vars_of(c, out) } },
        Cl::Not(None, b) => for c in b { vars_of(c, out) },
        Cl::Or(Some(v), _) | Cl::Not(Some(v), _) => { out.extend(v.iter().cloned()); }
    }
}
pub struct Db { pub facts: Vec<(i64, i64, V, i64)>, pub ix: BTreeMap<i64, Vec<usize>> }
impl Db {
    pub fn of(d: &Dump) -> Db {
        let facts: Vec<(i64, i64, V, i64)> = d.facts.iter().map(|(f, tx)| (f.0, f.1, f.2.clone(), *tx)).collect();
        let mut ix: BTreeMap<i64, Vec<usize>> = BTreeMap::new();
        for (i, f) in facts.iter().enumerate() { ix.entry(f.1).or_insert_with(Vec::new).push(i); }
        Db { facts, ix }
    }
}
fn unify(b: &mut B, t: &T, v: &V) -> bool {
    match t {
        T::Any => true, T::C(x) => x == v, T::Ident(_, x) => *v == V::Ref(*x),
        T::Var(n) => match b.get(n) { Some(x) => x == v, None => { b.insert(n.clone(), v.clone()); true } },
    }
}
fn val(b: &B, t: &T) -> Option<V> { match t { T::Var(n) => b.get(n).cloned(), T::C(v) => Some(v.clone()), T::Ident(_, x) => Some(V::Ref(*x)), T::Any => None } }
fn num(v: &V) -> Option<f64> { match v { V::Long(x) => Some(*x as f64), V::Dbl(b) => Some(f64::from_bits(*b)), _ => None } }
fn cmp(op: &str, a: &V, b: &V) -> bool {
    use std::cmp::Ordering::*;
    let o = match (a, b) {
        (V::Long(x), V::Long(y)) | (V::Inst(x), V::Inst(y)) | (V::Ref(x), V::Ref(y)) => x.cmp(y),
        _ => match (num(a), num(b)) { (Some(x), Some(y)) => x.partial_cmp(&y).unwrap(), _ => a.cmp(b) },
    };
    match op { "<" | "tx-before" | "unpermute" => o == Less, "<=" => o != Greater, ">" | "tx-after" => o == Greater, ">=" => o != Less, "!=" | "differ" => o != Equal, _ => panic!() }
}
pub fn rank(c: &Cl) -> u8 { match c { Cl::Ground(..) => 0, Cl::Pat(..) => 1, Cl::Or(..) => 2, Cl::Type(..) => 3, Cl::Cmp(..) => 4, Cl::Not(..) => 5 } }
/// All bindings satisfying the clauses that extend one of the given bindings.  None: too many.
pub fn eval(db: &Db, cls: &[Cl], bs: Vec<B>) -> Option<Vec<B>> {
    let mut order: Vec<&Cl> = cls.iter().collect();
    order.sort_by_key(|c| rank(c));
    let mut bs = bs;
    // patterns with bound parts first: keeps the intermediate results small
    let mut done = vec![false; order.len()];
    for _ in 0..order.len() {
        let bound: BTreeSet<String> = bs.get(0).map(|b| b.keys().cloned().collect()).unwrap_or_default();
        let k = (0..order.len()).filter(|i| !done[*i]).min_by_key(|i| {
            let r = rank(order[*i]) as usize * 10;
            if let Cl::Pat(e, a, v, _) = order[*i] {
                let free = |t: &T| match t { T::Var(n) => !bound.contains(n) as usize, T::Any => 1, _ => 0 };
                r + free(e) * 2 + free(a) * 3 + free(v)
            } else { r }
        }).unwrap();
        done[k] = true;
        let mut next: Vec<B> = vec![];
        match order[k] {
            Cl::Pat(e, a, v, x) => for b in &bs {
                let fixed = val(b, a);
                let all: Vec<usize>;
                let cand: &Vec<usize> = match fixed { Some(V::Ref(k)) => match db.ix.get(&k) { Some(v) => v, None => continue }, Some(_) => continue, None => { all = (0..db.facts.len()).collect(); &all } };
                for i in cand {
                    let f = &db.facts[*i];
                    let mut nb = b.clone();
                    if unify(&mut nb, e, &V::Ref(f.0)) && unify(&mut nb, a, &V::Ref(f.1)) && unify(&mut nb, v, &f.2) && unify(&mut nb, x, &V::Ref(f.3)) { next.push(nb); }
                }
                if next.len() > 60000 { return None; }
            },
            Cl::Ground(n, vs) => for b in &bs { for v in vs { let mut nb = b.clone(); if unify(&mut nb, &T::Var(n.clone()), v) { next.push(nb); } } },
            Cl::Cmp(op, l, r) => for b in &bs { let (x, y) = (val(b, l)?, val(b, r)?); if cmp(op, &x, &y) { next.push(b.clone()); } },
            Cl::Type(t, n) => for b in &bs { if b.get(n)?.ty() == *t { next.push(b.clone()); } },
            Cl::Or(None, brs) => for br in brs { next.extend(eval(db, br, bs.clone())?); },
            Cl::Or(Some(vs), brs) => for b in &bs {
                let inner: B = b.iter().filter(|(k, _)| vs.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                for br in brs { for nb in eval(db, br, vec![inner.clone()])? { let mut m = b.clone(); for v in vs { if let Some(x) = nb.get(v) { m.insert(v.clone(), x.clone()); } } next.push(m); } }
            },
            Cl::Not(j, cs) => for b in &bs {
                let inner: B = match j { None => b.clone(), Some(vs) => b.iter().filter(|(k, _)| vs.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
                if eval(db, cs, vec![inner])?.is_empty() { next.push(b.clone()); }
            },
        }
        next.sort(); next.dedup();
        if next.len() > 60000 { return None; }
        bs = next;
        if bs.is_empty() { return Some(bs); }
    }
    Some(bs)
}

// ---- generation ----
pub const QA: &[&str] = &[":p/b", ":p/l", ":p/ls", ":p/d", ":p/ds", ":p/s", ":p/ss", ":p/k", ":p/ks", ":p/i", ":p/is", ":p/u", ":p/r", ":p/rs", ":p/cs", ":p/idl", ":p/ids", ":p/uv", ":p/f", ":p/fs"];
/// A store with random facts: small values, so that joins meet.
pub fn populated(r: &mut Rng) -> (S, BTreeMap<&'static str, i64>, i64) {
    let (mut s, ids) = std_store();
    let min = ids.values().max().unwrap() + 1;
    for _ in 0..2 + r.below(3) {
        let d = s.dump();
        let ops = gen_ops(r, &d, &ids, min, &GenOpt { attrs: QA.to_vec(), temps: 5, lookups: false, retracts: true, max: 22, conflicts: false, bad_retract_one: true });
        let text = render(r, &ops);
        let _ = s.t(&text);
    }
    (s, ids, min)
}
pub struct G<'a> { pub ids: &'a BTreeMap<&'static str, i64>, pub facts: Vec<Fact>, pub ents: Vec<i64>, pub anyattr: bool }
impl<'a> G<'a> {
    pub fn new(d: &Dump, ids: &'a BTreeMap<&'static str, i64>, min: i64) -> G<'a> {
        let by: BTreeSet<i64> = ids.values().cloned().collect();
        G { ids, facts: d.facts.keys().filter(|f| by.contains(&f.1)).cloned().collect(), ents: entities(d, min), anyattr: FRACTIONAL.with(|f| f.get()) }
    }
    fn evar(&self, r: &mut Rng) -> T { T::Var(format!("?e{}", r.below(3))) }
    fn vvar(&self, r: &mut Rng, ty: &str) -> T {
        match ty { "ref" => self.evar(r), _ => T::Var(format!("?{}{}", ty, r.below(2))) }
    }
    fn konst(&self, r: &mut Rng, a: &'static str) -> T {
        let c: Vec<&Fact> = self.facts.iter().filter(|f| f.1 == self.ids[a]).collect();
        let v = if !c.is_empty() && r.chance(3, 4) { r.pick(&c).2.clone() } else { gen_value(r, attr_def(a).ty, &self.ents) };
        T::C(v)
    }
    pub fn pat(&self, r: &mut Rng) -> Cl {
        let e = if r.chance(1, 14) && !self.ents.is_empty() { T::C(V::Ref(*r.pick(&self.ents))) } else if r.chance(1, 25) { T::Any } else { self.evar(r) };
        let tx = if r.chance(1, 10) { T::Var("?tx".into()) } else { T::Any };
        if self.anyattr && r.chance(1, 9) {
            // unknown attribute: the value may have any type
            let a = if r.chance(1, 2) { T::Var("?a0".into()) } else { T::Any };
            // the value variable is used nowhere else (see the known finding any-join)
            let v = match r.below(4) { 0 => T::Any, 1 => T::C(V::Str(format!("s{}", r.range(0, 4)))), _ => T::Var(format!("?any{}", r.next() % 100000)) };
            return Cl::Pat(e, a, v, tx);
        }
        let present: Vec<&'static str> = QA.iter().cloned().filter(|a| self.facts.iter().any(|f| f.1 == self.ids[a])).collect();
        let a = if present.is_empty() || r.chance(1, 8) { *r.pick(QA) } else { *r.pick(&present) };
        let at = if r.chance(1, 10) { T::C(V::Ref(self.ids[a])) } else { T::Ident(a.to_string(), self.ids[a]) };
        let v = match r.below(10) { 0 | 1 => self.konst(r, a), 2 => T::Any, 3 => T::Var(format!("?kan{}", r.below(2))), _ => self.vvar(r, attr_def(a).ty) };
        Cl::Pat(e, at, v, tx)
    }
    fn cmp(&self, r: &mut Rng, bound: &BTreeSet<String>) -> Option<Cl> {
        let b: Vec<&String> = bound.iter().filter(|v| v.starts_with("?long") || v.starts_with("?double") || v.starts_with("?instant") || v.starts_with("?e") || v.starts_with("?tx")).collect();
        if b.is_empty() { return None; }
        let v = (*r.pick(&b)).clone();
        if v.starts_with("?tx") { let facts_tx = V::Ref(0x10000000 + r.range(0, 6)); return Some(Cl::Cmp(if r.chance(1, 2) { "tx-after" } else { "tx-before" }, T::Var(v), T::C(facts_tx))); }
        if v.starts_with("?e") {
            let o: Vec<&String> = b.iter().cloned().filter(|x| x.starts_with("?e") && **x != v).collect();
            if o.is_empty() { return None; }
            return Some(Cl::Cmp(if r.chance(1, 2) { "differ" } else { "unpermute" }, T::Var(v), T::Var((*r.pick(&o)).clone())));
        }
        let op = *r.pick(&["<", "<=", ">", ">=", "!="]);
        let ty = if v.starts_with("?long") { "long" } else if v.starts_with("?double") { "double" } else { "instant" };
        let o: Vec<&String> = b.iter().cloned().filter(|x| x.starts_with(&format!("?{}", ty)) && **x != v).collect();
        let c = if !o.is_empty() && r.chance(1, 2) { T::Var((*r.pick(&o)).clone()) } else { T::C(match ty { "long" => V::Long(r.range(-1, 4)), "double" => V::dbl(r.range(-1, 4) as f64 / 2.0), _ => V::Inst(1_600_000_000_000_000 + r.range(0, 4) * 1_000_001) }) };
        Some(if r.chance(1, 4) { Cl::Cmp(op, c, T::Var(v)) } else { Cl::Cmp(op, T::Var(v), c) })
    }
    pub fn clauses(&self, r: &mut Rng) -> Vec<Cl> {
        let alone = r.chance(1, 14);
        let mut cls: Vec<Cl> = if alone { let t = *r.pick(&["long", "string"]); vec![Cl::Ground(format!("?{}0", t), vec![gen_value(r, t, &self.ents)])] } else { vec![self.pat(r)] };
        for _ in 0..if alone { r.below(2) } else { r.below(4) } { cls.push(self.pat(r)); }
        let mut bound = BTreeSet::new();
        for c in &cls { vars_of(c, &mut bound); }
        let bv: Vec<String> = bound.iter().cloned().collect();
        if r.chance(1, 4) && !bv.is_empty() {
            // or: the branches constrain the same variables
            let e = self.evar(r);
            let k = 2 + r.below(2);
            let join = r.chance(1, 2);
            let mut brs: Vec<Vec<Cl>> = vec![];
            let same = r.chance(1, 3);
            let ty = ["long", "string", "keyword", "ref", "double", "instant"][r.below(6)];
            let mut share: BTreeSet<String> = BTreeSet::new();
            for i in 0..k {
                let cands: Vec<&'static str> = QA.iter().cloned().filter(|a| attr_def(a).ty == ty).collect();
                let a = *r.pick(&cands);
                let v = if same || join && r.chance(1, 2) { if ty == "ref" { T::Var("?e2".into()) } else { T::Var(format!("?{}0", ty)) } } else { self.konst(r, a) };
                let mut br = vec![Cl::Pat(e.clone(), T::Ident(a.to_string(), self.ids[a]), v, T::Any)];
                if join && r.chance(1, 3) { let p = self.pat(r); if let Cl::Pat(_, a, v, _) = p { br.push(Cl::Pat(e.clone(), a, if let T::Var(_) = v { T::Var(format!("?loc{}", i)) } else { v }, T::Any)); } }
                if let T::Var(n) = &e { share.insert(n.clone()); }
                brs.push(br);
            }
            cls.push(Cl::Or(if join { Some(share.into_iter().collect()) } else { None }, brs));
            bound = BTreeSet::new();
            for c in &cls { vars_of(c, &mut bound); }
        }
        if r.chance(1, 6) {
            let ty = *r.pick(&["long", "string", "keyword", "double", "boolean", "instant"]);
            let v = if ty == "long" || ty == "keyword" || r.chance(3, 4) { format!("?{}{}", ty, r.below(2)) } else { "?kan0".to_string() };
            let n = if HOSTILE.with(|f| f.get()) && r.chance(1, 3) { 9 + r.below(6) } else { 1 + r.below(3) };
            let vs: BTreeSet<V> = (0..n).map(|_| gen_value(r, ty, &self.ents)).collect();
            cls.push(Cl::Ground(v.clone(), vs.into_iter().collect()));
            bound.insert(v);
        }
        if r.chance(1, 3) { if let Some(c) = self.cmp(r, &bound) { cls.push(c); } }
        if r.chance(1, 4) {
            // not: shares at least one variable with the outside
            let b: Vec<String> = bound.iter().cloned().filter(|v| v.starts_with("?e")).collect();
            if !b.is_empty() {
                let e = T::Var(r.pick(&b).clone());
                let p = self.pat(r);
                if let Cl::Pat(_, a, v, _) = p {
                    let v2 = match &v { T::Var(n) if !bound.contains(n) => if r.chance(9, 10) { T::Any } else { v.clone() }, _ => v.clone() };
                    let mut inner = vec![Cl::Pat(e.clone(), a, v2, T::Any)];
                    if r.chance(1, 4) { if let Cl::Pat(_, a, v, _) = self.pat(r) { let v = match &v { T::Var(n) if !bound.contains(n) && r.chance(3, 4) => T::Any, _ => v }; inner.push(Cl::Pat(e.clone(), a, v, T::Any)); } }
                    let j = if r.chance(1, 2) { if let T::Var(n) = &e { Some(vec![n.clone()]) } else { None } } else { None };
                    cls.push(Cl::Not(j, inner));
                }
            }
        }
        if r.chance(1, 8) {
            let anys: Vec<String> = bound.iter().cloned().filter(|v| v.starts_with("?any") || v.starts_with("?kan")).collect();
            if !anys.is_empty() { cls.push(Cl::Type(*r.pick(&["long", "string", "ref", "keyword", "double", "boolean", "instant"]), r.pick(&anys).clone())); }
        }
        cls
    }
}
/// A clause's local variables inside not/or-join must not leak: names bound only there.
pub fn top_vars(cls: &[Cl]) -> Vec<String> {
    let mut s = BTreeSet::new();
    for c in cls { match c { Cl::Not(..) => {} Cl::Cmp(..) | Cl::Type(..) => {} c => vars_of(c, &mut s) } }
    s.into_iter().collect()
}
thread_local! { pub static RENAME: std::cell::RefCell<Option<BTreeMap<String, String>>> = std::cell::RefCell::new(None); }
/// The name the query really uses for a variable (C16 renames them).
pub fn renamed(v: &str) -> String { RENAME.with(|m| match &*m.borrow() { Some(m) => m.get(v).cloned().unwrap_or_else(|| v.to_string()), None => v.to_string() }) }
fn rename(q: String) -> String {
    if RENAME.with(|m| m.borrow().is_none()) { return q; }
    let (mut out, mut it, mut quoted) = (String::new(), q.chars().peekable(), false);
    let mut before = ' ';
    while let Some(c) = it.next() {
        if quoted { out.push(c); if c == '\\' { out.push(it.next().unwrap()); } else if c == '"' { quoted = false; } before = c; continue; }
        if c == '"' { quoted = true; }
        if c == '?' && " [(".contains(before) {
            let mut n = String::from("?");
            while let Some(d) = it.peek() { if d.is_ascii_alphanumeric() || *d == '_' { n.push(*d); it.next(); } else { break; } }
            out.push_str(&renamed(&n));
        } else { out.push(c); }
        before = c;
    }
    out
}
pub fn text(find: &str, ins: &[String], cls: &[Cl], tail: &str) -> String {
    rename(text0(find, ins, cls, tail))
}
fn text0(find: &str, ins: &[String], cls: &[Cl], tail: &str) -> String {
    format!("[:find {}{} :where {}{}]", find, if ins.is_empty() { String::new() } else { format!(" :in {}", ins.join(" ")) }, cls.iter().map(cl_edn).collect::<Vec<_>>().join(" "), tail)
}
pub fn inputs(b: &B) -> QueryInputs {
    QueryInputs::with_value_sequence(b.iter().map(|(k, v)| (Variable::from_valid_name(&renamed(k)), to_tv(v))).collect())
}
pub fn project(bs: &[B], vars: &[String]) -> BTreeSet<Row> {
    bs.iter().map(|b| vars.iter().map(|v| b[v].clone()).collect()).collect()
}
pub fn run(s: &S, q: &str, ins: &B) -> Result<QueryOutput, String> {
    s.conn.q_once(&s.sql, q, inputs(ins)).map_err(|e| e.to_string())
}
/// Did SQLite refuse the SQL?
pub fn sql_error(e: &str) -> bool { ["bad SQL", "no such", "syntax", "ambiguous", "unrecognized", "near \"", "too many", "misuse", "incomplete input"].iter().any(|w| e.contains(w)) }
pub fn run_uncached(s: &S, q: &str, ins: &B) -> Result<QueryOutput, String> {
    s.conn.q_uncached(&s.sql, q, inputs(ins)).map_err(|e| e.to_string())
}

/// C14: the rows of a relation query are exactly the satisfying bindings.
pub fn c14_query(r: &mut Rng, info: &mut Info) -> Case {
    fractional(r.chance(1, 2));
    let (s, ids, min) = populated(r);
    let d = s.dump();
    let db = Db::of(&d);
    let g = G::new(&d, &ids, min);
    for _ in 0..12 {
        let mut cls = g.clauses(r);
        let vars = top_vars(&cls);
        if vars.is_empty() { continue; }
        let mut find: Vec<String> = vars.clone();
        r.shuffle(&mut find);
        find.truncate(1 + r.below(3));
        // some variables become inputs
        let mut ins = B::new();
        let n_in = match r.below(8) { 0 | 1 => 1, 2 => 2, 3 if r.chance(1, 3) => 3, _ => 0 };
        for _ in 0..n_in {
            let v = r.pick(&vars).clone();
            if !v.starts_with("?any") && !v.starts_with("?kan") {
                let x = match &v { v if v.starts_with("?e") || v.starts_with("?a0") || v.starts_with("?tx") => { if v == "?a0" { V::Ref(*r.pick(&ids.values().cloned().collect::<Vec<_>>())) } else if v == "?tx" { V::Ref(0x10000000 + r.range(0, 5)) } else if g.ents.is_empty() { V::Ref(1) } else { V::Ref(*r.pick(&g.ents)) } }
                    v => { let ty = v[1..].trim_end_matches(|c: char| c.is_ascii_digit()); if ["long", "double", "string", "keyword", "instant", "uuid", "boolean"].contains(&ty) { gen_value(r, ty, &g.ents) } else { continue } } };
                ins.insert(v, x);
            }
        }
        r.shuffle(&mut cls);
        // Mentat refuses a predicate, or a not, that comes before the clauses binding its variables
        if r.chance(7, 8) { cls.sort_by_key(|c| rank(c) >= 3); }
        let q = text(&find.join(" "), &ins.keys().cloned().collect::<Vec<_>>(), &cls, "");
        let want = match eval(&db, &cls, vec![ins.clone()]) { Some(w) => w, None => { info.count("too large"); continue } };
        let want = project(&want, &find);
        match run(&s, &q, &ins) {
            Err(e) => { if sql_error(&e) { return Err(format!("{} with {:?}: {}", q, ins, e)); } info.count("refused"); if std::env::var("SHOWREF").is_ok() { info.note(format!("REF {} {}", q, e)); } continue }
            Ok(o) => {
                info.count("compared");
                if !want.is_empty() { info.count("compared non-empty"); info.nontrivial = true; info.feed(&q); if info.sample.is_empty() { info.sample = format!("{} with {:?}: {} rows", q, ins, want.len()); } }
                let got = rows(&o);
                let gs: BTreeSet<Row> = got.iter().cloned().collect();
                if gs != want {
                    info.note(format!("{} with {:?}", q, ins));
                    for f in &d.facts { if f.0.1 >= 65536 { info.note(format!("  {:?}", f)); } }
                    return Err(format!("{} with {:?}: missing {:?}, unexpected {:?}", q, ins, want.difference(&gs).take(5).collect::<Vec<_>>(), gs.difference(&want).take(5).collect::<Vec<_>>()));
                }
                // see the known finding type-duplicates
                if got.len() != gs.len() && !cls.iter().any(|c| if let Cl::Type(..) = c { true } else { false }) {
                    let mut seen = BTreeSet::new();
                    let dup: Vec<&Row> = got.iter().filter(|x| !seen.insert((*x).clone())).take(4).collect();
                    return Err(format!("{}: duplicate rows {:?}", q, dup));
                }
            }
        }
    }
    Ok(())
}
