//! A store under test, and independent readers of its raw tables.
use mentat::conn::Conn;
use rusqlite::types::Value as SV;
use std::collections::{BTreeMap, BTreeSet};

/// A stored value, decoded independently of the code under test.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V { Ref(i64), Bool(bool), Inst(i64), Long(i64), Dbl(u64), Str(String), Uuid(Vec<u8>), Kw(String), Bad(i64, String) }
impl V {
    pub fn dbl(f: f64) -> V { V::Dbl((if f == 0.0 { 0.0 } else { f }).to_bits()) }
    pub fn ty(&self) -> &'static str {
        match self { V::Ref(_) => "ref", V::Bool(_) => "boolean", V::Inst(_) => "instant", V::Long(_) => "long", V::Dbl(_) => "double", V::Str(_) => "string", V::Uuid(_) => "uuid", V::Kw(_) => "keyword", V::Bad(..) => "bad" }
    }
}
pub fn decode(tag: i64, v: SV) -> V {
    match (tag, v) {
        (0, SV::Integer(i)) => V::Ref(i),
        (1, SV::Integer(i)) if i == 0 || i == 1 => V::Bool(i != 0),
        (4, SV::Integer(i)) => V::Inst(i),
        (5, SV::Integer(i)) => V::Long(i),
        (5, SV::Real(f)) => V::dbl(f),
        (10, SV::Text(s)) => V::Str(s),
        (11, SV::Blob(b)) => V::Uuid(b),
        (13, SV::Text(s)) => V::Kw(s),
        (t, v) => V::Bad(t, format!("{:?}", v)),
    }
}
pub type Fact = (i64, i64, V);

pub struct S { pub sql: rusqlite::Connection, pub conn: Conn, pub path: Option<String> }

impl S {
    pub fn mem() -> S {
        let mut sql = mentat::new_connection("").expect("open");
        let conn = Conn::connect(&mut sql).expect("connect");
        S { sql, conn, path: None }
    }
    pub fn file(path: &str) -> S {
        let mut sql = mentat::new_connection(path).expect("open");
        let conn = Conn::connect(&mut sql).expect("connect");
        S { sql, conn, path: Some(path.to_string()) }
    }
    pub fn t(&mut self, tx: &str) -> Result<mentat::TxReport, String> {
        self.conn.transact(&mut self.sql, tx).map_err(|e| format!("{}", e))
    }
    pub fn must(&mut self, tx: &str) -> mentat::TxReport {
        match self.t(tx) { Ok(r) => r, Err(e) => panic!("setup transaction failed: {} in {}", e, tx) }
    }
    pub fn dump(&self) -> Dump { dump(&self.sql) }
    /// Sometimes allow so few bound variables per statement that small transactions take several
    /// statements, as large ones do.
    pub fn limit(&mut self, r: &mut crate::util::Rng) {
        if r.chance(1, 3) { self.sql.set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, 12 + r.below(25) as i32); }
    }
}

/// Everything in the raw tables.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dump {
    /// fact -> tx
    pub facts: BTreeMap<Fact, i64>,
    pub flags: BTreeMap<Fact, (bool, bool, bool, bool)>,
    pub dup_facts: usize,
    /// (tx, timeline) -> set of (e, a, v, added); multiset violations counted
    pub log: BTreeMap<(i64, i64), BTreeSet<(i64, i64, V, bool)>>,
    pub dup_log: usize,
    pub idents: BTreeSet<Fact>,
    pub schema: BTreeSet<Fact>,
    pub parts: Vec<(String, i64, i64, bool)>,
}
pub fn dump(sql: &rusqlite::Connection) -> Dump {
    let mut d = Dump { facts: BTreeMap::new(), flags: BTreeMap::new(), dup_facts: 0, log: BTreeMap::new(), dup_log: 0, idents: BTreeSet::new(), schema: BTreeSet::new(), parts: vec![] };
    let mut fts_attrs = BTreeSet::new();
    let mut fts: BTreeMap<i64, String> = BTreeMap::new();
    {
        let mut st = sql.prepare("SELECT rowid, text FROM fulltext_values").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() { fts.insert(r.get(0).unwrap(), r.get(1).unwrap()); }
    }
    {
        let mut st = sql.prepare("SELECT e, a, v, value_type_tag, tx, index_avet, index_vaet, index_fulltext, unique_value FROM datoms").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let (e, a): (i64, i64) = (r.get(0).unwrap(), r.get(1).unwrap());
            let sv: SV = r.get(2).unwrap();
            let tag: i64 = r.get(3).unwrap();
            let f: (i64, i64, i64, i64) = (r.get(5).unwrap(), r.get(6).unwrap(), r.get(7).unwrap(), r.get(8).unwrap());
            let v = if f.2 != 0 {
                fts_attrs.insert(a);
                match (&sv, tag) { (SV::Integer(i), 10) => fts.get(i).map(|s| V::Str(s.clone())).unwrap_or(V::Bad(tag, "dangling fts row".into())), _ => V::Bad(tag, format!("fts {:?}", sv)) }
            } else { decode(tag, sv) };
            let k = (e, a, v);
            if d.facts.insert(k.clone(), r.get(4).unwrap()).is_some() { d.dup_facts += 1; }
            d.flags.insert(k, (f.0 != 0, f.1 != 0, f.2 != 0, f.3 != 0));
        }
    }
    {
        // attributes that are full-text by their schema facts
        let mut st = sql.prepare("SELECT DISTINCT e FROM timelined_transactions WHERE a = 12 AND v = 1").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() { fts_attrs.insert(r.get(0).unwrap()); }
    }
    {
        let mut st = sql.prepare("SELECT e, a, v, value_type_tag, tx, added, timeline FROM timelined_transactions").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let (e, a): (i64, i64) = (r.get(0).unwrap(), r.get(1).unwrap());
            let sv: SV = r.get(2).unwrap();
            let tag: i64 = r.get(3).unwrap();
            let added: i64 = r.get(5).unwrap();
            let v = if fts_attrs.contains(&a) && tag == 10 {
                match &sv { SV::Integer(i) => fts.get(i).map(|s| V::Str(s.clone())).unwrap_or(V::Bad(tag, "dangling fts row".into())), _ => decode(tag, sv.clone()) }
            } else { decode(tag, sv) };
            if !d.log.entry((r.get(4).unwrap(), r.get(6).unwrap())).or_insert_with(BTreeSet::new).insert((e, a, v, added != 0)) { d.dup_log += 1; }
        }
    }
    for (t, out) in vec![("idents", &mut d.idents), ("schema", &mut d.schema)] {
        let mut st = sql.prepare(&format!("SELECT e, a, v, value_type_tag FROM {}", t)).unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() { out.insert((r.get(0).unwrap(), r.get(1).unwrap(), decode(r.get(3).unwrap(), r.get(2).unwrap()))); }
    }
    {
        let mut st = sql.prepare("SELECT part, start, end, allow_excision FROM known_parts ORDER BY part").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() { d.parts.push((r.get(0).unwrap(), r.get(1).unwrap(), r.get(2).unwrap(), r.get(3).unwrap())); }
    }
    d
}
impl Dump {
    pub fn set(&self) -> BTreeSet<Fact> { self.facts.keys().cloned().collect() }
    pub fn ident(&self, k: &str) -> Option<i64> {
        self.facts.keys().find(|(_, a, v)| *a == 1 && *v == V::Kw(k.to_string())).map(|f| f.0)
    }
    /// The attributes the current facts describe: the meaning of "schema" used by the specifications.
    pub fn attrs(&self) -> BTreeMap<i64, Attr> {
        let mut m: BTreeMap<i64, Attr> = BTreeMap::new();
        for (e, a, v) in self.facts.keys() { if *a == 7 { if let V::Ref(t) = v { m.insert(*e, Attr { vt: *t, many: false, unique: 0, index: false, fulltext: false, component: false, no_history: false }); } } }
        for (e, a, v) in self.facts.keys() {
            if let Some(x) = m.get_mut(e) {
                match (a, v) {
                    (8, V::Ref(34)) => x.many = true,
                    (9, V::Ref(35)) => x.unique = 1,
                    (9, V::Ref(36)) => x.unique = 2,
                    (11, V::Bool(b)) => x.index = *b,
                    (12, V::Bool(b)) => x.fulltext = *b,
                    (10, V::Bool(b)) => x.component = *b,
                    (13, V::Bool(b)) => x.no_history = *b,
                    _ => {}
                }
            }
        }
        m
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Attr { pub vt: i64, pub many: bool, pub unique: u8, pub index: bool, pub fulltext: bool, pub component: bool, pub no_history: bool }
pub fn vt_name(vt: i64) -> &'static str {
    match vt { 23 => "ref", 24 => "keyword", 25 => "long", 26 => "double", 27 => "string", 28 => "uuid", 30 => "boolean", 31 => "instant", _ => "?" }
}
