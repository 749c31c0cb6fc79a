//! C19 (printing and parsing agree, parsing never panics) and C20 (names and orders).
use crate::util::*;
use chrono::{DateTime, TimeZone, Timelike, Utc};
use edn::types::{SpannedValue, Value, ValueAndSpan};
use edn::{parse, Keyword, NamespacedSymbol, PlainSymbol};
use num::bigint::BigInt;
use ordered_float::OrderedFloat;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, LinkedList};
use std::hash::{Hash, Hasher};
use std::panic;

const INIT: &str = "abcxyzABZ*!_?$%&=<>";
const SUBS: &str = "abcxyzABZ*!_?$%&=<>-+0123456789";
fn one(r: &mut Rng, s: &str) -> char { let v: Vec<char> = s.chars().collect(); *r.pick(&v) }
fn ident(r: &mut Rng, digits: bool) -> String {
    let mut s = String::new();
    if r.chance(1, 12) { return r.pick(&["nil", "true", "false", "nilly", "true-ish", "falsey", "N", "e1", "_", "__", "_x", "x_", "a", "A", "find", "where", "inst", "uuid", "f", "NaN", "Infinity", "r", "x0", "nil_"]).to_string(); }
    s.push(if digits && r.chance(1, 8) { one(r, "0123456789") } else { one(r, INIT) });
    for _ in 0..r.below(4) { s.push(one(r, SUBS)); }
    s
}
fn namespace(r: &mut Rng, digits: bool) -> String {
    let mut s = ident(r, digits);
    for _ in 0..(if r.chance(1, 3) { r.below(3) } else { 0 }) { s.push('.'); for _ in 0..1 + r.below(2) { s.push(one(r, SUBS)); } }
    s
}
pub fn keyword(r: &mut Rng) -> Keyword {
    let n = ident(r, true);
    if r.chance(1, 2) { let ns = namespace(r, true); Keyword::namespaced(&ns, &n) } else { Keyword::plain(n) }
}
fn symbol(r: &mut Rng) -> Value {
    if r.chance(1, 2) {
        let n = if r.chance(1, 15) { r.pick(&["...", "."]).to_string() } else { ident(r, true) };
        let ns = namespace(r, false);
        Value::NamespacedSymbol(NamespacedSymbol::namespaced(&ns, &n))
    } else {
        if r.chance(1, 15) { return Value::PlainSymbol(PlainSymbol::plain(*r.pick(&["...", "."]))); }
        let n = loop { let n = ident(r, false); if n != "nil" && n != "true" && n != "false" { break n; } };
        Value::PlainSymbol(PlainSymbol::plain(n))
    }
}
fn float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e300, 1e16, 1e15, 1e-7, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0]),
        1 => r.range(-100, 100) as f64 / 8.0,
        2 => r.next() as i64 as f64,
        3 => r.range(-20, 20) as f64,
        _ => f64::from_bits(r.next()),
    }
}
/// Years 0 to 9999: what RFC 3339 can write.
fn instant(r: &mut Rng) -> DateTime<Utc> {
    let s = match r.below(3) { 0 => *r.pick(&[0, -1, 1, -62_135_596_800, 253_402_300_799, 951_868_799, -62_167_219_200]), 1 => r.range(-1000, 1000), _ => r.range(-62_167_219_200, 253_402_300_799) };
    let n = match r.below(4) { 0 => 0, 1 => 1000 * r.range(0, 999_999), 2 => 1_000_000 * r.range(0, 999), _ => r.range(0, 999_999_999) };
    Utc.timestamp(s, n as u32)
}
fn text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["", "\"", "\\", "\\\"", "\\\\", "\"\"", "a\"b", "\n", "\t\r\n", "\u{0}", ";", "#", "\u{1F600}", "e\u{301}", "\\n", " x ", "nil", ":a", "\u{2028}", "\u{feff}"]).to_string(),
        1 => (0..r.below(12)).map(|_| char::from_u32(loop { let c = (r.next() as u32) >> r.below(30); if char::from_u32(c).is_some() { break c; } }).unwrap()).collect(),
        2 => (0..r.below(8)).map(|_| one(r, "\\\"a n;,'\n")).collect(),
        _ => format!("s{}", r.range(0, 3)),
    }
}
pub fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 11 } else { 15 }) {
        0 => Value::Nil,
        1 => Value::Boolean(r.chance(1, 2)),
        2 => Value::Integer(match r.below(3) { 0 => *r.pick(&[i64::MAX, i64::MIN, 0, -1, 1, 10, 8]), 1 => r.range(-3, 3), _ => (r.next() as i64) >> r.below(63) }),
        3 => Value::Instant(instant(r)),
        4 => Value::BigInteger(BigInt::from(r.next() as i64) * BigInt::from(if r.chance(1, 2) { 1 } else { r.next() as i64 })),
        5 | 6 => Value::Float(OrderedFloat(float(r))),
        7 => Value::Text(text(r)),
        8 => Value::Uuid({ let mut b = [0u8; 16]; for x in b.iter_mut() { *x = if r.chance(1, 4) { 0 } else { r.next() as u8 }; } uuid::Uuid::from_bytes(b) }),
        9 => symbol(r),
        10 => Value::Keyword(keyword(r)),
        11 => Value::Vector((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        12 => Value::List((0..r.below(4)).map(|_| value(r, depth - 1)).collect::<LinkedList<_>>()),
        13 => Value::Set((0..r.below(4)).map(|_| value(r, depth - 1)).collect::<BTreeSet<_>>()),
        _ => Value::Map((0..r.below(4)).map(|_| (value(r, depth - 1), value(r, depth - 1))).collect::<BTreeMap<_, _>>()),
    }
}
fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Vector(x) => x.iter().map(nodes).sum(),
        Value::List(x) => x.iter().map(nodes).sum(),
        Value::Set(x) => x.iter().map(nodes).sum(),
        Value::Map(x) => x.iter().map(|(a, b)| nodes(a) + nodes(b)).sum::<usize>(),
        _ => 0,
    }
}

/// Exact sameness, also of the bits of floats (0.0 and -0.0 compare equal).
fn same(a: &Value, b: &Value) -> bool { a == b }

pub fn c19_roundtrip(r: &mut Rng, info: &mut Info) -> Case {
    let v = value(r, 3);
    let plain = v.to_string();
    info.note(format!("value {:?}", v));
    info.note(format!("printed {}", plain));
    info.feed(&plain);
    info.nontrivial = true;
    if nodes(&v) > 1 { info.count("collections"); }
    if info.sample.is_empty() { info.sample = plain.clone(); }
    match parse::value(&plain) {
        Ok(p) => { let w: Value = p.clone().into(); chk!(same(&v, &w), "printed {:?}, parsed back as {:?}, was {:?}", plain, w, v);
            // spanned values print the same
            chk!(p.to_string() == plain || has_set(&v), "a parsed value prints as {:?}, not as {:?}", p.to_string(), plain); }
        Err(e) => return Err(format!("printed {:?}, which does not parse: {:?}", plain, e)),
    }
    let width = *r.pick(&[1, 5, 20, 40, 80, 120]);
    let pretty = match v.to_pretty(width) { Ok(p) => p, Err(e) => return Err(format!("does not pretty-print: {:?}", e)) };
    match parse::value(&pretty) {
        Ok(p) => { let w: Value = p.into(); chk!(same(&v, &w), "pretty-printed {:?} (width {}), parsed back as {:?}, was {:?}", pretty, width, w, v); }
        Err(e) => return Err(format!("pretty-printed {:?}, which does not parse: {:?}", pretty, e)),
    }
    // Whitespace, commas and comments mean nothing.
    let spaced = space(r, &v);
    match parse::value(&spaced) {
        Ok(p) => { let w: Value = p.into(); chk!(same(&v, &w), "{:?} parsed as {:?}, was {:?}", spaced, w, v); }
        Err(e) => return Err(format!("{:?} does not parse: {:?}", spaced, e)),
    }
    // A value with spans, without them, is the value again.
    let ws = v.clone().with_spans();
    chk!(ws.clone().without_spans() == v, "with_spans then without_spans is another value: {:?}", v);
    Ok(())
}
fn has_set(v: &Value) -> bool { match v { Value::Set(_) | Value::Map(_) => true, Value::Vector(x) => x.iter().any(has_set), Value::List(x) => x.iter().any(has_set), _ => false } }
fn gap(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(2) { s += *r.pick(&[" ", ",", "\n", "\t", "\r\n", " ; x ) ] } \" \n", ";\r", ";;\n", " , "]); }
    s
}
fn space(r: &mut Rng, v: &Value) -> String {
    let seq = |r: &mut Rng, o: &str, xs: Vec<&Value>, c: &str| { let mut s = o.to_string(); for x in xs { s += &space(r, x); } s + &gap(r) + c };
    let g = gap(r);
    let b = match v {
        Value::Vector(x) => seq(r, "[", x.iter().collect(), "]"),
        Value::List(x) => seq(r, "(", x.iter().collect(), ")"),
        Value::Set(x) => seq(r, "#{", x.iter().collect(), "}"),
        Value::Map(x) => seq(r, "{", x.iter().flat_map(|(a, b)| vec![a, b]).collect(), "}"),
        a => a.to_string(),
    };
    g + &b + &gap(r)
}

/// Numbers in every notation: the number they say, or an error.
pub fn c19_numbers(r: &mut Rng, info: &mut Info) -> Case {
    info.nontrivial = true;
    let digits = |r: &mut Rng, n: usize, set: &str| -> String { (0..n).map(|_| one(r, set)).collect() };
    let wrap = r.below(3);
    let show = |t: &str| match wrap { 0 => t.to_string(), 1 => format!("[{}]", t), _ => format!("{{:a {}}}", t) };
    let unwrap = |v: ValueAndSpan| -> Option<Value> {
        let v: Value = v.into();
        match (wrap, v) { (0, v) => Some(v), (1, Value::Vector(x)) => if x.len() == 1 { Some(x[0].clone()) } else { None }, (2, Value::Map(m)) => m.values().next().cloned(), _ => None }
    };
    let (t, want): (String, Option<Value>) = match r.below(8) {
        0 | 1 => {
            let edge = r.chance(1, 2);
            let n = 1 + r.below(22);
            let body = if edge { (BigInt::from(*r.pick(&[i64::MAX, i64::MIN])) + BigInt::from(r.range(-3, 3))).to_string() } else { let d = digits(r, n, "0123456789"); let d = d.trim_start_matches('0').to_string(); format!("{}{}", r.pick(&["", "-", "+"]), if d.is_empty() { "0".to_string() } else { d }) };
            let want = body.parse::<i64>().ok().map(Value::Integer);
            (body, want)
        }
        2 => { let n = 1 + r.below(19); let d = digits(r, n, "0123456789abcdefABCDEF"); let w = i64::from_str_radix(&d, 16).ok().map(Value::Integer); (format!("0x{}", d), w) }
        3 => { let n = 1 + r.below(24); let d = digits(r, n, "01234567"); let w = i64::from_str_radix(&d, 8).ok().map(Value::Integer); (format!("0{}", d), w) }
        4 => {
            let b = 2 + r.below(35);
            let n = 1 + r.below(14);
            let d = if r.chance(1, 2) { digits(r, n, "0123456789abcdefghijklmnopqrstuvwxyzABCXYZ") } else { (0..n).map(|_| std::char::from_digit(r.below(b) as u32, b as u32).unwrap()).collect() };
            let w = i64::from_str_radix(&d, b as u32).ok().map(Value::Integer);
            (format!("{}r{}", b, d), w)
        }
        5 => {
            let (a, b, e) = (1 + r.below(4), 1 + r.below(4), r.below(5));
            let (a, b, e) = (digits(r, a, "0123456789"), digits(r, b, "0123456789"), if e == 0 { "".into() } else { format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r, if e > 3 { 3 } else { 1 }, "0123456789")) });
            let a = if a.len() > 1 { let t = a.trim_start_matches('0'); if t.is_empty() { "0".to_string() } else { t.to_string() } } else { a };
            let frac = if e.is_empty() || r.chance(1, 2) { format!(".{}", b) } else { "".into() };
            let t = format!("{}{}{}{}", r.pick(&["", "-", "+"]), a, frac, e);
            let w = t.parse::<f64>().ok().filter(|f| f.is_finite()).map(|f| Value::Float(OrderedFloat(f)));
            (t, w)
        }
        6 => {
            let n = 1 + r.below(21);
            let d = digits(r, n, "0123456789");
            let (tag, per) = if r.chance(1, 2) { ("#instmicros", 1_000_000i64) } else { ("#instmillis", 1000) };
            let w = d.parse::<i64>().ok().and_then(|u| Utc.timestamp_opt(u / per, ((u % per) * (1_000_000_000 / per)) as u32).single()).map(Value::Instant);
            (format!("{} {}", tag, d), w)
        }
        _ => { let n = 1 + r.below(30); let d = digits(r, n, "0123456789"); let t = format!("{}{}N", r.pick(&["", "-", "+"]), d); let w = Some(Value::BigInteger(t[..t.len() - 1].parse::<BigInt>().unwrap())); (t, w) }
    };
    info.feed(&t);
    info.note(t.clone());
    if want.is_none() { info.count("out of range"); }
    let got = panic::catch_unwind(|| parse::value(&show(&t)));
    let got = match got { Err(_) => return Err(format!("parsing {:?} panics", show(&t))), Ok(g) => g };
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(w)) => Err(format!("{:?} is {:?} but does not parse: {:?}", show(&t), w, e)),
        (Ok(g), None) => Err(format!("{:?} says no value but parses as {:?}", show(&t), Value::from(g))),
        (Ok(g), Some(w)) => { let g = unwrap(g); chk!(g.as_ref() == Some(&w), "{:?} is {:?} but parses as {:?}", show(&t), w, g); Ok(()) }
    }
}

const TOKENS: &[&str] = &["[", "]", "(", ")", "{", "}", "#{", "\"", "\\", ";", "\n", " ", ",", ":", "/", ".", "...", "_", "*", "+", "-", "#f", "NaN", "+Infinity", "#inst", "#instmicros", "#instmillis", "#uuid",
    "\"2017-01-01T00:00:00Z\"", "\"2017-13-41T29:59:69.123456789123Z\"", "\"2020-02-30T10:00:00+29:59\"", "\"2016-12-31T23:59:60Z\"", "\"cf0c6f6e-2f1f-4d3d-9b1c-0123456789ab\"", "99999999999999999999999", "9223372036854775807", "-9223372036854775809", "0x", "0xff", "0xFFFFFFFFFFFFFFFFF", "017", "0777777777777777777777777777", "08", "2r", "2r12", "36rzzzzzzzzzzzzzzz", "1r0", "1.5", "1e5", "1e999", "-1.0E-400", "1.", ".5", "N", "12N",
    ":find", ":where", ":in", ":with", ":limit", ":order", ":as", "?x", "?y", "?", "$", "$src", "the", "pull", "count", "or", "or-join", "not", "not-join", "and", "type", "asc", "desc", "fulltext", "ground", "tx-ids", "tx-data", "<", "!=", ":db/add", ":db/retract", ":db/id", "lookup-ref", "transaction-tx", ":foo/bar", ":foo/_bar", ":foo/_", ":_", ":a/__", ":_/x", ":a.b.c/d", ":db.type/long", ":1/2", "true", "false", "nil", "nilly", "\"text\"", "\"a\\\"b\"", "é", "\u{1F600}", "\u{0}", "'"];
const DOCS: &[&str] = &[
    "[:find ?x ?y :in ?z :where [?x :foo/bar ?y] (or [?x _ 1] (and [?x :a/b] [?y :a/_c ?x])) (not-join [?x] [?x :p/q \"s\"]) [(< ?y 10)] [(type ?y :db.type/long)] [(ground [[1 2] [3 4]]) [[?z ?w]]] :order (desc ?x) ?y :limit 10]",
    "[:find (pull ?x [:foo/bar :as :b :foo/baz *]) . :where [?x :foo/bar _ ?tx]]", "[:find [?x ...] :with ?y :where [$ ?x :a/b #inst \"2017-01-01T00:00:00Z\"]]", "[:find (max ?x) (the ?y) (count ?z) :where [(fulltext $ :a/b \"x\") [[?x ?y _ ?s]]] [(tx-ids $ 0 10) [?z ...]]]",
    "[[:db/add \"t\" :foo/bar 1] [:db/retract 17 :foo/_bar (lookup-ref :a/b \"x\")] {:db/id \"u\" :foo/bar [1 2 {:foo/baz #uuid \"cf0c6f6e-2f1f-4d3d-9b1c-0123456789ab\"}] :a/_b 7} [:db/add (transaction-tx) :db/txInstant #instmicros 10]]",
    "{:a [1 2 #{3 :k/w sym n/s} (\"str\" 1.5 12N nil)] #f NaN #f -Infinity, \"k\" {true false}}",
];
fn soup(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        let mut t: Vec<char> = r.pick(DOCS).chars().collect();
        for _ in 0..1 + r.below(4) {
            if t.is_empty() { break; }
            let i = r.below(t.len());
            match r.below(5) {
                0 => { t.remove(i); }
                1 => { for c in r.pick(TOKENS).chars().rev().collect::<Vec<_>>() { t.insert(i, c); } }
                2 => { let j = i + 1 + r.below((t.len() - i).min(12)); let cut: Vec<char> = t.drain(i..j.min(t.len())).collect(); let k = r.below(t.len() + 1); for c in cut.into_iter().rev() { t.insert(k, c); } }
                3 => { t[i] = one(r, "0123456789[](){}\":_?/.#-eNrx"); }
                _ => { let j = (i + 1 + r.below(20)).min(t.len()); let dup: Vec<char> = t[i..j].to_vec(); for c in dup.into_iter().rev() { t.insert(j, c); } }
            }
        }
        t.into_iter().collect()
    } else {
        let mut s = String::new();
        if r.chance(1, 2) { s += *r.pick(&["[", "[:find ?x :where ", "[[:db/add ", "[{:db/id ", "(", "{"]); }
        for _ in 0..1 + r.below(12) { s += *r.pick(TOKENS); if r.chance(3, 4) { s.push(' '); } }
        if r.chance(1, 2) { s += *r.pick(&["]", "]]", "}]", ")", "}"]); }
        s
    }
}
/// Any text either parses or gives an error.
pub fn c19_anything(r: &mut Rng, info: &mut Info) -> Case {
    let s = soup(r);
    info.note(format!("{:?}", s));
    info.feed(&s);
    info.nontrivial = true;
    let v = panic::catch_unwind(|| parse::value(&s)).map_err(|_| format!("parsing {:?} as a value panics", s))?;
    let e = panic::catch_unwind(|| parse::entities(&s)).map_err(|_| format!("parsing {:?} as a transaction panics", s))?;
    let q = panic::catch_unwind(|| parse::parse_query(&s)).map_err(|_| format!("parsing {:?} as a query panics", s))?;
    if v.is_ok() { info.count("values"); }
    if e.is_ok() { info.count("transactions"); }
    if q.is_ok() { info.count("queries"); }
    if let Ok(v) = v {
        // what was parsed prints as something that parses the same (years beyond 9999 aside)
        let w: Value = v.into();
        if !late(&w) {
            let t = w.to_string();
            let b = parse::value(&t).map_err(|e| format!("{:?} parses as {:?}, printed {:?}, which does not parse: {:?}", s, w, t, e))?;
            chk!(Value::from(b.clone()) == w, "{:?} parses as {:?}, printed {:?}, which parses as {:?}", s, w, t, Value::from(b));
        }
    }
    // The span of a value is where its text is.
    if let Ok(v) = parse::value(&s) { spans(&s, &v)?; }
    Ok(())
}
fn late(v: &Value) -> bool {
    match v {
        Value::Instant(t) => t.timestamp() > 253_402_300_799 || t.nanosecond() >= 1_000_000_000,
        Value::Vector(x) => x.iter().any(late), Value::List(x) => x.iter().any(late), Value::Set(x) => x.iter().any(late),
        Value::Map(x) => x.iter().any(|(a, b)| late(a) || late(b)), _ => false,
    }
}
fn has_float(v: &Value) -> bool {
    match v { Value::Float(_) => true, Value::Vector(x) => x.iter().any(has_float), Value::List(x) => x.iter().any(has_float), Value::Set(x) => x.iter().any(has_float), Value::Map(x) => x.iter().any(|(a, b)| has_float(a) || has_float(b)), _ => false }
}
fn spans(s: &str, v: &ValueAndSpan) -> Case {
    // `4.` is read as the float 4.0 and a dot: by itself its text is an integer
    if let SpannedValue::Float(_) = v.inner { return Ok(()); }
    let (a, b) = (v.span.0 as usize, v.span.1 as usize);
    let sub = s.get(a..b).ok_or_else(|| format!("span {}..{} is no part of {:?}", a, b, s))?;
    let p = parse::value(sub).map_err(|e| format!("the span {:?} of a value in {:?} does not parse: {:?}", sub, s, e))?;
    chk!(has_float(&Value::from(v.clone())) || Value::from(p.clone()) == Value::from(v.clone()), "the span {:?} of a value in {:?} parses as {:?}", sub, s, Value::from(p));
    match &v.inner {
        SpannedValue::Vector(x) => for c in x { spans(s, c)?; },
        SpannedValue::List(x) => for c in x { spans(s, c)?; },
        SpannedValue::Map(x) => for (k, c) in x { spans(s, k)?; spans(s, c)?; },
        _ => (),
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn name(r: &mut Rng) -> (Option<String>, String) {
    let part = |r: &mut Rng| -> String {
        match r.below(3) { 0 => (0..1 + r.below(3)).map(|_| one(r, "abAB_/.:-")).collect(), 1 => r.pick(&["a", "b", "ab", "a/b", "_a", "_", "__", "_é", "é", "a.b", "\u{1F600}", "A", "\u{7f}", "!", "0"]).to_string(), _ => ident(r, true) }
    };
    let n = part(r);
    (if r.chance(2, 3) { Some(part(r)) } else { None }, n)
}
fn order(a: &(Option<String>, String), b: &(Option<String>, String)) -> Ordering {
    // no namespace first, then by namespace, then by name
    a.0.cmp(&b.0).then_with(|| a.1.cmp(&b.1))
}
pub fn c20_names(r: &mut Rng, info: &mut Info) -> Case {
    let x = name(r);
    let y = match r.below(5) { 0 => x.clone(), 1 => (x.0.clone(), name(r).1), 2 => (name(r).0, x.1.clone()), _ => name(r) };
    info.nontrivial = true;
    info.note(format!("{:?} {:?}", x, y));
    info.feed(&format!("{:?}{:?}", x, y));
    let kw = |n: &(Option<String>, String)| match &n.0 { Some(ns) => Keyword::namespaced(ns, &n.1), None => Keyword::plain(n.1.clone()) };
    let (k, l) = (kw(&x), kw(&y));
    for (n, k) in [(&x, &k), (&y, &l)].iter() {
        chk!(k.name() == n.1 && k.namespace() == n.0.as_ref().map(|s| s.as_str()), "the parts of {:?} are {:?} and {:?}", n, k.namespace(), k.name());
        chk!(k.components() == (n.0.as_ref().map(|s| s.as_str()).unwrap_or(""), n.1.as_str()), "the components of {:?} are {:?}", n, k.components());
        chk!(k.is_namespaced() == n.0.is_some(), "is_namespaced of {:?}", n);
        chk!(k.to_string() == match &n.0 { Some(s) => format!(":{}/{}", s, n.1), None => format!(":{}", n.1) }, "{:?} prints as {}", n, k);
        let back = n.1.starts_with('_') && n.1.chars().count() > 1;
        chk!(k.is_backward() == back && k.is_forward() == !back, "{} is backward: {}", k, k.is_backward());
        let rev = panic::catch_unwind(|| k.to_reversed()).map_err(|_| format!("reversing {} panics", k))?;
        let want = (n.0.clone(), if back { n.1[1..].to_string() } else { format!("_{}", n.1) });
        chk!(rev == kw(&want), "{} reversed is {}", k, rev);
        if !back { chk!(rev.is_backward() && rev.to_reversed() == **k, "{} reversed twice is {}", k, rev.to_reversed()); }
        chk!(k.unreversed() == if back { Some(kw(&want)) } else { None }, "{} unreversed is {:?}", k, k.unreversed());
        let j = serde_json::to_string(k).map_err(|e| e.to_string())?;
        let b: Keyword = serde_json::from_str(&j).map_err(|e| format!("{} does not deserialise: {}", j, e))?;
        chk!(b == **k, "{} serialised and back is {}", k, b);
    }
    chk!((k == l) == (x == y), "{:?} == {:?} is {}", x, y, k == l);
    chk!(k.cmp(&l) == order(&x, &y), "{:?} cmp {:?} is {:?}", x, y, k.cmp(&l));
    chk!(k.partial_cmp(&l) == Some(order(&x, &y)), "{:?} partial_cmp {:?} is {:?}", x, y, k.partial_cmp(&l));
    chk!((k < l) == (order(&x, &y) == Ordering::Less) && (k >= l) == (order(&x, &y) != Ordering::Less), "{:?} < {:?}", x, y);
    if k == l { chk!(hash(&k) == hash(&l), "equal keywords hash differently: {}", k); }
    if let (Some(a), Some(b)) = (&x.0, &y.0) {
        let (s, t) = (NamespacedSymbol::namespaced(a, &x.1), NamespacedSymbol::namespaced(b, &y.1));
        chk!((s == t) == (x == y) && s.cmp(&t) == order(&x, &y) && s.partial_cmp(&t) == Some(order(&x, &y)), "symbols {} {}", s, t);
        chk!(s.namespace() == a && s.name() == x.1 && s.components() == (a.as_str(), x.1.as_str()), "the parts of the symbol {}", s);
        chk!(s.to_string() == format!("{}/{}", a, x.1), "the symbol {:?} prints as {}", x, s);
    }
    let (p, q) = (PlainSymbol::plain(x.1.clone()), PlainSymbol::plain(y.1.clone()));
    chk!((p == q) == (x.1 == y.1) && p.cmp(&q) == x.1.cmp(&y.1), "symbols {} {}", p, q);
    chk!(p.to_string() == x.1, "the symbol {:?} prints as {}", x.1, p);
    chk!(p.is_var_symbol() == x.1.starts_with('?') && p.is_src_symbol() == x.1.starts_with('$'), "kind of {}", p);
    chk!(p.name() == if x.1.starts_with('?') || x.1.starts_with('$') { &x.1[1..] } else { &x.1[..] }, "the name of {} is {}", p, p.name());
    Ok(())
}
/// The order of values: total, and consistent with equality and hashing.
pub fn c20_values(r: &mut Rng, info: &mut Info) -> Case {
    let a = value(r, 2);
    let near = |r: &mut Rng, a: &Value| match r.below(4) { 0 => a.clone(), 1 => match a { Value::Integer(i) => Value::Float(OrderedFloat(*i as f64)), Value::Keyword(k) => Value::Keyword(k.to_reversed()), Value::Vector(v) => { let mut v = v.clone(); v.push(Value::Nil); Value::Vector(v) } a => a.clone() }, 2 => Value::Vector(vec![a.clone()]), _ => value(r, 2) };
    let b = near(r, &a);
    let c = near(r, &b);
    info.nontrivial = true;
    info.note(format!("{:?}\n{:?}\n{:?}", a, b, c));
    info.feed(&format!("{} {} {}", a, b, c));
    let v = [&a, &b, &c];
    for x in v.iter() {
        chk!(x.cmp(x) == Ordering::Equal, "{:?} is not equal to itself", x);
        for y in v.iter() {
            chk!((x == y) == (x.cmp(y) == Ordering::Equal), "{:?} == {:?} is {} but their order is {:?}", x, y, x == y, x.cmp(y));
            chk!(x.cmp(y) == y.cmp(x).reverse(), "{:?} cmp {:?} is {:?}, and the other way {:?}", x, y, x.cmp(y), y.cmp(x));
            chk!(x.partial_cmp(y) == Some(x.cmp(y)), "partial_cmp of {:?} and {:?}", x, y);
            if x == y { chk!(hash(x) == hash(y), "{:?} and {:?} are equal and hash differently", x, y); }
            for z in v.iter() {
                if x.cmp(y) != Ordering::Greater && y.cmp(z) != Ordering::Greater { chk!(x.cmp(z) != Ordering::Greater, "the order is not transitive: {:?} {:?} {:?}", x, y, z); }
            }
            // a value with spans is ordered as the value it is
            let (s, t) = (ValueAndSpan::new(sp(x), None), ValueAndSpan::new(sp(y), None));
            chk!(s.cmp(&t) == x.cmp(y) || has_set(x) || has_set(y), "with spans, {:?} cmp {:?} is {:?}", x, y, s.cmp(&t));
        }
    }
    // different kinds never compare equal, and a kind's values stay together
    let mut all: Vec<Value> = (0..6).map(|_| value(r, 1)).collect();
    all.extend(v.iter().map(|x| (*x).clone()));
    all.sort();
    for w in all.windows(2) { chk!(w[0] <= w[1], "sorting leaves {:?} before {:?}", w[0], w[1]); }
    let ks: Vec<u32> = all.iter().map(kind).collect();
    let mut seen = BTreeSet::new();
    for (i, k) in ks.iter().enumerate() { if i == 0 || ks[i - 1] != *k { chk!(seen.insert(*k), "values of one kind are apart in the order: {:?}", all); } }
    Ok(())
}
fn kind(v: &Value) -> u32 {
    use Value::*;
    match v { Nil => 0, Boolean(_) => 1, Integer(_) => 2, Instant(_) => 3, BigInteger(_) => 4, Float(_) => 5, Text(_) => 6, Uuid(_) => 7, PlainSymbol(_) => 8, NamespacedSymbol(_) => 9, Keyword(k) => if k.is_namespaced() { 10 } else { 11 }, Vector(_) => 12, List(_) => 13, Set(_) => 14, Map(_) => 15 }
}
fn sp(v: &Value) -> SpannedValue {
    let w = |x: &Value| ValueAndSpan::new(sp(x), None);
    match v.clone() {
        Value::Nil => SpannedValue::Nil, Value::Boolean(x) => SpannedValue::Boolean(x), Value::Integer(x) => SpannedValue::Integer(x), Value::Instant(x) => SpannedValue::Instant(x),
        Value::BigInteger(x) => SpannedValue::BigInteger(x), Value::Float(x) => SpannedValue::Float(x), Value::Text(x) => SpannedValue::Text(x), Value::Uuid(x) => SpannedValue::Uuid(x),
        Value::PlainSymbol(x) => SpannedValue::PlainSymbol(x), Value::NamespacedSymbol(x) => SpannedValue::NamespacedSymbol(x), Value::Keyword(x) => SpannedValue::Keyword(x),
        Value::Vector(x) => SpannedValue::Vector(x.iter().map(w).collect()), Value::List(x) => SpannedValue::List(x.iter().map(w).collect()),
        Value::Set(x) => SpannedValue::Set(x.iter().map(w).collect()), Value::Map(x) => SpannedValue::Map(x.iter().map(|(a, b)| (w(a), w(b))).collect()),
    }
}
/// Finding: nesting too deep ends the process.  The probe runs in a process of its own.
pub fn deep_nesting() -> bool {
    let s = "[".repeat(200_000);
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || parse::value(&s).is_err()).unwrap();
    !h.join().unwrap_or(false)
}
