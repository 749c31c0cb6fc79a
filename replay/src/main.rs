#![allow(dead_code, unused_macros)]
#[macro_use]
#[path = "../../shared/base.rs"]
pub mod base;
#[path = "../../shared/c15.rs"]
pub mod c15;
#[path = "../../shared/c04.rs"]
pub mod c04;
#[path = "../../shared/attr.rs"]
pub mod attr;
#[macro_use]
mod util;
mod gen;
mod store;
mod tx;
mod contracts;
mod schema;
mod ids;
mod q;
mod vals;
mod cache;
mod hist;
mod text;
mod find;
mod pull;
mod built;
mod vocab;
mod hostile;

use std::collections::{BTreeMap, HashSet};
use std::panic;
use std::time::{Duration, Instant};
use util::*;

/// Seconds after which a case is taken not to come back.
const STUCK: u64 = 90;

pub type CaseFn = fn(&mut Rng, &mut Info) -> Case;

/// The groups of cases of each property.
fn groups(p: &str) -> Vec<(&'static str, CaseFn)> {
    match p {
        "C01" => vec![("history", tx::c01_history as CaseFn), ("notation", tx::c01_notation), ("reject", tx::c01_reject)],
        "C02" => vec![("history", tx::c02_history as CaseFn)],
        "C03" => vec![("tempids", tx::c03_tempids as CaseFn)],
        "C04" => vec![("history", ids::c04_history as CaseFn), ("contracts", contracts::c04)],
        "C05" => vec![("schema", schema::c05_history as CaseFn), ("matrix", ids::c05_matrix)],
        "C06" => vec![("data", schema::c06_data as CaseFn), ("schema", schema::c06_schema), ("contracts", contracts::c06)],
        "C07" => vec![("values", vals::c07_values as CaseFn)],
        "C08" => vec![("history", schema::c08_history as CaseFn), ("contracts", contracts::c08)],
        "C09" => vec![("history", schema::c09_history as CaseFn), ("alter", schema::c09_alter), ("contracts", contracts::c09)],
        "C10" => vec![("failed", hist::c10_failed as CaseFn), ("progress", hist::c10_progress)],
        "C11" => vec![("history", cache::c11_history as CaseFn), ("removed", cache::c11_removed)],
        "C12" => vec![("rewind", hist::c12_rewind as CaseFn)],
        "C13" => vec![("observers", hist::c13_observers as CaseFn)],
        "C14" => vec![("query", q::c14_query as CaseFn)],
        "C15" => vec![("contracts", contracts::c15 as CaseFn)],
        "C16" => vec![("builder", hostile::c16_builder as CaseFn), ("queries", hostile::c16_queries), ("transactions", hostile::c16_transactions), ("placeholders", hostile::c16_placeholders), ("idents", hostile::c16_idents)],
        "C17" => vec![("rows", find::c17_rows as CaseFn), ("aggregates", find::c17_aggregates)],
        "C18" => vec![("api", pull::c18_api as CaseFn), ("query", pull::c18_query)],
        "C21" => vec![("ensure", vocab::c21_ensure as CaseFn)],
        "C23" => vec![("terms", built::c23_terms as CaseFn), ("queries", built::c23_queries)],
        "C19" => vec![("roundtrip", text::c19_roundtrip as CaseFn), ("numbers", text::c19_numbers), ("anything", text::c19_anything)],
        "C20" => vec![("names", text::c20_names as CaseFn), ("values", text::c20_values)],
        _ => vec![],
    }
}

fn run_case(f: CaseFn, seed: u64) -> (Info, Result<(), String>) {
    let mut info = Info::default();
    gen::hostile(false);
    q::RENAME.with(|m| *m.borrow_mut() = None);
    let r = {
        let i = panic::AssertUnwindSafe(&mut info);
        panic::catch_unwind(move || { let mut rng = Rng::new(seed); gen::SPELT.with(|c| c.set(seed as u32 & 3)); let i = i; f(&mut rng, i.0) })
    };
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    };
    (info, r)
}

fn main() {
    panic::set_hook(Box::new(|i| if std::env::var("SHOWPANIC").is_ok() { eprintln!("{} {}", i, std::backtrace::Backtrace::force_capture()) }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // run PROPERTY SEED MILLIS REPLAYFILE: random cases until the time is up, in several
        // processes (SQLite's allocator serialises threads); prints JSON.
        Some("run") => {
            let (p, seed, ms, out) = (args[2].clone(), args[3].parse::<u64>().unwrap(), args[4].clone(), args[5].clone());
            let n: u64 = std::env::var("REPLAY_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
            let kids: Vec<_> = (0..n).map(|t| {
                let o = format!("{}.{}", out, t);
                let _ = std::fs::remove_file(&o);
                let c = std::process::Command::new(&args[0]).args(&["run1", &p, &seed.wrapping_mul(1000003).wrapping_add(t).to_string(), &ms, &o, &t.to_string()])
                    .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("spawn");
                (o, c)
            }).collect();
            let (mut evals, mut keys, mut counts, mut samples, mut fail, mut died) = (0, HashSet::new(), BTreeMap::<String, u64>::new(), vec![], serde_json::Value::Null, 0);
            for (o, c) in kids {
                let r = c.wait_with_output().expect("wait");
                // Mentat prints to stdout too
                let so = String::from_utf8_lossy(&r.stdout).to_string();
                match serde_json::from_str::<serde_json::Value>(so.rsplit("@@@JSON ").next().unwrap_or("")) {
                    Ok(j) => {
                        evals += j["evaluations"].as_u64().unwrap();
                        for k in j["keys"].as_array().unwrap() { keys.insert(k.as_u64().unwrap()); }
                        for (k, v) in j["counts"].as_object().unwrap() { *counts.entry(k.clone()).or_insert(0) += v.as_u64().unwrap(); }
                        samples.extend(j["samples"].as_array().unwrap().iter().cloned());
                        if fail.is_null() && !j["failed"].is_null() { fail = j["failed"].clone(); let _ = std::fs::copy(&o, &out); }
                    }
                    // the process died in the middle of a case (stack overflow, abort): the file names the case
                    Err(_) => {
                        died += 1;
                        if fail.is_null() {
                            let last = std::fs::read_to_string(format!("{}.case", o)).unwrap_or_default();
                            let w: Vec<&str> = last.split_whitespace().collect();
                            fail = serde_json::json!({"group": w.get(0), "seed": w.get(1), "what": format!("the process died: {}", r.status)});
                            let _ = std::fs::write(&out, format!("property: {}\nthe process died ({}) in case: {}\nre-run: {} one {} {}\n", p, r.status, last, args[0], p, last));
                        }
                    }
                }
                let _ = std::fs::remove_file(&o);
                let _ = std::fs::remove_file(format!("{}.case", o));
            }
            samples.truncate(4);
            let g: Vec<&str> = groups(&p).iter().map(|g| g.0).collect();
            println!("{}", serde_json::json!({"evaluations": evals, "distinct_nontrivial": keys.len(), "groups": g, "counts": counts, "samples": samples, "failed": fail, "died": died}));
            std::process::exit(if !fail.is_null() { 1 } else { 0 });
        }
        Some("run1") => {
            let (p, seed, ms, out) = (args[2].clone(), args[3].parse::<u64>().unwrap(), args[4].parse::<u64>().unwrap(), args[5].clone());
            let first: usize = args[6].parse().unwrap();
            let prog = args[0].clone();
            // a case takes milliseconds: one that takes minutes does not come back
            let clock = std::sync::Arc::new(std::sync::Mutex::new((Instant::now(), String::new(), 0u64)));
            {
                let (clock, p, out, prog) = (clock.clone(), p.clone(), out.clone(), prog.clone());
                std::thread::spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let (t, name, cs) = clock.lock().unwrap().clone();
                    if !name.is_empty() && t.elapsed() > Duration::from_secs(STUCK) {
                        let what = format!("the call does not come back ({} s)", STUCK);
                        let _ = std::fs::write(&out, format!("property: {}\ngroup: {}\ncase-seed: {}\nre-run: {} one {} {} {}\n\nviolation: {}\n", p, name, cs, prog, p, name, cs, what));
                        println!("\n@@@JSON {}", serde_json::json!({"evaluations": 1, "keys": [], "counts": {}, "samples": [], "failed": {"group": name, "seed": cs, "what": what}}));
                        std::process::exit(0);
                    }
                });
            }
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let mut gs = groups(&p);
                if let Ok(only) = std::env::var("REPLAY_GROUP") { gs.retain(|g| g.0 == only); }
                let start = Instant::now();
                let mut rng = Rng::new(seed);
                let mut n = 0u64;
                let mut seen: HashSet<u64> = HashSet::new();
                let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                let mut samples: Vec<String> = vec![];
                let mut fail = serde_json::Value::Null;
                let mut k = first;
                while !gs.is_empty() && start.elapsed() < Duration::from_millis(ms) {
                    let (name, f) = gs[k % gs.len()];
                    k += 1;
                    let cs = rng.next() >> 1;
                    let _ = std::fs::write(format!("{}.case", out), format!("{} {}", name, cs));
                    *clock.lock().unwrap() = (Instant::now(), name.to_string(), cs);
                    let (info, r) = run_case(f, cs);
                    *clock.lock().unwrap() = (Instant::now(), String::new(), 0);
                    n += 1;
                    if info.nontrivial && seen.len() < 20000 { seen.insert(if info.key == 0 { cs } else { info.key }); }
                    for (k, v) in &info.counts { *counts.entry(format!("{}.{}", name, k)).or_insert(0) += v; }
                    *counts.entry(format!("{}.cases", name)).or_insert(0) += 1;
                    if samples.len() < 2 && !info.sample.is_empty() { samples.push(info.sample.chars().take(1500).collect()); }
                    if let Err(e) = r {
                        let body = format!("property: {}\ngroup: {}\ncase-seed: {}\nre-run: {} one {} {} {}\n\nviolation: {}\n\ntrace:\n{}\n", p, name, cs, prog, p, name, cs, e, info.trace.join("\n"));
                        let _ = std::fs::write(&out, body);
                        fail = serde_json::json!({"group": name, "seed": cs, "what": e.chars().take(600).collect::<String>()});
                        break;
                    }
                }
                println!("\n@@@JSON {}", serde_json::json!({"evaluations": n, "keys": seen.iter().collect::<Vec<_>>(), "counts": counts, "samples": samples, "failed": fail}));
            }).unwrap();
            h.join().unwrap();
        }
        // one PROPERTY GROUP SEED: re-run a case.
        Some("one") => {
            let gs = groups(&args[2]);
            let f = gs.iter().find(|g| g.0 == args[3]).expect("group").1;
            let seed = args[4].parse::<u64>().unwrap();
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_case(f, seed)).unwrap();
            let (info, r) = h.join().unwrap();
            for t in info.trace { println!("{}", t); }
            match r { Ok(()) => println!("PASS"), Err(e) => { println!("FAIL: {}", e); std::process::exit(1) } }
        }
        // contract NAME HEXBYTES...: replay a counterexample of the verifier against the real code.
        Some("contract") => {
            let vals: Vec<Vec<u8>> = args[3..].iter().map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            match contracts::scripted(&args[2], vals) {
                None => { println!("UNKNOWN CONTRACT"); std::process::exit(2) }
                Some(Ok(true)) => println!("PASS"),
                Some(Ok(false)) => { println!("PRECONDITION FALSE") }
                Some(Err(e)) => { println!("FAIL: {}", e); std::process::exit(1) }
            }
        }
        // explain QUERY: the SQL of a query over the standard store
        Some("explain") => {
            let (s, _) = gen::std_store();
            match s.conn.q_explain(&s.sql, &args[2], None) {
                Ok(mentat::QueryExplanation::ExecutionPlan { query, .. }) => println!("{}\n{:?}", query.sql, query.args),
                Ok(mentat::QueryExplanation::KnownConstant) => println!("constant"),
                Ok(mentat::QueryExplanation::KnownEmpty(e)) => println!("empty {:?}", e),
                Err(e) => println!("ERR {}", e),
            }
        }
        // probe NAME: does a recorded finding still fail (exit 1)?
        Some("probe") => {
            match ids::probe(&args[2]) { None => std::process::exit(2), Some(true) => { println!("STILL FAILS"); std::process::exit(1) } Some(false) => println!("no longer fails") }
        }
        _ => { eprintln!("usage: replay run|one|contract ..."); std::process::exit(2) }
    }
}
