// C04: partitions hand out fresh ids inside their range.
use crate::base::*;
use mentat_db::Partition;

/// Any partition satisfying the type invariant start <= next <= end (the precondition of `new`).
fn any_partition<S: Source>(s: &mut S) -> Option<(i64, i64, i64, Partition)> {
    let (a, b, n) = (s.i64(), s.i64(), s.i64());
    let ex = s.bool();
    if !(a <= n && n <= b) { return None; }
    Some((a, b, n, Partition::new(a, b, n, ex)))
}
pub fn c04_new<S: Source>(s: &mut S) -> R {
    let p = any_partition(s);
    need!(p.is_some());
    if let Some((a, b, n, p)) = p {
        ck!(p.start == a && p.end == b && p.next_entid() == n, "new stores the range and the next id");
    }
    Ok(true)
}
pub fn c04_membership<S: Source>(s: &mut S) -> R {
    let p = any_partition(s);
    let e = s.i64();
    need!(p.is_some());
    if let Some((a, b, n, p)) = p {
        ck!(p.contains_entid(e) == (a <= e && e < n), "contains_entid iff already allocated here");
        ck!(p.allows_entid(e) == (a <= e && e <= b), "allows_entid iff inside the range");
        ck!(!p.contains_entid(p.next_entid()), "the next id has not been allocated");
    }
    Ok(true)
}
pub fn c04_allocate<S: Source>(s: &mut S) -> R {
    let p = any_partition(s);
    let k = s.u32() as usize;
    let e = s.i64();
    need!(p.is_some());
    if let Some((a, b, n, p0)) = p {
        // Precondition of allocation: the partition has room for k more ids.
        need!((k as i128) <= (b as i128) - (n as i128));
        let mut p = p0.clone();
        let r = p.allocate_entids(k);
        ck!(r.start == n && r.end == n + k as i64, "allocation yields k consecutive ids from the next id");
        ck!(p.next_entid() == r.end, "the next id moves past the allocation");
        ck!(p.start == a && p.end == b && p.allow_excision == p0.allow_excision, "allocation changes nothing else");
        let in_r = r.start <= e && e < r.end;
        ck!(!(in_r && p0.contains_entid(e)), "an allocated id was not allocated before");
        ck!(p.contains_entid(e) == (p0.contains_entid(e) || in_r), "exactly the new ids become allocated");
        ck!(!in_r || p.allows_entid(e), "an allocated id is inside the partition");
    }
    Ok(true)
}
pub fn c04_set_next<S: Source>(s: &mut S) -> R {
    let p = any_partition(s);
    let e = s.i64();
    need!(p.is_some());
    if let Some((a, b, _n, mut p)) = p {
        need!(a <= e && e <= b);
        p.set_next_entid(e);
        ck!(p.next_entid() == e && p.start == a && p.end == b, "set_next_entid sets exactly the next id");
    }
    Ok(true)
}
/// Refusal, in a form that is decided for every input: the call panics iff the range is bad.
pub fn c04_refuse_total<S: Source>(s: &mut S) -> R {
    #[cfg(not(kani))]
    {
        let (a, b, n) = (s.i64(), s.i64(), s.i64());
        let e = s.i64();
        let k = s.u32() as usize;
        let quiet = |f: Box<dyn FnOnce() -> bool + std::panic::UnwindSafe>| std::panic::catch_unwind(f).unwrap_or(false);
        let ok = a <= n && n <= b;
        ck!(quiet(Box::new(move || { Partition::new(a, b, n, false); true })) == ok, "new refuses an invalid range");
        if ok {
            let fits = a <= e && e <= b;
            ck!(quiet(Box::new(move || { Partition::new(a, b, n, false).set_next_entid(e); true })) == fits, "set_next_entid refuses ids out of range");
            let room = (k as i128) <= (b as i128) - (n as i128);
            ck!(quiet(Box::new(move || { Partition::new(a, b, n, false).allocate_entids(k); true })) == room, "allocation beyond the end is refused");
        }
    }
    #[cfg(kani)]
    let _ = s;
    Ok(true)
}
contracts! { c04_h; c04_new[2], c04_membership[2], c04_allocate[2], c04_set_next[2], c04_refuse_total[2] }
