// C15: the algebra of value-type sets.
use crate::base::*;
use core_traits::{ValueType, ValueTypeSet};
use enum_set::EnumSet;

pub const ALL: [ValueType; 8] = [
    ValueType::Ref, ValueType::Boolean, ValueType::Instant, ValueType::Long,
    ValueType::Double, ValueType::String, ValueType::Keyword, ValueType::Uuid,
];

pub fn any_vt<S: Source>(s: &mut S) -> ValueType {
    let i = s.u8() & 7;
    ALL[i as usize]
}
/// The set whose members are the types at the positions of the set bits.
pub fn mk(bits: u8) -> ValueTypeSet {
    let mut e = EnumSet::new();
    for i in 0..8 { if bits & (1 << i) != 0 { e.insert(ALL[i]); } }
    ValueTypeSet(e)
}
/// The abstract view of a set: its membership function as a bit mask.
pub fn view(v: &ValueTypeSet) -> u8 {
    let mut b = 0u8;
    for i in 0..8 { if v.0.contains(&ALL[i]) { b |= 1 << i; } }
    b
}
fn bit(t: ValueType) -> u8 {
    match t {
        ValueType::Ref => 1, ValueType::Boolean => 2, ValueType::Instant => 4, ValueType::Long => 8,
        ValueType::Double => 16, ValueType::String => 32, ValueType::Keyword => 64, ValueType::Uuid => 128,
    }
}

pub fn c15_constants<S: Source>(s: &mut S) -> R {
    let t = any_vt(s);
    ck!(view(&ValueTypeSet::any()) == 255, "any() contains every type");
    ck!(view(&ValueTypeSet::none()) == 0, "none() contains no type");
    ck!(view(&ValueTypeSet::default()) == 255, "default() is any()");
    ck!(view(&ValueTypeSet::of_one(t)) == bit(t), "of_one(t) == {t}");
    ck!(view(&ValueTypeSet::from(t)) == bit(t), "from(t) == {t}");
    ck!(view(&ValueTypeSet::of_numeric_types()) == 8 | 16, "of_numeric_types() == {long, double}");
    ck!(view(&ValueTypeSet::of_numeric_and_instant_types()) == 4 | 8 | 16, "of_numeric_and_instant_types()");
    ck!(view(&ValueTypeSet::of_keywords()) == 1 | 64, "of_keywords() == {ref, keyword}");
    ck!(view(&ValueTypeSet::of_longs()) == 1 | 8, "of_longs() == {ref, long}");
    Ok(true)
}
pub fn c15_binary<S: Source>(s: &mut S) -> R {
    let (x, y) = (s.u8(), s.u8());
    let (a, b) = (mk(x), mk(y));
    ck!(view(&a) == x, "view(mk(x)) == x");
    ck!(view(&a.union(b)) == x | y, "union is set union");
    ck!(view(&a.intersection(b)) == x & y, "intersection is set intersection");
    ck!(view(&a.difference(b)) == x & !y, "difference is set difference");
    ck!(a.is_subset(b) == (x & !y == 0), "is_subset is set inclusion");
    ck!(a.is_disjoint(b) == (x & y == 0), "is_disjoint iff empty intersection");
    ck!((a == b) == (x == y), "sets are equal iff they have the same members");
    ck!(view(&a) == x && view(&b) == y, "operands are unchanged");
    Ok(true)
}
pub fn c15_unary<S: Source>(s: &mut S) -> R {
    let x = s.u8();
    let t = any_vt(s);
    let a = mk(x);
    let n = x.count_ones();
    ck!(a.len() as u32 == n, "len is the number of members");
    ck!(a.is_empty() == (n == 0), "is_empty iff no members");
    ck!(a.is_unit() == (n == 1), "is_unit iff exactly one member");
    ck!(a.contains(t) == (x & bit(t) != 0), "contains is membership");
    ck!(a.is_only_numeric() == (x & !(8 | 16) == 0), "is_only_numeric iff subset of numeric types");
    match a.exemplar() {
        Some(e) => { ck!(x & bit(e) != 0, "exemplar is a member"); }
        None => { ck!(x == 0, "exemplar of a non-empty set exists"); }
    }
    let mut m = a;
    let fresh = m.insert(t);
    ck!(view(&m) == x | bit(t), "insert adds exactly the given type");
    ck!(fresh == (x & bit(t) == 0), "insert reports whether the type is new");
    Ok(true)
}
pub fn c15_iter<S: Source>(s: &mut S) -> R {
    let x = s.u8();
    let a = mk(x);
    let mut seen = 0u8;
    let mut n = 0u32;
    for t in a.iter() {
        ck!(x & bit(t) != 0, "iter yields only members");
        ck!(seen & bit(t) == 0, "iter yields each member once");
        seen |= bit(t);
        n += 1;
    }
    ck!(seen == x && n == x.count_ones(), "iter yields every member");
    let mut seen2 = 0u8;
    for t in a { seen2 |= bit(t); }
    ck!(seen2 == x, "into_iter yields every member");
    Ok(true)
}
pub fn c15_collect<S: Source>(s: &mut S) -> R {
    let x = s.u8();
    let y = s.u8();
    let a = mk(x);
    let c: ValueTypeSet = a.iter().collect();
    ck!(view(&c) == x, "collecting the members of a set rebuilds it");
    let mut m = mk(y);
    m.extend(mk(x).iter());
    ck!(view(&m) == x | y, "extend adds exactly the given types");
    Ok(true)
}
pub fn c15_tags<S: Source>(s: &mut S) -> R {
    use mentat_core::SQLValueType;
    let t = any_vt(s);
    let u = any_vt(s);
    let i = s.i64();
    let (ta, tb) = (t.sql_representation(), u.sql_representation());
    // (tag, affinity) identifies the type; a tag alone identifies all but long/double.
    ck!((ta == tb) == (t == u), "the (tag, affinity) pair identifies the type");
    let numeric = |v: ValueType| v == ValueType::Long || v == ValueType::Double;
    ck!((ta.0 == tb.0) == (t == u || (numeric(t) && numeric(u))), "only long and double share a tag");
    ck!(t.value_type_tag() == ta.0, "value_type_tag is the tag of the representation");
    ck!(ta.1.is_some() == numeric(t), "an affinity is given exactly when the tag is shared");
    let spec = match t {
        ValueType::Long | ValueType::Double => true,
        ValueType::Ref => i >= 0,
        ValueType::Boolean => i == 0 || i == 1,
        _ => false,
    };
    ck!(t.accommodates_integer(i) == spec, "accommodates_integer is membership in the integer value space");
    Ok(true)
}
pub fn c15_typed<S: Source>(s: &mut S) -> R {
    use core_traits::TypedValue;
    let i = s.i64();
    let b = s.bool();
    let t = any_vt(s);
    let vs = [(TypedValue::Ref(i), ValueType::Ref), (TypedValue::Boolean(b), ValueType::Boolean),
              (TypedValue::Long(i), ValueType::Long)];
    let mut k = 0;
    while k < 3 {
        ck!(vs[k].0.value_type() == vs[k].1, "value_type of a value is its constructor's type");
        ck!(vs[k].0.is_congruent_with(t) == (t == vs[k].1), "is_congruent_with(None-or-type) is type equality");
        ck!(vs[k].0.is_congruent_with(None), "any value is congruent with an unknown type");
        k += 1;
    }
    Ok(true)
}

contracts! { c15_h; c15_constants[34], c15_binary[34], c15_unary[34], c15_iter[10], c15_collect[10], c15_tags[34], c15_typed[34] }
