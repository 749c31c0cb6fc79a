// C06/C08/C09: attributes, their legality, and how definitions and alterations build them.
use crate::base::*;
use crate::c15::any_vt;
use core_traits::{attribute::Unique, Attribute, ValueType};
use mentat_db::{AttributeBuilder, AttributeValidation};

fn any_unique<S: Source>(s: &mut S) -> Option<Unique> {
    match s.u8() % 3 { 0 => None, 1 => Some(Unique::Value), _ => Some(Unique::Identity) }
}
pub fn any_attribute<S: Source>(s: &mut S) -> Attribute {
    Attribute {
        value_type: any_vt(s), multival: s.bool(), unique: any_unique(s), index: s.bool(),
        fulltext: s.bool(), component: s.bool(), no_history: s.bool(),
    }
}
/// The legality rules of C09.
pub fn legal(a: &Attribute) -> bool {
    (a.unique.is_none() || a.index)
        && (!a.fulltext || (a.value_type == ValueType::String && a.index))
        && (!a.component || a.value_type == ValueType::Ref)
}
fn opt<S: Source, T>(s: &mut S, f: fn(&mut S) -> T) -> Option<T> {
    let v = f(s);
    if s.bool() { Some(v) } else { None }
}
struct Want { vt: Option<ValueType>, mv: Option<bool>, un: Option<Option<Unique>>, ix: Option<bool>, ft: Option<bool>, co: Option<bool>, nh: Option<bool> }
fn any_builder<S: Source>(s: &mut S) -> (Want, AttributeBuilder) {
    let w = Want { vt: opt(s, any_vt), mv: opt(s, |s| s.bool()), un: opt(s, any_unique), ix: opt(s, |s| s.bool()),
                   ft: opt(s, |s| s.bool()), co: opt(s, |s| s.bool()), nh: opt(s, |s| s.bool()) };
    let mut b = AttributeBuilder::default();
    b.value_type = w.vt; b.multival = w.mv; b.unique = w.un; b.index = w.ix;
    b.fulltext = w.ft; b.component = w.co; b.no_history = w.nh;
    (w, b)
}
pub fn c06_flags<S: Source>(s: &mut S) -> R {
    let a = any_attribute(s);
    let f = a.flags();
    ck!((f & 1 != 0) == a.index, "flag bit 0 (index_avet) iff indexed");
    ck!((f & 2 != 0) == (a.value_type == ValueType::Ref), "flag bit 1 (index_vaet) iff reference");
    ck!((f & 4 != 0) == a.fulltext, "flag bit 2 (index_fulltext) iff full-text");
    ck!((f & 8 != 0) == a.unique.is_some(), "flag bit 3 (unique_value) iff unique");
    ck!(f & !15 == 0, "no other flag bits");
    Ok(true)
}
pub fn c09_validate<S: Source>(s: &mut S) -> R {
    let a = any_attribute(s);
    let r = a.validate(String::new);
    ck!(r.is_ok() == legal(&a), "validate accepts exactly the legal attributes");
    std::mem::forget(r);
    Ok(true)
}
pub fn c09_install_alter<S: Source>(s: &mut S) -> R {
    let (w, b) = any_builder(s);
    let i = b.validate_install_attribute();
    ck!(i.is_ok() == w.vt.is_some(), "installing requires a value type, and only that");
    std::mem::forget(i);
    let l = b.validate_alter_attribute();
    ck!(l.is_ok() == (w.vt.is_none() && w.ft.is_none()), "altering may not change value type or full-text");
    std::mem::forget(l);
    Ok(true)
}
pub fn c08_build<S: Source>(s: &mut S) -> R {
    let (w, b) = any_builder(s);
    let a = b.build();
    ck!(w.vt.map_or(true, |v| a.value_type == v), "build: value type as given");
    ck!(a.multival == w.mv.unwrap_or(false), "build: cardinality as given, one by default");
    ck!(a.unique == w.un.unwrap_or(None), "build: uniqueness as given, none by default");
    ck!(a.index == w.ix.unwrap_or(false), "build: index as given, false by default");
    ck!(a.fulltext == w.ft.unwrap_or(false), "build: full-text as given, false by default");
    ck!(a.component == w.co.unwrap_or(false), "build: component as given, false by default");
    ck!(a.no_history == w.nh.unwrap_or(false), "build: no-history as given, false by default");
    Ok(true)
}
pub fn c08_mutate<S: Source>(s: &mut S) -> R {
    let (w, b) = any_builder(s);
    let a0 = any_attribute(s);
    need!(w.vt.is_none() && w.ft.is_none());
    let mut a = a0.clone();
    let m = b.mutate(&mut a);
    ck!(a.value_type == a0.value_type, "alter keeps the value type");
    ck!(a.fulltext == a0.fulltext, "alter keeps full-text");
    ck!(a.multival == w.mv.unwrap_or(a0.multival), "alter: cardinality as asserted, else unchanged");
    ck!(a.unique == w.un.unwrap_or(a0.unique), "alter: uniqueness as asserted, else unchanged");
    ck!(a.index == w.ix.unwrap_or(a0.index), "alter: index as asserted, else unchanged");
    ck!(a.component == w.co.unwrap_or(a0.component), "alter: component as asserted, else unchanged");
    ck!(a.no_history == w.nh.unwrap_or(a0.no_history), "alter: no-history as asserted, else unchanged");
    ck!(m.is_empty() == (a == a0), "alter reports no alteration iff nothing changed");
    std::mem::forget(m);
    Ok(true)
}
pub fn c08_modify<S: Source>(s: &mut S) -> R {
    // Re-applying the builder made from an attribute changes nothing.
    let a0 = any_attribute(s);
    let b = AttributeBuilder::modify_attribute(&a0);
    let l = b.validate_alter_attribute();
    ck!(l.is_ok(), "a builder made from an attribute is a legal alteration");
    std::mem::forget(l);
    let mut a = a0.clone();
    let m = b.mutate(&mut a);
    ck!(a == a0, "re-applying an attribute to itself changes nothing");
    std::mem::forget(m);
    Ok(true)
}
pub fn c09_setters<S: Source>(s: &mut S) -> R {
    // Setters set exactly their property; a "helpful" builder additionally indexes where the
    // legality rules need it.
    let u = if s.bool() { Unique::Value } else { Unique::Identity };
    let ft = s.bool();
    let mut b = AttributeBuilder::default();
    b.unique(u);
    b.fulltext(ft);
    ck!(b.unique == Some(Some(u)) && b.fulltext == Some(ft) && b.index.is_none() && b.value_type.is_none()
        && b.multival.is_none() && b.component.is_none() && b.no_history.is_none(), "plain setters set exactly their property");
    b.non_unique();
    ck!(b.unique == Some(None), "non_unique unsets uniqueness");
    let mut h = AttributeBuilder::helpful();
    h.fulltext(true);
    ck!(h.index == Some(true), "helpful full-text is indexed");
    let mut h = AttributeBuilder::helpful();
    h.unique(Unique::Identity);
    ck!(h.index == Some(true), "helpful unique identity is indexed");
    let (i, m, c, n, v) = (s.bool(), s.bool(), s.bool(), s.bool(), any_vt(s));
    let mut b = AttributeBuilder::default();
    b.index(i).multival(m).component(c).no_history(n).value_type(v);
    ck!(b.index == Some(i) && b.multival == Some(m) && b.component == Some(c) && b.no_history == Some(n)
        && b.value_type == Some(v) && b.unique.is_none() && b.fulltext.is_none(), "plain setters set exactly their property (2)");
    Ok(true)
}
contracts! { attr_h; c06_flags[2], c09_validate[10], c09_install_alter[10], c08_build[2], c08_mutate[10], c08_modify[10], c09_setters[2] }
