"""C20: names (edn/src/namespaceable_name.rs): parts, printed form, reversal and order."""
import re
import units
T = units.load("types")


def slices(f):
    f.sub(r"&(self\.\w+|\w+)\[((?:(?!\.\.)[^\]])+)\.\.([^\]=]+)\]", r"\1.slice(\2, \3)", "a string slice", count=0, minimum=0)
    f.sub(r"&(self\.\w+|\w+)\[((?:(?!\.\.)[^\]])+)\.\.\]", r"\1.slice(\2, \1.len())", "a string slice", count=0, minimum=0)
    f.sub(r"starts_with\('_'\)", "starts_with_byte(0x5f)", "an ASCII character", count=0, minimum=0)
    f.sub(r"\.push\('/'\)", ".push_byte(0x2f)", "an ASCII character", count=0, minimum=0)
    f.macro("assert", lambda a: "if !(%s) { unreached::<()>() }" % units.first_arg(a), "a panic, proved unreachable")
    f.subhead(r"<N, T>|<T>", "", "generic over how the text is held", ) if "<" in f.head.split("(")[0] else None
    f.head = f.head.split("where")[0]
    f.head = re.sub(r": [NT]\b", ": &Text", f.head.replace("Option<N>", "Option<&Text>")).replace("&str", "&Text")
    return f


def build(u):
    s = u.src("edn/src/namespaceable_name.rs")
    out = "use std::cmp::Ordering;\n" + T.text(u)
    u.assume("equality and hashing of NamespaceableName are derived: by components and boundary together")
    s.derives("NamespaceableName", ["PartialEq", "Eq", "Hash"])
    out += u.struct(s, "NamespaceableName").replace("String", "Text")
    out += """
pub type Parts = (Option<Seq<u8>>, Seq<u8>);
// The representation invariant: what the constructors make.
pub open spec fn wf(n: NamespaceableName) -> bool {
    let c = n.components@;
    c.len() > 0 && (n.boundary > 0 ==> n.boundary + 1 < c.len() && c[n.boundary as int] == 0x2f) }
pub open spec fn parts(n: NamespaceableName) -> Parts {
    let c = n.components@;
    if n.boundary == 0 { (None, c) } else { (Some(c.subrange(0, n.boundary as int)), c.subrange(n.boundary + 1, c.len() as int)) } }
pub open spec fn both(n: NamespaceableName) -> (Seq<u8>, Seq<u8>) { (match parts(n).0 { Some(x) => x, None => Seq::empty() }, parts(n).1) }
pub open spec fn same(a: NamespaceableName, b: NamespaceableName) -> bool { a.components@ == b.components@ && a.boundary == b.boundary }
pub open spec fn backward(p: Parts) -> bool { p.1.len() > 1 && p.1[0] == 0x5f }
pub open spec fn reversed(p: Parts) -> Parts { (p.0, if backward(p) { p.1.subrange(1, p.1.len() as int) } else { seq![0x5fu8] + p.1 }) }
// No namespace first, then by namespace, then by name.
pub open spec fn before(a: Parts, b: Parts) -> Ordering {
    match (a.0, b.0) { (None, None) => ord(a.1, b.1), (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => ord2((x, a.1), (y, b.1)) } }

// A name is determined by its parts.
pub proof fn determined(a: NamespaceableName, b: NamespaceableName)
    requires wf(a), wf(b)
    ensures same(a, b) <==> parts(a) == parts(b)
{
    if parts(a) == parts(b) {
        let (c, d) = (a.components@, b.components@);
        if a.boundary > 0 && b.boundary > 0 {
            assert(parts(a).0.unwrap().len() == a.boundary); assert(parts(b).0.unwrap().len() == b.boundary);
            assert(c =~= parts(a).0.unwrap().push(0x2f) + parts(a).1);
            assert(d =~= parts(b).0.unwrap().push(0x2f) + parts(b).1);
        }
    }
}
// The order is total and agrees with equality.
pub proof fn ordered(a: NamespaceableName, b: NamespaceableName)
    requires wf(a), wf(b)
    ensures before(parts(a), parts(b)) == Ordering::Equal <==> same(a, b),
        before(parts(a), parts(b)) == Ordering::Less <==> before(parts(b), parts(a)) == Ordering::Greater,
{ determined(a, b); }
pub proof fn transitive(a: NamespaceableName, b: NamespaceableName, c: NamespaceableName)
    requires wf(a), wf(b), wf(c), before(parts(a), parts(b)) == Ordering::Less, before(parts(b), parts(c)) == Ordering::Less
    ensures before(parts(a), parts(c)) == Ordering::Less
{
    let (p, q, r) = (parts(a), parts(b), parts(c));
    if p.0 is Some && q.0 is Some && r.0 is Some {
        let (x, y, z) = (p.0.unwrap(), q.0.unwrap(), r.0.unwrap());
        if ord(x, y) == Ordering::Less && ord(y, z) == Ordering::Less { ord_trans(x, y, z); }
        else if ord(x, y) == Ordering::Equal && ord(y, z) == Ordering::Equal { ord_trans(p.1, q.1, r.1); }
    } else if p.0 is None && q.0 is None && r.0 is None { ord_trans(p.1, q.1, r.1); }
}
// Names of one namespace lie together.
pub proof fn grouped(a: NamespaceableName, b: NamespaceableName, c: NamespaceableName)
    requires wf(a), wf(b), wf(c), before(parts(a), parts(b)) == Ordering::Less, before(parts(b), parts(c)) == Ordering::Less, parts(a).0 == parts(c).0
    ensures parts(b).0 == parts(a).0
{
    if parts(a).0 is Some && parts(b).0 is Some {
        let (x, y) = (parts(a).0.unwrap(), parts(b).0.unwrap());
        if x != y { ord_flip(x, y); ord_flip(y, x); ord_equal(x, y); ord_equal(y, x); assert(ord(x, y) == Ordering::Less); assert(ord(y, x) == Ordering::Less); ord_trans(x, y, x); }
    }
}
// Reversing a forward name twice gives it back.
pub proof fn round_trip(p: Parts)
    requires p.1.len() > 0, !backward(p)
    ensures backward(reversed(p)), reversed(reversed(p)) == p
{ assert((seq![0x5fu8] + p.1).subrange(1, p.1.len() as int + 1) =~= p.1); }
"""
    B = "impl NamespaceableName {\n"
    W = r"impl NamespaceableName\b"
    f = slices(s.fn("plain", W).ret("r"))
    f.sub(r"name\.into\(\)", "name.to_owned()", "Into<String>")
    B += u.emit(f, "requires name@.len() > 0 ensures wf(r), parts(r) == (None::<Seq<u8>>, name@)")
    f = slices(s.fn("namespaced", W).ret("r"))
    f.sub(r"String::", "Text::", "the text type", count=0, minimum=0)
    f.sub(r"(NamespaceableName|Self) \{(\s*components: dest)", r"proof { assert(dest@.subrange(0, ns@.len() as int) =~= ns@); assert(dest@.subrange(ns@.len() as int + 1, dest@.len() as int) =~= n@); } \1 {\2", "a hint")
    B += u.emit(f, "requires name@.len() > 0, namespace@.len() > 0 ensures wf(r), parts(r) == (Some(namespace@), name@)")
    f = slices(s.fn("new", W).ret("r"))
    f.sub(r"name\.as_ref\(\)", "name", "AsRef", minimum=0)
    small = "(namespace matches Some(x) ==> x@.len() > 0)"
    B += u.emit(f, "requires name@.len() > 0, %s ensures wf(r), parts(r) == (match namespace { Some(x) => Some(x@), None => None }, name@)" % small)
    for n, post in [("is_namespaced", "r == (parts(*self).0 is Some)"), ("is_backward", "r == backward(parts(*self))"), ("is_forward", "r == !backward(parts(*self))"),
                    ("namespace", "(match r { Some(x) => Some(x@), None => None }) == parts(*self).0"), ("name", "r@ == parts(*self).1"),
                    ("components", "(r.0@, r.1@) == both(*self)")]:
        f = slices(s.fn(n, W).ret("r"))
        B += u.emit(f, "requires wf(*self) ensures %s" % post)
    f = slices(s.fn("to_reversed", W).ret("r"))
    f.macro("format", lambda a: "underscored(" + a.split(",")[1].strip() + ")" if a.split(",")[0].strip() == '"_{}"' else "unknown(%s)" % a, 'format!("_{}", _)')
    B += u.emit(f, "requires wf(*self) ensures wf(r), parts(r) == reversed(parts(*self))")
    for tr, n, post in [("PartialOrd", "partial_cmp", "r == Some(before(parts(*self), parts(*other)))"), ("Ord", "cmp", "r == before(parts(*self), parts(*other))")]:
        f = s.fn(n, r"impl %s for NamespaceableName" % tr).ret("r")
        f.sub(r"self\.components\(\)\s*\.partial_cmp\(&other\.components\(\)\)", "pair_partial_cmp(self.components(), other.components())", "the order of pairs", minimum=0)
        f.sub(r"self\.components\(\)\s*\.cmp\(&other\.components\(\)\)", "pair_cmp(self.components(), other.components())", "the order of pairs", minimum=0)
        f.prologue("proof { assert(self.components@.subrange(0, 0) =~= Seq::empty()); }")
        B += u.emit(f, "requires wf(*self), wf(*other) ensures %s" % post)
    f = s.fn("fmt", r"impl fmt::Display for NamespaceableName").ret("r")
    f.subhead(r"\(&self, (\w+): &mut fmt::Formatter(?:<'_>)?\)", r"(&self, \1: &mut Text)", "what is written so far")
    f.subhead(r"fmt::Result", "Ordering", "the result of the write is passed on") if False else None
    f.head = f.head[:f.head.index("->")]
    f.sub(r"(\w+)\.write_str\(([^;]*)\)", r"\1.push_str(\2)", "what writing adds")
    B += u.emit(f, "requires wf(*self) ensures final(%s)@ =~= old(%s)@ + (match parts(*self).0 { Some(x) => x.push(0x2f) + parts(*self).1, None => parts(*self).1 })" % ((f.head.split(",")[1].split(":")[0].strip(),) * 2))
    return out + B + "}\n"
