"""C19: what is printed for a value is read by the rule for its kind, to its end (edn/src/types.rs,
edn/src/pretty_print.rs, the grammar in edn/src/lib.rs)."""
import re
import units, extract, peg
RLIMIT = 60

SPEC = """
pub open spec fn special(c: char) -> bool { c as u32 == 34 || c as u32 == 92 }
pub open spec fn escaped(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else { let p = escaped(t.drop_last()); if special(t.last()) { p.push('\\\\').push(t.last()) } else { p.push(t.last()) } } }
proof fn escaped_one(c: char) ensures escaped(seq![c]) =~= (if special(c) { seq!['\\\\', c] } else { seq![c] }) { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(escaped(Seq::<char>::empty()) =~= Seq::<char>::empty()); assert(seq![c].last() == c); reveal_with_fuel(escaped, 2); }
proof fn escaped_sum(a: Seq<char>, b: Seq<char>) ensures escaped(a + b) =~= escaped(a) + escaped(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); escaped_sum(a, b.drop_last()); } }
proof fn escaped_plain(a: Seq<char>) requires forall|k: int| 0 <= k < a.len() ==> !special(#[trigger] a[k]) ensures escaped(a) =~= a decreases a.len() {
    if a.len() > 0 { escaped_plain(a.drop_last()); assert(!special(a[a.len() - 1])); } }
// t stands at i.
pub open spec fn at(s: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= s.len() && forall|k: int| i <= k < i + t.len() ==> #[trigger] s[k] == t[k - i] }
// What the printers write after a value.
pub open spec fn follows(s: Seq<char>, j: int) -> bool { j == s.len() || (0 <= j < s.len() && (s[j] as u32 == 32 || s[j] as u32 == 10 || s[j] as u32 == 41 || s[j] as u32 == 93 || s[j] as u32 == 125)) }
pub open spec fn digit(c: char) -> bool { 48 <= c as u32 <= 57 }
pub open spec fn digits(t: Seq<char>, a: int, b: int) -> bool { 0 <= a < b <= t.len() && forall|k: int| a <= k < b ==> digit(#[trigger] t[k]) }
pub open spec fn sign_of(t: Seq<char>) -> int { if t.len() > 0 && t[0] as u32 == 45 { 1 } else { 0 } }
// The decimal form of an integer, as std prints it: no leading zero.
pub open spec fn decimal(t: Seq<char>) -> bool { let n = sign_of(t); digits(t, n, t.len() as int) && (t.len() == n + 1 || t[n] as u32 != 48) }
// The form of a finite double, as std prints it: with a point or an exponent.
pub open spec fn floating(t: Seq<char>, p: int, e: int) -> bool { let n = sign_of(t); let m = t.len() as int;
    digits(t, n, p) && (p == n + 1 || t[n] as u32 != 48) && p <= e <= m && p < m
    && (p < e ==> t[p] as u32 == 46 && digits(t, p + 1, e))
    && (e < m ==> t[e] as u32 == 101 && (if e + 1 < m && t[e + 1] as u32 == 45 { digits(t, e + 2, m) } else { digits(t, e + 1, m) })) }
pub open spec fn hexes(t: Seq<char>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> digit(#[trigger] t[k]) || 97 <= t[k] as u32 <= 102 }
pub open spec fn hyphenated(t: Seq<char>) -> bool { t.len() == 36 && hexes(t, 0, 8) && t[8] as u32 == 45 && hexes(t, 9, 13) && t[13] as u32 == 45 && hexes(t, 14, 18) && t[18] as u32 == 45 && hexes(t, 19, 23) && t[23] as u32 == 45 && hexes(t, 24, 36) }
// An RFC 3339 instant in UTC, as chrono writes it.
pub open spec fn rfc3339(t: Seq<char>) -> bool { let m = t.len() as int; m >= 20 && digits(t, 0, 4) && t[4] as u32 == 45 && digits(t, 5, 7) && t[5] as u32 <= 49 && t[7] as u32 == 45 && digits(t, 8, 10) && t[8] as u32 <= 51
    && t[10] as u32 == 84 && digits(t, 11, 13) && t[11] as u32 <= 50 && t[13] as u32 == 58 && digits(t, 14, 16) && t[14] as u32 <= 53 && t[16] as u32 == 58 && digits(t, 17, 19) && t[17] as u32 <= 54
    && t[m - 1] as u32 == 90 && (m == 20 || (t[19] as u32 == 46 && digits(t, 20, m - 1))) }
"""

EXEC = """
#[verifier::external_body] pub struct Text { x: () }
impl Text { pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body] pub fn chars(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn new() -> (r: Text) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() } }
"""

ORDER = ["nil", "nan", "infinity", "boolean", "number", "inst", "uuid", "text", "keyword", "nonnumber"]


def lit(t):
    return "seq![%s]" % ", ".join("'%s'" % {"'": "\\'", "\\": "\\\\", "\n": "\\n"}.get(c, c) for c in t) if t else "Seq::<char>::empty()"


def pieces(fmt, args):
    """A format string as the pieces it stands for."""
    out, args = [], list(args)
    for i, part in enumerate(re.split(r"\{\}", peg.unescape(fmt).replace("{{", "\0").replace("}}", "\1"))):
        if i:
            out.append(args.pop(0))
        if part:
            out.append(lit(part.replace("\0", "{").replace("\1", "}")))
    return " + ".join(out) or "Seq::<char>::empty()"


def arms(t, kinds):
    """What a macro or match prints for each kind of atom, as a sequence of characters."""
    out = {}
    for k in kinds:
        h = re.search(r"\$t::%s(?:\((?:ref )?(\w+)\))? => (write!\(|\{|\w)" % k, t)
        if not h:
            raise extract.LostAnchor("the printed form of " + k)
        out[k] = (h.group(1), t[h.start(2):])
    return out


def printed(t):
    """The atoms' printed forms as spec functions, from the Display macro."""
    h = re.search(r"macro_rules! def_common_value_display \{", t)
    if not h:
        raise extract.LostAnchor("def_common_value_display")
    t = t[h.end():]
    a = arms(t, ("Nil", "Boolean", "Integer", "BigInteger", "Text", "Uuid", "Instant", "Float"))
    out = ""
    for k, (v, rest) in a.items():
        if k == "Float":
            e = extract.close_of(extract.mask(rest), 0)
            b = rest[:e]
            lits = re.findall(r'if \*\w+ == OrderedFloat\(f64::(\w+)\) \{\s*write!\(\$f, "([^"]*)"\)\s*\}', b)
            last = re.search(r'else \{\s*write!\(\$f, "\{:\?\}", \w+\.into_inner\(\)\)\s*\}\s*$', b)
            if sorted(x for x, _ in lits) != ["INFINITY", "NAN", "NEG_INFINITY"] or not last:
                raise extract.LostAnchor("the printed form of Float")
            for x, f in lits:
                out += "pub open spec fn shown_%s() -> Seq<char> { %s }\n" % (x.lower(), pieces(f, []))
            out += "pub open spec fn shown_float(v: Seq<char>) -> Seq<char> { v }\n"
            continue
        if not rest.startswith("write!("):
            raise extract.LostAnchor("the printed form of " + k)
        e = extract.close_of(extract.mask(rest), 6)
        h = re.match(r'\s*\$f,\s*"((?:\\.|[^"\\])*)"\s*(?:,(.*))?$', rest[7:e], re.S)
        if not h:
            raise extract.LostAnchor("the printed form of " + k)
        arg = (h.group(2) or "").strip().rstrip(",").strip()
        if arg == "escape_text(%s)" % v:
            x = "escaped(v)"
        elif arg in (v, "%s.to_hyphenated().to_string()" % v, "%s.to_rfc3339_opts(SecondsFormat::AutoSi, true)" % v):
            x = "v"
        elif not arg:
            x = None
        else:
            raise extract.LostAnchor("the printed form of %s: %s" % (k, arg))
        out += "pub open spec fn shown_%s(v: Seq<char>) -> Seq<char> { %s }\n" % (k.lower(), pieces(h.group(1), [x] if x else []))
    return out


def pretty(t):
    """Those the pretty printer writes itself."""
    out = ""
    for k in ("Text", "Uuid", "Instant"):
        h = re.search(r"Value::%s\(ref (\w+)\) => (.*?)(?=,\s*(?:Value::|_ =>))" % k, t, re.S)
        if not h:
            raise extract.LostAnchor("the pretty form of " + k)
        v, p = h.group(1), []
        for a in re.findall(r'\.(?:text|append)\(((?:"(?:\\.|[^"\\])*"|[^()"]|\((?:[^()]|\([^()]*\))*\))*)\)', re.sub(r"\s+", "", h.group(2)) if False else h.group(2)):
            a = a.strip()
            if a.startswith('"'):
                p.append(lit(peg.unescape(a[1:-1])))
            elif a == "escape_text(%s)" % v:
                p.append("escaped(v)")
            elif a in ("%s.to_hyphenated().to_string()" % v, "%s.to_rfc3339_opts(SecondsFormat::AutoSi, true)" % v):
                p.append("v")
            else:
                raise extract.LostAnchor("the pretty form of %s: %s" % (k, a))
        out += "pub open spec fn pretty_%s(v: Seq<char>) -> Seq<char> { %s }\n" % (k.lower(), " + ".join(p))
    return out


def build(u):
    ty, pp = u.src("edn/src/types.rs"), u.src("edn/src/pretty_print.rs")
    g = peg.Grammar(u.src("edn/src/lib.rs").text)
    u.assume("rust-peg's semantics: ordered choice, greedy repetition, predicates; an action is what its rule's text stands for")
    u.assume("std and chrono print integers, doubles, UUIDs and instants in the forms given, and parse them back")
    v = g.rule("value")
    seq = v[1][0] if v[0] == "choice" else v
    alts = next((g.options(x) for x in seq[1] if x[0] == "label" and x[2][0] == "choice"), None)
    nums = g.options(g.rule("number"))
    if not alts or not nums or any(k not in alts for k in ORDER):
        raise extract.LostAnchor("the kinds of a value")
    for n in alts:
        if n in ("list", "vector", "map", "set"):
            continue
        g.need(n)
    first = {n: [x for x in g.rule(n)[1] if x[0] == "lit"][0][1] for n in alts if n in ("list", "vector", "map", "set")}

    def pick(name, opts):
        out = "(-1int, -1int)"
        for k, n in reversed(list(enumerate(opts))):
            r = "r_%s(s, i)" % n if n not in first else "(if 0 <= i && i + %d <= s.len()%s { i } else { -1int })" % (len(first[n]), "".join(" && s[i + %d] as u32 == %d" % (q, ord(c)) for q, c in enumerate(first[n])))
            out = "({ let j = %s; if j >= 0 { (%d, j) } else { %s } })" % (r, k, out)
        return "pub open spec fn %s(s: Seq<char>, i: int) -> (int, int) { %s }\n" % (name, out)
    K = {n: k for k, n in enumerate(alts)}
    N = {n: k for k, n in enumerate(nums)}
    out = SPEC + g.text() + "// Which kind of value is read at i, and where it ends.\n" + pick("read", alts) + pick("read_number", nums)
    out += printed(extract.strip_comments(ty.text)) + pretty(extract.strip_comments(pp.text)) + EXEC
    # the text between quotes, as the actions put it together
    raw = g.rule("raw_text")
    if raw[0] != "seq" or re.sub(r"\s|&", "", raw[2] or "") not in ('t.join("")', "t.concat()"):
        raise extract.LostAnchor("raw_text: its action")
    star = next((x[2] for x in raw[1] if x[0] == "label" and x[1] == "t"), None)
    while star and star[0] == "seq" and len(star[1]) == 1:
        star = star[1][0]
    parts = g.options(star[1]) if star and star[0] == "star" else None
    if not parts:
        raise extract.LostAnchor("raw_text: its pieces")
    cap = "Seq::<char>::empty()"
    for n in reversed(parts):
        x = g.rule(n)
        k = [q for q, y in enumerate(x[1]) if y[0] == "label" and y[2][0] in ("text", "seq", "plus")] if x[0] == "seq" else []
        if len(k) != 1 or (x[2] or "").strip() != x[1][k[0]][1] or k[0] != len(x[1]) - 1:
            raise extract.LostAnchor("the text of " + n)
        pre = g.chain(x[1][:k[0]], "i", n, 0, lambda z: z)
        cap = "({ let j = r_%s(s, i); if j >= 0 { s.subrange(%s, j) } else { %s } })" % (n, pre, cap)
    out += "pub open spec fn piece(s: Seq<char>, i: int) -> Seq<char> { %s }\n" % cap
    st = g.stars[repr(star[1])]
    step = g.gen(star[1], "i", "raw_text")
    out += "pub open spec fn step(s: Seq<char>, i: int) -> int { %s }\n" % step
    out += "// What the text between quotes is read as.\npub open spec fn unescaped(s: Seq<char>, i: int) -> Seq<char> decreases s.len() - i { let j = step(s, i); if i < j <= s.len() { piece(s, i) + unescaped(s, j) } else { Seq::empty() } }\n"
    f = ty.fn("escape_text").ret("r")
    f.subhead(r"&str", "&Text", "text as its characters").subhead(r"\bString\b", "Text", "text as its characters")
    f.sub(r"String::with_capacity\([^;]*\)", "Text::new()", "a capacity has no effect", minimum=0)
    f.sub(r"String::new\(\)", "Text::new()", "text as its characters", minimum=0)
    f.sub(r"for c in text\.chars\(\) \{", "let all_ = text.chars(); let mut i_: usize = 0; while i_ < all_.len() { let c = all_[i_]; i_ = i_ + 1; proof { let p_ = text@.take(i_ as int); assert(p_.drop_last() =~= text@.take(i_ - 1)); assert(p_.last() == c); }", "the loop by position")
    f.annotate([dict(kind="while", invariant="invariant i_ <= all_@.len(), all_@ == text@, escaped@ =~= escaped_(text@.take(i_ as int)), decreases all_@.len() - i_,", before="proof { assert(text@.take(0) =~= Seq::<char>::empty()); }", after="proof { assert(text@.take(text@.len() as int) =~= text@); }")])
    out += "pub open spec fn escaped_(t: Seq<char>) -> Seq<char> { escaped(t) }\n" + u.emit(f, "ensures r@ == escaped_(text@)")
    plain = next((g.stars[q] for q in g.stars if g.stars[q].startswith("star_in_string_normal_chars")), None)
    if not plain:
        raise extract.LostAnchor("string_normal_chars")
    times = lambda r: next((g.stars[q] for q in g.stars if g.stars[q].startswith("times_in_" + r)), None)
    tu, ti = times("uuid_string"), times("inst_string")
    if not tu or not ti:
        raise extract.LostAnchor("the repetitions of uuid_string and inst_string")
    each = lambda a, b: " ".join("assert(v[%d] == s[i + 7 + %d]);" % (k, k) for k in range(a, b))
    uu = tagged('#uuid "', "uuid", "hyphenated(v) &&", 36, "assert forall|k: int| #![trigger s[k]] i + 7 <= k < i + 43 implies s[k] == v[k - i - 7] by { assert(s[i + 7 + (k - i - 7)] == v[k - i - 7]); } " + " ".join("%s_run(s, i + %d, %d);" % (tu, 7 + a, n) for a, n in ((0, 8), (9, 4), (14, 4), (19, 4), (24, 12))) + " " + each(8, 9) + each(13, 14) + each(18, 19) + each(23, 24))
    ii = tagged('#inst "', "inst", "rfc3339(v) && act_inst_string(t) &&", 20, each(0, 20) + " " + " ".join("assert(digit(v[%d]));" % k for k in (0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18)) + " %s_run(s, i + 7, 4);" % ti + """ assert(v[m - 1] == s[i + 7 + (m - 1)]); assert(s.subrange(i, i + t.len()) =~= t);
    if m > 20 { assert(digit(v[20])); assert(v[20] == s[i + 27]); assert forall|k: int| #![trigger s[k]] i + 27 <= k < i + 6 + m implies digit(s[k]) by { assert(v[k - i - 7] == s[i + 7 + (k - i - 7)]); assert(digit(v[k - i - 7])); } SECONDS_run(s, i + 27, i + 6 + m); SECONDS_run(s, i + 28, i + 6 + m); }""")
    form = [("%d" % ord(c), k) for k, c in enumerate('#inst "')] + [("45", 11), ("45", 14), ("84", 17), ("58", 20), ("58", 23)]
    inst = " && ".join("s[i + %d] as u32 == %s" % (k, c) for c, k in form) + " && " + " && ".join("digit(s[i + %d])" % (7 + k) for k in (0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18)) + " && s[i + 12] as u32 <= 49 && s[i + 15] as u32 <= 51 && s[i + 18] as u32 <= 50 && s[i + 21] as u32 <= 53 && s[i + 24] as u32 <= 54"
    sec = next((g.stars[q] for q in g.stars if g.stars[q].startswith("star_in_inst_string")), "star_digit")
    for pre in ("shown", "pretty"):
        uu += "proof fn reads_%s_uuid(s: Seq<char>, i: int, v: Seq<char>) ensures reads_as_uuid(s, i, %s_uuid(v), v) { uuid_run(s, i, %s_uuid(v), v); }\n" % (pre, pre, pre)
        ii += "proof fn reads_%s_instant(s: Seq<char>, i: int, v: Seq<char>) ensures reads_as_inst(s, i, %s_instant(v), v) { inst_run(s, i, %s_instant(v), v); }\n" % (pre, pre, pre)
    sp = ""
    for x, n in (("infinity", 12), ("neg_infinity", 12), ("nan", 6)):
        sp += "if stands(s, i, shown_%s()) { let t = shown_%s(); each(s, i, t); %s star_whitespace_run(s, i + 3, i + 3); }\n    " % (x, x, " ".join("assert(t[%d] == s[i + %d]);" % (k, k) for k in range(n)))
    out += LEMMAS.replace("STAR_TEXT", st).replace("STAR_PLAIN", plain).replace("UUIDS", uu).replace("INSTS", ii).replace("INSTANT", inst).replace("YEAR", ti).replace("SECONDS", sec).replace("SPECIALS", sp).replace("STOPS", "")
    for n, k in K.items():
        out = out.replace("K_%s" % n, str(k))
    for n, k in N.items():
        out = out.replace("N_%s" % n, str(k))
    u.functions += ["edn/src/lib.rs :: grammar rules %s" % ", ".join(sorted(x for x in g.done if not x.startswith("act_"))), "edn/src/types.rs :: def_common_value_display (atoms)", "edn/src/pretty_print.rs :: as_doc (atoms)"]
    return out


LEMMAS = """
pub open spec fn stands(s: Seq<char>, i: int, t: Seq<char>) -> bool { at(s, i, t) && follows(s, i + t.len()) }
proof fn each(s: Seq<char>, i: int, t: Seq<char>) requires at(s, i, t) ensures forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == s[i + k], s.subrange(i, i + t.len()) =~= t {
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[i + k] by { let c = s[i + k]; } }
pub open spec fn read_nil(s: Seq<char>, i: int, v: Seq<char>) -> bool { stands(s, i, shown_nil(v)) ==> read(s, i) == (K_nil as int, i + shown_nil(v).len()) }
proof fn reads_nil(s: Seq<char>, i: int, v: Seq<char>) ensures read_nil(s, i, v) { if stands(s, i, shown_nil(v)) { let t = shown_nil(v); each(s, i, t); assert(t.len() == 3); assert(t[0] == s[i + 0] && t[1] == s[i + 1] && t[2] == s[i + 2]); STOPS } }
pub open spec fn read_boolean(s: Seq<char>, i: int, v: Seq<char>) -> bool { (v == seq!['t', 'r', 'u', 'e'] || v == seq!['f', 'a', 'l', 's', 'e']) && stands(s, i, shown_boolean(v)) ==> read(s, i) == (K_boolean as int, i + shown_boolean(v).len()) }
proof fn reads_boolean(s: Seq<char>, i: int, v: Seq<char>) ensures read_boolean(s, i, v) { if stands(s, i, shown_boolean(v)) && (v == seq!['t', 'r', 'u', 'e'] || v == seq!['f', 'a', 'l', 's', 'e']) { let t = shown_boolean(v); each(s, i, t); assert(t =~= v); assert(t[0] == s[i + 0] && t[1] == s[i + 1] && t[2] == s[i + 2] && t[3] == s[i + 3]); if t.len() == 5 { assert(t[4] == s[i + 4]); } STOPS } }
pub open spec fn read_integer(s: Seq<char>, i: int, v: Seq<char>) -> bool { decimal(v) && act_raw_integer(v) && stands(s, i, shown_integer(v)) ==> read(s, i) == (K_number as int, i + shown_integer(v).len()) && read_number(s, i) == (N_integer as int, i + shown_integer(v).len()) }
proof fn digits_run(s: Seq<char>, i: int, v: Seq<char>, a: int, b: int) requires at(s, i, v), digits(v, a, b), i + b == s.len() || !digit(s[i + b]) ensures star_digit(s, i + a) == i + b, star_digit(s, i + a + 1) == i + b, r_digit(s, i + a) == i + a + 1, forall|k: int| i + a <= k < i + b ==> digit(#[trigger] s[k]) {
    assert forall|k: int| i + a <= k < i + b implies digit(#[trigger] s[k]) by { assert(digit(v[k - i])); }
    assert(digit(s[i + a]));
    star_digit_run(s, i + a, i + b); star_digit_run(s, i + a + 1, i + b); }
proof fn reads_integer(s: Seq<char>, i: int, v: Seq<char>) ensures read_integer(s, i, v) { if decimal(v) && stands(s, i, shown_integer(v)) && act_raw_integer(v) { let t = shown_integer(v); each(s, i, t); assert(t =~= v); let n = sign_of(v);
    digits_run(s, i, v, n, v.len() as int); assert(v[0] == s[i + 0]); assert(v[n] == s[i + n]); assert(digit(s[i + n])); if v.len() > n + 1 { assert(v[n + 1] == s[i + n + 1]); assert(digit(s[i + n + 1])); if v.len() > n + 2 { assert(v[n + 2] == s[i + n + 2]); assert(digit(s[i + n + 2])); } } } }
pub open spec fn read_biginteger(s: Seq<char>, i: int, v: Seq<char>) -> bool { decimal(v) && stands(s, i, shown_biginteger(v)) ==> read(s, i) == (K_number as int, i + shown_biginteger(v).len()) && read_number(s, i) == (N_bigint as int, i + shown_biginteger(v).len()) }
proof fn reads_biginteger(s: Seq<char>, i: int, v: Seq<char>) ensures read_biginteger(s, i, v) { if decimal(v) && stands(s, i, shown_biginteger(v)) { let t = shown_biginteger(v); each(s, i, t); let n = sign_of(v); let m = v.len() as int;
    assert(t.len() == m + 1); assert(t[m] == s[i + m]); assert forall|k: int| 0 <= k < m implies t[k] == #[trigger] v[k] by {} assert(digits(t, n, m)) by { assert forall|k: int| n <= k < m implies digit(#[trigger] t[k]) by { assert(digit(v[k])); } }
    digits_run(s, i, t, n, m); assert(t[0] == s[i + 0]); assert(v[0] == t[0]); assert(digit(s[i + n])); } }
pub open spec fn read_float(s: Seq<char>, i: int, v: Seq<char>) -> bool { (exists|p: int, e: int| #[trigger] floating(v, p, e)) && act_raw_float(v) && stands(s, i, shown_float(v)) ==> read(s, i) == (K_number as int, i + shown_float(v).len()) && read_number(s, i) == (N_noninteger as int, i + shown_float(v).len()) }
// A double stands at i: where its parts end.
pub open spec fn parts(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) -> bool { let n = sign_of(v); let m = v.len() as int;
    0 <= i && i + m <= s.len() && 0 <= n < p <= e <= m && p < m && follows(s, i + m) && floating(v, p, e) && stands(s, i, v) && s.subrange(i, i + m) == v && (n == 1 ==> s[i] as u32 == 45) && (n == 0 ==> digit(s[i])) && digit(s[i + n]) && (s[i + n] as u32 == 48 ==> p == n + 1) && star_digit(s, i + n + 1) == i + p && (p > n + 1 ==> digit(s[i + n + 1])) && (p > n + 2 ==> digit(s[i + n + 2]))
    && (p < e ==> p + 1 < e && s[i + p] as u32 == 46 && digit(s[i + p + 1]) && star_digit(s, i + p + 2) == i + e)
    && (p == e ==> e < m) && (e < m ==> s[i + e] as u32 == 101 && e + 1 < m && (s[i + e + 1] as u32 == 45 ==> e + 2 < m && digit(s[i + e + 2]) && star_digit(s, i + e + 3) == i + m) && (s[i + e + 1] as u32 != 45 ==> digit(s[i + e + 1]) && star_digit(s, i + e + 2) == i + m)) }
proof fn first_part(s: Seq<char>, i: int, v: Seq<char>, n: int, p: int) requires 0 <= i, n == sign_of(v), digits(v, n, p), at(s, i, v), i + p == s.len() || !digit(s[i + p]) ensures n == 1 ==> s[i] as u32 == 45, n == 0 ==> digit(s[i]), digit(s[i + n]), s[i + n] == v[n], star_digit(s, i + n + 1) == i + p, p > n + 1 ==> digit(s[i + n + 1]), p > n + 2 ==> digit(s[i + n + 2]) {
    assert(s[i + 0] == v[0]); assert(digit(v[n])); assert(s[i + n] == v[n]); digits_run(s, i, v, n, p); if p > n + 1 { assert(digit(v[n + 1])); assert(v[n + 1] == s[i + n + 1]); if p > n + 2 { assert(digit(v[n + 2])); assert(v[n + 2] == s[i + n + 2]); } } }
proof fn some_part(s: Seq<char>, i: int, v: Seq<char>, a: int, b: int) requires 0 <= i, digits(v, a, b), at(s, i, v), i + b == s.len() || !digit(s[i + b]) ensures digit(s[i + a]), star_digit(s, i + a + 1) == i + b { digits_run(s, i, v, a, b); assert(digit(v[a])); assert(s[i + a] == v[a]); }
proof fn exponent(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires floating(v, p, e), stands(s, i, v), e < v.len() ensures s[i + e] as u32 == 101, e + 1 < v.len(), s[i + e + 1] as u32 == 45 ==> e + 2 < v.len() && digit(s[i + e + 2]) && star_digit(s, i + e + 3) == i + v.len(), s[i + e + 1] as u32 != 45 ==> digit(s[i + e + 1]) && star_digit(s, i + e + 2) == i + v.len() { hide(star_digit); let m = v.len() as int;
    assert(v[e] == s[i + e]); assert(v[e + 1] == s[i + (e + 1)]); if v[e + 1] as u32 == 45 { some_part(s, i, v, e + 2, m); } else { some_part(s, i, v, e + 1, m); } }
proof fn fraction(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires floating(v, p, e), stands(s, i, v), p < e ensures p + 1 < e, s[i + p] as u32 == 46, digit(s[i + p + 1]), star_digit(s, i + p + 2) == i + e { hide(star_digit); assert(v[p] == s[i + p]); if e < v.len() { assert(v[e] == s[i + e]); } some_part(s, i, v, p + 1, e); }
proof fn parted(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires floating(v, p, e), stands(s, i, v) ensures parts(s, i, v, p, e) { hide(star_digit); hide(digits); hide(at); let n = sign_of(v); let m = v.len() as int; assert(s.subrange(i, i + m) =~= v) by { reveal(at); }
    assert(0 <= n < p && v.len() > 0) by { reveal(digits); } assert(p < m && 0 <= i) by { reveal(at); } assert(v[p] == s[i + p]) by { reveal(at); assert(v[p] == v[(i + p) - i]); } assert(v[n] == s[i + n]) by { reveal(at); reveal(digits); } first_part(s, i, v, n, p);
    if e < m { exponent(s, i, v, p, e); }
    if p < e { fraction(s, i, v, p, e); } }
proof fn not_prefixed(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires parts(s, i, v, p, e) ensures r_prefixed_integer(s, i) < 0, r_basedinteger(s, i) < 0, r_hexinteger(s, i) < 0, r_octalinteger(s, i) < 0 { hide(floating); hide(stands); hide(star_digit); hide(star_alphanumeric); hide(star_hex); hide(star_octaldigit); }
proof fn not_integer(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires parts(s, i, v, p, e) ensures r_bigint(s, i) < 0, r_integer(s, i) < 0 { hide(floating); hide(stands); hide(star_digit); }
proof fn whole(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires parts(s, i, v, p, e), act_raw_float(v) ensures r_raw_float(s, i) == i + v.len() { hide(floating); hide(stands); hide(star_digit); }
proof fn not_whole(s: Seq<char>, i: int, v: Seq<char>, p: int, e: int) requires parts(s, i, v, p, e), r_raw_float(s, i) == i + v.len(), r_prefixed_integer(s, i) < 0 ensures r_noninteger(s, i) == i + v.len() { hide(floating); hide(stands); hide(star_digit); hide(r_raw_float); hide(r_prefixed_integer); }
proof fn reads_float(s: Seq<char>, i: int, v: Seq<char>) ensures read_float(s, i, v) { if (exists|p: int, e: int| #[trigger] floating(v, p, e)) && act_raw_float(v) && stands(s, i, shown_float(v)) { let t = shown_float(v); assert(t =~= v);
    let (p, e) = choose|p: int, e: int| #[trigger] floating(v, p, e);
    parted(s, i, v, p, e); not_prefixed(s, i, v, p, e); not_integer(s, i, v, p, e); whole(s, i, v, p, e); not_whole(s, i, v, p, e); beyond(s, i, i + v.len()); } }
proof fn beyond(s: Seq<char>, i: int, j: int) requires 0 <= i < j <= s.len(), s[i] as u32 == 45 || digit(s[i]), r_basedinteger(s, i) < 0, r_hexinteger(s, i) < 0, r_octalinteger(s, i) < 0, r_bigint(s, i) < 0, r_integer(s, i) < 0, r_noninteger(s, i) == j ensures read(s, i) == (K_number as int, j), read_number(s, i) == (N_noninteger as int, j) { }
pub open spec fn read_special(s: Seq<char>, i: int, t: Seq<char>, k: int) -> bool { stands(s, i, t) ==> read(s, i) == (k, i + t.len()) }
proof fn reads_specials(s: Seq<char>, i: int) ensures read_special(s, i, shown_infinity(), K_infinity as int), read_special(s, i, shown_neg_infinity(), K_infinity as int), read_special(s, i, shown_nan(), K_nan as int), (stands(s, i, shown_infinity()) ==> s[i + 3] as u32 == 43), (stands(s, i, shown_neg_infinity()) ==> s[i + 3] as u32 == 45) {
    SPECIALS }
// How far text goes on without a character that is escaped.
pub open spec fn plain(v: Seq<char>) -> int decreases v.len() { if v.len() == 0 || special(v[0]) { 0 } else { 1 + plain(v.drop_first()) } }
proof fn plain_far(v: Seq<char>) ensures 0 <= plain(v) <= v.len(), forall|k: int| 0 <= k < plain(v) ==> !special(#[trigger] v[k]), plain(v) < v.len() ==> special(v[plain(v)]) decreases v.len() {
    if v.len() > 0 && !special(v[0]) { let w = v.drop_first(); plain_far(w); assert forall|k: int| 0 <= k < plain(v) implies !special(#[trigger] v[k]) by { if k > 0 { assert(!special(w[k - 1])); } } } }
// One piece of the text between quotes, and what is left.
proof fn one_special(s: Seq<char>, i: int, c: char, j: int) requires 0 <= i, i + 2 <= s.len(), s[i] == '\\\\', s[i + 1] == c, special(c) ensures step(s, i) == i + 2, piece(s, i) =~= seq![c], STAR_TEXT(s, i) == STAR_TEXT(s, i + 2), unescaped(s, i) =~= seq![c] + unescaped(s, i + 2) { assert(step(s, i) == i + 2); assert(piece(s, i) =~= seq![c]); }
proof fn some_plain(s: Seq<char>, i: int, a: Seq<char>) requires 0 <= i, a.len() > 0, i + a.len() < s.len(), s.subrange(i, i + a.len()) =~= a, forall|k: int| #![trigger s[k]] i <= k < i + a.len() ==> !special(s[k]), special(s[i + a.len()]) ensures step(s, i) == i + a.len(), piece(s, i) =~= a, STAR_TEXT(s, i) == STAR_TEXT(s, i + a.len()), unescaped(s, i) =~= a + unescaped(s, i + a.len()) {
    let n = a.len() as int; assert(special(s[i + n])); STAR_PLAIN_run(s, i, i + n); STAR_PLAIN_run(s, i + 1, i + n); assert(!special(s[i])); assert(step(s, i) == i + n); assert(piece(s, i) =~= a); }
proof fn shifted(s: Seq<char>, i: int, t: Seq<char>, n: int) requires at(s, i, t), 0 <= n <= t.len() ensures at(s, i + n, t.skip(n)) { let r = t.skip(n); assert forall|k: int| i + n <= k < i + n + r.len() implies #[trigger] s[k] == r[k - (i + n)] by { assert(s[k] == t[k - i]); } }
proof fn text_run(s: Seq<char>, i: int, v: Seq<char>) requires 0 <= i, at(s, i, escaped(v) + seq!['"']) ensures STAR_TEXT(s, i) == i + escaped(v).len(), unescaped(s, i) =~= v decreases v.len() {
    hide(step); hide(piece); hide(STAR_TEXT); hide(unescaped); hide(STAR_PLAIN);
    let t = escaped(v) + seq!['"'];
    each(s, i, t);
    if v.len() == 0 { assert(escaped(v).len() == 0); assert(t[0] == s[i + 0]); text_end(s, i); }
    else if special(v[0]) {
        let w = v.drop_first(); assert(seq![v[0]] + w =~= v); escaped_sum(seq![v[0]], w); escaped_one(v[0]);
        assert(t[0] == s[i + 0] && t[1] == s[i + 1]); assert(t[0] == '\\\\' && t[1] == v[0]);
        shifted(s, i, t, 2); assert(t.skip(2) =~= escaped(w) + seq!['"']);
        text_run(s, i + 2, w); one_special(s, i, v[0], i);
    } else {
        plain_far(v); let n = plain(v); let a = v.take(n); let w = v.skip(n); assert(n > 0); assert(a + w =~= v); escaped_sum(a, w);
        assert forall|k: int| 0 <= k < a.len() implies !special(#[trigger] a[k]) by { assert(!special(v[k])); }
        escaped_plain(a);
        assert forall|k: int| #![trigger s[k]] i <= k < i + n implies !special(s[k]) by { assert(s[k] == t[k - i]); assert(t[k - i] == a[k - i]); }
        shifted(s, i, t, n); let r = escaped(w) + seq!['"']; assert(t.skip(n) =~= r);
        assert(special(s[i + n])) by { assert(s[i + n] == r[0]); if w.len() > 0 { assert(w[0] == v[n]); let x = w.drop_first(); assert(seq![w[0]] + x =~= w); escaped_sum(seq![w[0]], x); escaped_one(w[0]); } }
        assert(s.subrange(i, i + n) =~= a) by { assert forall|k: int| 0 <= k < n implies s[i + k] == a[k] by { assert(s[i + k] == t[k]); } }
        text_run(s, i + n, w); some_plain(s, i, a);
    } }
proof fn text_end(s: Seq<char>, i: int) requires 0 <= i < s.len(), s[i] == '"' ensures STAR_TEXT(s, i) == i, unescaped(s, i) =~= Seq::<char>::empty() { assert(step(s, i) < 0); }
pub open spec fn reads_as_text(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) -> bool { stands(s, i, t) ==> read(s, i) == (K_text as int, i + t.len()) && unescaped(s, i + 1) == v }
proof fn quoted(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) requires t =~= seq!['"'] + escaped(v) + seq!['"'] ensures reads_as_text(s, i, t, v) { if stands(s, i, t) { each(s, i, t); let r = escaped(v) + seq!['"'];
    assert(t[0] == s[i + 0]); assert(t[0] == '"');
    assert(at(s, i + 1, r)) by { assert forall|k: int| i + 1 <= k < i + 1 + r.len() implies #[trigger] s[k] == r[k - (i + 1)] by { assert(s[k] == t[k - i]); assert(t[k - i] == r[k - i - 1]); } }
    text_run(s, i + 1, v); let m = r.len() - 1; assert(r[m] == '"'); assert(s[i + 1 + m] == r[m]); } }
proof fn reads_text(s: Seq<char>, i: int, v: Seq<char>) ensures reads_as_text(s, i, shown_text(v), v) { quoted(s, i, shown_text(v), v); }
proof fn reads_pretty_text(s: Seq<char>, i: int, v: Seq<char>) ensures reads_as_text(s, i, pretty_text(v), v) { quoted(s, i, pretty_text(v), v); }
pub open spec fn reads_as_uuid(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) -> bool { hyphenated(v) && stands(s, i, t) ==> read(s, i) == (K_uuid as int, i + t.len()) && s.subrange(i + 7, i + t.len() - 1) =~= v }
UUIDS
// An instant's text stands at i.
pub open spec fn instant_at(s: Seq<char>, i: int, m: int) -> bool { 0 <= i && m >= 20 && i + m + 8 <= s.len() && INSTANT
    && s[i + 6 + m] as u32 == 90 && s[i + 7 + m] as u32 == 34 && follows(s, i + m + 8) && (m == 20 || (s[i + 26] as u32 == 46 && digit(s[i + 27]) && SECONDS(s, i + 28) == i + 6 + m)) && star_whitespace(s, i + 6) == i + 6 && YEAR(s, i + 7, 4) == i + 11 }
proof fn instant_read(s: Seq<char>, i: int, m: int) requires instant_at(s, i, m), act_inst_string(s.subrange(i, i + m + 8)) ensures r_inst_string(s, i) == i + m + 8 { hide(star_whitespace); hide(SECONDS); hide(YEAR); }
proof fn instant_first(s: Seq<char>, i: int, m: int) requires instant_at(s, i, m), r_inst_string(s, i) == i + m + 8 ensures read(s, i) == (K_inst as int, i + m + 8) { hide(star_whitespace); hide(SECONDS); hide(YEAR); hide(r_inst_string); }
pub open spec fn reads_as_inst(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) -> bool { rfc3339(v) && act_inst_string(t) && stands(s, i, t) ==> read(s, i) == (K_inst as int, i + t.len()) && s.subrange(i + 7, i + t.len() - 1) =~= v }
INSTS
"""


def tagged(tag, form, pre, n, marks):
    """A tagged value: what stands between the quotes, character by character."""
    p = len(tag)
    head = " ".join("assert(t[%d] == s[i + %d]); assert(t[%d] as u32 == %d);" % (k, k, k, ord(c)) for k, c in enumerate(tag))
    if form == "inst":
        return """proof fn %s_stands(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) requires t =~= %s + v + seq!['"'], rfc3339(v), stands(s, i, t) ensures t.len() == v.len() + 8, instant_at(s, i, v.len() as int), s.subrange(i, i + t.len()) == t, s.subrange(i + 7, i + t.len() - 1) =~= v { hide(SECONDS); hide(YEAR); each(s, i, t); let m = v.len() as int; %s
    assert(t.len() == m + %d); assert(t[m + %d] as u32 == 34); assert(t[m + %d] == s[i + m + %d]);
    assert forall|k: int| 0 <= k < m implies s[i + %d + k] == #[trigger] v[k] by { assert(t[k + %d] == v[k]); let c = s[i + %d + k]; }
    assert(s.subrange(i + %d, i + t.len() - 1) =~= v); star_whitespace_run(s, i + %d, i + %d);
    %s }
proof fn inst_run(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) requires t =~= %s + v + seq!['"'] ensures reads_as_inst(s, i, t, v) { hide(instant_at); hide(read); if rfc3339(v) && act_inst_string(t) && stands(s, i, t) { inst_stands(s, i, t, v); let m = v.len() as int; instant_read(s, i, m); instant_first(s, i, m); } }
""" % (form, lit(tag), head, p + 1, p, p, p, p, p, p, p, p, p, marks, lit(tag))
    return """proof fn %s_run(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>) requires t =~= %s + v + seq!['"'] ensures reads_as_%s(s, i, t, v) { if %s stands(s, i, t) { each(s, i, t); let m = v.len() as int; %s
    assert(t.len() == m + %d); assert(t[m + %d] as u32 == 34); assert(t[m + %d] == s[i + m + %d]);
    assert forall|k: int| 0 <= k < m implies s[i + %d + k] == #[trigger] v[k] by { assert(t[k + %d] == v[k]); let c = s[i + %d + k]; }
    assert(s.subrange(i + %d, i + t.len() - 1) =~= v); star_whitespace_run(s, i + %d, i + %d);
    %s } }
""" % (form, lit(tag), form, pre, head, p + 1, p, p, p, p, p, p, p, p, p, marks)
