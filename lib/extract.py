"""Mechanical extraction of Rust items from /repo for the Verus units.

What it drops, always: comments, attributes (derives included), and statement macros debug!/trace!.
Everything else a unit changes is a declared rewrite: a (pattern, replacement, why) triple that must
match, kept with the unit and listed in the evidence.  A missing item or a rewrite that no longer
matches is a LostAnchor: the unit decides nothing.
"""
import os, re

REPO = "/repo"


class LostAnchor(Exception):
    pass


TOK = re.compile(r'''(?P<com>//[^\n]*|/\*.*?\*/)|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<raw>r(#*)".*?"\4)|(?P<chr>'(?:\\(?:u\{[0-9a-fA-F]+\}|x..|.)|[^'\\\n])')|(?P<life>'[A-Za-z_]\w*)''', re.S)


def strip_comments(src):
    out, pos = [], 0
    for m in TOK.finditer(src):
        out.append(src[pos:m.start()])
        pos = m.end()
        out.append(" " if m.group("com") is not None else m.group(0))
    out.append(src[pos:])
    return "".join(out)


def mask(src):
    """The same text, length kept, with the inside of strings and chars blanked."""
    out, pos = [], 0
    for m in TOK.finditer(src):
        out.append(src[pos:m.start()])
        pos = m.end()
        t = m.group(0)
        if m.group("life") is not None:
            out.append(t)
        elif m.group("com") is not None:
            out.append(re.sub(r"[^\n]", " ", t))
        else:
            out.append(t[0] + "x" * (len(t) - 2) + t[-1] if len(t) > 1 else t)
    out.append(src[pos:])
    return "".join(out)


OPEN, CLOSE = "([{", ")]}"


def close_of(m, i):
    """Index of the bracket closing the one at i, in masked text."""
    d = 0
    for j in range(i, len(m)):
        c = m[j]
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise LostAnchor("unbalanced brackets")


def body_open(m, i):
    """Index of the '{' that opens the block of the item or expression head starting at i."""
    d = 0
    j = i
    while j < len(m):
        c = m[j]
        if c == "{" and d == 0:
            return j
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == ";" and d == 0:
            raise LostAnchor("no block")
        j += 1
    raise LostAnchor("no block")


class Source:
    def __init__(self, path, root=None):
        self.path = path
        p = os.path.join(root or REPO, path)
        if not os.path.exists(p):
            raise LostAnchor("no file " + path)
        self.text = strip_comments(open(p).read())
        self.m = mask(self.text)
        # tests are no part of the code that runs
        t = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", self.m)
        if t:
            e = close_of(self.m, t.end() - 1)
            self.text = self.text[:t.start()] + self.text[e + 1:]
            self.m = mask(self.text)

    def span_in(self, within):
        """Spans of the blocks whose head matches the regex (an impl, a trait)."""
        if within is None:
            return [(0, len(self.m))]
        spans = []
        for h in re.finditer(within, self.m):
            o = body_open(self.m, h.start())
            spans.append((o + 1, close_of(self.m, o)))
        if not spans:
            raise LostAnchor("%s: no %s" % (self.path, within))
        return spans

    def item(self, kind, name, within=None):
        found = []
        for a, b in self.span_in(within):
            for h in re.finditer(r"\b%s\s+%s\b" % (kind, re.escape(name)), self.m[a:b]):
                found.append((a + h.start(), b))
        if len(found) != 1:
            raise LostAnchor("%s: %d definitions of %s %s" % (self.path, len(found), kind, name))
        s, _ = found[0]
        return s

    def struct(self, name):
        s = self.item("(?:struct|enum)", name)
        kw = re.match(r"(?:struct|enum)", self.m[s:]).group(0)
        # tuple struct or braces
        j = s
        while self.m[j] not in "{(;":
            j += 1
        e = close_of(self.m, j) if self.m[j] != ";" else j
        if self.m[j] == "(":
            e = self.m.index(";", e)
        t = self.text[s:e + 1]
        return strip_attrs(t)

    def derives(self, name, traits):
        """The struct or enum derives these traits (no hand-written implementation replaces them)."""
        s = self.item("(?:struct|enum)", name)
        head = self.text[max(0, self.text.rfind("}", 0, s), self.text.rfind(";", 0, s)):s]
        have = set(re.findall(r"\w+", " ".join(re.findall(r"derive\(([^)]*)\)", head))))
        if not set(traits) <= have:
            raise LostAnchor("%s: %s does not derive %s" % (self.path, name, ", ".join(sorted(set(traits) - have))))

    def fn(self, name, within=None):
        s = self.item("fn", name, within)
        o = body_open(self.m, s)
        e = close_of(self.m, o)
        return Fn(self.path, name, self.text[s:o].strip(), self.text[o:e + 1])

    def block(self, header):
        """The text of a block (impl ...) whose head matches."""
        (a, b), = self.span_in(header)
        return self.text[a:b]


def strip_attrs(t):
    out, i = [], 0
    m = mask(t)
    while True:
        h = re.compile(r"#!?\[").search(m, i)
        if not h:
            out.append(t[i:])
            return "".join(out)
        out.append(t[i:h.start()])
        i = close_of(m, h.end() - 1) + 1


def plain(body):
    """A body without the statements in it that do nothing."""
    return re.sub(r"(?<=[;{}])\s*(?:let _\w* = (?:\(\)|\d+\w*|true|false)|\(\))?;", "", strip_comments(body)).strip()


def drop_macro(t, names):
    """Drops statements NAME!(...); entirely."""
    while True:
        m = mask(t)
        h = re.search(r"\b(?:%s)!\s*([(\[{])" % "|".join(names), m)
        if not h:
            return t
        e = close_of(m, h.start(1)) + 1
        k = re.match(r"\s*;", m[e:])
        t = t[:h.start()] + t[e + (k.end() if k else 0):]


def map_macro(t, name, f):
    """Rewrites every NAME!(args) by f(args)."""
    pos = 0
    while True:
        m = mask(t)
        h = re.compile(r"\b%s!\s*([(\[{])" % name).search(m, pos)
        if not h:
            return t
        e = close_of(m, h.start(1))
        r = f(t[h.end():e])
        t = t[:h.start()] + r + t[e + 1:]
        pos = h.start() + len(r)


class Fn:
    """A function: its head (without visibility), its body, and the loops found in the body."""
    def __init__(self, path, name, head, body):
        self.path, self.name, self.head, self.body = path, name, head, strip_attrs(drop_macro(body, ["debug", "trace"]))
        self.rewrites = []

    def sub(self, pat, rep, why, count=1, minimum=1):
        """A declared rewrite of the body; it has to match."""
        new, n = re.subn(pat, rep, self.body, count=count, flags=re.S)
        if n < minimum:
            raise LostAnchor("%s: rewrite %r of %s does not apply" % (self.path, pat, self.name))
        self.body = new
        if n:
            self.rewrites.append("%s: %s -> %s (%s)" % (self.name, pat, rep, why))
        return self

    def subhead(self, pat, rep, why):
        new, n = re.subn(pat, rep, self.head, count=1, flags=re.S)
        if n < 1:
            raise LostAnchor("%s: rewrite %r of the head of %s does not apply" % (self.path, pat, self.name))
        self.head = new
        self.rewrites.append("%s head: %s -> %s (%s)" % (self.name, pat, rep, why))
        return self

    def macro(self, name, f, why):
        new = map_macro(self.body, name, f)
        if new != self.body:
            self.rewrites.append("%s: %s!(..) rewritten (%s)" % (self.name, name, why))
        self.body = new
        return self

    def loops(self):
        m = mask(self.body)
        out = []
        for h in re.finditer(r"\b(for|while|loop)\b", m):
            if h.group(1) == "for" and re.match(r"\s*<", m[h.end():]):
                continue
            o = body_open(m, h.start())
            out.append((h.start(), h.group(1), o, close_of(m, o)))
        return out

    def annotate(self, specs, expect=None):
        """specs: per loop, in order, dict(name, invariant, start, end) or None."""
        ls = self.loops()
        if len(ls) != len(specs):
            raise LostAnchor("%s: %s has %d loops, not %d" % (self.path, self.name, len(ls), len(specs)))
        ins = []
        for (s, kind, o, e), sp in zip(ls, specs):
            if sp is None:
                continue
            if sp.get("kind", "for") != kind:
                raise LostAnchor("%s: a loop of %s is a %s" % (self.path, self.name, kind))
            if kind == "for" and sp.get("name"):
                h = re.compile(r"\bin\b").search(mask(self.body), s)
                ins.append((h.end(), " %s: " % sp["name"]))
            ins.append((o, "\n " + sp["invariant"] + "\n"))
            if sp.get("start"):
                ins.append((o + 1, "\n " + sp["start"] + "\n"))
            if sp.get("end"):
                ins.append((e, "\n " + sp["end"] + "\n"))
            if sp.get("after"):
                ins.append((e + 1, "\n " + sp["after"] + "\n"))
            if sp.get("before"):
                ins.append((s, "\n " + sp["before"] + "\n"))
        for p, t in sorted(ins, key=lambda x: x[0], reverse=True):
            self.body = self.body[:p] + t + self.body[p:]
        return self

    def prologue(self, t):
        self.body = "{\n" + t + "\n" + self.body[1:]
        return self

    def ret(self, name):
        """Names the result: -> T becomes -> (name: T)."""
        m = mask(self.head)
        i = top_arrow(m)
        if i is None:
            raise LostAnchor("%s: %s returns nothing" % (self.path, self.name))
        w = re.compile(r"\bwhere\b").search(m, i)
        e = w.start() if w else len(m)
        self.head = self.head[:i] + "-> (%s: %s) " % (name, self.head[i + 2:e].strip()) + self.head[e:]
        return self

    def emit(self, spec="", vis="pub "):
        return "%s%s\n %s\n%s\n" % (vis, self.head, spec, self.body)


def top_arrow(m):
    d = 0
    for i, c in enumerate(m):
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
        elif c == "-" and m[i:i + 2] == "->" and d == 0:
            return i
    return None
