"""Rules of a rust-peg grammar as specification functions: recognisers over a sequence of characters.
r_NAME(s, i) is where rule NAME ends when tried at i, or -1.  What an action makes of the text is not
modelled; a fallible action is a predicate act_NAME on the text it is given."""
import re
import extract


class Grammar:
    def __init__(self, text):
        self.t = text
        self.at = {}
        for h in re.finditer(r"(?m)^\s*(?:pub )?rule (\w+)\(\)\s*(?:->\s*[^=\n]*?)?\s*=(?!>)", text):
            self.at[h.group(1)] = h.end()
        self.ast, self.done, self.out, self.stars, self.lemmas = {}, set(), [], {}, []

    def rule(self, n):
        if n not in self.ast:
            if n not in self.at:
                raise extract.LostAnchor("grammar rule " + n)
            self.p = self.at[n]
            self.ast[n] = self.choice()
        return self.ast[n]

    # ---- reading
    def ws(self):
        while self.p < len(self.t) and self.t[self.p].isspace():
            self.p += 1

    def peek(self, s):
        self.ws()
        return self.t.startswith(s, self.p)

    def choice(self):
        alts = [self.seq()]
        while self.peek("/"):
            self.p += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("choice", alts)

    def seq(self):
        items, action = [], None
        while True:
            self.ws()
            c = self.t[self.p:self.p + 1]
            if c == "{":
                e = extract.close_of(extract.mask(self.t), self.p)
                action = self.t[self.p + 1:e]
                self.p = e + 1
                break
            if c in ("", ")", "/", "}") or re.match(r"(?:pub\s+)?rule\s+\w+\(", self.t[self.p:]):
                break
            items.append(self.item())
        return ("seq", items, action)

    def item(self):
        label = None
        h = re.match(r"(\w+)\s*:\s*(?!:)", self.t[self.p:])
        if h:
            label = h.group(1)
            self.p += h.end()
        pre = None
        if self.t[self.p] in "$!&":
            pre = self.t[self.p]
            self.p += 1
        x = self.primary()
        c = self.t[self.p:self.p + 1]
        h = re.match(r"\*<(\d+)>", self.t[self.p:])
        if h:
            self.p += h.end()
            x = ("rep", x, int(h.group(1)))
        elif c in "*+?" and c:
            if self.t.startswith("**", self.p) or self.t.startswith("++", self.p):
                raise extract.LostAnchor("grammar: separated repetition")
            self.p += 1
            x = ({"*": "star", "+": "plus", "?": "opt"}[c], x)
        if pre:
            x = ({"$": "text", "!": "not", "&": "and"}[pre], x)
        return ("label", label, x) if label else x

    def primary(self):
        t, p = self.t, self.p
        if t[p] == '"':
            h = re.match(r'"((?:\\.|[^"\\])*)"', t[p:])
            self.p += h.end()
            return ("lit", unescape(h.group(1)))
        if t[p] == "[":
            e = extract_class(t, p)
            self.p = e + 1
            return ("class", t[p + 1:e].strip())
        if t[p] == "(":
            self.p += 1
            x = self.choice()
            if not self.peek(")"):
                raise extract.LostAnchor("grammar: %r" % t[self.p:self.p + 40])
            self.p += 1
            return x
        h = re.match(r"quiet!\{", t[p:])
        if h:
            self.p += h.end()
            x = self.choice()
            if not self.peek("}"):
                raise extract.LostAnchor("grammar: quiet")
            self.p += 1
            return x
        h = re.match(r'expected!\("[^"]*"\)', t[p:])
        if h:
            self.p += h.end()
            return ("fail",)
        h = re.match(r"position!\(\)", t[p:])
        if h:
            self.p += h.end()
            return ("seq", [], None)
        h = re.match(r"(\w+)\(\)", t[p:]) or re.match(r"(_{1,3})(?!\w)", t[p:])
        if h:
            self.p += h.end()
            return ("call", h.group(1))
        raise extract.LostAnchor("grammar: %r" % t[p:p + 40])

    # ---- writing
    def need(self, n):
        """Writes rule n and those it calls."""
        if n in self.done:
            return
        self.done.add(n)
        x = self.gen(self.rule(n), "i", n)
        self.out.append("pub open spec fn r_%s(s: Seq<char>, i: int) -> int { %s }\n" % (n, x))

    def gen(self, x, i, r, d=0):
        k = x[0]
        v = "j%d" % d
        if k == "label":
            return self.gen(x[2], i, r, d)
        if k == "text":
            return self.gen(x[1], i, r, d)
        if k == "lit":
            n = len(x[1])
            return "(if 0 <= %s && %s + %d <= s.len()%s { %s + %d } else { -1int })" % (i, i, n, "".join(" && s[%s + %d] as u32 == %d" % (i, q, ord(c)) for q, c in enumerate(x[1])), i, n)
        if k == "class":
            return "(if 0 <= %s < s.len() && %s { %s + 1 } else { -1int })" % (i, in_class(x[1], "s[%s]" % i), i)
        if k == "call":
            self.need(x[1])
            return "r_%s(s, %s)" % (x[1], i)
        if k == "fail":
            return "(-1int)"
        if k == "choice":
            out = self.gen(x[1][-1], i, r, d + 1)
            for a in reversed(x[1][:-1]):
                out = "({ let %s = %s; if %s >= 0 { %s } else { %s } })" % (v, self.gen(a, i, r, d + 1), v, v, out)
            return out
        if k == "seq":
            end = (lambda z: z)
            if x[2] is not None and x[2].startswith("?"):
                if "act_" + r not in self.done:
                    self.done.add("act_" + r)
                    self.out.append("pub uninterp spec fn act_%s(t: Seq<char>) -> bool;\n" % r)
                end = lambda z: "(if act_%s(s.subrange(%s, %s)) { %s } else { -1int })" % (r, i, z, z)
            return self.chain(x[1], i, r, d, end)
        if k == "not":
            return "(if %s < 0 { %s } else { -1int })" % (self.gen(x[1], i, r, d + 1), i)
        if k == "and":
            return "(if %s >= 0 { %s } else { -1int })" % (self.gen(x[1], i, r, d + 1), i)
        if k == "opt":
            return "({ let %s = %s; if %s >= 0 { %s } else { %s } })" % (v, self.gen(x[1], i, r, d + 1), v, v, i)
        if k == "star":
            return "%s(s, %s)" % (self.star(x[1], r), i)
        if k == "plus":
            return "({ let %s = %s; if %s >= 0 { %s(s, %s) } else { -1int } })" % (v, self.gen(x[1], i, r, d + 1), v, self.star(x[1], r), v)
        if k == "rep":
            key = "rep " + repr(x[1])
            if key not in self.stars:
                n = self.stars[key] = "times_in_%s_%d" % (r, len([k for k in self.stars.values() if k.startswith("times_in_%s_" % r)]))
                self.out.append("pub open spec fn %s(s: Seq<char>, i: int, n: nat) -> int decreases n { if n == 0 { i } else { let j = %s; if j >= 0 { %s(s, j, (n - 1) as nat) } else { -1int } } }\n" % (n, self.gen(x[1], "i", r), n))
                self.lemmas.append("pub proof fn %s_run(s: Seq<char>, i: int, n: nat) requires 0 <= i, i + n <= s.len(), forall|k: int| #![trigger s[k]] i <= k < i + n ==> %s == k + 1 ensures %s(s, i, n) == i + n decreases n { if n > 0 { let c_ = s[i]; %s_run(s, i + 1, (n - 1) as nat); } }\n" % (n, self.gen(x[1], "k", r), n, n))
            return "%s(s, %s, %d)" % (self.stars[key], i, x[2])
        raise extract.LostAnchor("grammar: " + k)

    def chain(self, items, i, r, d, end):
        if not items:
            return end(i)
        v = "j%d" % d
        if len(items) == 1 and end("?") == "?":
            return self.gen(items[0], i, r, d)
        return "({ let %s = %s; if %s >= 0 { %s } else { -1int } })" % (v, self.gen(items[0], i, r, d + 1), v, self.chain(items[1:], v, r, d + 1, end))

    def star(self, x, r):
        while x[0] == "seq" and len(x[1]) == 1 and x[2] is None:
            x = x[1][0]
        key = repr(x)
        if key not in self.stars:
            n = "star_" + x[1] if x[0] == "call" else "star_in_%s_%d" % (r, len([k for k in self.stars.values() if k.startswith("star_in_%s_" % r)]))
            self.stars[key] = n
            self.out.append("pub open spec fn %s(s: Seq<char>, i: int) -> int decreases s.len() - i { let j = %s; if i < j <= s.len() { %s(s, j) } else { i } }\n" % (n, self.gen(x, "i", r), n))
            step = self.gen(x, "k", r)
            self.lemmas.append("""pub proof fn %s_run(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len(), forall|k: int| #![trigger s[k]] i <= k < j ==> %s == k + 1, ({ let k = j; %s }) <= j ensures %s(s, i) == j decreases j - i { if i < j { let c_ = s[i]; %s_run(s, i + 1, j); } }
""" % (n, step, step, n, n))
        return self.stars[key]

    def options(self, x):
        """The rules a choice is between, in order; None where it is not between rules."""
        while x[0] in ("label", "text") or (x[0] == "seq" and len(x[1]) == 1 and x[2] is None):
            x = x[2] if x[0] == "label" else x[1] if x[0] == "text" else x[1][0]
        if x[0] != "choice":
            return None
        out = []
        for a in x[1]:
            while a[0] == "label" or (a[0] == "seq" and len(a[1]) == 1):
                a = a[2] if a[0] == "label" else a[1][0]
            if a[0] != "call":
                return None
            out.append(a[1])
        return out

    def text(self):
        return "".join(self.out) + "".join(self.lemmas)


def unescape(t):
    return re.sub(r"\\(.)", lambda h: {"n": "\n", "r": "\r", "t": "\t"}.get(h.group(1), h.group(1)), t)


def extract_class(t, p):
    i = p + 1
    while t[i] != "]":
        h = re.match(r"'(?:\\.|[^'\\])'", t[i:])
        i += h.end() if h else 1
    return i


def in_class(c, x):
    if c == "_":
        return "true"
    out, p = [], 0
    for h in re.finditer(r"'(\\.|[^'\\])'(?:\s*\.\.=\s*'(\\.|[^'\\])')?", c):
        if re.sub(r"[\s|]", "", c[p:h.start()]):
            raise extract.LostAnchor("grammar class [%s]" % c)
        p = h.end()
        a = ord(unescape(h.group(1)))
        out.append("%s as u32 == %d" % (x, a) if not h.group(2) else "%d <= %s as u32 <= %d" % (a, x, ord(unescape(h.group(2)))))
    if re.sub(r"[\s|]", "", c[p:]) or not out:
        raise extract.LostAnchor("grammar class [%s]" % c)
    return "(%s)" % " || ".join(out)
