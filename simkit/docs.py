"""Random documents whose meaning is known by construction.

Every function returns (text or JSON object, statements): the statements are
4-tuples of model terms, graph None for triples and for the default graph.
"""
from .terms import EX, XSD, RDFNS, B, I, L, TYPE, FIRST, REST, NIL, gen_literal, gen_string, nt_line, nt_string

IRIS = [EX + x for x in ("a", "b", "c/d", "e#f", "g?h=i&j=(k)", "l~m", "n.o")] + ["urn:x:y", "mailto:me@ex.org",
        "http://other.org/", "http://ex.org/\u00e9\u4e2d", "tag:x", "http://ex.org/%20%C3%A9"]
LABELS = ["a", "b", "b0", "b1", "x.y", "x-1", "A", "_u", "0", "node", "\u00e9", "\U00010400x", "a\u00b7-\u0301"]


def gen_term(rng, labels, pos, nasty=0.4, iris=IRIS):
    k = rng.random()
    if pos == "p":
        return I(rng.choice(iris))
    if pos == "o" and k < 0.4:
        return gen_literal(rng, nasty)
    if k < 0.65 and labels:
        return B(rng.choice(labels))
    return I(rng.choice(iris))


def gen_statements(rng, n, quads=False, labels=None, nasty=0.4, ascii_iris=False):
    labels = rng.sample(LABELS, rng.randrange(0, 6)) if labels is None else labels
    iris = [x for x in IRIS if x.isascii()] if ascii_iris else IRIS
    iris = rng.sample(iris, rng.randrange(2, 6))
    names = [None, I(EX + "g1"), I(EX + "g2")] + [B(x) for x in labels[:2]] if quads else [None]
    out = []
    for _ in range(n):
        out.append((gen_term(rng, labels, "s", nasty, iris), gen_term(rng, labels, "p", nasty, iris),
                    gen_term(rng, labels, "o", nasty, iris), rng.choice(names)))
    return list(dict.fromkeys(out))


# -- N-Triples and N-Quads ---------------------------------------------------------


def nt_doc(rng, sts, eol="\n", blanks=0.15, final=True, plain=False):
    """Text plus, for each line, the statement on it (None for a blank line)."""
    lines, on = [], []
    for st in sts:
        while rng.random() < blanks:
            lines.append("" if plain else rng.choice(["", "", " ", "\t  ", "# a comment", "  # <http://e/a> <http://e/b> \"c\" .", "#", "#\u00e9\u2028\" \\"]))
            on.append(None)
        text = nt_line(st, label=str, rng=None if plain else rng)
        if not plain and rng.random() < 0.1:
            text = rng.choice([" ", "\t"]) + text
        if not plain and rng.random() < 0.1:
            text += rng.choice([" ", "\t", "  ", "#", " # c . <", "\t# \u4e2d \"."])
        lines.append(text)
        on.append(st)
    if callable(eol):
        eols = [eol() for _ in lines]
    else:
        eols = [eol] * len(lines)
    if lines and not final:
        eols[-1] = ""
    return "".join(a + b for a, b in zip(lines, eols)), lines, eols, on


# -- Turtle --------------------------------------------------------------------------

# What relative references mean (the examples of RFC 3986, section 5.4, and others worked
# out by hand from section 5.2).
RESOLVE = {
    "http://a/b/c/d;p?q": {
        "g": "http://a/b/c/g", "./g": "http://a/b/c/g", "g/": "http://a/b/c/g/", "/g": "http://a/g", "//g": "http://g",
        "?y": "http://a/b/c/d;p?y", "g?y": "http://a/b/c/g?y", "#s": "http://a/b/c/d;p?q#s", "g#s": "http://a/b/c/g#s",
        "g?y#s": "http://a/b/c/g?y#s", ";x": "http://a/b/c/;x", "g;x": "http://a/b/c/g;x", "g;x?y#s": "http://a/b/c/g;x?y#s",
        "": "http://a/b/c/d;p?q", ".": "http://a/b/c/", "./": "http://a/b/c/", "..": "http://a/b/", "../": "http://a/b/",
        "../g": "http://a/b/g", "../..": "http://a/", "../../": "http://a/", "../../g": "http://a/g", "../../../g": "http://a/g",
        "/./g": "http://a/g", "/../g": "http://a/g", "g.": "http://a/b/c/g.", ".g": "http://a/b/c/.g", "g..": "http://a/b/c/g..",
        "..g": "http://a/b/c/..g", "./../g": "http://a/b/g", "./g/.": "http://a/b/c/g/", "g/./h": "http://a/b/c/g/h",
        "g/../h": "http://a/b/c/h", "g;x=1/./y": "http://a/b/c/g;x=1/y", "g;x=1/../y": "http://a/b/c/y",
        "g?y/./x": "http://a/b/c/g?y/./x", "g?y/../x": "http://a/b/c/g?y/../x", "g#s/../x": "http://a/b/c/g#s/../x",
        "#": "http://a/b/c/d;p?q#", "g#": "http://a/b/c/g#", "g?": "http://a/b/c/g?", "g;": "http://a/b/c/g;"},
    EX: {"": EX, "#": EX + "#", "#f": EX + "#f", "x": EX + "x", "y/z": EX + "y/z", "x#": EX + "x#", "dir/": EX + "dir/", "//other.org/x/": "http://other.org/x/",
         "?q=1": EX + "?q=1", "\u00e9": EX + "\u00e9", "/dir/": EX + "dir/", "x?": EX + "x?"},
    EX + "dir/": {"": EX + "dir/", "#": EX + "dir/#", "x": EX + "dir/x", "..": EX, "../w": EX + "w", "/w": EX + "w", "a b".replace(" ", "%20"): EX + "dir/a%20b",
                  "y/../z": EX + "dir/z", "../": EX, "%2e": EX + "dir/%2e", "//other.org/x/": "http://other.org/x/"},
    "http://other.org/x/": {"": "http://other.org/x/", "x": "http://other.org/x/x", "../../y": "http://other.org/y", "x;p=1#": "http://other.org/x/x;p=1#"},
    "http://other.org": {"": "http://other.org", "x": "http://other.org/x", "#f": "http://other.org#f", "?q": "http://other.org?q", "../x": "http://other.org/x"},
    "urn:x:y": {"": "urn:x:y", "#f": "urn:x:y#f", "#": "urn:x:y#", "?q": "urn:x:y?q"},
    "HTTP://Ex.org/A#f": {"": "HTTP://Ex.org/A", "b": "HTTP://Ex.org/b", "#g": "HTTP://Ex.org/A#g", "#": "HTTP://Ex.org/A#"},
    "file:///a/b": {"": "file:///a/b", "c": "file:///a/c", "../c": "file:///c", "#": "file:///a/b#", "?q": "file:///a/b?q"},
    "app://x/y/z": {"": "app://x/y/z", "w": "app://x/y/w", "#f": "app://x/y/z#f", "/w": "app://x/w"},
}
BASES = sorted(RESOLVE)
# Absolute IRIs stay as they are, whatever the base.
ODD = ["HTTP://Ex.ORG/a", EX + "q?", EX + "p;", EX + "f#", EX + "q?#", "urn:X:%c3%a9", EX + "a;p=1;q", "http://EX.org:80/a", "x-y+z.1:a/b"]


TIGHT = "\0"  # white space only if the tokens around it would run together


def separable(prev, token):
    nxt = token[0]
    if prev.isspace() or nxt.isspace():
        return True
    if prev in "\"'":
        return nxt not in "\"'@^"
    return prev in ">]);,[(" or nxt in "<\"'[(]);," or token == "."


class TurtleGen:
    """Writes a random Turtle document while computing the triples it stands for."""

    def __init__(self, rng, nstatements, comments=True, eol="\n", prefixes=True, base=True, labels=None, deep=2, raw=False):
        self.rng, self.eol, self.raw = rng, eol, raw
        self.out = []
        self.tight = False
        self.sts = []
        self.n = nstatements
        self.prefixes = {}
        self.base = None
        self.fresh = 0
        self.comments = comments
        self.allow_prefix, self.allow_base = prefixes, base
        self.labels = rng.sample(LABELS, rng.randrange(0, 6)) if labels is None else labels
        self.deep = deep
        self.marks = []  # offsets (in self.out items) where a statement has just ended

    def ws(self, force=True):
        r = self.rng.random()
        if r > 0.85:
            return TIGHT
        if self.comments and r < 0.04:
            return " # comment \" ' < . ; [ ( \u00e9" + self.eol
        if r < 0.12:
            return self.eol
        if r < 0.2:
            return "\t"
        if r < 0.3 and not force:
            return ""
        return " "

    def w(self, *parts):
        for x in parts:
            if x == TIGHT:
                self.tight = True
            elif x:
                if self.tight and self.out and not separable(self.out[-1][-1], x):
                    self.out.append(" ")
                self.tight = False
                self.out.append(x)

    def newb(self):
        self.fresh += 1
        return B(("anon", self.fresh))

    def emit(self, s, p, o):
        self.sts.append((s, p, o, None))

    def directive(self):
        r = self.rng
        if self.allow_base and (r.random() < 0.3 or not self.allow_prefix):
            b = ref = r.choice([EX, EX + "dir/", "http://other.org/x/"] + BASES)
            if self.base and r.random() < 0.4:
                rel = [(k, v) for k, v in RESOLVE[self.base].items() if v in RESOLVE]
                if rel:
                    ref, b = r.choice(rel)
            self.base = b
            if r.random() < 0.6:
                self.w("@base", self.ws(), f"<{ref}>", self.ws(), ".", self.eol)
            else:
                self.w(r.choice(["BASE", "base", "BaSe"]), self.ws(), f"<{ref}>", self.eol)
            return
        name = r.choice(["ex", "p", "", "a.b", "o", "q1"])
        iri = r.choice([EX, EX + "e#", "urn:x:", "http://other.org/", EX + "c/"])
        ref = iri
        if self.base and r.random() < 0.4:
            ref, iri = r.choice(sorted(RESOLVE[self.base].items()))
        self.prefixes[name] = iri
        if r.random() < 0.6:
            self.w("@prefix", " ", name + ":", self.ws(), f"<{ref}>", self.ws(), ".", self.eol)
        else:
            self.w(r.choice(["PREFIX", "prefix", "PreFix"]), " ", name + ":", self.ws(), f"<{ref}>", self.eol)

    LOCALS = ["a", "b", "d1", "x-y", "n.o", "l\\~m", "%20z", "e\\,f", "", "0a", "a:b", "\u00e9", "x_y"]

    def iri(self):
        r = self.rng
        k = r.random()
        if k < 0.45 and self.prefixes:
            name = r.choice(sorted(self.prefixes))
            local = r.choice(self.LOCALS)
            return f"{name}:{local}", I(self.prefixes[name] + local.replace("\\", ""))
        if k < 0.6 and self.base:
            rel, iri = r.choice(sorted(RESOLVE[self.base].items()))
            return f"<{rel}>", I(iri)
        if k < 0.65:
            return "xsd:integer", I(XSD + "integer") if "xsd" not in self.prefixes else None
        iri = r.choice(IRIS if r.random() < 0.85 else ODD)
        if r.random() < 0.1:
            i = r.randrange(len(iri))
            return "<" + iri[:i] + ("\\U%08X" % ord(iri[i])) + iri[i + 1:] + ">", I(iri)
        return f"<{iri}>", I(iri)

    def string(self, v):
        r = self.rng
        k = r.random()
        if k < 0.5:
            return '"' + nt_string(v, r) + '"'
        if k < 0.65:
            one = {"'": ["\\'"], '"': ['"', '\\"']}
            return "'" + "".join(r.choice(one[c]) if c in one else nt_string(c, r) for c in v) + "'"
        q = r.choice(['"""', "'''"])
        body = []
        run = 0  # quotes of this kind just written as they are
        for i, c in enumerate(v):
            if c == "\\" or c in "\"'":
                # Up to two quotes can stand as they are, except at the end.
                bare = c != "\\" and r.random() < 0.5 and (c != q[0] or run < 2 and i + 1 < len(v))
                run = run + 1 if bare and c == q[0] else 0
                body.append(c if bare else "\\" + c)
                continue
            run = 0
            if (c == "\r" or (c == "\n" and self.eol != "\n")) and not (self.raw and r.random() < 0.7):
                body.append({"\r": "\\r", "\n": "\\n"}[c])
            else:
                body.append(c)
        return q + "".join(body) + q

    def literal(self):
        r = self.rng
        k = r.random()
        if k < 0.12:
            v = r.choice(["0", "1", "-5", "+7", "007"])
            return v, L(v, None, XSD + "integer")
        if k < 0.2:
            v = r.choice(["1.5", "-0.5", ".5", "+1.0"])
            return v, L(v, None, XSD + "decimal")
        if k < 0.28:
            v = r.choice(["1e5", "1.5E-3", ".5e1", "1.e2"])
            return v, L(v, None, XSD + "double")
        if k < 0.34:
            v = r.choice(["true", "false"])
            return v, L(v, None, XSD + "boolean")
        v = gen_string(r, 0.4).replace("\\", "/") if r.random() < 0.5 else gen_string(r, 0.4)
        if self.raw and r.random() < 0.2:
            v = v[:3] + r.choice(["\r\n", "\r", "\n", "\r\n\r\n", "\n\r", "\r\n "]) + v[3:]
        s = self.string(v)
        k = r.random()
        if k < 0.4:
            return s, L(v)
        if k < 0.7:
            lang = r.choice(["en", "fr-ca", "x-1a2b"])
            return s + "@" + lang, L(v, lang)
        t, m = self.iri()
        if m is None:
            t, m = f"<{EX}dt>", I(EX + "dt")
        return s + "^^" + t, L(v, None, m[1])

    def verb(self):
        if self.rng.random() < 0.2:
            return "a", TYPE
        t, m = self.iri()
        return (t, m) if m is not None else (f"<{EX}p>", I(EX + "p"))

    def node(self, depth, literal_ok=True):
        """Writes a subject or object; returns its term."""
        r = self.rng
        k = r.random()
        if literal_ok and k < 0.35:
            t, m = self.literal()
            self.w(t)
            return m
        if k < 0.5 and self.labels:
            lab = r.choice(self.labels)
            self.w("_:" + lab)
            return B(lab)
        if k < 0.55:
            self.w(r.choice(["[]", "[ ]"]))
            return self.newb()
        if k < 0.65 and depth > 0:
            b = self.newb()
            self.w("[", self.ws(False))
            self.po(b, depth - 1)
            self.w(self.ws(False), "]")
            return b
        if k < 0.75 and depth > 0:
            self.w("(", self.ws(False))
            items = []
            for _ in range(r.randrange(0, 4)):
                items.append(self.node(depth - 1))
                self.w(self.ws())
            self.w(")")
            cell = NIL
            for it in reversed(items):
                b = self.newb()
                self.emit(b, FIRST, it)
                self.emit(b, REST, cell)
                cell = b
            return cell
        t, m = self.iri()
        if m is None:
            t, m = f"<{EX}z>", I(EX + "z")
        self.w(t)
        return m

    def po(self, subj, depth):
        r = self.rng
        n = 1 + (r.random() < 0.3) + (r.random() < 0.1)
        for i in range(n):
            if i:
                self.w(self.ws(), ";", self.ws())
            t, p = self.verb()
            self.w(t, self.ws())
            for j in range(1 + (r.random() < 0.25) + (r.random() < 0.1)):
                if j:
                    self.w(self.ws(), ",", self.ws())
                self.emit(subj, p, self.node(depth))
        if r.random() < 0.15:
            self.w(self.ws(), ";")

    def statement(self):
        if self.rng.random() < 0.06:
            self.w("[", self.ws(False))
            self.po(self.newb(), self.deep)
            self.w(self.ws(False), "]", self.ws(), ".", self.eol)
            return
        s = self.node(self.deep, literal_ok=False)
        self.w(self.ws())
        self.po(s, self.deep)
        self.w(self.ws(), ".", self.rng.choice([self.eol, self.eol, " "]))

    def doc(self):
        for _ in range(self.n):
            if (self.allow_prefix or self.allow_base) and self.rng.random() < 0.25:
                self.directive()
            self.statement()
            self.marks.append(len("".join(self.out)))
        return "".join(self.out), list(dict.fromkeys(self.sts))


def turtle_doc(rng, n, **kw):
    return TurtleGen(rng, n, **kw).doc()


# -- JSON-LD --------------------------------------------------------------------------


NATIVE = {("0", XSD + "integer"): 0, ("1", XSD + "integer"): 1, ("-5", XSD + "integer"): -5, ("true", XSD + "boolean"): True,
          ("false", XSD + "boolean"): False, ("1.5E0", XSD + "double"): 1.5, ("-2.5E-1", XSD + "double"): -0.25, ("1.0E21", XSD + "double"): 1e21}


def jsonld_doc(rng, sts, context_url=None, fixed=None):
    """JSON-LD for quads. With context_url, terms are defined by a remote context:
    returns (object, remote context or None)."""
    ctx = {}
    terms = {}
    preds = sorted({st[1][1] for st in sts if st[1] != TYPE})
    for i, p in enumerate(preds):
        if fixed:
            if p in fixed:
                terms[p] = fixed[p]
        elif context_url or rng.random() < 0.4:
            terms[p] = "t%d" % i
            ctx["t%d" % i] = {"@id": p}

    def ref(t):
        return t[1] if t[0] == "i" else "_:" + t[1]

    def val(o):
        if o[0] != "l":
            return {"@id": ref(o)}
        if o[2] is not None:
            return {"@value": o[1], "@language": o[2]}
        if o[3] is not None and o[3] != XSD + "string":
            if (o[1], o[3]) in NATIVE and rng.random() < 0.6:
                v = NATIVE[(o[1], o[3])]
                return v if rng.random() < 0.5 else {"@value": v}
            return {"@value": o[1], "@type": o[3]}
        return {"@value": o[1]} if rng.random() < 0.6 else o[1]

    graphs = {}
    for s, p, o, g in sts:
        node = graphs.setdefault(g, {}).setdefault(s, {"@id": ref(s)})
        if p == TYPE and o[0] != "l":
            node.setdefault("@type", []).append(ref(o))
        else:
            node.setdefault(terms.get(p[1], p[1]), []).append(val(o))
    top = list(graphs.get(None, {}).values())
    for g, nodes in graphs.items():
        if g is not None:
            top.append({"@id": ref(g), "@graph": list(nodes.values())})
    rng.shuffle(top)
    doc = {"@graph": top}
    remote = None
    if context_url:
        doc["@context"] = context_url
        remote = {"@context": ctx}
    elif ctx:
        doc["@context"] = ctx
    return doc, remote


def jsonld_statements(rng, n, labels=None):
    """Quads that JSON-LD can say and pyld keeps."""
    out = []
    for s, p, o, g in gen_statements(rng, n, quads=True, labels=labels, nasty=0.3, ascii_iris=True):
        if o[0] == "l":
            if o[2] is not None:
                o = L(o[1], o[2].lower())
            elif o[3] == XSD + "double":
                o = L(rng.choice(["1.5E0", "-2.5E-1", "1.0E21"]), None, o[3])  # (pyld writes doubles its own way)
        safe = lambda t: t if t is None or t[0] != "i" or t[1].startswith(("http://ex.org/", "urn:", "http://other")) else I(EX + "safe")
        s, p, o, g = safe(s), safe(p), safe(o), safe(g)
        if any(x is not None and x[0] == "b" and not x[1].replace("-", "").isalnum() for x in (s, o, g)):
            continue
        out.append((s, p, o, g))
    return list(dict.fromkeys(out))
