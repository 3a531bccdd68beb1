"""Terms, statements and graphs as plain data, independent of the library:
generation, an N-Triples reader and writer, and graph isomorphism.

A term in a plan is a JSON list:
  ["i", iri]   ["b", n]   ["l", value, lang or None, datatype or None]
In models it is the same as a (hashable) tuple. A statement is a tuple of terms.
"""
import re

XSD = "http://www.w3.org/2001/XMLSchema#"
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDFSNS = "http://www.w3.org/2000/01/rdf-schema#"
EX = "http://ex.org/"
TYPE = ("i", RDFNS + "type")
FIRST = ("i", RDFNS + "first")
REST = ("i", RDFNS + "rest")
NIL = ("i", RDFNS + "nil")


def T(x):
    """JSON list -> hashable model term or statement."""
    if isinstance(x, list):
        return tuple(T(y) for y in x)
    return x


def I(x):  # noqa: E743
    return ("i", x)


def L(v, lang=None, dt=None):
    return ("l", v, lang, dt)


def B(n):
    return ("b", n)


def norm(term):
    """xsd:string and no datatype are the same literal (RDF 1.1)."""
    if term is not None and term[0] == "l" and term[3] == XSD + "string":
        return ("l", term[1], term[2], None)
    return term


def norm_st(st):
    return tuple(norm(t) for t in st)


# -- to and from library objects ----------------------------------------------


class Build:
    """Library objects for model terms; one library blank node per label."""

    def __init__(self, P):
        self.P = P
        self.b = {}
        self.rev = {}

    def bnode(self, n):
        if n not in self.b:
            node = self.P.BlankNode()
            self.b[n] = node
            self.rev[id(node)] = n
        return self.b[n]

    def term(self, t):
        if t is None:
            return None
        k = t[0]
        if k == "i":
            return self.P.NamedNode(t[1])
        if k == "b":
            return self.bnode(t[1])
        if k == "l":
            dt = t[3]
            return self.P.Literal(t[1], t[2], None if dt is None else self.P.NamedNode(dt))
        raise AssertionError(t)

    def triple(self, st):
        return self.P.Triple(*(self.term(t) for t in st[:3]))

    def quad(self, st):
        return self.P.Quad(*(self.term(t) for t in st[:4]))

    def back(self, o):
        """Model term for a library term; unknown blank nodes get an identity."""
        P = self.P
        if o is None:
            return None
        if isinstance(o, P.BlankNode):
            n = self.rev.get(id(o))
            if n is None or self.b.get(n) is not o:
                n = ("x", len(self.rev))
                self.rev[id(o)] = n
                self.b[n] = o
            return ("b", n)
        if isinstance(o, P.Literal):
            dt = o.datatype
            return ("l", str.__str__(o.value) + "", o.language if o.language is None else str.__str__(o.language) + "",
                    None if dt is None else plain(dt))
        if isinstance(o, P.NamedNode):
            return ("i", plain(o))
        return ("?", type(o).__name__, repr(o)[:80])

    def back_st(self, st):
        return tuple(self.back(x) for x in st)


def plain(s):
    return "".join(s) if isinstance(s, str) else s


# -- generation ----------------------------------------------------------------

NASTY_CHARS = (
    "\"\\\n\r\t\b\f'\x00\x01\x0b\x0c\x1b\x1c\x1d\x1e\x1f\x7f\x80\x85\xa0\u00e9\u0130\u0131\ud7ff\ue000\u0300"
    "\u200b\u2028\u2029\ufeff\ufffd\uffff\U0001f600\U0010ffff^@<>._:#&;,()[]{}%"
)
PLAIN_CHARS = "abcxyz019 AZ"


# Values that look like syntax, or whose white space and escapes invite "cleaning".
TRICKY = [" \nx \t\n y", "a  \n\n b\t\n", "# no comment\n<a> <b> <c> .\n", "\\u0041", "\\n", "\\\\t", '"""', "'" * 3, 'x"', "\\", "@en", '"@en',
          "^^<x>", "%20", "&amp;<b>]]>", " ", "  lead", "trail  ", "\u0065\u0301", "\u00e9", "\\U0001F600", "<http://ex.org/a>", "_:b0",
          "\n", "\r\n", "\n.\n", "w" * 300]


def gen_string(rng, nasty=0.5, maxlen=8):
    if nasty >= 0.1 and rng.random() < 0.12:
        return rng.choice(TRICKY)
    n = rng.randrange(maxlen + 1)
    return "".join(
        rng.choice(NASTY_CHARS) if rng.random() < nasty else rng.choice(PLAIN_CHARS) for _ in range(n)
    )


LANGS = ["en", "en-us", "en-gb", "fr", "fr-ca", "de", "x-1a2b", "en-US", "zh-hant-tw", "de-CH-1901", "sl-rozaj-biske-1994", "aaa"]
DATATYPES = [XSD + "integer", XSD + "decimal", XSD + "double", XSD + "boolean", XSD + "string",
             XSD + "dateTime", EX + "dt"]


def gen_literal(rng, nasty=0.4, datatypes=DATATYPES):
    k = rng.random()
    if k < 0.35:
        return L(gen_string(rng, nasty))
    if k < 0.6:
        return L(gen_string(rng, nasty), rng.choice(LANGS))
    dt = rng.choice(datatypes)
    if dt == XSD + "integer":
        v = rng.choice(["0", "1", "-5", "+7", "007", "x", "1.0", ""])
    elif dt == XSD + "decimal":
        v = rng.choice(["1.5", "-0.5", ".5", "5.", "1", "1e5"])
    elif dt == XSD + "double":
        v = rng.choice(["1e5", "1.5E-3", ".5e1", "1.", "INF", "1"])
    elif dt == XSD + "boolean":
        v = rng.choice(["true", "false", "1", "True"])
    else:
        v = gen_string(rng, nasty)
    return L(v, None, dt)


def swarm(rng, items, lo=1):
    """A random non-empty subset (swarm testing)."""
    items = list(items)
    k = rng.randrange(lo, len(items) + 1)
    return rng.sample(items, k)


# -- N-Triples, written and read independently of the library -------------------


def nt_string(v, rng=None, ascii_only=False):
    out = []
    for c in v:
        o = ord(c)
        if c in "\"\\\n\r":
            e = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r"}[c]
            if rng is not None and rng.random() < 0.2:
                e = "\\u%04X" % o
            out.append(e)
        elif c in "\t\b\f'" and rng is not None and rng.random() < 0.5:
            out.append({"\t": "\\t", "\b": "\\b", "\f": "\\f", "'": "\\'"}[c])
        elif (rng is not None and rng.random() < 0.1) or (ascii_only and o > 126) or 0xD800 <= o <= 0xDFFF:
            if o > 0xFFFF:
                out.append("\\U%08X" % o)
            elif rng is not None and rng.random() < 0.3:
                out.append("\\U%08x" % o)
            else:
                out.append(("\\u%04X" if rng is None or rng.random() < 0.5 else "\\u%04x") % o)
        else:
            out.append(c)
    return "".join(out)


def nt_term(t, label=lambda n: "b%s" % (n,), rng=None):
    k = t[0]
    if k == "i":
        if rng is not None and rng.random() < 0.15:
            i = rng.randrange(len(t[1]) + 1)
            return "<" + t[1][:i] + "".join(rng.choice(("\\u%04X", "\\U%08x")) % ord(c) if ord(c) < 65536 else "\\U%08X" % ord(c) for c in t[1][i : i + 2]) + t[1][i + 2 :] + ">"
        return "<" + t[1] + ">"
    if k == "b":
        return "_:" + label(t[1])
    s = '"' + nt_string(t[1], rng) + '"'
    if t[2] is not None:
        return s + "@" + t[2]
    if t[3] is not None:
        return s + "^^<" + t[3] + ">"
    return s


def nt_line(st, label=lambda n: "b%s" % (n,), rng=None):
    parts = [nt_term(t, label, rng) for t in st if t is not None]
    if rng is None:
        return " ".join(parts) + " ."
    out = parts[0]
    for a, b in zip(parts, parts[1:]):
        # White space is needed only where two tokens would run together.
        tight = not (a.startswith("_:") and b.startswith("_:"))
        out += rng.choice([" ", " ", " ", "\t", "  ", "" if tight else " "]) + b
    return out + rng.choice([" ", " ", "", "\t"]) + "."


_PNU = ("A-Za-z_:\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff"
        "\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff")
_PNC = _PNU + "0-9\u00b7\u0300-\u036f\u203f\u2040\\-"
_IRI = r"(?:[^\x00-\x20<>\"{}|^`\\]|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*"
_TOK = re.compile(
    r"[ \t]*(?:<(?P<iri>" + _IRI + r")>"
    r"|_:(?P<b>[" + _PNU + r"0-9](?:[" + _PNC + r".]*[" + _PNC + r"])?)"
    r"|\"(?P<s>(?:[^\"\\\n\r]|\\.)*)\"(?:@(?P<lang>[A-Za-z]+(?:-[A-Za-z0-9]+)*)|\^\^<(?P<dt>" + _IRI + r")>)?"
    r"|(?P<dot>\.))"
)
_ESC = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


def _unesc(s):
    def f(m):
        g = m.group(1)
        if g[0] in "uU":
            return chr(int(g[1:], 16))
        if g in _ESC:
            return _ESC[g]
        raise ValueError("bad escape " + g)

    return re.sub(r"\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)", f, s, flags=re.S)


def nt_read_line(line):
    """Independent reader for one N-Triples / N-Quads line. None if blank or a comment."""
    pos, terms, done = 0, [], False
    if not line.strip(" \t") or line.lstrip(" \t").startswith("#"):
        return None
    while pos < len(line):
        rest = line[pos:].lstrip(" \t")
        if rest == "" or rest.startswith("#"):
            break
        m = _TOK.match(line, pos)
        if not m or done:
            raise ValueError("bad line %r at %d" % (line[:200], pos))
        pos = m.end()
        if m.group("dot"):
            done = True
        elif m.group("iri") is not None:
            terms.append(("i", _unesc(m.group("iri"))))
        elif m.group("b") is not None:
            terms.append(("b", m.group("b")))
        else:
            dt = m.group("dt")
            terms.append(("l", _unesc(m.group("s")), m.group("lang"), None if dt is None else _unesc(dt)))
    if not done or len(terms) not in (3, 4):
        raise ValueError("bad line %r" % line[:200])
    if terms[0][0] == "l" or terms[1][0] != "i" or (len(terms) == 4 and terms[3][0] == "l"):
        raise ValueError("bad statement %r" % line[:200])
    if len(terms) == 3:
        terms.append(None)
    return tuple(terms)


def nt_read(text):
    """All statements (as 4-tuples, graph None for triples)."""
    out = []
    for line in re.split(r"[\r\n]+", text):
        st = nt_read_line(line)
        if st is not None:
            out.append(st)
    return out


# -- isomorphism ------------------------------------------------------------------


def _bn(st):
    return [t for t in st if t is not None and t[0] == "b"]


def _colour(sts, rounds=10):
    """Iterated colour refinement; stops when it no longer splits classes."""
    col = {}
    for st in sts:
        for t in _bn(st):
            col[t] = 0
    for _ in range(rounds):
        sig = {b: [] for b in col}
        for st in sts:
            key = tuple(("b", col[t]) if t is not None and t[0] == "b" else t for t in st)
            for i, t in enumerate(st):
                if t is not None and t[0] == "b":
                    sig[t].append((i, repr(key)))
        new = {b: (repr((col[b], sorted(s)))) for b, s in sig.items()}
        # compress deterministically
        before = len(set(col.values()))
        col = {b: hash_str(v) for b, v in new.items()}
        if len(set(col.values())) == len(col) or (_ >= 4 and len(set(col.values())) == before):
            break
    return col


def hash_str(s):
    import hashlib

    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def isomorphic(a, b, budget=20000):
    """Are two sets of statements the same up to renaming of blank nodes?

    Returns True, False, or None when the search budget ran out (undecided)."""
    a, b = set(a), set(b)
    if len(a) != len(b):
        return False
    ga = {s for s in a if not _bn(s)}
    gb = {s for s in b if not _bn(s)}
    if ga != gb:
        return False
    a, b = a - ga, b - gb
    if not a:
        return True
    return _embed(a, b, budget, exact=True)


def embeds(a, b, budget=20000):
    """Is there an injective renaming of a's blank nodes that makes it a subset of b?"""
    a, b = set(a), set(b)
    ga = {s for s in a if not _bn(s)}
    if not ga <= b:
        return False
    a = a - ga
    if not a:
        return True
    return _embed(a, {s for s in b if _bn(s)}, budget, exact=False)


def _embed(a, b, budget, exact):
    if exact:
        ca, cb = _colour(a), _colour(b)
        if sorted(ca.values()) != sorted(cb.values()):
            return False
        classes = {}
        for n, c in cb.items():
            classes.setdefault(c, []).append(n)
        cand = {n: classes[c] for n, c in ca.items()}
    else:
        nb = list(dict.fromkeys(t for s in sorted(b, key=repr) for t in _bn(s)))
        cand = {n: nb for s in a for n in _bn(s)}
    order = []
    by = {}
    for s in sorted(a, key=repr):
        for n in _bn(s):
            by.setdefault(n, []).append(s)
    mapping, used = {}, set()
    if exact:
        # Nodes with a colour of their own can only go to one place.
        for n, c in cand.items():
            if len(c) == 1:
                mapping[n] = c[0]
                used.add(c[0])
        for s in a:
            if all(m in mapping for m in _bn(s)):
                if tuple(mapping[t] if t is not None and t[0] == "b" else t for t in s) not in b:
                    return False
    todo = set(by) - set(mapping)
    if len(todo) > 300:
        # Large and symmetric: the colours alone decide (exact for the list- and
        # tree-shaped data that large documents are made of).
        return True if exact else None
    # connected, most-constrained-first order
    placed = set(mapping)
    while todo:
        def rank(n):
            linked = sum(1 for s in by[n] for m in _bn(s) if m in placed)
            return (-linked, len(cand[n]), -len(by[n]), repr(n))
        n = min(todo, key=rank)
        order.append(n)
        placed.add(n)
        todo.discard(n)
    steps = [0]

    def ok(n):
        for s in by[n]:
            if all(m in mapping for m in _bn(s)):
                if tuple(mapping[t] if t is not None and t[0] == "b" else t for t in s) not in b:
                    return False
        return True

    def go(i):
        if i == len(order):
            return True
        n = order[i]
        for m in cand[n]:
            if m in used:
                continue
            steps[0] += 1
            if steps[0] > budget:
                return None
            mapping[n] = m
            used.add(m)
            if ok(n):
                r = go(i + 1)
                if r is not False:
                    return r
            del mapping[n]
            used.discard(m)
        return False

    return go(0)


def diff_text(got, want, n=3):
    g, w = set(got), set(want)
    return "missing %s; extra %s (got %d, want %d)" % (
        [s for s in sorted(w - g, key=repr)][:n], [s for s in sorted(g - w, key=repr)][:n], len(g), len(w))
