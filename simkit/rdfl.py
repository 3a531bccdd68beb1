"""rdflib graphs for model statements and back."""
from .terms import EX, RDFNS, nt_line
from xml.sax.saxutils import escape, quoteattr


def to_term(t, rdflib, bnodes):
    if t[0] == "i":
        return rdflib.URIRef(t[1])
    if t[0] == "b":
        return bnodes.setdefault(t[1], rdflib.BNode()) if t[1] not in bnodes else bnodes[t[1]]
    return rdflib.Literal(t[1], lang=t[2], datatype=None if t[3] is None else rdflib.URIRef(t[3]))


def to_graph(sts, rdflib, bnodes=None):
    g = rdflib.Graph()
    bnodes = {} if bnodes is None else bnodes
    for st in sts:
        g.add(tuple(to_term(t, rdflib, bnodes) for t in st[:3]))
    return g


def back_term(t, rdflib):
    if isinstance(t, rdflib.BNode):
        return ("b", str(t))
    if isinstance(t, rdflib.Literal):
        return ("l", str(t), t.language, None if t.datatype is None else str(t.datatype))
    return ("i", str(t))


def back_graph(g, rdflib):
    return {tuple(back_term(t, rdflib) for t in st) for st in g.triples((None, None, None))}


def xml_safe(sts):
    """Can these statements be written as RDF/XML by rdfxml()?"""
    for st in sts:
        if not st[1][1].startswith(EX) or not st[1][1][len(EX):].isalpha() or not st[1][1].isascii():
            return False
        for t in st:
            if t[0] == "l" and any((ord(c) < 32 and c not in "\n\t") or ord(c) in (0xFFFE, 0xFFFF) for c in t[1]):
                return False
    return True


def rdfxml(sts, rel=None):
    """`rel`: an IRI written as the empty reference."""
    ref = lambda x: quoteattr("" if x == rel else x)
    out = ['<?xml version="1.0" encoding="utf-8"?><rdf:RDF xmlns:rdf="%s" xmlns:ex="%s">' % (RDFNS, EX)]
    for s, p, o in sts:
        out.append("<rdf:Description %s=%s>" % (("rdf:about", ref(s[1])) if s[0] == "i" else ("rdf:nodeID", quoteattr(s[1]))))
        tag = "ex:" + p[1][len(EX):]
        if o[0] == "i":
            out.append("<%s rdf:resource=%s/>" % (tag, ref(o[1])))
        elif o[0] == "b":
            out.append("<%s rdf:nodeID=%s/>" % (tag, quoteattr(o[1])))
        else:
            a = ' xml:lang="%s"' % o[2] if o[2] else " rdf:datatype=%s" % quoteattr(o[3]) if o[3] else ""
            out.append("<%s%s>%s</%s>" % (tag, a, escape(o[1]), tag))
        out.append("</rdf:Description>")
    return "".join(out) + "</rdf:RDF>"


def ntriples(sts, rel=None):
    if rel is not None:
        sts = [tuple(("i", "") if t == ("i", rel) else t for t in st) for st in sts]
    return "".join(nt_line(st, label=str) + "\n" for st in sts)
