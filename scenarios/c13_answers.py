"""C13: what SPARQL calls return, over a network that fails at any byte."""
import json
import xml.etree.ElementTree as ET
from urllib.parse import urljoin
from xml.sax.saxutils import escape

from simkit.core import check, crash, Violation, short
from simkit.net import gen_fault
from simkit.terms import I, L, B, T, EX, XSD, RDFNS, isomorphic, nt_line

RUNS = {"quick": 9000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: in-memory TCP with connection faults at any byte, scripted endpoint, answers known by construction"
RULE = ("Each run makes 1-8 calls (queries for JSON, XML results or RDF, updates; GET, form POST, direct POST) on 1-2 server "
        "objects. Every response is drawn: status, content type (with parameters, missing, wrong), body (complete, "
        "malformed from the start or only at a late point, not UTF-8, cut), framing (length, chunked, until close), compression, kept-alive connections, redirects; and "
        "faults: refused, unresolvable, timed out, reset while sending, lost before or after the server acted, cut at any "
        "byte, garbage, long stalls, stale kept-alive connections. What the call returns or raises is compared with what "
        "the endpoint really sent, known by construction.")
REAL = ["pymantic.sparql, requests, urllib3, http.client, rdflib and lxml parsing (all real)"]
STUB = ["TCP sockets (simulated, in memory)", "SPARQL endpoint (scripted)", "clock (simulated)", "uuid4 (seeded)"]
ASSUMPTIONS = ["A response without length or chunking ends where the connection ends; cutting it is only detectable in self-delimiting bodies (JSON, XML).",
               "http.client takes an orderly close inside the header block for the end of the headers; such closes are not injected.",
               "Content types are written in lower case."]

HOST = "sparql.example"


def preload():
    from simkit import world as W, net
    import rdflib

    net.install()
    for fmt, text in (("turtle", "<a> <b> <c> ."), ("xml", '<rdf:RDF xmlns:rdf="%s"/>' % RDFNS), ("nt", ""), ("n3", "")):
        rdflib.ConjunctiveGraph().parse(data=text, format=fmt, publicID=EX)


def text(rng):
    if rng.random() < 0.2:
        return rng.choice(["\u00e9\u00e9\u00e9\u00e9", "\u00fc\u00fc\u00fc\u00fc\u00fc", "\u00f1\u00f1\u20ac\u00f1", "\u0440\u0443\u0441", "\u65e5\u672c\u8a9e"])
    return "".join(rng.choice("ab1 \"\\'<>&;\n\t\u00e9\u4e2d\U0001f600]") for _ in range(rng.randrange(0, 8)))


def gen_json(rng):
    if rng.random() < 0.15:
        return {"head": {}, "boolean": rng.random() < 0.5}
    vs = ["s", "p", "o"][:rng.randrange(1, 4)]
    rows = []
    for _ in range(rng.choice([0, 1, 2, 5, 40])):
        row = {}
        for v in vs:
            k = rng.random()
            if k < 0.2:
                continue
            if k < 0.5:
                row[v] = {"type": "uri", "value": EX + "x"}
            elif k < 0.6:
                row[v] = {"type": "bnode", "value": "b0"}
            else:
                row[v] = {"type": "literal", "value": text(rng)}
                if rng.random() < 0.3:
                    row[v]["xml:lang"] = "en"
        rows.append(row)
    return {"head": {"vars": vs}, "results": {"bindings": rows}}


def xml_of(obj):
    out = ['<?xml version="1.0"?><sparql xmlns="http://www.w3.org/2005/sparql-results#"><head>']
    out += ['<variable name="%s"/>' % v for v in obj.get("head", {}).get("vars", [])]
    out.append("</head>")
    if "boolean" in obj:
        out.append("<boolean>%s</boolean>" % str(obj["boolean"]).lower())
    else:
        out.append("<results>")
        for row in obj["results"]["bindings"]:
            out.append("<result>")
            for v, b in row.items():
                tag = {"uri": "uri", "bnode": "bnode"}.get(b["type"], "literal")
                lang = ' xml:lang="en"' if "xml:lang" in b else ""
                out.append('<binding name="%s"><%s%s>%s</%s></binding>' % (v, tag, lang, escape(b["value"]), tag))
            out.append("</result>")
        out.append("</results>")
    out.append("</sparql>")
    return "".join(out)


def gen_rdf(rng):
    """Statements; IRIs may be relative (to the query URL)."""
    sts = []
    for _ in range(rng.choice([0, 1, 2, 4, 20])):
        s = rng.choice([I(EX + "s"), I(EX + "t"), B("x"), B("y"), I("rel"), I("#frag")])
        o = rng.choice([I(EX + "o"), B("x"), I("rel2"), L(text(rng)), L(text(rng), "en"), L("5", None, XSD + "integer"), L(text(rng), "fr-ca")])
        sts.append([s, I(EX + rng.choice(["p", "q"])), o])
    return sts


def turtle_of(sts):
    return "".join(nt_line(st) + "\n" for st in sts)


def rdfxml_of(sts):
    out = ['<?xml version="1.0" encoding="utf-8"?><rdf:RDF xmlns:rdf="%s" xmlns:ex="%s">' % (RDFNS, EX)]
    for s, p, o in sts:
        out.append('<rdf:Description %s="%s">' % ("rdf:about" if s[0] == "i" else "rdf:nodeID", escape(s[1])))
        tag = "ex:" + p[1][len(EX):]
        if o[0] == "i":
            out.append('<%s rdf:resource="%s"/>' % (tag, o[1]))
        elif o[0] == "b":
            out.append('<%s rdf:nodeID="%s"/>' % (tag, o[1]))
        else:
            a = ' xml:lang="%s"' % o[2] if o[2] else ' rdf:datatype="%s"' % o[3] if o[3] else ""
            out.append("<%s%s>%s</%s>" % (tag, a, escape(o[1]), tag))
        out.append("</rdf:Description>")
    return "".join(out) + "</rdf:RDF>"


CT = {"json": "application/sparql-results+json", "srx": "application/sparql-results+xml", "rdfxml": "application/rdf+xml", "turtle": "text/turtle"}
BROKEN = {"json": ["{", "", "<html>no</html>", '{"head": {}', "nope", "{'head': {}}"],
          "srx": ["<sparql>", "", "oops", "<a></b>", "<sparql"],
          "rdfxml": ["<rdf:RDF>", "", "<html>", "not xml"],
          "turtle": ["<a> <b> .", "@prefix x: .", "<a> <b> <c", "{ \"json\": 1 }", "<html><body>Error</body></html>", "<a> <b> <c> . <d"]}


def gen_response(rng, what, depth=0):
    r = {"status": 200, "framing": rng.choice(["length", "length", "chunked", "close"]), "enc": rng.choice([None, None, None, "gzip", "deflate"]),
         "keep": rng.random() < 0.5, "form": rng.choice(["json", "json", "srx", "rdfxml", "turtle"]), "bad": None, "ct": 0}
    k = rng.random()
    if what == "update" and rng.random() < 0.5:
        r["status"] = 204
    elif k < 0.2:
        r["status"] = rng.choice([201, 202, 203, 206, 300, 304, 400, 401, 403, 404, 405, 406, 408, 409, 413, 414, 429, 500, 500, 501, 502, 503, 503, 504, 599, 204])
    elif k < 0.27 and depth == 0:
        r["status"] = rng.choice([301, 302, 303, 307, 308])
        r["location"] = rng.choice(["/moved", "other", "http://%s/elsewhere" % HOST, None, "/sparql"])
        r["then"] = gen_response(rng, what, 1)
    r["data"] = gen_rdf(rng) if r["form"] in ("rdfxml", "turtle") else gen_json(rng)
    k = rng.random()
    if k < 0.15:
        r["bad"] = rng.choice(BROKEN[r["form"]])
    elif k < 0.2:
        r["bad"] = "\udcff\udcfe"  # not UTF-8
        r["framing"] = "length"
    elif k < 0.27:  # right at first, then not
        r["bad"] = {"how": rng.choice(["tail", "tail", "cut", "byte"]), "at": rng.random(), "tail": rng.randrange(4)}
        if r["bad"]["how"] == "cut" and r["form"] == "turtle":
            r["bad"]["how"] = "tail"
    k = rng.random()
    if k < 0.08:
        r["ct"] = rng.choice([None, "text/html", "application/json", "application/xml", "text/plain", "text/csv", "", "application/octet-stream"])
    elif k < 0.3:
        r["ct"] = rng.choice(["; charset=utf-8", ";charset=UTF-8", "; q=1"] + ["; charset=iso-8859-1"] * (r["form"] == "json"))
    return r


def gen(rng, tier, idx):
    servers = [{"post": rng.random() < 0.5, "direct": rng.random() < 0.3, "port": 80 if rng.random() < 0.7 else 8080}
               for _ in range(rng.randrange(1, 3))]
    ops = []
    for i in range(rng.randrange(1, 9)):
        what = rng.choice(["query", "query", "query", "update"])
        op = {"srv": rng.randrange(len(servers)), "what": what, "output": rng.choice(["json", "xml", None]), "resp": gen_response(rng, what), "faults": []}
        if rng.random() < 0.4:
            op["faults"] = [gen_fault(rng)]
            if op["faults"][0]["k"] in ("cut", "garbage", "stall") and rng.random() < 0.7:
                for r in (op["resp"],):
                    r["status"] = 200 if r["status"] < 300 or r["status"] >= 400 else r["status"]
                    r["bad"] = None
                    r["ct"] = 0
        ops.append(op)
    return {"servers": servers, "ops": ops, "sizes": rng.choice([[65536], [1], [7], [1, 3, 50, 1000], [4096]]), "netseed": rng.getrandbits(32)}


TAILS = {"json": ["{}", "]", "\n<html>", " error"], "srx": ["<x/>", "error", "</sparql>", "<!-- "],
         "rdfxml": ["<x/>", "error", "</rdf:RDF>", "<!-- "], "turtle": ["<d", "error", "<a> <b> .", "<html>500</html>"]}


def body_of(r):
    bad = r["bad"]
    if isinstance(bad, str):
        return bad.encode("utf-8", "surrogateescape")
    body = good_body(r)
    if bad is None:
        return body
    if bad["how"] == "tail":
        return body + TAILS[r["form"]][bad["tail"]].encode()
    at = int(bad["at"] * (len(body) - 1)) if body else 0
    return body[:at] if bad["how"] == "cut" else body[:at] + b"\xff" + body[at:]


def good_body(r):
    d = r["data"]
    return {"json": lambda: json.dumps(d, ensure_ascii=len(str(d)) % 2 == 0), "srx": lambda: xml_of(d), "rdfxml": lambda: rdfxml_of(T(d)),
            "turtle": lambda: turtle_of(T(d))}[r["form"]]().encode("utf-8")


def ctype_of(r):
    if r["ct"] == 0:
        return CT[r["form"]]
    if isinstance(r["ct"], str) and r["ct"].startswith(";"):
        return CT[r["form"]] + r["ct"]
    return r["ct"]


def usable(r):
    """The form the content type calls for, or None."""
    ct = (ctype_of(r) or "").split(";")[0].strip()
    for form, name in CT.items():
        if ct == name:
            return form
    return None


class Endpoint:
    def __init__(self, net):
        self.net = net
        self.script = []

    def handle(self, req):
        from simkit.net import Response

        if not self.script:
            return Response(599, "text/plain", "no script")
        r = self.script[0]
        if r["status"] in (301, 302, 303, 307, 308) and r.get("location") and "then" in r:
            self.script[0] = r["then"]
            return Response(r["status"], ctype_of(r), body_of(r), r["framing"], r["enc"], r["keep"], [("Location", r["location"])])
        return Response(r["status"], ctype_of(r), body_of(r), r["framing"], r["enc"], r["keep"])


def back_rdflib(g, rdflib):
    out = set()
    for s, p, o in g.triples((None, None, None)):
        out.add(tuple(term_rdflib(t, rdflib) for t in (s, p, o)))
    return out


def term_rdflib(t, rdflib):
    if isinstance(t, rdflib.BNode):
        return ("b", str(t))
    if isinstance(t, rdflib.Literal):
        return ("l", str(t), t.language, None if t.datatype is None else str(t.datatype))
    return ("i", str(t))


def run(plan, ctx):
    import random
    import rdflib
    from simkit import world as W
    from simkit.net import net

    S = W.SPARQL
    net.reset(ctx, random.Random(plan["netseed"]))
    net.sizes = plan["sizes"]
    ep = Endpoint(net)
    servers, urls = [], []
    for s in plan["servers"]:
        net.serve(HOST, s["port"], ep)
        url = "http://%s%s/sparql" % (HOST, "" if s["port"] == 80 else ":%d" % s["port"])
        urls.append(url)
        servers.append(S.SPARQLServer(url, post_queries=s["post"], post_directly=s["direct"]))

    for n, op in enumerate(plan["ops"]):
        srv, cfg = servers[op["srv"] % len(servers)], plan["servers"][op["srv"] % len(servers)]
        url = urls[op["srv"] % len(servers)]
        what = f"call {n} {op['what']}"
        ep.script = [op["resp"]]
        mark = len(net.served)
        net.begin(n, op["faults"])
        try:
            if op["what"] == "query":
                kw = {} if op["output"] is None else {"output": op["output"]}
                res = srv.query("SELECT * { ?s ?p ?o } # %d" % n, **kw)
            else:
                res = srv.update("INSERT DATA { <a> <b> %d }" % n)
            err = None
        except Exception as e:  # noqa: BLE001
            res, err = None, e
        finally:
            left = net.end()
        served = net.served[mark:]
        ctx.log(n, type(err).__name__, [(r.method, len(r.body)) for r in served], ctype_of(op["resp"]), len(body_of(op["resp"])), op["faults"])
        check(err is None or not crash(err, W.PREFIX), "crash", lambda: f"{what}: {err!r} out of the library itself")
        # What was really sent to this call, last response first.
        r = ep.script[0]
        redirected = r is not op["resp"]
        last = served[-1] if served else None
        complete = last is not None and last.delivered
        ambiguous = last is not None and last.maybe
        ctx.state((op["what"], r["status"], ctype_of(r), r["bad"], complete, [f["k"] for f in op["faults"]]))
        if not complete and not ambiguous:
            check(err is not None, "silent-failure", lambda: f"{what}: the response never arrived in full, but {short(res)} was returned")
            continue
        post = op["what"] == "update" or cfg["post"] or cfg["direct"]
        if redirected and post and last.method != "POST":
            check(err is not None, "redirect", lambda: f"{what}: redirected as {last.method}, returned {short(res)}")
            continue
        ok = expect(op, r, cfg)
        if not ok:
            check(err is not None, "silent-failure",
                  lambda: f"{what}: status {r['status']}, type {ctype_of(r)!r}, body {short(body_of(r))}: returned {short(res)}")
            ctx.probe("error-reported")
            continue
        if err is not None:
            check(ambiguous or redirected, "answer-lost",
                  lambda: f"{what}: status {r['status']}, type {ctype_of(r)!r}, body {short(body_of(r))}: raised {err!r}")
            continue
        if op["what"] == "update":
            check(res is not None and res is not False, "update", lambda: f"{what}: success reported as {res!r}")
            ctx.probe("update-done")
            continue
        form = usable(r)
        if ambiguous and form == "turtle":
            continue
        ctx.probe("answer-" + form)
        compare(what, res, r, form, url, last, redirected, rdflib)


def expect(op, r, cfg):
    """Must this (complete) response be taken as a success?"""
    if op["what"] == "update":
        return r["status"] in (200, 204)
    if r["status"] != 200:
        return False
    form = usable(r)
    if form is None or r["bad"] is not None:
        # every malformed body is malformed in the form its type announces, too
        return False
    return form == r["form"]


def compare(what, res, r, form, url, last, redirected, rdflib):
    d = r["data"]
    if form == "json":
        check(res == d and isinstance(res, dict), "wrong-answer", lambda: f"{what}: sent {short(d)}, returned {short(res)}")
    elif form == "srx":
        from lxml import etree

        try:
            got = ET.canonicalize(etree.tostring(res, encoding="unicode"))
        except Exception as e:  # noqa: BLE001
            raise Violation("wrong-answer", f"{what}: result XML returned as {res!r} ({e!r})")
        want = ET.canonicalize(body_of(r).decode("utf-8"))
        check(got == want, "wrong-answer", lambda: f"{what}: sent {short(want)}, returned {short(got)}")
    else:
        try:
            got = back_rdflib(res, rdflib)
        except Exception as e:  # noqa: BLE001
            raise Violation("wrong-answer", f"{what}: RDF returned as {res!r} ({e!r})")
        ab = lambda t: ("i", urljoin(url, t[1])) if t[0] == "i" else t
        want = {tuple(ab(t) for t in st) for st in T(d)}
        check(isomorphic(got, want) is not False, "wrong-answer", lambda: f"{what}: sent {short(want)}, returned {short(got)}")
