"""C15: graph store operations from several threads over a failing network."""
from urllib.parse import parse_qsl, unquote_plus, urlsplit

from simkit import sched
from simkit.core import check, crash, Violation, short
from simkit.net import gen_fault
from simkit.rdfl import to_graph, back_graph, xml_safe, rdfxml, ntriples
from simkit.terms import I, L, B, T, EX, XSD, RDFNS, isomorphic, nt_read, diff_text

RUNS = {"quick": 5000, "thorough": 50000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: in-memory TCP with connection faults, seeded thread schedules, a graph store as a reference model; "
             "every operation's history is compared with what the store was asked and did")
RULE = ("Each run sets up one graph store holding 0-3 of 2-5 graphs (names with query parts, fragments, percent and plus signs, "
        "Unicode), 1-2 client objects addressing graphs by parameter or by path, and 1-4 threads with 1-5 operations each: get, "
        "put, post, post without a name, delete, patch, copy (get then put), of graphs with 0-200 triples with blank nodes, "
        "languages, datatypes and awkward characters. Threads switch at any line or bytecode of the library and "
        "at every socket operation. Connections fail while connecting, sending, before or after the store acted, at any byte of "
        "the response, or are stale; the store answers any success status, error statuses (acting or not), redirects, unknown and "
        "malformed formats, "
        "and sends graphs in all four formats. The store parses each request by itself; afterwards every operation is compared "
        "with the requests it caused, and every graph is fetched again.")
REAL = ["pymantic.sparql, requests, urllib3, http.client, rdflib (all real, real threads)"]
STUB = ["TCP sockets (simulated, in memory)", "graph store (model; reads N-Triples with its own parser)", "thread scheduler (seeded)",
        "clock (simulated)", "uuid4 (seeded)"]
ASSUMPTIONS = ["Threads switch in the library and at socket operations, not inside requests/urllib3/rdflib.",
               "The store reads percent and plus escapes in paths as form encoding, and request bodies without a charset as UTF-8.",
               "A relative reference in a graph the store sends is relative to the graph's name.",
               "Changesets hold no control characters (not expressible in RDF/XML)."]

HOST = "store.example"
NAMES = [EX + "g", EX + "g2", EX + "g?x=1&y=2", EX + "g#frag", "urn:g:\u00e9", EX + "\u4e2d", EX + "a%20b", EX + "100%25", "urn:x:a+b", EX + "g;a=b/c",
         EX + "~u", EX, EX + "x/../y", "tag:x,2020:y", EX + "ns#", EX + "g/", EX + "c%c3%a9", EX + "x/./y"]
CS = "http://purl.org/vocab/changeset/schema#"
GOOD = {"put": [200, 201, 204], "post": [200, 201, 204], "postnew": [201], "delete": [200, 202, 204], "patch": [200, 201, 204], "get": [200]}
BAD = {"put": [202, 203, 206, 300, 304, 400, 401, 403, 404, 405, 406, 409, 411, 413, 415, 429, 500, 501, 502, 503, 504, 507],
       "postnew": [200, 202, 204, 300, 400, 403, 404, 405, 415, 500, 503], "delete": [201, 203, 300, 304, 400, 401, 403, 404, 405, 409, 410, 500, 502, 503],
       "get": [201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 406, 410, 429, 500, 502, 503, 504]}
BAD["post"] = BAD["patch"] = BAD["put"]
FORMATS = {"nt": "text/plain", "xml": "application/rdf+xml", "turtle": "text/turtle", "n3": "text/rdf+n3"}
BROKEN = {"nt": ["<a> <b>", "<html>no</html>", "<http://a/> <http://b/> <http://c/> . oops"], "xml": ["<rdf:RDF>", "", "<html>", "not xml"],
          "turtle": ["<a> <b> .", "@prefix x: .", "<html><body>Error</body></html>"], "n3": ["<a> <b> .", "<a", "{ {"]}


def preload():
    from simkit import net
    import rdflib

    net.install()
    for fmt, text in (("turtle", "<a> <b> <c> ."), ("xml", '<rdf:RDF xmlns:rdf="%s"/>' % RDFNS), ("nt", ""), ("n3", "")):
        g = rdflib.ConjunctiveGraph().parse(data=text, format=fmt, publicID=EX)
    g.serialize(format="nt")
    rdflib.Graph().serialize(format="xml")


def gen_text(rng, safe=False):
    return "".join(rng.choice("ab1 \"\\'<>&;\n\t\u00e9\u4e2d\U0001f600]\u2028\x85" + ("" if safe else "\r\x01\x7f")) for _ in range(rng.choice([0, 1, 3, 8, 30])))


def gen_obj(rng, safe=False, bn=True):
    k = rng.random()
    if k < 0.3:
        return I(EX + rng.choice(["o", "s", "t", "\u00fc", "g"]))
    if k < 0.45 and bn:
        return B(rng.choice("xyz"))
    if k < 0.75:
        return L(gen_text(rng, safe), rng.choice([None, None, "en", "fr-ca"]))
    return rng.choice([L("5", None, XSD + "integer"), L(gen_text(rng, safe), None, EX + "dt"), L("true", None, XSD + "boolean"), L("2020-01-01", None, XSD + "date")])


def gen_sts(rng, safe=False, bn=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12] + [200] * (rng.random() < 0.05))):
        s = rng.choice([I(EX + "s"), I(EX + "t"), I(EX + "g"), I("urn:\u00e9:1")] + ([B("x"), B("y")] if bn else []))
        out.append([s, I(EX + rng.choice(["p", "q"]) if rng.random() < 0.8 else "urn:p#1"), gen_obj(rng, safe, bn)])
    return out


def gen(rng, tier, idx):
    names = rng.sample(NAMES, rng.randrange(2, 6))
    stores = [{"param": rng.random() < 0.5} for _ in range(rng.randrange(1, 3))]
    nt = rng.choice([1, 2, 2, 3, 4])
    faulty = rng.random() < 0.65
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randrange(1, 6)):
            what = rng.choice(["get", "get", "put", "put", "post", "post", "postnew", "delete", "patch", "copy"])
            g = rng.choice(names)
            op = {"what": what, "st": rng.randrange(len(stores)), "g": g, "uri": rng.random() < 0.3,
                  "resp": gen_resp(rng, "get" if what == "copy" else what, faulty)}
            if what in ("put", "post", "postnew"):
                op["sts"] = gen_sts(rng)
            if what == "copy":
                op["to"] = rng.choice(names)
                op["resp2"] = gen_resp(rng, "put", faulty)
            if what == "patch":
                op["rm"], op["add"] = gen_sts(rng, True, False), gen_sts(rng, True, False)
            ops.append(op)
        threads.append(ops)
    return {"names": names, "init": [[n, gen_sts(rng)] for n in names if rng.random() < 0.6], "stores": stores, "threads": threads,
            "sizes": rng.choice([[65536], [1], [7, 100], [4096]]), "netseed": rng.getrandbits(32), "port": rng.choice([80, 80, 8000]),
            "sched": sched.gen_sched(rng, nt, expect=60 * nt * 3)}


def gen_resp(rng, what, faulty):
    r = {"good": rng.choice(GOOD[what]), "keep": rng.random() < 0.6, "framing": rng.choice(["length", "chunked", "length"]), "enc": rng.choice([None, None, "gzip"]),
         "faults": [], "bad": None, "redirect": None, "fmt": rng.choice(list(FORMATS)), "rel": rng.random() < 0.3, "param": rng.choice(["", "", "; charset=utf-8", ";charset=UTF-8"]),
         "odd": None, "body": rng.choice(["", "done", "<html>ok</html>"])}
    if not faulty:
        return r
    if rng.random() < 0.4:
        r["faults"] = [gen_fault(rng)]
        if rng.random() < 0.25:
            r["faults"].append(gen_fault(rng))
    k = rng.random()
    if k < 0.12:
        r["bad"] = [rng.choice(BAD[what]), rng.random() < 0.4]
    elif k < 0.18:
        r["redirect"] = rng.choice([301, 302, 303, 307, 308])
    elif k < 0.28 and what == "get":
        r["odd"] = rng.choice([["type", rng.choice([None, "", "text/html", "application/json", "application/octet-stream", "application/x-trig", "text/csv"])],
                               ["body", rng.randrange(4)]])
    return r


class Store:
    """The graph store, as its own users would describe it."""

    def __init__(self, plan, calls):
        self.calls = calls
        self.graphs = {}
        self.n = 0
        for name, sts in plan["init"]:
            self.graphs[name] = self.fresh(T(sts))

    def fresh(self, sts):
        """Blank nodes of a request are nobody else's."""
        self.n += 1
        return frozenset(tuple(("b", "r%d%s" % (self.n, t[1])) if t[0] == "b" else t for t in st[:3]) for st in sts)

    def handle(self, req):
        from simkit.net import Response

        c = self.calls.get(req.call)
        req.status = 500
        if c is None:
            return Response(500, "text/plain", "stray")
        r = c["resp"]
        try:
            req.read = read(req)
        except ValueError as e:
            req.read = {"problem": str(e)}
            req.status = 400
            return Response(400, "text/plain", "cannot read that")
        if r["redirect"] and not c.get("redirected"):
            c["redirected"] = True
            req.status = r["redirect"]
            return Response(r["redirect"], "text/plain", "moved", headers=[("Location", req.target + ("&" if "?" in req.target else "?") + "moved=1")])
        if r["bad"] and not r["bad"][1]:
            req.status = r["bad"][0]
            return Response(r["bad"][0], "text/plain", r["body"], r["framing"], r["enc"], r["keep"], [("Retry-After", "0")] if r["bad"][0] in (429, 503) else [])
        name, m = req.read["name"], req.method
        headers = []
        if m == "GET":
            if name not in self.graphs:
                req.status = 404
                return Response(404, "text/plain", "no such graph", keep=r["keep"])
            return self.get(req, r, c, name)
        if m == "PUT" and name:
            self.graphs[name] = self.fresh(req.read["sts"])
        elif m == "POST" and name:
            self.graphs[name] = self.graphs.get(name, frozenset()) | self.fresh(req.read["sts"])
        elif m == "POST":
            name = EX + "new%d" % self.n
            self.graphs[name] = self.fresh(req.read["sts"])
            headers.append(("Location", "http://" + HOST + "/data?graph=" + name))
        elif m == "DELETE" and name:
            if name not in self.graphs:
                req.status = 404
                return Response(404, "text/plain", "no such graph", keep=r["keep"])
            del self.graphs[name]
        elif m == "PATCH" and name:
            rm, add = req.read["change"]
            self.graphs[name] = (self.graphs.get(name, frozenset()) - rm) | add
        else:
            req.status = 405
            return Response(405, "text/plain", "cannot do that")
        req.acted = True
        req.status = r["bad"][0] if r["bad"] else r["good"]
        return Response(req.status, "text/html", r["body"], r["framing"], r["enc"], r["keep"], headers)

    def get(self, req, r, c, name):
        from simkit.net import Response

        sts = sorted(self.graphs[name], key=repr)
        accept = [x.split(";")[0].strip() for x in (req.header("accept") or "*/*").split(",")]
        fmt = r["fmt"]
        ok = lambda f: FORMATS[f] in accept or "*/*" in accept
        if (fmt == "xml" and not xml_safe(sts)) or not ok(fmt):
            fmt = [f for f in ("nt", "turtle", "n3") if ok(f)]
            if not fmt:
                req.status = 406
                return Response(406, "text/plain", "")
            fmt = fmt[0]
        rel = name if r["rel"] and name.startswith(EX) and "#" not in name and fmt != "nt" else None
        body = rdfxml(sts, rel) if fmt == "xml" else ntriples(sts, rel)
        ct = FORMATS[fmt] + r["param"]
        req.odd = None
        if r["odd"]:
            req.odd = r["odd"][0]
            if req.odd == "type":
                ct = r["odd"][1]
            else:
                body = BROKEN[fmt][r["odd"][1] % len(BROKEN[fmt])]
        req.state = (name, frozenset(sts))
        req.acted = True
        req.status = r["bad"][0] if r["bad"] else 200
        return Response(req.status, ct, body, r["framing"], r["enc"], r["keep"])


def read(req):
    """What a SPARQL 1.1 graph store understands of a request."""
    u = urlsplit(req.target)
    out = {"problem": None}
    params = parse_qsl(u.query, keep_blank_values=True, strict_parsing=bool(u.query), encoding="utf-8", errors="strict")
    params = [p for p in params if p != ("moved", "1")]
    if u.path == "/data":
        if [k for k, _ in params] not in ([], ["graph"]):
            raise ValueError(f"parameters {params}")
        out["name"] = params[0][1] if params else None
        out["style"] = "param"
    elif u.path.startswith("/rdf/"):
        if params:
            raise ValueError(f"parameters {params}")
        out["name"] = unquote_plus(u.path[len("/rdf/"):], errors="strict") or None
        out["style"] = "path"
    else:
        raise ValueError("no such resource")
    ct = req.header("content-type") or ""
    charset = "utf-8"
    for x in ct.split(";")[1:]:
        k, _, v = x.partition("=")
        if k.strip().lower() == "charset":
            charset = v.strip(' "')
    ct = ct.split(";")[0].strip().lower()
    if req.method in ("PUT", "POST"):
        try:
            if ct in ("text/plain", "application/n-triples"):
                out["sts"] = [st[:3] for st in nt_read(req.body.decode(charset))]
            elif ct in ("text/turtle", "application/rdf+xml", "text/rdf+n3"):
                out["sts"] = parse_rdflib(req.body, {"text/turtle": "turtle", "application/rdf+xml": "xml", "text/rdf+n3": "n3"}[ct], out["name"])
            else:
                raise ValueError("content type " + ct)
        except (UnicodeError, LookupError) as e:
            raise ValueError(str(e))
    elif req.method == "PATCH":
        if ct != "application/vnd.talis.changeset+xml":
            raise ValueError("content type " + ct)
        out["all"] = parse_rdflib(req.body, "xml", out["name"])
        out["change"] = read_change(out["all"])
    elif req.body:
        raise ValueError("body in a " + req.method)
    return out


def parse_rdflib(body, fmt, base):
    import rdflib
    from io import BytesIO

    g = rdflib.Graph()
    try:
        g.parse(BytesIO(body), format=fmt, publicID=base or EX)
    except Exception as e:  # noqa: BLE001
        raise ValueError(f"cannot parse the body: {e!r}")
    return back_graph(g, rdflib)


def read_change(sts):
    """(removals, additions) of the one changeset in a graph; ValueError if it is not well formed."""
    def objs(s, p):
        return [o for a, b, o in sts if a == s and b == ("i", p)]

    sets = [s for s, p, o in sts if p == ("i", RDFNS + "type") and o == ("i", CS + "ChangeSet")]
    if len(sets) != 1:
        raise ValueError(f"{len(sets)} changesets")
    out = []
    for p in ("removal", "addition"):
        sel = set()
        for n in objs(sets[0], CS + p):
            if objs(n, RDFNS + "type") != [("i", RDFNS + "Statement")]:
                raise ValueError("not a statement")
            parts = [objs(n, RDFNS + q) for q in ("subject", "predicate", "object")]
            if any(len(x) != 1 for x in parts):
                raise ValueError("incomplete or doubled statement")
            sel.add(tuple(x[0] for x in parts))
        out.append(sel)
    return out


def changeset_graph(op, rdflib):
    b = B("set")
    sts = [(b, I(RDFNS + "type"), I(CS + "ChangeSet")), (b, I(CS + "subjectOfChange"), I(op["g"])), (b, I(CS + "createdDate"), L("2020-01-01T00:00:00+00:00"))]
    rm = {T(x) for x in op["rm"]}
    add = {T(x) for x in op["add"]} - rm
    for kind, sel in (("removal", rm), ("addition", add)):
        for i, st in enumerate(sorted(sel, key=repr)):
            n = B(kind + str(i))
            sts += [(b, I(CS + kind), n), (n, I(RDFNS + "type"), I(RDFNS + "Statement"))]
            sts += [(n, I(RDFNS + q), t) for q, t in zip(("subject", "predicate", "object"), st)]
    return sts, (rm, add)


def run(plan, ctx):
    import random
    import rdflib
    from simkit import world as W
    from simkit.net import net

    S = W.SPARQL
    net.reset(ctx, random.Random(plan["netseed"]))
    net.sizes = plan["sizes"]
    calls, kept = {}, []
    store = Store(plan, calls)
    net.serve(HOST, plan["port"], store)
    base = "http://%s%s" % (HOST, "" if plan["port"] == 80 else ":%d" % plan["port"])
    clients = [S.PatchableGraphStore(base + "/sparql", base + ("/data" if s["param"] else "/rdf/"), param_style=s["param"]) for s in plan["stores"]]

    def call(name, what, op, resp, arg=None, content=None):
        """One operation of the library and everything known about it."""
        c = {"what": what, "op": op, "resp": resp, "g": op["to"] if content == "copied" else op["g"]}
        calls[name] = c
        cl = clients[op["st"] % len(clients)]
        style = "param" if plan["stores"][op["st"] % len(clients)]["param"] else "path"
        uri = rdflib.URIRef(c["g"]) if op.get("uri") else c["g"]
        before = back_graph(arg, rdflib) if arg is not None else None
        net.begin(name, resp["faults"])
        try:
            if what == "get":
                res = cl.get(uri)
            elif what == "delete":
                res = cl.delete(uri)
            elif what == "postnew":
                res = cl.post(None, arg)
            else:
                res = getattr(cl, what)(uri, arg)
            err = None
        except Exception as e:  # noqa: BLE001
            res, err = None, e
        finally:
            net.end()
        desc = f"{name} {what} {c['g']!r}"
        check(err is None or not crash(err, W.PREFIX), "crash", lambda: f"{desc}: {err!r} out of the library itself")
        if arg is not None:
            check(back_graph(arg, rdflib) == before, "argument", lambda: f"{desc}: the caller's graph was changed")
        served = [q for q in net.served if q.call == name]
        unserved = [q for q in net.unserved if q.call == name]
        for q in served + unserved:
            judge(desc, c, style, q, before, op)
        acted = [q for q in served if q.acted]
        ctx.log(name, what, type(err).__name__, [(q.method, q.target, q.status, q.acted) for q in served], len(unserved))
        ctx.state((what, [q.status for q in served], type(err).__name__, [f["k"] for f in resp["faults"]]))
        if what != "get":
            n = len(served) + len(unserved) - (1 if c.get("redirected") else 0)
            check(n <= 1 and len(acted) <= 1, "repeated", lambda: f"{desc}: sent {n} times, done {len(acted)} times")
        if err is None:
            check(acted, "phantom", lambda: f"{desc}: acknowledged, but the store did nothing ({[(q.method, q.status) for q in served]})")
            last = served[-1]
            check(last.status in GOOD[what], "silent-failure", lambda: f"{desc}: status {last.status} reported as success")
            if what == "get":
                ctx.probe("got")
                check(last.odd is None, "silent-failure", lambda: f"{desc}: sent as {resp['odd']}, returned {short(back_graph(res, rdflib))}")
                if not last.maybe:
                    check(last.delivered, "silent-failure", lambda: f"{desc}: the response never arrived in full, but {short(back_graph(res, rdflib))} was returned")
                    got = back_graph(res, rdflib)
                    check(isomorphic(got, last.state[1]) is not False, "wrong-graph",
                          lambda: f"{desc} as {resp['fmt']}: {diff_text(got, last.state[1])}")
                    kept.append((desc, res, got))
                return res
            ctx.probe("done-" + what)
        else:
            last = served[-1] if served else None
            if last is not None and last.delivered and last.status in GOOD[what] and last.acted and not c.get("redirected") and not getattr(last, "odd", None) and not unserved:
                raise Violation("lost-acknowledgement", f"{desc}: the store answered {last.status} in full, raised {err!r}")
            if not resp["faults"] and not served and not unserved:
                raise Violation("failed", f"{desc}: {err!r} though nothing went wrong")
            ctx.probe("error-reported")
        return None

    def one(t, i, op):
        name = f"{t}.{i}"
        what = op["what"]
        if what == "copy":
            g = call(name + "g", "get", op, op["resp"])
            if g is not None:
                call(name + "p", "put", op, op["resp2"], g, "copied")
        elif what in ("put", "post", "postnew"):
            call(name, what, op, op["resp"], to_graph(T(op["sts"]), rdflib))
        elif what == "patch":
            sts, _ = changeset_graph(op, rdflib)
            call(name, what, op, op["resp"], to_graph(sts, rdflib))
        else:
            call(name, what, op, op["resp"])

    sc = sched.make(ctx, plan["sched"])
    for t, ops in enumerate(plan["threads"]):
        def body(t=t, ops=ops):
            for i, op in enumerate(ops):
                one(t, i, op)
        sc.spawn(body)
    sc.run()
    sched.preempt_on(None)
    for q in net.served + net.unserved:
        check(q.call in calls, "stray", lambda: f"a request outside every operation: {q}")
    # The network is healthy again: what is there, and does everything still work?
    healthy = dict(good=200, keep=True, framing="length", enc=None, faults=[], bad=None, redirect=None, rel=False, param="", odd=None, body="")
    for k in range(len(clients)):
        for n, g in enumerate(plan["names"] + [x for x in store.graphs if x not in plan["names"]]):
            op = {"g": g, "st": k, "uri": False}
            res = call(f"end.{k}.{n}", "get", op, dict(healthy, fmt=list(FORMATS)[n % 4]))
            check((res is not None) == (g in store.graphs), "wrong-graph", lambda: f"{g!r} {'exists' if g in store.graphs else 'does not exist'}, get gives {short(res)}")
        call(f"end.{k}.put", "put", {"g": EX + "final", "st": k}, dict(healthy, fmt="nt"), to_graph([(I(EX + "s"), I(EX + "p"), L("final \u00e9"))], rdflib))
        check(store.graphs.get(EX + "final") == {(I(EX + "s"), I(EX + "p"), L("final \u00e9"))}, "failed", "the client no longer works")
        call(f"end.{k}.delete", "delete", {"g": EX + "final", "st": k}, dict(healthy, fmt="nt", good=204))
        check(EX + "final" not in store.graphs, "failed", "the client no longer works")
    for desc, res, got in kept:
        check(back_graph(res, rdflib) == got, "wrong-graph", lambda: f"{desc}: the graph it returned was changed later")


METHODS = {"get": "GET", "put": "PUT", "post": "POST", "postnew": "POST", "delete": "DELETE", "patch": "PATCH"}


def judge(desc, c, style, q, given, op):
    """One request, complete at the store, against the operation it belongs to."""
    got = getattr(q, "read", None)
    if got is None:
        try:
            got = read(q)
        except ValueError as e:
            got = {"problem": str(e)}
    check(got["problem"] is None, "request", lambda: f"{desc}: {q}: {got['problem']}")
    check(q.method == METHODS[c["what"]], "request", lambda: f"{desc}: sent as {q}")
    want = None if c["what"] == "postnew" else c["g"]
    check(got["name"] == want, "wrong-target", lambda: f"{desc}: addressed {got['name']!r}")
    check(got["style"] == style, "wrong-target", lambda: f"{desc}: {q}: the store was configured for {style} addressing")
    if "sts" in got:
        check(isomorphic(got["sts"], given) is not False, "wrong-content", lambda: f"{desc}: {diff_text(got['sts'], given)}")
    if "all" in got:
        check(isomorphic(got["all"], given) is not False, "wrong-content", lambda: f"{desc}: {diff_text(got['all'], given)}")
        _, (rm, add) = changeset_graph(op, None) if "rm" in op else (None, got["change"])
        check(got["change"] == [rm, add], "wrong-content", lambda: f"{desc}: change {got['change']}")
