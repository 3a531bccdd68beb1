"""C14: what SPARQL calls send, from several threads, over a failing network."""
import hashlib
import json
from urllib.parse import parse_qsl, urlsplit

from simkit import sched
from simkit.core import check, crash, Violation, short
from simkit.net import gen_fault
from simkit.terms import EX

RUNS = {"quick": 6000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: in-memory TCP with connection faults, seeded thread schedules; every request the simulated "
             "endpoint receives is compared with the call it belongs to")
RULE = ("Each run configures 1-2 server objects (GET, form POST or direct POST; URL with or without a query part or port) and 1-4 "
        "threads sharing them with 1-4 calls each: queries and updates with any Unicode text, any number of default and named "
        "graphs, either output format. Threads switch at any line or bytecode of the library and at every socket "
        "operation; connections fail while connecting, sending, before or after the server acted, or are stale. The endpoint "
        "parses every request with its own parser and answers with a digest of what it read; each call must get the "
        "answer to its own text, and at most one request of it may reach the server.")
REAL = ["pymantic.sparql, requests, urllib3, http.client (all real, real threads)"]
STUB = ["TCP sockets (simulated, in memory)", "SPARQL endpoint (echoing)", "thread scheduler (seeded)", "clock (simulated)"]
ASSUMPTIONS = ["Threads switch in the library and at socket operations, not inside requests/urllib3.",
               "A redirect with 307/308 may be followed: the endpoint did not act on the first request."]

HOST = "sparql.example"
CHARS = "abz \r\ufeff{}?<>/#&=+%;,'\"\\\n\t\u00e9\u00df\u4e2d\U0001f600\u2028"


def preload():
    from simkit import net

    net.install()


def gen_text(rng, kind):
    head = "SELECT * WHERE { ?s ?p " if kind == "query" else "INSERT DATA { <a> <b> "
    return head + "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 3, 3, 10, 10, 10, 60, 60, 9000]))) + rng.choice([" }", "", "}\n", " "])


def gen_graphs(rng):
    k = rng.random()
    if k < 0.45:
        return None
    names = [EX + "g", EX + "g?x=1&y=2#f", "urn:g:\u00e9", EX + "a b", EX + "g2", "urn:\u4e2d+1"]
    if k < 0.7:
        return rng.choice(names)
    return rng.sample(names, rng.randrange(0, 4))


def gen(rng, tier, idx):
    servers = []
    for i in range(rng.randrange(1, 3)):
        servers.append({"post": rng.random() < 0.5, "direct": rng.random() < 0.35, "path": rng.choice(["/sparql", "/sparql", "/db/x/query", "/sparql?key=a%20b", "/"]),
                        "port": rng.choice([80, 80, 8890]), "host": HOST if i == 0 else "other.example"})
    nt = rng.choice([1, 2, 2, 3, 4])
    threads = []
    faulty = rng.random() < 0.6
    for t in range(nt):
        calls = []
        for _ in range(rng.randrange(1, 5)):
            kind = rng.choice(["query", "query", "update"])
            c = {"srv": rng.randrange(len(servers)), "what": kind, "text": gen_text(rng, kind), "dg": gen_graphs(rng), "ng": gen_graphs(rng),
                 "output": rng.choice(["json", "xml", None]), "keep": rng.random() < 0.6, "faults": [], "status": 200, "redirect": None}
            if faulty and rng.random() < 0.5:
                c["faults"] = [gen_fault(rng)]
                if rng.random() < 0.3:
                    c["faults"].append(gen_fault(rng))
            k = rng.random()
            if k < 0.08:
                c["status"] = rng.choice([400, 401, 404, 408, 425, 429, 500, 502, 503, 504])
            elif k < 0.14:
                c["redirect"] = rng.choice([301, 302, 303, 307, 308])
            calls.append(c)
        threads.append(calls)
    return {"servers": servers, "threads": threads, "sizes": rng.choice([[65536], [1], [7, 100], [4096]]), "netseed": rng.getrandbits(32),
            "sched": sched.gen_sched(rng, nt, expect=60 * nt * 3)}


def canon(text, dg, ng):
    return "d" + hashlib.sha256(json.dumps([text, sorted(dg), sorted(ng)]).encode()).hexdigest()[:16]


def listed(x):
    return [] if not x else [x] if isinstance(x, str) else list(x)


class Endpoint:
    def __init__(self, cfg, run):
        self.cfg, self.run = cfg, run

    def handle(self, req):
        from simkit.net import Response

        c = self.run.call(req.call)
        got = read(req)
        req.read = got
        if c is None:
            return Response(500, "text/plain", "stray request")
        if c["redirect"] and not c.get("redirected"):
            c["redirected"] = True
            return Response(c["redirect"], "text/plain", "moved", headers=[("Location", req.target + ("&" if "?" in req.target else "?") + "moved=1")])
        hs = [("Retry-After", "0")] if c["status"] in (429, 503) else []
        if c["status"] != 200:
            return Response(c["status"], "text/plain", "no", keep=c["keep"], headers=hs)
        req.acted = True
        echo = canon(got["text"] or "", got["dg"], got["ng"])
        accept = got["accept"]
        if "application/sparql-results+xml" in accept:
            return Response(200, "application/sparql-results+xml", '<sparql xmlns="http://www.w3.org/2005/sparql-results#"><head/><boolean>%s</boolean></sparql>' % echo,
                            keep=c["keep"], framing="chunked" if c["keep"] else "length")
        return Response(200, "application/sparql-results+json", json.dumps({"echo": echo}), keep=c["keep"])


def read(req):
    """What a SPARQL 1.1 protocol server understands of a request."""
    out = {"problems": []}
    u = urlsplit(req.target)
    out["path"] = u.path
    ct = (req.header("content-type") or "").split(";")[0].strip().lower()
    charset = "".join((req.header("content-type") or "").lower().split(";")[1:]).replace(" ", "").replace('"', "")
    params = parse_qsl(u.query, keep_blank_values=True, strict_parsing=bool(u.query), encoding="utf-8", errors="strict")
    out["op"] = None
    text = None
    if req.method == "GET":
        out["form"] = "get"
        if req.body:
            out["problems"].append("GET with a body")
    elif req.method == "POST" and ct == "application/x-www-form-urlencoded":
        out["form"] = "form"
        body = req.body.decode("ascii")
        form = parse_qsl(body, keep_blank_values=True, strict_parsing=bool(body), encoding="utf-8", errors="strict")
        out["urlparams"] = params
        params = form
    elif req.method == "POST" and ct in ("application/sparql-query", "application/sparql-update"):
        out["form"] = "direct"
        out["op"] = "query" if ct.endswith("query") else "update"
        text = req.body.decode("utf-8")
        if charset and charset != "charset=utf-8":
            out["problems"].append("charset " + charset)
    else:
        out["form"] = f"{req.method} {ct}"
    ops = [(k, v) for k, v in params if k in ("query", "update")]
    if text is None:
        if len(ops) != 1:
            out["problems"].append(f"{len(ops)} query/update parameters")
        else:
            out["op"], text = ops[0]
    elif ops:
        out["problems"].append("text in the body and in the parameters")
    out["text"] = text
    names = ("default-graph-uri", "named-graph-uri") if out["op"] == "query" else ("using-graph-uri", "using-named-graph-uri")
    out["dg"] = [v for k, v in params if k == names[0]]
    out["ng"] = [v for k, v in params if k == names[1]]
    known = ("query", "update", "default-graph-uri", "named-graph-uri", "using-graph-uri", "using-named-graph-uri")
    out["extra"] = [(k, v) for k, v in params if k not in (("query", "update") + names)]
    if "urlparams" in out:
        out["extra"] += out["urlparams"]
    out["accept"] = [x.split(";")[0].strip() for x in (req.header("accept") or "").split(",")]
    return out


class Run:
    def __init__(self, plan):
        self.calls = {f"{t}.{i}": dict(c) for t, cs in enumerate(plan["threads"]) for i, c in enumerate(cs)}

    def call(self, name):
        return self.calls.get(name)


def run(plan, ctx):
    import random
    from simkit import world as W
    from simkit.net import net

    S = W.SPARQL
    r = Run(plan)
    net.reset(ctx, random.Random(plan["netseed"]))
    net.sizes = plan["sizes"]
    servers = []
    for cfg in plan["servers"]:
        net.serve(cfg["host"], cfg["port"], Endpoint(cfg, r))
        servers.append(S.SPARQLServer("http://%s%s%s" % (cfg["host"], "" if cfg["port"] == 80 else ":%d" % cfg["port"], cfg["path"]),
                                      post_queries=cfg["post"], post_directly=cfg["direct"]))

    def one(name):
        c = r.calls[name]
        srv = servers[c["srv"]]
        kw = {}
        dg, ng = c["dg"], c["ng"]
        if dg is not None:
            kw["default_graph"] = list(dg) if isinstance(dg, list) else dg
        if ng is not None:
            kw["named_graph"] = list(ng) if isinstance(ng, list) else ng
        if c["what"] == "query" and c["output"]:
            kw["output"] = c["output"]
        net.begin(name, c["faults"])
        try:
            res = srv.query(c["text"], **kw) if c["what"] == "query" else srv.update(c["text"], **kw)
            err = None
        except Exception as e:  # noqa: BLE001
            res, err = None, e
        finally:
            net.end()
        check(err is None or not crash(err, W.PREFIX), "crash", lambda: f"{name}: {err!r} out of the library itself")
        for k in ("default_graph", "named_graph"):
            if isinstance(kw.get(k), list):
                check(kw[k] == (dg if k == "default_graph" else ng), "arguments", lambda: f"{name}: the caller's list of graphs was changed")
        reqs = [q for q in net.served if q.call == name]
        for q in reqs + [q for q in net.unserved if q.call == name]:
            judge(name, c, plan["servers"][c["srv"]], q)
        firsts = reqs[1:] if c.get("redirected") else reqs
        check(len(firsts) <= 1 and sum(q.acted for q in reqs) <= 1, "repeated", lambda: f"{name}: sent {len(reqs)} times: {reqs}")
        n = len(reqs) + len([q for q in net.unserved if q.call == name])
        check(n <= (2 if c.get("redirected") else 1), "repeated", lambda: f"{name}: {n} requests: {reqs}")
        if err is None:
            check(any(q.acted for q in reqs), "phantom", lambda: f"{name}: returned {short(res)} but the server never acted on it")
            if c["what"] == "query":
                want = canon(c["text"], listed(dg), listed(ng))
                if isinstance(res, dict):
                    got = res.get("echo")
                else:
                    got = str(res.getroot()["boolean"]) if hasattr(res, "getroot") else repr(res)
                check(got == want, "mixed-answers", lambda: f"{name}: got the answer {got}, its own is {want}")
                fmt = dict if c["output"] != "xml" else None
                check((isinstance(res, dict)) == (fmt is dict), "mixed-formats", lambda: f"{name}: asked for {c['output']}, got {type(res)}")
            ctx.probe("answered")
        elif not c["faults"] and c["status"] == 200 and not c["redirect"]:
            raise Violation("failed", f"{name}: {err!r} though nothing went wrong")
        ctx.log(name, type(err).__name__, [(q.method, q.target, q.body) for q in reqs])
        ctx.state((c["what"], plan["servers"][c["srv"]]["post"], plan["servers"][c["srv"]]["direct"], c["text"], type(err).__name__))

    sc = sched.make(ctx, plan["sched"])
    for t, cs in enumerate(plan["threads"]):
        def body(t=t, cs=cs):
            for i in range(len(cs)):
                one(f"{t}.{i}")
        sc.spawn(body)
    sc.run()
    sched.preempt_on(None)
    for q in net.served + net.unserved:
        check(r.call(q.call) is not None, "stray", lambda: f"a request outside every call: {q}")
    # the same server objects still work
    for i, cfg in enumerate(plan["servers"]):
        name = f"end.{i}"
        r.calls[name] = {"srv": i, "what": "query", "text": "ASK {}", "dg": None, "ng": None, "output": "json", "keep": False, "faults": [], "status": 200,
                         "redirect": None}
        one(name)


def judge(name, c, cfg, q):
    """One request, complete at the server, against the call it belongs to."""
    got = getattr(q, "read", None)
    if got is None:
        try:
            got = read(q)
        except ValueError as e:
            raise Violation("request", f"{name}: {q}: {e}")
    moved = c.get("redirected") and ("moved", "1") in got["extra"]
    if moved and c["redirect"] in (301, 302, 303) and q.method == "GET" and not (cfg["post"] or cfg["direct"] or c["what"] == "update"):
        pass
    check(not got["problems"] or (moved and q.method == "GET"), "request", lambda: f"{name}: {q}: {got['problems']}")
    want_form = "direct" if cfg["direct"] else "form" if cfg["post"] or c["what"] == "update" else "get"
    check(got["form"] == want_form, "protocol-form", lambda: f"{name}: {q}: sent as {got['form']}, configured for {want_form}")
    path, _, query = cfg["path"].partition("?")
    check(got["path"] == path, "address", lambda: f"{name}: {q}: sent to {got['path']}, not {path}")
    extra = [x for x in got["extra"] if x != ("moved", "1")]
    check(sorted(extra) == sorted(parse_qsl(query)), "request", lambda: f"{name}: {q}: extra parameters {extra}")
    check(got["op"] == c["what"], "request", lambda: f"{name}: {q}: is a {got['op']}")
    check(got["text"] == c["text"], "text", lambda: f"{name}: sent {got['text']!r} for {c['text']!r}")
    check(sorted(got["dg"]) == sorted(listed(c["dg"])), "graphs", lambda: f"{name}: default graphs {got['dg']}, asked for {c['dg']}")
    check(sorted(got["ng"]) == sorted(listed(c["ng"])), "graphs", lambda: f"{name}: named graphs {got['ng']}, asked for {c['ng']}")
    if c["what"] == "query":
        j, x = "application/sparql-results+json" in got["accept"], "application/sparql-results+xml" in got["accept"]
        check((x and not j) if c["output"] == "xml" else (j and not x), "formats", lambda: f"{name}: output {c['output']}, accepts {got['accept']}")
    host = cfg["host"] + ("" if cfg["port"] == 80 else ":%d" % cfg["port"])
    check(q.header("host") == host, "address", lambda: f"{name}: host {q.header('host')}")
