"""C16: changesets between graphs, applied directly and by patching over a failing network."""
import datetime

from scenarios.c15_store import CS, HOST, NAMES, Store, gen_sts, gen_text, preload as _preload, GOOD, BAD
from simkit import sched
from simkit.core import check, crash, Violation, short
from simkit.net import gen_fault
from simkit.rdfl import to_graph, back_graph, back_term
from simkit.terms import I, L, B, T, EX, XSD, RDFNS, diff_text

RUNS = {"quick": 6000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: seeded schedules, clock jumps and network faults; changesets applied by an independent interpreter, "
             "directly and at a simulated graph store")
RULE = ("Each run draws 1-3 chains of graph versions (0-200 triples over look-alike terms: same text with and without language or "
        "datatype, blank nodes shared between versions, statements about statements) and 1-4 threads. A thread either computes "
        "changesets and differences (with excluded predicates) between shared versions while others do the same and the clock is set forward "
        "and back, or drives a store from version to version by patching over connections that fail before or after the store "
        "acted, re-sending the same changeset or computing a new one from what the store holds after each reported failure, until "
        "acknowledged. Every changeset is read by an independent interpreter and must turn the old version into the new one exactly.")
REAL = ["pymantic.sparql (changeset, differences, patch, get), requests, urllib3, http.client, rdflib (all real, real threads)"]
STUB = ["TCP sockets (simulated, in memory)", "graph store (model)", "thread scheduler (seeded)", "clock (simulated, jumps)", "uuid4 (seeded)"]
ASSUMPTIONS = ["Threads switch in the library and at socket operations, not inside rdflib.",
               "Over the network graphs are ground and hold no control characters (blank nodes and those characters do not survive RDF/XML)."]


def preload():
    _preload()


def gen_pool(rng, ground):
    """Statements the versions of one graph are drawn from, many of them nearly equal."""
    t = gen_text(rng, ground)
    objs = [L(t), L(t, "en"), L(t, "fr"), L(t, None, EX + "dt"), L(t + " "), L("5", None, XSD + "integer"), L("5"), L("5", None, XSD + "decimal"),
            I(EX + "o"), I(EX + "O"), I(EX + "s"), L(EX + "s"), I(EX + "o/"), L("true", None, XSD + "boolean"), L(""), L(t, None, XSD + "string"), L("5", None, XSD + "string")]
    subs = [I(EX + "s"), I(EX + "S"), I("urn:\u00e9"), I(EX + "s#1")]
    if not ground:
        objs += [B("x"), B("y")]
        subs += [B("x"), B("y"), B("z")]
    preds = [I(EX + "p"), I(EX + "q"), I(RDFNS + "type"), I("urn:p#1"), I(EX + "p/")]
    if rng.random() < 0.2:
        preds += [I(RDFNS + "subject"), I(RDFNS + "object"), I(CS + "removal"), I(CS + "addition"), I(CS + "createdDate")]
        objs += [I(RDFNS + "Statement"), I(CS + "ChangeSet")]
    n = rng.choice([1, 2, 4, 8, 15, 30] + [200] * (rng.random() < 0.1))
    out = []
    for _ in range(n):
        st = [rng.choice(subs), rng.choice(preds), rng.choice(objs)]
        if n == 200:
            st[2] = L(str(len(out)))
        out.append(st)
    return out


def gen(rng, tier, idx):
    chains = []
    for i in range(rng.randrange(1, 4)):
        net = rng.random() < 0.5
        pool = gen_pool(rng, net)
        versions = []
        for _ in range(rng.randrange(2, 5)):
            k = rng.choice([0.0, 0.3, 0.5, 0.5, 0.8, 1.0])
            versions.append([st for st in pool if rng.random() < k])
        chains.append({"net": net, "name": NAMES[(idx + i) % len(NAMES)], "versions": versions, "param": rng.random() < 0.5})
    nt = rng.choice([1, 1, 2, 2, 3, 4])
    threads = []
    mine = {}
    for t in range(nt):
        jobs = []
        for _ in range(rng.randrange(1, 6)):
            k = rng.random()
            c = rng.randrange(len(chains))
            ch = chains[c]
            if k < 0.15:
                jobs.append({"what": "jump", "by": rng.choice([-86400.0, -1.5, 0.000001, 3600.0, 1e9, -1.6e9, 0.0])})
            elif k < 0.45:
                jobs.append({"what": "changeset", "c": c, "a": rng.randrange(len(ch["versions"])), "b": rng.randrange(len(ch["versions"])), "uri": rng.random() < 0.5})
            elif k < 0.6:
                jobs.append({"what": "differences", "c": c, "a": rng.randrange(len(ch["versions"])), "b": rng.randrange(len(ch["versions"])),
                             "ex": rng.choice([None, [], [EX + "p/"], [EX], [EX + "p"], [EX + "p", "urn:p#1"], [RDFNS + "type"], [EX + "nope"]]), "uri": rng.random() < 0.5})
            elif ch["net"] and mine.setdefault(c, t) == t:
                jobs.append({"what": "drive", "c": c, "to": rng.randrange(len(ch["versions"])), "again": rng.choice(["same", "fresh", "mixed"]),
                             "tries": [gen_try(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))]})
        threads.append(jobs)
    return {"chains": chains, "threads": threads, "netseed": rng.getrandbits(32), "sizes": rng.choice([[65536], [1], [7, 100]]),
            "sched": sched.gen_sched(rng, nt, expect=40 * nt * 3)}


def gen_try(rng):
    t = {"faults": [], "bad": None}
    if rng.random() < 0.7:
        t["faults"] = [gen_fault(rng)]
    else:
        t["bad"] = [rng.choice(BAD["patch"]), rng.random() < 0.5]
    return t


def resp_for(t, good=204, fmt="nt"):
    return dict(good=good, keep=True, framing="length", enc=None, faults=t["faults"], bad=t["bad"], redirect=None, rel=False, param="", odd=None, body="", fmt=fmt)


def read_changeset(what, sts, uri, lo=None):
    """Independent reading of a changeset (model statements): (removals, additions)."""
    by = {}
    for s, p, o in sts:
        by.setdefault(s, []).append((p[1], o))
    sets = [s for s in by if (RDFNS + "type", I(CS + "ChangeSet")) in by[s] and any(p == CS + "subjectOfChange" for p, _ in by[s])]
    check(len(sets) == 1, "changeset", lambda: f"{what}: {len(sets)} changesets")
    cs = by[sets[0]]
    subj = [o for p, o in cs if p == CS + "subjectOfChange"]
    check(subj == [I(uri)], "changeset", lambda: f"{what}: subject of change {subj}, not {uri!r}")
    dates = [o for p, o in cs if p == CS + "createdDate"]
    check(len(dates) == 1 and dates[0][0] == "l", "changeset", lambda: f"{what}: created {dates}")
    out, seen = [], set()
    for kind in ("removal", "addition"):
        sel = []
        for n in [o for p, o in cs if p == CS + kind]:
            check(n[0] == "b" and n not in seen and n != sets[0], "changeset", lambda: f"{what}: {n} stands for two statements")
            seen.add(n)
            parts = {}
            for p, o in by.get(n, []):
                parts.setdefault(p, []).append(o)
            check(I(RDFNS + "Statement") in parts.get(RDFNS + "type", []), "changeset", lambda: f"{what}: {n} is not a statement: {parts}")
            spo = [parts.get(RDFNS + q, []) for q in ("subject", "predicate", "object")]
            check(all(len(x) == 1 for x in spo), "changeset", lambda: f"{what}: {kind} is not one complete statement: {spo}")
            sel.append(tuple(x[0] for x in spo))
        check(len(sel) == len(set(sel)), "changeset", lambda: f"{what}: {kind} listed twice: {sel}")
        out.append(set(sel))
    return out[0], out[1], dates[0][1]


def run(plan, ctx):
    import random
    import rdflib
    from simkit import world as W
    from simkit.net import net

    S = W.SPARQL
    net.reset(ctx, random.Random(plan["netseed"]))
    net.sizes = plan["sizes"]
    calls = {}
    store = Store({"init": []}, calls)
    net.serve(HOST, 80, store)
    graphs, models = [], []
    for ch in plan["chains"]:
        bn = {}
        gs = [to_graph(T(v), rdflib, bn) for v in ch["versions"]]
        graphs.append(gs)
        models.append([back_graph(g, rdflib) for g in gs])
        if ch["net"]:
            store.graphs[ch["name"]] = frozenset(T(st) for st in ch["versions"][0])
    client = {p: S.PatchableGraphStore("http://%s/sparql" % HOST, "http://%s%s" % (HOST, "/data" if p else "/rdf/"), param_style=p) for p in (True, False)}
    moments = []  # every value the clock had, in order

    def tick():
        if not moments or moments[-1] != W.clock.now:
            moments.append(W.clock.now)

    tick()

    def check_date(what, text, start):
        tick()
        try:
            d = datetime.datetime.fromisoformat(text)
            at = d.timestamp() if d.tzinfo is not None else d.replace(tzinfo=datetime.timezone.utc).timestamp()
        except ValueError as e:
            raise Violation("created", f"{what}: created {text!r}: {e}")
        during = moments[start:]
        if abs(at - W.real_time()) < 300:
            ctx.probe("clock-outside-the-seam")  # a clock the seam does not reach: still the time of the call
            return
        check(min(during) - 1.1 <= at <= max(during) + 0.1, "created",
              lambda: f"{what}: created {text!r}, the clock was at {[datetime.datetime.fromtimestamp(m, datetime.timezone.utc).isoformat() for m in during]}")

    nodes = set()

    def make(what, a, b, uri, ma, mb):
        tick()
        start = len(moments) - 1
        bound = [sorted(map(str, x.namespaces())) for x in (a, b)]
        try:
            g = S.changeset(a, b, rdflib.URIRef(uri) if len(uri) % 2 else uri)
        except Exception as e:  # noqa: BLE001
            raise Violation("changeset", f"{what}: {e!r}")
        rm, add, date = read_changeset(what, back_graph(g, rdflib), uri)
        check_date(what, date, start)
        check(rm == ma - mb, "removals", lambda: f"{what}: {diff_text(rm, ma - mb)}")
        check(add == mb - ma, "additions", lambda: f"{what}: {diff_text(add, mb - ma)}")
        check(bound == [sorted(map(str, x.namespaces())) for x in (a, b)], "graph-changed", lambda: f"{what}: the prefixes of a compared graph changed")
        mine = {t for st in back_graph(g, rdflib) for t in st if t[0] == "b"} - {t for st in ma | mb for t in st if t[0] == "b"}
        check(len(mine) == 1 + len(rm) + len(add), "changeset", lambda: f"{what}: {len(mine)} nodes of its own for {len(rm) + len(add)} statements")
        check(not mine & nodes, "changeset", lambda: f"{what}: a node of an earlier changeset stands for another statement")
        nodes.update(mine)
        check((ma - rm) | add == mb, "apply", lambda: f"{what}: {diff_text((ma - rm) | add, mb)}")
        return g

    def drive(name, job):
        """Bring the store from whatever it holds to a version, through failures."""
        ch = plan["chains"][job["c"]]
        uri = ch["name"]
        target, goal = graphs[job["c"]][job["to"]], models[job["c"]][job["to"]]
        cl = client[ch["param"]]
        old = set(store.graphs[uri])
        g = None
        for i, t in enumerate(job["tries"] + [{"faults": [], "bad": None}] * 2):
            what = f"{name} try {i}"
            last = i >= len(job["tries"])
            if g is None or job["again"] == "fresh" or (job["again"] == "mixed" and i % 2):
                cname = f"{name}.{i}g"
                calls[cname] = {"resp": resp_for({"faults": [], "bad": None}, fmt="nt")}
                net.begin(cname, [])
                try:
                    have = cl.get(uri)
                except Exception as e:  # noqa: BLE001
                    raise Violation("failed", f"{what}: get raised {e!r} though nothing went wrong")
                finally:
                    net.end()
                hm = back_graph(have, rdflib)
                check(hm == set(store.graphs[uri]), "wrong-graph", lambda: f"{what}: {diff_text(hm, store.graphs[uri])}")
                g = make(what, have, target, uri, hm, goal)
                check(back_graph(have, rdflib) == hm, "changed", lambda: f"{what}: the old graph was changed")
            cname = f"{name}.{i}p"
            calls[cname] = {"resp": resp_for(t, GOOD["patch"][i % 3])}
            net.begin(cname, t["faults"])
            try:
                cl.patch(uri, g)
                err = None
            except Exception as e:  # noqa: BLE001
                err = e
            finally:
                net.end()
            check(err is None or not crash(err, W.PREFIX), "crash", lambda: f"{what}: {err!r} out of the library itself")
            now = set(store.graphs[uri])
            ctx.log(name, i, type(err).__name__, len(now))
            ctx.state((len(old), len(goal), type(err).__name__, [f["k"] for f in t["faults"]], now == goal))
            check(now in (old, goal), "apply", lambda: f"{what}: the store now holds neither version: {diff_text(now, goal)}")
            if err is None:
                check(now == goal, "apply", lambda: f"{what}: acknowledged, but {diff_text(now, goal)}")
                ctx.probe("patched")
                if now != old and i:
                    ctx.probe("patched-after-failure")
                return
            check(not last or i == len(job["tries"]) and t["faults"], "stuck", lambda: f"{what}: {err!r} though nothing goes wrong any more")
        raise Violation("stuck", f"{name}: never acknowledged")

    def one(name, job):
        if job["what"] == "jump":
            tick()
            W.clock.now = max(1e6, min(4e9, W.clock.now + job["by"]))
            tick()
            ctx.fault("clock-jump")
            return
        if job["what"] == "drive":
            return drive(name, job)
        c = job["c"]
        a, b = graphs[c][job["a"]], graphs[c][job["b"]]
        ma, mb = models[c][job["a"]], models[c][job["b"]]
        if job["what"] == "changeset":
            make(name, a, b, plan["chains"][c]["name"], ma, mb)
            ctx.probe("changeset")
            ctx.state((len(ma - mb), len(mb - ma), len(ma & mb)))
        else:
            ex = job["ex"]
            kw = {} if ex is None else {"exclude": [rdflib.URIRef(x) for x in ex] if job["uri"] else list(ex)}
            given = list(kw.get("exclude", []))
            try:
                rm, add = S.differences(a, b, **kw)
            except Exception as e:  # noqa: BLE001
                raise Violation("differences", f"{name}: {e!r}")
            out = {("i", x) for x in ex or []}
            check(list(kw.get("exclude", [])) == given, "changed", lambda: f"{name}: the list of exclusions was changed")
            for part, want, kind in ((rm, ma - mb, "removals"), (add, mb - ma, "additions")):
                got = [tuple(back_term(t, rdflib) for t in st) for st in part]
                want = {st for st in want if st[1] not in out}
                check(len(got) == len(want) and set(got) == want, kind, lambda: f"{name} excluding {ex}: {diff_text(got, want)}")
            ctx.probe("differences")
        ctx.log(name)

    sc = sched.make(ctx, plan["sched"])
    for t, jobs in enumerate(plan["threads"]):
        def body(t=t, jobs=jobs):
            for i, job in enumerate(jobs):
                one(f"{t}.{i} {job['what']}", job)
        sc.spawn(body)
    sc.run()
    sched.preempt_on(None)
    for gs, ms in zip(graphs, models):
        for g, m in zip(gs, ms):
            check(back_graph(g, rdflib) == m, "changed", lambda: "computing changesets changed a graph: " + diff_text(back_graph(g, rdflib), m))
    for q in net.served:
        if q.acted and q.method == "PATCH":
            check(q.read["name"] in [ch["name"] for ch in plan["chains"]], "wrong-target", lambda: f"patched {q.read['name']!r}")
