"""C02: clients share datasets and hold handles on their graphs."""
from simkit.core import check, Violation, short
from simkit.terms import T, I, B, Build, EX, swarm
from simkit.views import check_dataset, check_graph, call
from scenarios.c01_graph import gen_pool

RUNS = {"quick": 12000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("Each run draws a pool of terms, 2-5 graph names (IRIs, blank nodes, the unnamed default graph), 1-2 datasets "
        "and graph handles, and a history of 5-60 operations by 1-4 clients: add and remove quads, bulk loads, pattern "
        "removal with and without a graph, attaching graphs (also under two names or in two datasets, or over an "
        "existing name), detaching, mutating through a handle, and stepping result iterators between mutations. "
        "Every view is compared with a set of quads.")
REAL = ["pymantic.primitives.Dataset, Graph, Quad, RDFEnvironment.createDataset (all real)"]
STUB = ["allocator (addresses and hashes of blank nodes)", "client scheduling (seeded interleaving of operation steps)"]
ASSUMPTIONS = ["Clients interleave between operations and iterator steps (no two writers inside one call).",
               "A graph that was created or attached stays listed, or not, once it is empty: both are accepted."]


def gen(rng, tier, idx):
    S, Pr, O = gen_pool(rng)
    S, O = S[:3], O[:3]
    names = rng.sample([I(EX + "g1"), I(EX + "g2"), I(EX + "a"), I("urn:g"), B(90), B(0)], rng.randrange(1, 4)) + [None]
    if rng.random() < 0.08:
        names = names + [I(EX + "n%d" % i) for i in range(rng.randrange(6, 30))]
    nds = rng.choice([1, 1, 2])
    kinds = swarm(rng, ["add", "remove", "absent", "addAll", "removeMatches", "attach", "detach", "gadd", "gremove",
                        "open", "step", "step", "create", "copyall", "gclear"], 4) + ["add", "add", "check"]
    if rng.random() < 0.5:
        kinds += ["attach", "gadd", "open", "step"]
    if rng.random() < 0.15:
        names = names + [I("")]
    q = lambda: [rng.choice(S), rng.choice(Pr), rng.choice(O), rng.choice(names)]
    ops, nit, nh = [], 0, 0
    for _ in range(rng.randrange(5, 60)):
        k, d, c = rng.choice(kinds), rng.randrange(nds), rng.randrange(4)
        if k in ("add", "remove", "absent"):
            ops.append([k, c, d, q()])
        elif k == "addAll":
            n = rng.randrange(0, 6) if rng.random() < 0.97 else rng.randrange(100, 300)
            ops.append([k, c, d, rng.choice(["list", "gen", "dataset"]), [q() for _ in range(n)]])
        elif k == "removeMatches":
            ops.append([k, c, d, [x if rng.random() < 0.5 else None for x in q()]])
        elif k == "attach":
            fresh = nh == 0 or rng.random() < 0.6
            h = nh if fresh else rng.randrange(nh)
            named = [n for n in names if n is not None and n[1] != ""]
            ops.append([k, c, d, h, rng.choice([None] + named + named),
                        rng.choice([None] + [n[1] for n in named if n[0] == "i"]),
                        [q()[:3] for _ in range(rng.randrange(0, 4))]])
            nh = max(nh, h + 1)
        elif k == "detach":
            ops.append([k, c, d, rng.choice(names), rng.choice(["name", "graph"])])
        elif k in ("gadd", "gremove", "gclear") and nh:
            ops.append([k, c, rng.randrange(nh), q()[:3]])
        elif k == "open":
            ops.append([k, c, d, nit, rng.choice(["match", "match", "iter"]), [x if rng.random() < 0.4 else None for x in q()]])
            nit += 1
        elif k == "step" and nit:
            ops.append([k, c, rng.randrange(max(0, nit - 3), nit), rng.choice([1, 1, 1, 2, 100])])
        elif k == "create":
            ops.append([k, c, d, [q() for _ in range(rng.randrange(0, 5))]])
        elif k == "copyall" and nds > 1:
            ops.append([k, c, d, 1 - d])
        elif k == "check":
            ops.append([k, c, d])
    return {"cfg": {"nds": nds}, "pool": [S, Pr, O], "names": names + [I(EX + "nosuch")], "ops": ops}


class MDS:
    """Model dataset: name -> list holding one shared set of triples (one per graph object)."""

    def __init__(self):
        self.names = {}

    def quads(self):
        return {st + (n,) for n, g in self.names.items() for st in g["s"]}


def run(plan, ctx):
    from simkit import world as W

    P = W.P
    build = Build(P)
    S, Pr, O = (T(x) for x in plan["pool"])
    names = [T(n) for n in plan["names"]]
    env = P.RDFEnvironment()
    nds = max(1, plan["cfg"]["nds"])
    ds = [env.createDataset() for _ in range(nds)]
    md = [MDS() for _ in ds]
    handles = {}  # h -> (Graph, model graph)
    its = {}
    last_client = None

    def note():
        for it in its.values():
            cur = sel(it["pat"], md[it["d"]].quads())
            # An iterator may still be inside a graph that was detached or
            # replaced meanwhile, and sees what happens to that graph.
            for n, g in md[it["d"]].names.items():
                it["held"][n, id(g)] = (n, g)
            for n, g in it["held"].values():
                it["ever"] |= sel(it["pat"], {st + (n,) for st in g["s"]})
            sig = (cur, sorted((repr(n), id(g)) for n, g in md[it["d"]].names.items()))
            if sig != it["sig"]:
                it["dirty"] = True
                it["ever"] |= cur
                it["sig"] = sig
                if it["got"] and not it["done"]:
                    ctx.probe("interleaved")

    def sel(pat, quads):
        return {q for q in quads if all(p is None or p == x for p, x in zip(pat, q))}

    def step(it, n):
        for _ in range(n):
            if it["done"]:
                return
            try:
                x = next(it["it"])
            except StopIteration:
                it["done"] = True
                if not it["dirty"]:
                    want = sel(it["pat"], md[it["d"]].quads())
                    check(len(it["got"]) == len(want) and set(it["got"]) == want, "iterator",
                          lambda: f"match{it['pat']} yielded {short(it['got'])}, should be {short(want)}")
                return
            except Exception as e:  # noqa: BLE001
                it["done"] = True
                check(it["dirty"], "iterator-error", lambda: f"match{it['pat']} raised {e!r} though nothing changed")
                ctx.probe("iterator-ended-by-mutation")
                return
            y = build.back_st(x)
            check(isinstance(x, P.Quad), "iterator", lambda: f"dataset yields {type(x)}")
            check(y in it["ever"], "iterator-phantom", lambda: f"match{it['pat']} yielded {y}, not there since it was opened")
            it["got"].append(y)
            check(len(it["got"]) <= 4 * len(it["ever"]) + 50, "no-progress", "an iterator does not end")

    def mgraph(d, n):
        return md[d].names.setdefault(n, {"s": set(), "uri": n, "places": {(d, n)}})

    for op in plan["ops"]:
        k, c = op[0], op[1]
        if k == "step":
            it = its.get(op[2])
            if it is None:
                continue
            step(it, op[3])
            if c != last_client:
                ctx.probe("interleaved")
            last_client = c
            ctx.log(k, len(it["got"]), it["done"])
            continue
        if k in ("gadd", "gremove", "gclear"):
            if op[2] not in handles:
                continue
            G, mg = handles[op[2]]
            st = T(op[3])
            if k == "gadd":
                call("dataset-op", "Graph.add on a handle", lambda: G.add(build.triple(st)))
                mg["s"].add(st)
            elif k == "gclear":
                call("dataset-op", "Graph.removeMatches on a handle", lambda: G.removeMatches(None, None, None))
                mg["s"].clear()
            elif st in mg["s"]:
                call("dataset-op", "Graph.remove on a handle", lambda: G.remove(build.triple(st)))
                mg["s"].discard(st)
            if any(mg is g for m in md for g in m.names.values()):
                ctx.probe("mutated-attached-graph")
            note()
            ctx.log(k, len(mg["s"]))
            continue
        d = op[2] % nds
        D, M = ds[d], md[d]
        if k == "add":
            q = T(op[3])
            call("dataset-op", f"add {q}", lambda: D.add(build.quad(q)))
            mgraph(d, q[3])["s"].add(q[:3])
        elif k in ("remove", "absent"):
            q = T(op[3])
            qs = M.quads()
            if k == "remove" and qs and q not in qs:
                q = sorted(qs, key=repr)[len(repr(q)) % len(qs)]
            if q in qs:
                call("dataset-op", f"remove {q}", lambda: D.remove(build.quad(q)))
                M.names[q[3]]["s"].discard(q[:3])
            else:
                try:
                    D.remove(build.quad(q))
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise Violation("dataset-op", f"removing the absent {q} did not raise")
        elif k == "addAll":
            qs = [T(x) for x in op[4]]
            lib = [build.quad(x) for x in qs]
            src = {"list": lambda: lib, "gen": lambda: iter(lib), "dataset": lambda: env.createDataset(lib)}[op[3]]()
            out = call("dataset-op", "addAll", lambda: D.addAll(src))
            check(out is D, "dataset-op", "addAll does not return its dataset")
            for q in qs:
                mgraph(d, q[3])["s"].add(q[:3])
        elif k == "copyall":
            o = op[3] % nds
            if o == d:
                continue
            shared = {id(g) for g in M.names.values()} & {id(g) for g in md[o].names.values()}
            if shared:
                continue
            call("dataset-op", "addAll(dataset)", lambda: D.addAll(ds[o]))
            for q in md[o].quads():
                mgraph(d, q[3])["s"].add(q[:3])
        elif k == "removeMatches":
            pat = T(op[3])
            hit = sel(pat, M.quads())
            # With one graph under two names, removing under one name removes under both.
            gids = {}
            for q in hit:
                key = (id(M.names[q[3]]), q[:3])
                gids[key] = gids.get(key, 0) + 1
            if any(v > 1 for v in gids.values()):
                ctx.probe("shared-graph-pattern-skipped")
                continue
            out = call("dataset-op", f"removeMatches {pat}", lambda: D.removeMatches(*(build.term(x) for x in pat)))
            check(out is D, "dataset-op", "removeMatches does not return its dataset")
            for q in hit:
                M.names[q[3]]["s"].discard(q[:3])
        elif k == "attach":
            h, named, uri, sts = op[3], T(op[4]), op[5], [T(x) for x in op[6]]
            if h not in handles:
                G = P.Graph() if uri is None else P.Graph(uri)
                for st in sts:
                    G.add(build.triple(st))
                handles[h] = (G, {"s": set(sts), "uri": None if uri is None else I(uri), "places": set()})
            G, mg = handles[h]
            if named is None and len(mg["places"]) > 1:
                continue  # which of its names it then carries is not specified
            if named is None and mg["uri"] is None:
                try:
                    D.add_graph(G)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise Violation("dataset-op", "attaching a graph without a name did not raise")
            else:
                if named is None:
                    call("dataset-op", "add_graph", lambda: D.add_graph(G))
                else:
                    call("dataset-op", "add_graph", lambda: D.add_graph(G, build.term(named)))
                name = named if named is not None else mg["uri"]
                if name in M.names and M.names[name] is not mg:
                    ctx.probe("replaced-graph")
                if any(g is mg for n, g in M.names.items() if n != name):
                    ctx.probe("two-names")
                M.names[name] = mg
                mg["uri"] = name
                mg["places"].add((d, name))
        elif k == "detach":
            n = T(op[3])
            if n not in M.names:
                try:
                    D.remove_graph(build.term(n) if n is not None else None)
                except Exception:  # noqa: BLE001
                    pass
            else:
                mg = M.names[n]
                where = [(i, x) for i, m in enumerate(md) for x, g in m.names.items() if g is mg]
                hs = [h for h, (G, m) in handles.items() if m is mg]
                if op[4] == "graph" and hs and where == [(d, n)] and len(mg["places"]) == 1:
                    call("dataset-op", "remove_graph(graph)", lambda: D.remove_graph(handles[hs[0]][0]))
                else:
                    call("dataset-op", "remove_graph(name)", lambda: D.remove_graph(build.term(n) if n is not None else None))
                del M.names[n]
                ctx.probe("detached")
        elif k == "open":
            pat = T(op[5]) if op[4] == "match" else (None,) * 4
            args = tuple(build.term(x) for x in pat)
            src = call("dataset-op", "open", lambda: iter(D.match(*args)) if op[4] == "match" else iter(D))
            cur = sel(pat, M.quads())
            its[op[3]] = {"it": src, "d": d, "pat": pat, "ever": set(cur), "dirty": False, "done": False, "got": [],
                          "held": {(n, id(g)): (n, g) for n, g in M.names.items()},
                          "sig": (cur, sorted((repr(n), id(g)) for n, g in M.names.items()))}
        elif k == "create":
            qs = [T(x) for x in op[3]]
            new = call("dataset-op", "createDataset", lambda: env.createDataset([build.quad(x) for x in qs]))
            for it in its.values():
                if it["d"] == d:
                    it["done"] = True
            ds[d], md[d] = new, MDS()
            for q in qs:
                mgraph(d, q[3])["s"].add(q[:3])
        elif k == "check":
            full_check(W, D, M, build, (S, Pr, O), names)
        note()
        check(len(ds[d]) == len(md[d].quads()), "dataset-op", lambda: f"after {k}: len is {len(ds[d])}, should be {len(md[d].quads())}")
        ctx.log(k, c, len(md[d].quads()), len(md[d].names))
        ctx.state(sorted(map(repr, md[d].quads())))
        if c != last_client and any(not i["done"] for i in its.values()):
            ctx.probe("interleaved")
        last_client = c
    for it in its.values():
        step(it, 10000)
    for D, M in zip(ds, md):
        full_check(W, D, M, build, (S, Pr, O), names)
    for h, (G, mg) in handles.items():
        check_graph(W, G, mg["s"], build, (S, Pr, O), f"graph handle {h}", deep=False)


def full_check(W, D, M, build, pool, names):
    graphs = {n: g["s"] for n, g in M.names.items()}
    check_dataset(W, D, graphs, build, pool, names, may_be_empty=set(M.names))
    # Listed graphs carry the name they are stored under (if only under one).
    listed = list(D.graphs)
    for n, g in M.names.items():
        if g["s"] and len(g["places"]) == 1:
            uris = [build.back(G.uri) for G in listed if {build.back_st(t) for t in G} == g["s"]]
            check(n in uris, "dataset-view", lambda: f"the graph stored under {n} is listed with the names {uris}")
