"""C01: several clients share graphs; mutations interleave with open result iterators."""
from simkit.core import check, Violation, short
from simkit.terms import T, I, L, B, Build, gen_literal, EX, XSD, swarm
from simkit.views import check_graph, call

RUNS = {"quick": 12000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("Each run draws a pool of subjects, predicates and objects (with the empty IRI, look-alike IRIs and literals, "
        "blank nodes), 1-3 graphs and a history of 5-70 operations by 1-4 clients: add, remove, bulk add (list, live graph, "
        "other client's half-read iterator), pattern removal, merge, snapshots, and opening, stepping and dropping "
        "result iterators between other clients' mutations. After every operation the graph is compared with a set, "
        "at checkpoints through every view and all eight match patterns.")
REAL = ["pymantic.primitives.Graph, Triple, terms, RDFEnvironment.createGraph (all real)"]
STUB = ["allocator (addresses and hashes of blank nodes)", "client scheduling (seeded interleaving of operation steps)"]
ASSUMPTIONS = ["Clients interleave between operations and iterator steps (no two writers inside one call)."]


def gen_pool(rng, big=False):
    iris = [EX + c for c in "abcd"] + ["", "a", EX, "urn:x", XSD + "integer"]
    n = rng.choice([2, 3, 4]) if not big else 12
    S = [I(x) for x in rng.sample(iris, min(n, len(iris)))] + [B(i) for i in range(rng.randrange(0, 3))]
    if big:
        S += [I(EX + "s%d" % i) for i in range(30)]
    Pr = [I(x) for x in rng.sample(iris, rng.choice([1, 2, 3]))]
    O = rng.sample(S, min(len(S), 2)) + [
        rng.choice([L("a"), L("a", "en"), L("a", None, XSD + "string"), L("", None, None), L("a", "en-us"),
                    L("1", None, XSD + "integer"), gen_literal(rng)]) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.3:
        O.append(I(rng.choice(iris)))
    if big:
        O += [L(str(i)) for i in range(20)]
    dd = lambda xs: list(dict.fromkeys(xs))
    return dd(S), dd(Pr), dd(O)


def gen(rng, tier, idx):
    big = rng.random() < 0.04
    S, Pr, O = gen_pool(rng, big)
    ng = rng.choice([1, 1, 2, 3])
    nops = rng.randrange(5, 70) if not big else rng.randrange(40, 120)
    kinds = swarm(rng, ["add", "remove", "addAll", "removeMatches", "merge", "open", "step", "step", "drop", "feed",
                        "snapshot", "create", "absent", "removeMatches", "add", "import"], 4)
    kinds += ["add", "add", "check"]
    if rng.random() < 0.7:
        kinds += ["open", "step", "step", "remove"]
    st = lambda: [rng.choice(S), rng.choice(Pr), rng.choice(O)]
    pat = lambda: [rng.choice(x) if rng.random() < 0.5 else None for x in (S, Pr, O)]
    ops = []
    nit = 0
    for _ in range(nops):
        k = rng.choice(kinds)
        g = rng.randrange(ng)
        c = rng.randrange(4)
        if k == "add":
            ops.append(["add", c, g, st()])
        elif k == "remove":
            ops.append(["remove", c, g, st()])
        elif k == "absent":
            ops.append(["absent", c, g, st()])
        elif k == "addAll":
            n = rng.randrange(0, 6) if not big else rng.randrange(50, 400)
            ops.append(["addAll", c, g, rng.choice(["list", "gen", "set", "graph"]), [st() for _ in range(n)]])
        elif k == "removeMatches":
            ops.append(["removeMatches", c, g, pat()])
        elif k == "merge":
            ops.append(["merge", c, g, rng.randrange(ng), rng.randrange(ng)])
        elif k == "import":
            ops.append(["import", c, g, rng.randrange(ng)])
        elif k == "create":
            ops.append(["create", c, g, [st() for _ in range(rng.randrange(0, 5))]])
        elif k == "open":
            ops.append(["open", c, g, nit, rng.choice(["match", "match", "match", "iter", "subjects", "predicates", "objects"]), pat()])
            nit += 1
        elif k in ("step", "feed") and nit:
            if k == "step":
                ops.append(["step", c, rng.randrange(max(0, nit - 4), nit), rng.choice([1, 1, 1, 2, 3, 100])])
            else:
                ops.append(["feed", c, g, rng.randrange(max(0, nit - 4), nit)])
        elif k == "drop" and nit:
            ops.append(["drop", c, rng.randrange(nit)])
        elif k == "snapshot":
            ops.append(["snapshot", c, g])
        elif k == "check":
            ops.append(["check", c, g])
    return {"cfg": {"ng": ng, "big": big}, "pool": [S, Pr, O], "ops": ops}


class It:
    def __init__(self, it, gid, kind, pat, model):
        self.it, self.gid, self.kind, self.pat = it, gid, kind, pat
        self.ever = set()
        self.dirty = False
        self.done = False
        self.got = []
        self.note(model)

    def select(self, model):
        if self.kind in ("match", "iter"):
            return {st for st in model if all(p is None or p == x for p, x in zip(self.pat, st))}
        i = ("subjects", "predicates", "objects").index(self.kind)
        return {st[i] for st in model}

    def note(self, model):
        self.ever |= self.select(model)


def run(plan, ctx):
    from simkit import world as W

    P = W.P
    build = Build(P)
    S, Pr, O = (T(x) for x in plan["pool"])
    big = plan["cfg"]["big"]
    pool = (S, Pr, O) if not big else (S[:6], Pr[:2], O[:6])
    graphs = [P.Graph() for _ in range(max(1, plan["cfg"]["ng"]))]
    models = [set() for _ in graphs]
    its = {}
    snaps = []
    env = P.RDFEnvironment()
    last_client = None

    def changed(g, before):
        if models[g] != before:
            for it in its.values():
                if it.gid == g:
                    it.dirty = True
                    if not it.done and it.got:
                        ctx.probe("interleaved")
                    it.note(models[g])

    def step(it, n):
        """Advance an open iterator; returns what it yielded."""
        for _ in range(n):
            if it.done:
                return
            try:
                x = next(it.it)
            except StopIteration:
                it.done = True
                if not it.dirty:
                    want = it.select(models[it.gid])
                    check(len(it.got) == len(set(it.got)), "iterator", lambda: f"{it.kind}{it.pat} yields twice: {short(it.got)}")
                    check(set(it.got) == want, "iterator", lambda: f"{it.kind}{it.pat} yielded {short(it.got)}, should be {short(want)}")
                return
            except Exception as e:  # noqa: BLE001
                it.done = True
                check(it.dirty, "iterator-error", lambda: f"{it.kind}{it.pat} raised {e!r} though nothing changed")
                ctx.probe("iterator-ended-by-mutation")
                return
            y = build.back_st(x) if it.kind in ("match", "iter") else build.back(x)
            check(y in it.ever, "iterator-phantom", lambda: f"{it.kind}{it.pat} yielded {y}, not there since it was opened")
            it.got.append(y)
            check(len(it.got) <= 4 * len(it.ever) + 50, "no-progress", "an iterator does not end")

    for op in plan["ops"]:
        k, client = op[0], op[1]
        if k in ("step", "feed", "drop"):
            it = its.get(op[2] if k != "feed" else op[3])
            if it is None:
                continue
            if k == "step":
                step(it, op[3])
                if client != last_client:
                    ctx.probe("interleaved")
            elif k == "drop":
                it.done = True
                it.it = None
            else:
                g = op[2] % len(graphs)
                if it.kind not in ("match", "iter") or it.done:
                    continue
                before = set(models[g])
                seen = []

                def relay():
                    while not it.done:
                        n0 = len(it.got)
                        step(it, 1)
                        if len(it.got) > n0:
                            seen.append(it.got[-1])
                            yield build.triple(it.got[-1])

                call("graph-op", "addAll from an iterator", lambda: graphs[g].addAll(relay()))
                models[g].update(seen)
                changed(g, before)
                ctx.probe("fed-from-iterator")
            ctx.log(k, client, len(it.got), it.done, it.dirty)
            last_client = client
            continue
        g = op[2] % len(graphs)
        G, M = graphs[g], models[g]
        before = set(M)
        out = None
        if k == "add":
            st = T(op[3])
            out = call("graph-op", f"add {st}", lambda: G.add(build.triple(st)))
            check(out is G, "graph-op", "add does not return its graph")
            M.add(st)
        elif k == "remove" or k == "absent":
            st = T(op[3])
            if k == "remove" and M and st not in M:
                st = sorted(M, key=repr)[len(repr(st)) % len(M)]
            if st in M:
                out = call("graph-op", f"remove {st}", lambda: G.remove(build.triple(st)))
                check(out is G, "graph-op", "remove does not return its graph")
                M.discard(st)
            else:
                try:
                    G.remove(build.triple(st))
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise Violation("graph-op", f"removing the absent {st} did not raise")
        elif k == "addAll":
            sts = [T(x) for x in op[4]]
            ts = [build.triple(x) for x in sts]
            src = {"list": lambda: ts, "gen": lambda: (t for t in ts), "set": lambda: set(ts),
                   "graph": lambda: env.createGraph(ts)}[op[3]]()
            out = call("graph-op", "addAll", lambda: G.addAll(src))
            check(out is G, "graph-op", "addAll does not return its graph")
            M.update(sts)
        elif k == "import":
            h = op[3] % len(graphs)
            out = call("graph-op", "addAll of a graph", lambda: G.addAll(graphs[h]))
            check(out is G, "graph-op", "addAll does not return its graph")
            M |= models[h]
            check_graph(W, graphs[h], models[h], build, pool, "the imported graph", deep=False)
        elif k == "removeMatches":
            pat = T(op[3])
            out = call("graph-op", f"removeMatches {pat}", lambda: G.removeMatches(*(build.term(x) for x in pat)))
            check(out is G, "graph-op", "removeMatches does not return its graph")
            M -= {st for st in M if all(p is None or p == x for p, x in zip(pat, st))}
        elif k == "merge":
            h, dest = op[3] % len(graphs), op[4] % len(graphs)
            new = call("graph-op", "merge", lambda: G.merge(graphs[h]))
            check(new is not G and new is not graphs[h], "graph-op", "merge returned one of its arguments")
            both = models[g] | models[h]
            check_graph(W, new, both, build, pool, "merged graph", deep=False)
            check_graph(W, G, models[g], build, pool, "merge's left graph", deep=False)
            check_graph(W, graphs[h], models[h], build, pool, "merge's right graph", deep=False)
            for it in its.values():
                if it.gid == dest:
                    it.gid = -1
                    it.done = True
            graphs[dest], models[dest] = new, set(both)
            ctx.log("merge", len(both))
            continue
        elif k == "create":
            sts = [T(x) for x in op[3]]
            new = call("graph-op", "createGraph", lambda: env.createGraph([build.triple(x) for x in sts]))
            for it in its.values():
                if it.gid == g:
                    it.gid = -1
                    it.done = True
            graphs[g], models[g] = new, set(sts)
            check_graph(W, new, models[g], build, pool, "created graph", deep=False)
            continue
        elif k == "open":
            kind, pat = op[4], T(op[5])
            if kind != "match":
                pat = (None, None, None)
            args = tuple(build.term(x) for x in pat)
            src = call("graph-op", "open", {
                "match": lambda: iter(G.match(*args)), "iter": lambda: iter(G), "subjects": lambda: iter(G.subjects()),
                "predicates": lambda: iter(G.predicates()), "objects": lambda: iter(G.objects())}[kind])
            its[op[3]] = It(src, g, kind, pat, M)
        elif k == "snapshot":
            snaps.append((call("graph-op", "toArray", lambda: G.toArray()), frozenset(M)))
        elif k == "check":
            check_graph(W, G, M, build, pool)
        changed(g, before)
        check(len(graphs[g]) == len(models[g]), "graph-op", lambda: f"after {k}: len is {len(graphs[g])}, should be {len(models[g])}")
        if k in ("add", "remove", "absent"):
            st = T(op[3])
            check((build.triple(st) in graphs[g]) == (st in models[g]), "graph-op", lambda: f"after {k}: membership of {st} is wrong")
        ctx.log(k, client, len(models[g]))
        ctx.state(sorted(map(repr, models[g])))
        if client != last_client and any(not i.done for i in its.values()):
            ctx.probe("interleaved")
        last_client = client
    for it in its.values():
        if not it.done:
            step(it, 10000)
    for g, (G, M) in enumerate(zip(graphs, models)):
        check_graph(W, G, M, build, pool, f"graph {g}")
    for arr, want in snaps:
        got = {build.back_st(t) for t in arr}
        check(got == want, "snapshot", lambda: f"a snapshot changed: {short(got)} was {short(want)}")
