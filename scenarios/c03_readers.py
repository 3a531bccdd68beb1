"""C03: reader threads over one graph and one dataset, preempted inside the library."""
from simkit import sched
from simkit.core import check, Violation, short
from simkit.terms import (T, I, B, L, Build, EX, XSD, RDFNS, RDFSNS, TYPE, FIRST, REST, NIL, gen_literal, isomorphic,
                          norm_st, nt_read)
from simkit.views import check_graph, check_dataset

RUNS = {"quick": 6000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded thread schedules (line/bytecode preemption) of readers, compared with each reader alone"
RULE = ("Each run builds a graph and a dataset (typed resources, RDF lists, labels, blank nodes, empty named graphs) and "
        "starts 2-4 reader threads with 1-5 questions each: match, membership, length, iteration, listings, snapshots, "
        "resource access with every kind of key, classification, instance listing, backward references, list "
        "traversal, N-Triples/N-Quads/Turtle output; half of the questions name terms or graphs that are not there. "
        "A seeded scheduler switches threads at any line or bytecode of the library. Every answer is compared with "
        "the answer of an identical store asked by one thread, and afterwards both stores with the original set.")
REAL = ["pymantic.primitives, pymantic.rdf, pymantic.serializers (all real, real threads)"]
STUB = ["thread scheduler (seeded, one thread at a time, switches at any library line or bytecode)",
        "allocator (blank-node addresses)", "output streams (in memory, scheduling points)"]
ASSUMPTIONS = ["CPython semantics: a single call into a builtin container is atomic (GIL); switches happen between bytecodes of the library.",
               "Nobody writes to the store while it is read."]

P1, P2, LABEL = I(EX + "p"), I(EX + "q"), I(RDFSNS + "label")
NOSUCH = I(EX + "nosuch")


def gen(rng, tier, idx):
    n = rng.randrange(1, 5)
    S = [I(EX + "s%d" % i) for i in range(n)] + [B(i) for i in range(rng.randrange(0, 3))]
    types = [I(EX + "T%d" % i) for i in range(4)]
    Pr = [P1, P2, LABEL]
    O = S[:3] + [gen_literal(rng, 0.1, [XSD + "integer", XSD + "string", XSD + "boolean"]) for _ in range(3)] + [L("lab", "en"), L("lab", "fr"), L("x")]
    data = []
    for _ in range(rng.randrange(0, 14)):
        data.append([rng.choice(S), rng.choice(Pr), rng.choice(O)])
    for s in S:
        for t in types:
            if rng.random() < 0.3:
                data.append([s, TYPE, t])
    heads = []
    if rng.random() < 0.6:
        k = rng.randrange(1, 5)
        cells = [B(100 + i) for i in range(k)]
        heads.append(cells[0])
        for i, c in enumerate(cells):
            data.append([c, FIRST, rng.choice(O)])
            data.append([c, REST, cells[i + 1] if i + 1 < k else NIL])
        data.append([rng.choice(S), P1, cells[0]])
    names = rng.sample([None, I(EX + "g1"), I(EX + "g2"), B(90)], rng.randrange(1, 4))
    quads = [[*rng.choice(data), rng.choice(names)] for _ in range(rng.randrange(0, 10))] if data else []
    empty = [x for x in ([I(EX + "empty")] if rng.random() < 0.5 else [])]

    def term(xs):
        return rng.choice(xs) if rng.random() < 0.6 else rng.choice([None, None, NOSUCH, B(99)])

    def pat():
        if data and rng.random() < 0.5:
            st = rng.choice(data)
            return [x if rng.random() < 0.6 else None for x in st]
        if data and rng.random() < 0.5:
            # terms that are all there, but not together: present object of an absent subject, ...
            a, b, c = rng.choice(data)[0], rng.choice(data)[1], rng.choice(data)[2]
            return [x if rng.random() < 0.6 else None for x in (a, b, c)]
        return [term(S), term(Pr + [TYPE]), term(O)]

    def key():
        p = rng.choice([P1, P2, LABEL, TYPE, NOSUCH])[1]
        f = rng.choice(["-", "-", None, "en", "fr", XSD + "integer", "", "@T0", "@T1"])
        if rng.random() < 0.25:  # written short; ex: is bound in T0 only, gl: for everybody, nope: nowhere
            p = rng.choice(["ex:p", "ex:q", "gl:p", "gl:q", "rdfs:label", "rdf:type", "nope:p", "xsd:p"])
        return [p, f]

    def q():
        where = rng.choice(["g", "g", "d"])
        k = rng.choice(["match", "match", "match", "in", "in", "len", "iter", "toArray", "subjects", "predicates", "objects",
                        "get", "get", "scalar", "contains", "classify", "in_graph", "object_of", "list", "is_list", "nt",
                        "ttl", "dmatch", "dmatch", "din", "dlen", "diter", "dgraphs", "nq", "dtriple", "riter", "str", "is_a", "resolve"])
        if k == "resolve":
            return [k, rng.choice(["R", "T0", "S"]), rng.choice(["ex:p", "gl:q", "rdfs:label", "nope:p", "xsd:p", EX + "p"])]
        if k in ("match", "in"):
            return [k, pat()]
        if k in ("dmatch", "din", "dtriple"):
            g = rng.choice(names) if rng.random() < 0.5 else rng.choice([None, NOSUCH, I(EX + "nosuch2")])
            return [k, pat() + [g]]
        subj = rng.choice(S + [NOSUCH, B(99)])
        if k in ("get", "scalar", "contains"):
            return [k, rng.choice(["R", "T0", "S"]), subj, key()]
        if k in ("classify", "riter", "str", "is_a"):
            return [k, rng.choice(["R", "T0", "S"]), subj]
        if k == "object_of":
            return [k, subj, rng.choice([None, P1[1], NOSUCH[1]])]
        if k == "in_graph":
            return [k, rng.choice(["T0", "T1", "T2", "R"])]
        if k in ("list", "is_list"):
            return [k, rng.choice(heads + [NIL]) if rng.random() < 0.8 else subj] if k == "is_list" or heads else ["len"]
        return [k]

    focus = rng.choice([None, None, None, "match", "types", "view"] + ["list"] * bool(heads))
    if focus and data:
        # many questions of one kind around the same few terms
        hot = rng.choice(data)
        hots = [x for x in (hot[0], *S[:3]) if x[0] != "L"]

        def q():  # noqa: F811
            if focus == "list":
                return rng.choice([["list", heads[0]], ["list", heads[0]], ["is_list", heads[0]],
                                   ["get", "R", heads[0], [rng.choice([FIRST, REST])[1], rng.choice(["-", None])]]])
            if focus == "view":
                return rng.choice([["get", "R", hots[0], [rng.choice([P1, P2, TYPE, LABEL])[1], rng.choice(["-", None])]]] * 3 +
                                  [["riter", "R", hots[0]], ["object_of", hots[0], None], ["contains", "R", hots[0], key()]])
            if focus == "types":
                return rng.choice([["classify", "R", rng.choice(hots)], ["get", "R", rng.choice(hots), [TYPE[1], "-"]],
                                   ["is_a", "R", rng.choice(hots)], ["in_graph", "R"], ["in_graph", "T0"],
                                   ["riter", "R", rng.choice(hots)], ["object_of", rng.choice(hots), None]])
            keep = rng.randrange(3)
            if rng.random() < 0.5:  # enumerate below one present term
                return ["match", [hot[i] if i == keep else None for i in range(3)]]
            miss = rng.choice([i for i in range(3) if i != keep])
            other = [rng.choice(data)[miss], NOSUCH, B(99)]
            return ["match", [hot[i] if i == keep else rng.choice(other) if i == miss else None for i in range(3)]]

    nthreads = rng.randrange(2, 5)
    threads = [[q() for _ in range(rng.randrange(1, 6))] for _ in range(nthreads)]
    if rng.random() < 0.3:
        threads = [list(threads[0]) for _ in threads]  # everybody asks the same first-time question
    return {"cfg": {}, "shared": focus == "view" or rng.random() < 0.5, "data": data, "quads": quads, "empty": empty, "threads": threads,
            "sched": sched.gen_sched(rng, nthreads, expect=80 * max(map(len, threads)) * nthreads)}


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, s):
        sched.yield_point()
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass


def run(plan, ctx):
    from simkit import world as W

    P, R, SER = W.P, W.RDF, W.SER
    build = Build(P)

    R.Resource.global_profile.setPrefix("gl", EX)

    class T0(R.Resource):
        prefixes = {"ex": EX}
        scalars = frozenset((EX + "p",))

    class T1(R.Resource):
        pass

    class T2(T1):
        pass

    class S(R.Resource):
        scalars = frozenset((EX + "p", EX + "q"))

    for c, t in ((T0, "T0"), (T1, "T1"), (T2, "T2")):
        R.register_class(EX + t)(c)
    CL = {"R": R.Resource, "T0": T0, "T1": T1, "T2": T2, "S": S}
    leaf = {T0: "T0", T1: "T1", T2: "T2", S: "S", R.List: "List"}

    data = [T(x) for x in plan["data"]]
    quads = [T(x) for x in plan["quads"]]
    model = set(data)
    dmodel = {}
    for q in quads:
        dmodel.setdefault(q[3], set()).add(q[:3])
    empty = [T(x) for x in plan["empty"]]

    def make():
        g, d = P.Graph(), P.Dataset()
        for st in data:
            g.add(build.triple(st))
        for q in quads:
            d.add(build.quad(q))
        for n in empty:
            d.add_graph(P.Graph(build.term(n)))
        return g, d

    for i in (90, 99):
        build.bnode(i)
    G, D = make()
    twin = make()

    def res(x):
        if isinstance(x, R.Resource):
            mro = type(x).__mro__
            return ("R", build.back(x.subject), tuple(sorted(leaf[c] for c in mro if c in leaf)),
                    tuple(sorted(map(str, type(x).scalars))))
        return build.back(x)

    def pull(it):
        out = []
        for x in it:
            sched.yield_point(1)
            out.append(x)
        return out

    def lkey(k):
        p, f = k
        if f == "-":
            return p
        return (p, CL[f[1:]] if isinstance(f, str) and f.startswith("@") else f)

    def bag(xs):
        return sorted(map(repr, xs))

    def ask(g, d, q, views=None):
        k = q[0]

        def res_at(c, subject):
            """A view of the subject; the threads may have been handed the same object."""
            if views is None:
                return c(g, build.term(T(subject)))
            return views.setdefault((c, repr(subject)), c(g, build.term(T(subject))))

        if k == "match":
            return bag(build.back_st(t) for t in pull(g.match(*(build.term(T(x)) for x in q[1]))))
        if k == "in":
            return build.triple(tuple(T(x) for x in q[1])) in g
        if k == "len":
            return len(g)
        if k == "iter":
            return bag(build.back_st(t) for t in pull(g))
        if k == "toArray":
            return bag(build.back_st(t) for t in g.toArray())
        if k in ("subjects", "predicates", "objects"):
            return bag(build.back(t) for t in pull(getattr(g, k)()))
        if k in ("get", "scalar", "contains"):
            r = res_at(CL[q[1]], q[2])
            key = lkey(q[3])
            if k == "contains":
                return key in r
            if k == "scalar":
                return res(r.get_scalar(key))
            v = r[key]
            if isinstance(v, (R.Resource, P.Literal)) or v is None:
                return res(v)
            return bag(res(x) for x in pull(v))
        if k == "classify":
            return res(CL[q[1]].classify(g, build.term(T(q[2]))))
        if k == "riter":
            return bag((build.back(a), build.back(b)) for a, b in pull(res_at(CL[q[1]], q[2])))
        if k == "str":
            return str(res_at(CL[q[1]], q[2]))
        if k == "is_a":
            return res_at(CL[q[1]], q[2]).is_a()
        if k == "object_of":
            r = res_at(R.Resource, q[1])
            if q[2] is None:
                return bag((res(a), build.back(b)) for a, b in pull(r.object_of()))
            return bag(res(a) for a in pull(r.object_of(q[2])))
        if k == "resolve":
            return build.back(CL[q[1]].resolve(q[2]))
        if k == "in_graph":
            return bag(res(x) for x in pull(CL[q[1]].in_graph(g)))
        if k == "list":
            return [res(x) for x in pull(res_at(R.List, q[1]))]
        if k == "is_list":
            return R.List.is_list(build.term(T(q[1])), g)
        if k == "nt":
            f = Sink()
            SER.serialize_ntriples(g, f)
            return sorted("".join(f.parts).split("\n"))
        if k == "nq":
            f = Sink()
            SER.serialize_nquads(d, f)
            return sorted("".join(f.parts).split("\n"))
        if k == "ttl":
            f = Sink()
            SER.serialize_turtle(g, f)
            return ("ttl", "".join(f.parts))
        if k == "dmatch":
            return bag(build.back_st(t) for t in pull(d.match(*(build.term(T(x)) for x in q[1]))))
        if k == "din":
            return build.quad(tuple(T(x) for x in q[1])) in d
        if k == "dtriple":
            return build.triple(tuple(T(x) for x in q[1][:3])) in d
        if k == "dlen":
            return len(d)
        if k == "diter":
            return bag(build.back_st(t) for t in pull(d))
        if k == "dgraphs":
            return sorted(len(x) for x in d.graphs)
        raise AssertionError(q)

    def outcome(g, d, q, views=None):
        try:
            return ("ok", ask(g, d, q, views))
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            return ("raised", type(e).__name__)

    shared = {} if plan.get("shared") else None
    if shared is not None:
        ctx.probe("shared-views")
    answers = [[] for _ in plan["threads"]]
    s = sched.make(ctx, plan["sched"])
    for i, qs in enumerate(plan["threads"]):
        def body(i=i, qs=qs):
            for q in qs:
                answers[i].append(outcome(G, D, q, shared))

        s.spawn(body)
    try:
        s.run()
    finally:
        sched.preempt_on(None)
    g2, d2 = twin
    cache = {}
    for i, qs in enumerate(plan["threads"]):
        for q, got in zip(qs, answers[i]):
            key = repr(q)
            if key not in cache:
                cache[key] = outcome(g2, d2, q)
            want = cache[key]
            ctx.probe(q[0])
            if got == want:
                ok = True
            elif got[0] == want[0] == "ok" and q[0] == "ttl":
                ok = isomorphic(turtle(W, got[1][1]), turtle(W, want[1][1])) is not False
            else:
                ok = False
            check(ok, "reader-answer", lambda: f"thread {i} asked {q} and got {short(got, 600)}; alone it gets {short(want, 600)}")
            if got[0] == "raised":
                ctx.probe("raises-alike")
            ctx.log(i, q[0], got[0])
    S_ = list(dict.fromkeys(st[0] for st in data))[:4] + [NOSUCH, B(99)]
    Pr_ = [P1, TYPE, NOSUCH]
    O_ = list(dict.fromkeys(st[2] for st in data))[:4] + [NOSUCH, B(99)]
    check_graph(W, G, model, build, (S_, Pr_, O_))
    check_dataset(W, D, dmodel, build, (S_[:2], Pr_[:2], O_[:2]), [*dmodel, NOSUCH], may_be_empty=set(empty))
    check(len(list(D.graphs)) == len([g for g in dmodel]) + len([e for e in empty if e not in dmodel]), "store-changed",
          lambda: f"the dataset lists {len(list(D.graphs))} graphs after being read")
    ctx.state((len(data), len(quads), plan["sched"].get("mode")))


def turtle(W, text):
    b = Build(W.P)
    return {norm_st(b.back_st(t)) + (None,) for t in W.PARSERS.turtle_parser.parse(text)}
