"""C20: threads working on stores of their own, each compared with the same work alone in a process of its own."""
import gc
import os
import pickle

from simkit import docs, sched
from simkit.core import Violation, HarnessError, check, short
from simkit.terms import T, I, B, L, Build, EX, XSD, RDFSNS, TYPE, FIRST, REST, NIL, diff_text, isomorphic, norm_st, nt_read, swarm

RUNS = {"quick": 5000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: seeded thread schedules (line/bytecode preemption) of writers on separate stores, compared "
             "with each script run alone in a forked process")
RULE = ("Each run starts 2-4 threads; each has two graphs and a dataset of its own and a script of 3-25 operations on them: adding, removing, "
        "importing, merging, pattern removal, discarding a graph and starting another, all ways of reading, attaching graphs to "
        "the dataset and going on with graphs of datasets already discarded, reading, assigning, deleting, creating, copying, erasing and classifying through shared resource classes, list "
        "traversal, parsing into a graph, N-Triples/N-Quads/Turtle output with a profile of its own. All threads use the same few terms and share blank nodes; "
        "scripts are often near copies of one another. A seeded scheduler switches at any line or bytecode of the library. "
        "Every answer and the final contents must be what the same script gives alone in a process forked before the threads started.")
REAL = ["pymantic.primitives, pymantic.rdf, pymantic.serializers, pymantic.parsers, lark (all real, real threads)"]
STUB = ["garbage collector (runs only when the script says)", "thread scheduler (seeded, one thread at a time, switches at any library line or bytecode)", "allocator (blank-node addresses)"]
ASSUMPTIONS = ["CPython semantics: a single call into a builtin container is atomic (GIL); lark is not preempted.",
               "The behaviour of one script alone is judged by the other properties, not by this one."]

PREDS = [EX + "p", EX + "q", RDFSNS + "label", TYPE[1]]
VIEWS = ["R", "T0", "T1", "S"]


def gen(rng, tier, idx):
    subs = [I(EX + "s%d" % i) for i in range(rng.randrange(1, 4))] + [B(i) for i in range(rng.randrange(0, 3))]
    types = [I(EX + "T%d" % i) for i in range(4)]
    preds = rng.sample(PREDS, rng.randrange(2, 5))
    objs = subs + [L("a"), L("a", "en"), L("b", "fr"), L("1", None, XSD + "integer"), L("b")]
    names = [I(EX + "g1"), I(EX + "g2"), B(80)]

    def st():
        p = rng.choice(preds)
        return [rng.choice(subs), I(p), rng.choice(types) if p == TYPE[1] else rng.choice(objs)]

    def pat():
        s = st()
        return [x if rng.random() < 0.5 else None for x in s]

    def key():
        return [rng.choice(preds), rng.choice(["-", "-", None, "en", "fr", XSD + "integer", "@T0"])]

    def val():
        return rng.choice([["s", rng.choice("abc")], ["t", rng.choice(objs)], ["n", rng.choice([0, 1, 7])]])

    kinds = swarm(rng, ["add", "add", "remove", "addAll", "import", "removeMatches", "merge", "new", "match", "match", "in", "len", "list", "iter",
                        "dadd", "dadd", "dremove", "dmatch", "din", "dattach", "dhandle", "dhandle", "dlen", "dnew", "dnew", "diter", "gc",
                        "rget", "rget", "rset", "rset", "rdel", "rnew", "classify", "classify", "in_graph", "object_of", "erase", "copy",
                        "nt", "nq", "ttl", "ttl", "parse", "rlist"], 8) + ["add", "add", "match"]

    def op():
        k, g = rng.choice(kinds), rng.randrange(2)
        if k in ("add", "remove", "in"):
            return [k, g, st()]
        if k == "addAll":
            return [k, g, [st() for _ in range(rng.randrange(0, 4))]]
        if k in ("import", "merge"):
            return [k, g]
        if k in ("removeMatches", "match"):
            return [k, g, pat()]
        if k == "new":
            return [k, g, rng.choice([None, EX + "g1", EX + "g2"])]
        if k == "list":
            return [k, g, rng.choice(["subjects", "predicates", "objects"])]
        if k in ("dadd", "dremove", "din"):
            return [k, st() + [rng.choice(names)]]
        if k == "dmatch":
            return [k, pat() + [rng.choice([None, *names])]]
        if k in ("dattach", "dhandle"):
            return [k, g, rng.choice(names[:2])]
        if k in ("rget", "rdel"):
            return [k, g, rng.choice(VIEWS), rng.choice(subs), key()]
        if k == "rset":
            many = rng.random() < 0.4
            return [k, g, rng.choice(VIEWS), rng.choice(subs), key(), many, [val() for _ in range(rng.randrange(0, 3) if many else 1)]]
        if k == "rnew":
            return [k, g, rng.choice(VIEWS), rng.choice([*subs, None])]
        if k == "classify":
            return [k, g, rng.choice(subs)]
        if k == "in_graph":
            return [k, g, rng.choice(VIEWS)]
        if k == "object_of":
            return [k, g, rng.choice(subs)]
        if k == "erase":
            return [k, g, rng.choice(subs)]
        if k == "copy":
            return [k, g, rng.choice(subs), rng.choice(subs)]
        if k == "ttl":
            return [k, g, rng.choice(["ex", "e", "x"]), rng.choice([EX, EX + "s", "urn:q:"]), rng.choice([None, EX])]
        if k == "rlist":
            return [k, g, [rng.choice(objs) for _ in range(rng.randrange(1, 4))]]
        if k == "parse":
            fmt = rng.choice(["nt", "ttl"])
            labels = ["a", "b"]
            if fmt == "nt":
                text = docs.nt_doc(rng, docs.gen_statements(rng, rng.randrange(1, 4), labels=labels, nasty=0.1))[0]
            else:
                text = docs.turtle_doc(rng, rng.randrange(1, 3), labels=labels, deep=1)[0]
            return [k, g, fmt, text]
        return [k, g]

    n = rng.randrange(2, 5)
    threads = [[op() for _ in range(rng.randrange(3, 26))] for _ in range(n)]
    if rng.random() < 0.5:
        # near copies: same shape, now and then another operation
        for i in range(1, n):
            threads[i] = [o if rng.random() < 0.7 else op() for o in threads[0]]
    return {"cfg": {}, "threads": threads, "sched": sched.gen_sched(rng, n, expect=60 * n * max(map(len, threads)))}


class Worker:
    """One script and the stores it works on."""

    def __init__(self, W, CL, build, script):
        self.W, self.CL, self.shared, self.script = W, CL, build, script
        self.g = [W.P.Graph(), W.P.Graph()]
        self.d = W.P.Dataset()
        self.answers = []
        self.fresh = {}

    def back(self, x):
        """Shared nodes by name; a node of this script's own is just one."""
        b = self.shared
        if isinstance(x, self.W.P.BlankNode) and not any(x is y for y in b.b.values()):
            return ("b", "?")
        return b.back(x)

    def sts(self, it):
        return sorted(repr(tuple(self.back(x) for x in t)) for t in it)

    def res(self, x):
        if isinstance(x, self.W.RDF.Resource):
            return ("R", self.back(x.subject), x.graph in self.g, tuple(sorted(n for n, c in self.CL.items() if isinstance(x, c))),
                    tuple(sorted(map(str, type(x).scalars))), tuple(sorted(map(str, type(x).rdf_classes))))
        return self.back(x)

    def key(self, k):
        p, f = k
        if f == "-":
            return p
        if isinstance(f, str) and f.startswith("@"):
            return (p, self.CL[f[1:]])
        return (p, self.W.P.NamedNode(f) if f and ":" in f else f)

    def value(self, v):
        return self.shared.term(T(v[1])) if v[0] == "t" else v[1]

    def do(self, op):
        W, P, R, b = self.W, self.W.P, self.W.RDF, self.shared
        k = op[0]
        g = self.g[op[1]] if isinstance(op[1], int) else None
        t = lambda x: b.term(T(x))
        if k == "add":
            return g.add(b.triple(T(op[2]))) is g
        if k == "remove":
            return g.remove(b.triple(T(op[2]))) is g
        if k == "in":
            return b.triple(T(op[2])) in g
        if k == "addAll":
            return g.addAll([b.triple(T(x)) for x in op[2]]) is g
        if k == "import":
            return g.addAll(self.g[1 - op[1]]) is g
        if k == "merge":
            self.g[op[1]] = g.merge(self.g[1 - op[1]])
            return len(self.g[op[1]])
        if k == "removeMatches":
            return g.removeMatches(*map(t, op[2])) is g
        if k == "match":
            return self.sts(g.match(*map(t, op[2])))
        if k == "new":
            self.g[op[1]] = P.Graph(op[2]) if op[2] else P.Graph()
            return self.g[op[1]].uri
        if k == "list":
            return sorted(repr(self.back(x)) for x in getattr(g, op[2])())
        if k == "iter":
            return self.sts(g)
        if k == "len":
            return len(g)
        if k == "dadd":
            return self.d.add(b.quad(T(op[1])))
        if k == "dremove":
            return self.d.remove(b.quad(T(op[1])))
        if k == "din":
            return bool(b.quad(T(op[1])) in self.d)
        if k == "dmatch":
            return self.sts(self.d.match(*map(t, op[1])))
        if k == "dattach":
            return self.d.add_graph(g, t(op[2]))
        if k == "dhandle":  # works on with a graph of the dataset, which may go away before it
            for x in list(self.d.graphs):
                if x.uri == t(op[2]):
                    self.g[op[1]] = x
                    return len(x)
            return None
        if k == "gc":  # the collector runs here
            gc.collect()
            return None
        if k == "dlen":
            return len(self.d), sorted(len(x) for x in self.d.graphs if len(x))
        if k == "diter":
            return self.sts(self.d)
        if k == "dnew":
            self.d = P.Dataset()
            return None
        if k in ("rget", "rdel", "rset"):
            r = self.CL[op[2]](g, t(op[3]))
            key = self.key(op[4])
            if k == "rdel":
                del r[key]
                return None
            if k == "rset":
                vals = [self.value(v) for v in op[6]]
                r[key] = vals if op[5] else vals[0]
                return None
            v = r[key]
            if v is None or isinstance(v, (R.Resource, P.Literal)):
                return self.res(v)
            return sorted(repr(self.res(x)) for x in v)
        if k == "rnew":
            r = self.CL[op[2]].new(g, t(op[3])) if op[3] is not None else self.CL[op[2]].new(g)
            return self.res(r)
        if k == "classify":
            return self.res(R.Resource.classify(g, t(op[2])))
        if k == "in_graph":
            return sorted(repr(self.res(x)) for x in self.CL[op[2]].in_graph(g))
        if k == "object_of":
            return sorted(repr((self.res(a), self.back(p))) for a, p in R.Resource(g, t(op[2])).object_of())
        if k == "erase":
            return R.Resource(g, t(op[2])).erase()
        if k == "copy":
            return self.res(R.Resource(g, t(op[2])).copy(t(op[3])))
        if k in ("nt", "nq", "ttl"):
            out = Sink()
            if k == "nt":
                W.SER.serialize_ntriples(g, out)
            elif k == "nq":
                W.SER.serialize_nquads(self.d, out)
            else:
                prof = P.Profile()
                prof.setPrefix(op[2], op[3])
                W.SER.serialize_turtle(g, out, base=op[4], profile=prof)
            text = "".join(out.parts)
            own = g if k != "nq" else self.d
            plainly = not any(isinstance(x, P.BlankNode) for st in own for x in st)
            # Labels may differ between processes: then what is written is compared, not how.
            return sorted(text.split("\n")) if plainly else ("text", k, text)
        if k == "parse":
            p = W.PARSERS.ntriples_parser if op[2] == "nt" else W.PARSERS.turtle_parser
            return p.parse(op[3], g) is g
        if k == "rlist":
            cells = [P.BlankNode() for _ in op[2]]
            for i, v in enumerate(op[2]):
                g.add(P.Triple(cells[i], t(FIRST), t(v)))
                g.add(P.Triple(cells[i], t(REST), cells[i + 1] if i + 1 < len(cells) else t(NIL)))
            return [repr(self.res(x)) for x in R.List(g, cells[0])]
        raise AssertionError(op)

    def run(self):
        for op in self.script:
            try:
                a = ("ok", self.do(op))
            except (Violation, HarnessError):
                raise
            except Exception as e:  # noqa: BLE001
                a = ("raised", type(e).__name__)
            self.answers.append(a)

    def contents(self):
        """Everything in the stores in the end; own nodes numbered, shared ones fixed."""
        own = {}

        def f(x):
            if isinstance(x, self.W.P.BlankNode):
                for n, y in self.shared.b.items():
                    if x is y:
                        return ("i", "urn:shared:%s" % (n,))
                own.setdefault(id(x), (len(own), x))
                return ("b", own[id(x)][0])
            return self.shared.back(x)

        out = []
        for g in self.g:
            sts = [tuple(f(x) for x in st) + (None,) for st in g]
            for view in (list(g.match()), list(g.toArray()), [x for s in list(g.subjects()) for x in g.match(s)],
                         [x for p in list(g.predicates()) for x in g.match(None, p)], [x for o in list(g.objects()) for x in g.match(None, None, o)]):
                v = [tuple(f(x) for x in st) + (None,) for st in view]
                if sorted(map(repr, v)) != sorted(map(repr, sts)):
                    return ("views-disagree", sorted(map(repr, v)), sorted(map(repr, sts)))
            out.append(sorted(set(sts), key=repr))
        out.append(sorted({tuple(f(x) for x in q) for q in self.d}, key=repr))
        return out


def alike(W, a, b):
    if not all(x[0] == "ok" and isinstance(x[1], tuple) and len(x[1]) == 3 and x[1][0] == "text" for x in (a, b)):
        return False
    read = []
    for _, (_, k, text) in (a, b):
        if k == "ttl":
            bb = Build(W.P)
            try:
                read.append({norm_st(bb.back_st(t)) + (None,) for t in W.PARSERS.turtle_parser.parse(text)})
            except Exception:  # noqa: BLE001 - a literal the library writes but cannot read (see C09)
                read.append(None)
        else:
            read.append({norm_st(st) for st in nt_read(text)})
    if None in read:
        return read[0] is read[1]
    return isomorphic(*read) is not False


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, s):
        sched.yield_point(1)
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass


def alone(make):
    """Answers and contents of one script, from a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                k = make()
                k.run()
                out = ("ok", k.answers, k.contents())
            except BaseException as e:  # noqa: BLE001
                out = ("error", repr(e), None)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data)
    if out[0] != "ok":
        raise HarnessError("a script failed alone: " + out[1])
    return out[1:]


def run(plan, ctx):
    from simkit import world as W

    R = W.RDF
    R.MetaResource._classes.clear()

    class T0(R.Resource):
        prefixes = {"ex": EX}
        scalars = frozenset((EX + "p",))

    class T1(R.Resource):
        prefixes = {"ex": EX}

    class S(R.Resource):
        scalars = frozenset((EX + "p", EX + "q"))
        lang = "fr"

    R.register_class(EX + "T0")(T0)
    R.register_class(EX + "T1")(T1)
    R.register_class(EX + "T3")(S)
    CL = {"R": R.Resource, "T0": T0, "T1": T1, "S": S}
    build = Build(W.P)
    for i in (0, 1, 2, 80):
        build.bnode(i)
    make = lambda script: Worker(W, CL, build, script)
    want = [alone(lambda: make(s)) for s in plan["threads"]]
    workers = [make(s) for s in plan["threads"]]
    s = sched.make(ctx, plan["sched"])
    for k in workers:
        s.spawn(k.run)
    try:
        s.run()
    finally:
        sched.preempt_on(None)
    for i, (k, (answers, contents)) in enumerate(zip(workers, want)):
        for op, got, w in zip(k.script, k.answers, answers):
            got = pickle.loads(pickle.dumps(got))
            check(got == w or alike(W, got, w), "separate", lambda: f"thread {i}, {short(op)}: got {short(got, 500)}, alone {short(w, 500)}")
            ctx.probe(op[0])
            ctx.log(i, op[0], got[0])
        end = k.contents()
        check(end and end[0] != "views-disagree", "separate", lambda: f"thread {i}: views of its graph disagree: {short(end, 600)}")
        for n, (a, b) in enumerate(zip(end, contents)):
            r = isomorphic(set(a), set(b))
            check(r is not False, "separate", lambda: f"thread {i}, store {n} holds something else than alone: {diff_text(set(a), set(b))}")
        ctx.state((i, [len(x) for x in end]))


def preload():
    from simkit import world

    world.warm_lexers()
