"""C04: rejected and interrupted mutations inside histories of other operations."""
from simkit.core import ANY, ERRORS, check, Violation, short
from simkit.terms import T, I, B, Build, EX, swarm
from simkit.views import check_graph, check_dataset, call
from scenarios.c01_graph import gen_pool

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("Each run interleaves ordinary mutations of a graph and a dataset with rejected ones (absent statements, things "
        "that are not statements or only half of one, unhashable terms, unnamed graphs, malformed source items) and "
        "with bulk additions whose source (generator, list, graph-like, parser stream) fails at a chosen item with a "
        "chosen error, including KeyboardInterrupt, while the source itself lets other clients mutate the store. "
        "Afterwards every view must equal the set of what was delivered.")
REAL = ["pymantic.primitives.Graph and Dataset, pymantic.parsers (as failing sources) (all real)"]
STUB = ["sources of bulk additions (simulated, fault-injecting)", "allocator (blank-node addresses)"]
ASSUMPTIONS = ["Interruptions arrive from the source, not asynchronously between two bytecodes of the store."]

JUNK = ["none", "str", "int", "nosubject", "nopredicate", "noobject", "unhashable_s", "unhashable_o",
        "quad_nograph", "triple_in_dataset", "unhashable_graph", "raising_attr", "literal"]


def gen(rng, tier, idx):
    S, Pr, O = gen_pool(rng)
    S, O = S[:3], O[:3]
    names = rng.sample([I(EX + "g1"), I(EX + "g2"), B(90), None], rng.randrange(1, 4))
    st = lambda: [rng.choice(S), rng.choice(Pr), rng.choice(O)]
    q = lambda: st() + [rng.choice(names)]
    ops = []
    for _ in range(rng.randrange(3, 25)):
        k = rng.choice(["add", "add", "remove", "absent", "junk", "junk", "bulk", "bulk", "bulk", "unnamed", "create",
                        "merge", "check", "parse", "junkremove", "dpattern"])
        where = rng.choice(["g", "d"])
        c = rng.randrange(3)
        if k in ("add", "remove", "absent", "unnamed"):
            ops.append([k, c, where, q()])
        elif k in ("junk", "junkremove"):
            ops.append([k, c, where, rng.choice(JUNK), q()])
        elif k == "dpattern":
            ops.append([k, c, where, q()])
        elif k in ("bulk", "create", "merge"):
            n = rng.randrange(0, 7) if rng.random() < 0.95 else rng.randrange(60, 300)
            items = []
            for _ in range(n):
                items.append(["q", q()])
                if rng.random() < 0.2:
                    items.append(["do", rng.choice(["add", "remove"]), rng.choice(["g", "d"]), q()])
            fault = rng.choice(["raise", "raise", "raise", "junk", "none"])
            if fault == "raise":
                items.insert(rng.randrange(len(items) + 1), ["raise", rng.choice(sorted(ERRORS))])
            elif fault == "junk":
                items.insert(rng.randrange(len(items) + 1), ["junk", rng.choice(JUNK)])
            ops.append([k, c, where, rng.choice(["gen", "iterclass", "graphlike"]), items])
        elif k == "parse":
            n = rng.randrange(1, 6)
            ops.append([k, c, where, [q() for _ in range(n)], rng.randrange(0, n + 1), rng.choice(ANY + ["malformed"] * 5)])
        else:
            ops.append([k, c, where])
    return {"cfg": {}, "pool": [S, Pr, O], "names": names, "ops": ops}


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class RaisingAttr(Obj):
    @property
    def object(self):
        raise ERRORS["error"]()


def junk(kind, q, build, where):
    P = build.P
    s, p, o, g = (build.term(x) for x in q)
    extra = {} if where == "g" else {"graph": g}
    mk = P.Triple if where == "g" else lambda s, p, o: P.Quad(s, p, o, g)
    if kind == "none":
        return None
    if kind == "str":
        return "not a statement"
    if kind == "int":
        return 7
    if kind == "nosubject":
        return Obj(predicate=p, object=o, **extra)
    if kind == "nopredicate":
        return Obj(subject=s, object=o, **extra)
    if kind == "noobject":
        return Obj(subject=s, predicate=p, **extra)
    if kind == "unhashable_s":
        return mk(["unhashable"], p, o)
    if kind == "unhashable_o":
        return mk(s, p, ["unhashable"])
    if kind == "quad_nograph" or kind == "literal":
        return P.NamedNode("x")
    if kind == "triple_in_dataset":
        return P.Triple(s, p, o) if where == "d" else None
    if kind == "unhashable_graph":
        return P.Quad(s, p, o, ["unhashable"]) if where == "d" else 5
    if kind == "raising_attr":
        return RaisingAttr(subject=s, predicate=p, **extra)
    raise AssertionError(kind)


def run(plan, ctx):
    from simkit import world as W

    P = W.P
    build = Build(P)
    S, Pr, O = (T(x) for x in plan["pool"])
    names = [T(n) for n in plan["names"]] + [I(EX + "nosuch")]
    env = P.RDFEnvironment()
    G, D = P.Graph(), P.Dataset()
    gm, dm = set(), {}

    def verify(deep=True):
        check_graph(W, G, gm, build, (S, Pr, O), deep=deep)
        check_dataset(W, D, dm, build, (S, Pr, O), names, may_be_empty=set(dm), deep=deep)

    def madd(where, q):
        if where == "g":
            gm.add(q[:3])
        else:
            dm.setdefault(q[3], set()).add(q[:3])

    def has(where, q):
        return q[:3] in gm if where == "g" else q[:3] in dm.get(q[3], ())

    def lib(where, q):
        return build.triple(q) if where == "g" else build.quad(q)

    def do(kind, where, q):
        st = G if where == "g" else D
        if kind == "add":
            call("atomic-op", "add", lambda: st.add(lib(where, q)))
            madd(where, q)
        elif kind == "remove" and has(where, q):
            call("atomic-op", "remove", lambda: st.remove(lib(where, q)))
            (gm if where == "g" else dm[q[3]]).discard(q[:3])

    def refused(what, fn):
        try:
            fn()
        except Violation:
            raise
        except BaseException as e:  # noqa: B902
            ctx.fault("rejected:" + what.split()[0])
            return e
        raise Violation("not-refused", f"{what} was accepted")

    for op in plan["ops"]:
        k, c, where = op[0], op[1], op[2]
        store = G if where == "g" else D
        if k in ("add", "remove"):
            do(k, where, T(op[3]))
        elif k == "absent":
            q = T(op[3])
            if not has(where, q):
                refused("removing-absent", lambda: store.remove(lib(where, q)))
                verify()
        elif k == "junk":
            j = junk(op[3], T(op[4]), build, where)
            refused(f"adding-junk {op[3]} to {where}", lambda: store.add(j))
            verify()
        elif k == "junkremove":
            j = junk(op[3], T(op[4]), build, where)
            refused(f"removing-junk {op[3]} from {where}", lambda: store.remove(j))
            verify()
        elif k == "dpattern":
            # A pattern about a graph that is not there removes nothing and creates nothing.
            q = T(op[3])
            if where == "d":
                call("atomic-op", "removeMatches", lambda: D.removeMatches(graph=build.term(I(EX + "nosuch"))))
                call("atomic-op", "match", lambda: list(D.match(*(build.term(x) for x in q[:3]), build.term(I(EX + "nosuch")))))
                verify(False)
        elif k == "unnamed":
            g = P.Graph()
            g.add(build.triple(T(op[3])))
            refused("attaching-unnamed graph", lambda: D.add_graph(g))
            verify()
        elif k in ("bulk", "create", "merge"):
            items = op[4]
            delivered = []
            raised = []

            def source():
                for it in items:
                    if it[0] == "q":
                        delivered.append(T(it[1]))
                        yield lib(where, T(it[1]))
                    elif it[0] == "do":
                        if k == "bulk":
                            # another client's turn while the bulk addition is under way;
                            # what was delivered so far is already its business
                            flush()
                            do(it[1], it[2], T(it[3]))
                            ctx.probe("interleaved")
                    elif it[0] == "raise":
                        e = ERRORS[it[1]]()
                        raised.append(e)
                        ctx.fault("source-raises:" + it[1])
                        raise e
                    else:
                        raised.append(None)
                        ctx.fault("source-junk:" + it[1])
                        yield junk(it[1], (S[0], Pr[0], O[0], names[0]), build, where)

            def flush():
                if k == "bulk":
                    for q in delivered:
                        madd(where, q)
                    delivered.clear()

            src = source()
            if op[3] == "iterclass":
                gen_src = src

                class Src:
                    def __iter__(self):
                        return gen_src

                src = Src()
            elif op[3] == "graphlike":
                gen_src = src

                class GraphLike:
                    def __iter__(self):
                        return gen_src

                    def __len__(self):
                        return len(items)

                src = GraphLike()
            err = None
            try:
                if k == "bulk":
                    store.addAll(src)
                elif k == "create":
                    new = env.createGraph(src) if where == "g" else env.createDataset(src)
                elif where == "g":
                    new = G.merge(src)
                else:
                    continue
            except Violation:
                raise
            except BaseException as e:  # noqa: B902
                err = e
            flush()
            check((err is not None) == bool(raised), "bulk", lambda: f"source {'failed' if raised else 'did not fail'}, {k} "
                  f"{'raised ' + repr(err) if err else 'did not raise'}")
            if raised and raised[0] is not None:
                check(err is raised[0], "bulk-error", lambda: f"{k} raised {err!r} instead of the source's {raised[0]!r}")
            if err is None and k != "bulk":
                want = set(q[:3] for q in delivered) if where == "g" else None
                if k == "merge":
                    want |= gm
                if where == "g":
                    check_graph(W, new, want, build, (S, Pr, O), k, deep=False)
                else:
                    check({build.back_st(x) for x in new} == set(delivered), "bulk", "createDataset lost something")
            verify(deep=len(items) < 60)
        elif k == "parse":
            sts, at, how = [T(x) for x in op[3]], op[4], op[5]
            sts = [q for q in sts if all(x is None or x[0] != "b" for x in q)]
            from simkit.terms import nt_line

            at = min(at, len(sts))
            lines = [nt_line(q[:3] if where == "g" else q) + "\n" for q in sts]
            fired = []

            def deliver():
                for i, line in enumerate(lines + [""]):
                    if i == at:
                        fired.append(1)
                        ctx.fault("stream:" + how)
                        if how != "malformed":
                            raise ERRORS[how]()
                        yield "<oops\n"
                    if line:
                        yield line

            feed = deliver()

            class Stream:
                def readline(self, size=-1):
                    return next(feed, "")

                def read(self, size=-1):
                    return "".join(feed) if size is None or size < 0 else next(feed, "")

                def __iter__(self):
                    return self

                def __next__(self):
                    return next(feed)

            parser = W.PARSERS.ntriples_parser if where == "g" else W.PARSERS.nquads_parser
            refused("parse from failing stream", lambda: parser.parse(Stream(), store))
            for q in sts[:at]:
                madd(where, q)
            verify()
        elif k == "check":
            verify()
        ctx.log(k, c, where, len(gm), sum(map(len, dm.values())))
        ctx.state((sorted(map(repr, gm)), sorted(map(repr, dm.items()))))
    # The stores keep working.
    st = (I(EX + "final"), I(EX + "p"), I(EX + "o"))
    do("add", "g", st + (None,))
    do("add", "d", st + (I(EX + "final"),))
    verify()
    do("remove", "g", st + (None,))
    do("remove", "d", st + (I(EX + "final"),))
    verify()
