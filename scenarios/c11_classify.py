"""C11: threads classify resources while combinations of types are met for the first time."""
from simkit import sched
from simkit.core import check, Violation, short
from simkit.terms import T, I, B, L, Build, EX, TYPE

RUNS = {"quick": 6000, "thorough": 60000}
LEVEL = "exploration"
CROSS_HASH = True
TECHNIQUE = ("deterministic simulation: seeded thread schedules (line/bytecode preemption) of classifying threads, every plan "
             "also run under a second hash seed and compared")
RULE = ("Each run registers 1-6 classes (inheriting from each other, multiply, registered for one or two types or for none) "
        "and makes nodes with every kind of combination of their types and unregistered ones. 2-4 threads classify them - "
        "directly, through predicate reads, backward references, copies - under a seeded scheduler switching at any line "
        "or bytecode; more classes may be registered before or after such a phase. Every result is compared with the ancestors closure "
        "computed from the registration alone; one class per type combination over all threads; every run is repeated in "
        "a process with another hash seed and the method resolution orders compared.")
REAL = ["pymantic.rdf.MetaResource, register_class, Resource (all real, real threads)", "pymantic.primitives (all real)"]
STUB = ["thread scheduler (seeded, one thread at a time, switches at any library line or bytecode)",
        "allocator (blank-node addresses)", "hash seed of the process (two per plan)"]
ASSUMPTIONS = ["CPython semantics: a single call into a builtin container is atomic (GIL); switches happen between bytecodes of the library.",
               "Classes are registered between, not during, classifications; combinations Python itself cannot linearise are not asked for."]

TYPES = [EX + "T%d" % i for i in range(7)]
LIKE = [EX + "a#T", EX + "b#T", EX + "a/T", "urn:T", EX + "T0#", EX + "t0"]  # alike in parts


def mirror(specs):
    """Plain Python classes with the same inheritance; None if Python refuses."""
    out = []
    for i, s in enumerate(specs):
        try:
            out.append(type("M%d" % i, tuple(out[b] for b in s["bases"]) or (object,), {}))
        except TypeError:
            return None
    return out


def applicable(specs, upto, types):
    """Indexes of the classes registered (by the specs before upto) for any of the types; later registrations win."""
    reg = {}
    for i, s in enumerate(specs[:upto]):
        for t in s["types"]:
            reg[t] = i
    return sorted({reg[t] for t in types if t in reg})


def closure(mirrors, idx):
    return {j for j, m in enumerate(mirrors) for i in idx if issubclass(mirrors[i], m)}


def consistent(mirrors, idx):
    top = [i for i in idx if not any(j != i and issubclass(mirrors[j], mirrors[i]) for j in idx)]
    try:
        type("X", tuple(mirrors[i] for i in top) or (object,), {})
        return True
    except TypeError:
        return False


def gen(rng, tier, idx):
    specs = []
    for i in range(rng.randrange(1, 7)):
        nb = rng.choice([0, 0, 0, 1, 1, 2]) if i else 0
        tp = TYPES if rng.random() < 0.8 else LIKE
        s = {"bases": rng.sample(range(i), min(nb, i)), "types": rng.sample(tp, rng.choice([0, 1, 1, 1, 1, 2]))}
        if mirror(specs + [s]) is None:
            s["bases"] = s["bases"][:1]
        if rng.random() < 0.85:
            used = {t for x in specs for t in x["types"]}
            s["types"] = [t for t in s["types"] if t not in used]
        specs.append(s)
    phases = rng.choice([1, 1, 1, 2])
    cuts = [len(specs)] if phases == 1 else [rng.randrange(1, len(specs) + 1), len(specs)]
    pool = list(dict.fromkeys([t for s in specs for t in s["types"]] + [rng.choice(TYPES)] + (rng.sample(LIKE, 2) if rng.random() < 0.3 else [])))
    nodes = []
    for i in range(rng.randrange(1, 6)):
        k = rng.randrange(0, min(5, len(pool)) + 1)
        ts = rng.sample(pool, k)
        if nodes and rng.random() < 0.3:
            ts = list(rng.choice(nodes)[1])
        nodes.append([I(EX + "n%d" % i) if rng.random() < 0.7 else B(i), ts])
    how = ["Resource", "Resource", "class", "get", "object_of", "copy", "objects_by_type", "scalar"]
    nthreads = rng.randrange(2, 5)
    threads = []
    for ph in range(len(cuts)):
        ths = [[[rng.choice(how), rng.randrange(len(nodes)), rng.randrange(len(specs))] for _ in range(rng.randrange(1, 5))]
               for _ in range(nthreads)]
        if rng.random() < 0.5:
            ths = [list(ths[0]) for _ in ths]
        threads.append(ths)
    return {"specs": specs, "cuts": cuts, "nodes": nodes, "phases": threads,
            "threaded": rng.randrange(len(cuts)), "sched": sched.gen_sched(rng, nthreads, expect=60 * nthreads * 3)}


def run(plan, ctx):
    from simkit import world as W

    P, R = W.P, W.RDF
    build = Build(P)
    specs = plan["specs"]
    mirrors = mirror(specs)
    R.MetaResource._classes.clear()
    g = P.Graph()
    hub = I(EX + "hub")
    nodes = [(T(n), frozenset(ts)) for n, ts in plan["nodes"]]
    for n, ts in nodes:
        for t in ts:
            g.add(build.triple((n, TYPE, I(t))))
        g.add(build.triple((hub, I(EX + "has"), n)))
        g.add(build.triple((n, I(EX + "of"), hub)))
    stored = set(build.back_st(t) for t in g)
    classes = []
    seen = {}  # (phase, types) -> class
    done = 0

    def judge(x, n, phase, upto, what):
        node, types = nodes[n]
        want = applicable(specs, upto, types)
        check(isinstance(x, R.Resource) and x.subject == build.term(node) and x.graph is g, "class",
              lambda: f"{what} gave {x!r} for {node}")
        is_ = {i for i, c in enumerate(classes) if isinstance(x, c)}
        check(is_ == closure(mirrors, want), "class",
              lambda: f"{what}: {node} with types {sorted(types)} is an instance of {sorted(is_)}, registered for it {want}")
        if not want:
            check(type(x) is R.Resource, "class", lambda: f"{what}: {node} without registered types is a {type(x)}")
        elif len(want) == 1:
            check(type(x) is classes[want[0]], "class", lambda: f"{what}: {node} is a {type(x)}, should be {classes[want[0]]}")
        else:
            ctx.probe("combined")
            check({str(t) for t in type(x).rdf_classes} >= {t for t in types if applicable(specs, upto, [t])}
                  and {str(t) for t in type(x).rdf_classes} <= set(types), "claimed-types",
                  lambda: f"{what}: combined class claims {sorted(type(x).rdf_classes)}, types are {sorted(types)}")
            check(x.is_a() is True, "claimed-types", lambda: f"{what}: {node} is not what its class claims")
            check(set().union(*(c.scalars for c in type(x).__mro__ if isinstance(c, R.MetaResource))) == set(type(x).scalars),
                  "merged", lambda: f"{what}: scalars of {type(x)} are {type(x).scalars}")
        c = seen.setdefault((phase, types), type(x))
        check(c is type(x), "two-classes", lambda: f"{what}: {sorted(types)} is {type(x)} now and {c} before")

    def do(op, phase, upto, what):
        how, n, k = op
        node, types = nodes[n]
        lib = build.term(node)
        if how == "class" and k < len(classes):
            return [(n, classes[k].classify(g, lib))]
        if how in ("get", "object_of", "scalar", "objects_by_type"):
            h = R.Resource(g, build.term(hub))
            if how == "scalar":
                x = R.Resource(g, lib).get_scalar(EX + "of")
                check(type(x) is R.Resource and x == h, "class", lambda: f"{what} gave {x!r}")
                return []
            if how == "objects_by_type":
                if k >= len(classes):
                    return []
                got = {build.back(o) for o in h.objects_by_type(P.NamedNode(EX + "has"), classes[k])}
                want = {m for m, ts in nodes if k in closure(mirrors, applicable(specs, upto, ts))
                        and consistent(mirrors, applicable(specs, upto, ts))}
                check(got == want, "class", lambda: f"{what}: instances of class {k} are {got}, should be {want}")
                return []
            xs = list(h[EX + "has"]) if how == "get" else list(h.object_of(EX + "of"))
            out = []
            for x in xs:
                m = [i for i, (nd, _) in enumerate(nodes) if nd == build.back(x.subject)]
                check(len(m) == 1, "class", lambda: f"{what} gave {x!r}")
                out.append((m[0], x))
            check(len(out) == len(nodes), "class", lambda: f"{what} gave {xs}")
            return out
        if how == "copy":
            return [(n, R.Resource(g, lib).copy(lib))]
        return [(n, R.Resource.classify(g, lib))]

    xs = []
    for phase, upto in enumerate(plan["cuts"]):
        for i in range(done, upto):
            s = specs[i]
            dct = {"prefixes": {"ex": EX}, "scalars": {"ex:s%d" % i}}
            c = R.MetaResource("K%d" % i, tuple(classes[b] for b in s["bases"]) or (R.Resource,), dct)
            classes.append(c)
            for t in s["types"]:
                check(R.register_class("ex:" + t[len(EX):] if i % 2 and t.startswith(EX) else t)(c) is c, "register", "register_class returned another class")
        done = upto
        ok = [consistent(mirrors, applicable(specs, upto, ts)) for _, ts in nodes]
        bulk = all(ok)

        def body(ops, tid):
            def go():
                for j, op in enumerate(ops):
                    if op[1] >= len(nodes) or not ok[op[1]] or (op[0] in ("get", "object_of", "objects_by_type") and not bulk):
                        continue
                    what = f"phase {phase} thread {tid} {op}"
                    try:
                        res = do(op, phase, upto, what)
                    except Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        raise Violation("classify-error", f"{what} raised {type(e).__name__}: {e}")
                    for n, x in res:
                        judge(x, n, phase, upto, what)
                        ctx.log(tid, n, type(x).__name__)
            return go

        bodies = [body(ops, tid) for tid, ops in enumerate(plan["phases"][phase])]
        if phase == plan["threaded"]:
            sc = sched.make(ctx, plan["sched"])
            for b in bodies:
                sc.spawn(b)
            sc.run()
            sched.preempt_on(None)
        else:
            for b in bodies:
                b()
        # afterwards, alone: the same classes again
        for n in range(len(nodes)):
            if ok[n]:
                try:
                    x = R.Resource.classify(g, build.term(nodes[n][0]))
                except Exception as e:  # noqa: BLE001
                    raise Violation("classify-error", f"after phase {phase}: {type(e).__name__}: {e}")
                judge(x, n, phase, upto, f"after phase {phase}")
                xs.append([sorted(nodes[n][1]), [c.__name__ for c in type(x).__mro__]])
        for i, c in enumerate(classes):
            if specs[i]["types"]:
                check({str(t) for t in c.rdf_classes} <= set(specs[i]["types"]) and c.rdf_classes, "registry",
                      lambda: f"class {i} claims {c.rdf_classes}")
        check(set(build.back_st(t) for t in g) == stored, "wrote", "classifying changed the graph")
    ctx.xdigest = repr(xs)
    ctx.state(xs)
