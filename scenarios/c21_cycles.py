"""C21: a client that keeps its data on disk - edit, save, crash, reload, again and again."""
import gc
import io

from simkit import docs, simio
from simkit.core import ANY, InjectedInterrupt, Violation, check, short
from simkit.terms import Build, T, I, B, L, EX, FIRST, REST, NIL, XSD, RDFNS, diff_text, gen_string, LANGS, isomorphic, norm_st
from scenarios.c08_export import quoted
from scenarios.c09_turtle import IRIS as TTL_IRIS, OTHER as TTL_OTHER, NAMESPACES, PREFIXES, BASES, lit as ttl_lit

RUNS = {"quick": 12000, "thorough": 120000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: histories of edits, saves, disk faults, crashes and reloads over a simulated disk, against a model of the data"
RULE = ("Each run is the life of one client: 4-14 steps of editing a graph or dataset, saving it (N-Triples, Turtle, N-Quads, or a dataset "
        "graph by graph) by writing a temporary file through real buffered text streams and renaming it when the export reported success, with "
        "short, failing and torn writes, reloading (whole or on top of what is there, in several deliveries, with read errors retried), "
        "and crashes at a chosen byte of a save or between steps, after which only completed files survive and every live object is gone. "
        "The content is compared with the model after every step: exactly after edits, up to renaming of blank nodes after reloads.")
REAL = ["pymantic.serializers, pymantic.parsers, pymantic.primitives, io.TextIOWrapper/Buffered* (all real)"]
STUB = ["raw disk (simulated)", "the client's rename (atomic)", "allocator (blank-node addresses, hence labels)"]
ASSUMPTIONS = ["Renaming a completed file is atomic and a completed file survives (the client fsyncs).",
               "Turtle saves hold normalized IRIs and only datatypes Turtle output supports (see C09 and its known finding).",
               "N-Triples and N-Quads percent-encode the characters a URI cannot contain (see C08)."]


def gen(rng, tier, idx):
    quads = rng.random() < 0.45
    turtle = rng.random() < 0.75
    iris = [EX + x for x in rng.sample(TTL_IRIS, rng.randrange(1, 5))] + rng.sample(TTL_OTHER, rng.randrange(0, 3))
    names = [None] + rng.sample([I(EX + "g1"), I(iris[0]), I(EX + "g%20"), B(0), B(50)], rng.randrange(0, 4)) if quads else [None]
    nb = rng.randrange(1, 6)

    def node():
        return B(rng.randrange(nb)) if rng.random() < 0.4 else I(rng.choice(iris))

    def lit():
        if turtle or rng.random() < 0.6:
            return ttl_lit(rng)
        return L(gen_string(rng, 0.4), None, rng.choice([EX + "dt", XSD + "dateTime", EX + "\u00e9", "urn:dt"]))

    def st():
        return [node(), I(rng.choice(iris)), node() if rng.random() < 0.5 else lit(), rng.choice(names)]

    def sts(k):
        out = [st() for _ in range(k)]
        if rng.random() < 0.3:  # a list
            n = rng.randrange(1, 5)
            cells = [B(rng.randrange(100, 110)) for _ in range(n)]
            g = rng.choice(names)
            for i, c in enumerate(cells):
                out.append([c, FIRST, node() if rng.random() < 0.5 else lit(), g])
                out.append([c, REST, cells[i + 1] if i + 1 < n else NIL, g])
            out.append([node(), I(rng.choice(iris)), cells[0], g])
        return out

    ops = [{"op": "edit", "add": sts(rng.randrange(0, 7)), "drop": 0}]
    fmts = ["nq", "nq", "split"] if quads else (["nt", "ttl", "ttl"] if turtle else ["nt"])
    for _ in range(rng.randrange(3, 14)):
        k = rng.random()
        if k < 0.25:
            ops.append({"op": "edit", "add": sts(rng.randrange(0, 4)), "drop": rng.choice([0, 0, 1, 2]),
                        "how": rng.choice(["one", "all"]), "match": rng.random() < 0.2})
        elif k < 0.62:
            fmt = rng.choice(fmts)
            op = {"op": "save", "file": rng.randrange(2), "fmt": fmt, "sizes": [rng.choice([1, 3, 10, 100, 4096, 65536]) for _ in range(rng.randrange(1, 3))],
                  "bufsize": rng.choice([1, 7, 64, 8192]), "line": rng.random() < 0.2, "error": rng.choice(ANY + ["closed"]),
                  "part": ("ttl" if turtle and rng.random() < 0.6 else "nt")}
            f = rng.random()
            if f < 0.25:
                op.update(fail_at=rng.randrange(0, 500), transient=rng.random() < 0.2)
            elif f < 0.4:
                op["crash"] = rng.random()
            if fmt == "ttl" or (fmt == "split" and op["part"] == "ttl"):
                op["prefixes"] = [[p, rng.choice(NAMESPACES)] for p in PREFIXES if rng.random() < 0.15] if rng.random() < 0.6 else None
                op["base"] = rng.choice([None, None] + BASES)
            ops.append(op)
        elif k < 0.85:
            op = {"op": "load", "file": rng.randrange(2), "merge": rng.random() < 0.3, "how": rng.choice(["string", "bytes", "text", "text", "lines"]),
                  "sizes": [rng.choice([1, 3, 64, 4096]) for _ in range(rng.randrange(1, 3))], "bufsize": rng.choice([1, 5, 64, 8192])}
            if rng.random() < 0.25:
                op.update(fail_at=rng.random(), error=rng.choice(ANY + ["closed"]))
            ops.append(op)
        else:
            ops.append({"op": "crash", "how": rng.choice(["string", "text"]), "sizes": [4096], "bufsize": 64, "policy": rng.choice(["fresh", "random", "lifo"])})
    ops.append({"op": "save", "file": 0, "fmt": rng.choice(fmts), "sizes": [4096], "bufsize": 64, "line": False, "error": "oserror", "part": "nt", "prefixes": None, "base": None})
    ops.append({"op": "crash", "how": "text", "sizes": [7, 100], "bufsize": 64, "policy": "fresh"})
    return {"cfg": {"quads": quads, "policy": rng.choice(["fresh", "random", "lifo"])}, "ops": ops}


def run(plan, ctx):
    from simkit import world as W

    P, SER, PARSERS = W.P, W.SER, W.PARSERS
    quads = plan["cfg"]["quads"]
    W.allocator.reset(plan["cfg"]["policy"], plan["seed"])

    class Life:
        """Everything that dies in a crash."""

        def __init__(self):
            self.store = P.Dataset() if quads else P.Graph()
            self.build = Build(P)
            self.model = set()

    life = Life()
    lives = [0]
    files = {}  # name -> (serial, [(graph name, format, text)], expected statements)
    serial = 0

    def content():
        out = []
        for t in life.store:
            s = life.build.back_st(t)
            out.append(s if len(s) == 4 else s + (None,))
        return out

    def exact(what):
        got = content()
        check(len(got) == len(set(got)) == len(life.store), "size", lambda: f"after {what} the store iterates {len(got)} statements and says it has {len(life.store)}")
        check(set(got) == life.model, "content", lambda: f"after {what}: {diff_text(set(got), life.model)}")

    def nodes():
        """The blank nodes of the model that an edit can mention."""
        return sorted({t for s in life.model for t in s if t is not None and t[0] == "b"}, key=repr)

    def localise(s):
        """Blank nodes named in the plan are the ones present, then new ones."""
        have = nodes()

        def f(t):
            if t is None or t[0] != "b":
                return t
            if isinstance(t[1], int) and have and t[1] % 3 == 0:
                return have[t[1] % len(have)]
            return t
        return tuple(f(t) for t in T(s))

    def edit(op):
        new = [localise(s) for s in op["add"]]
        if not quads:
            new = [s[:3] + (None,) for s in new]
        mk = life.build.quad if quads else life.build.triple
        if op.get("how") == "all":
            life.store.addAll([mk(s) for s in new])
        else:
            for s in new:
                life.store.add(mk(s))
        life.model |= set(new)
        gone = sorted(life.model, key=repr)[: op["drop"]]
        for s in gone:
            if s not in life.model:
                continue
            if op.get("match"):
                subject = life.build.term(s[0])
                if quads:
                    life.store.removeMatches(subject, None, None, None)
                else:
                    life.store.removeMatches(subject, None, None)
                life.model = {x for x in life.model if x[0] != s[0]}
            else:
                life.store.remove(mk(s))
                life.model.discard(s)
        exact("an edit")

    def export(graph, fmt, op, disk):
        f = io.TextIOWrapper(io.BufferedWriter(disk, op["bufsize"]), encoding="utf-8", newline="\n", line_buffering=op["line"])
        err = None
        try:
            if fmt == "ttl":
                kw = {}
                if op.get("prefixes") is not None:
                    pm = P.PrefixMap()
                    for k, v in op["prefixes"]:
                        pm[k] = v
                    kw["profile"] = P.Profile(pm)
                if op.get("base"):
                    kw["base"] = op["base"]
                SER.serialize_turtle(graph, f, **kw)
            elif fmt == "nq":
                SER.serialize_nquads(graph, f)
            else:
                SER.serialize_ntriples(graph, f)
            f.flush()
        except Violation:
            raise
        except (Exception, InjectedInterrupt) as e:
            err = e
        data = bytes(disk.buf)
        fired = disk.fired
        disk.fail_at, disk.sizes = None, [1 << 20]
        try:
            f.close()
        except Exception:  # noqa: BLE001
            pass
        if fired:
            e, ok = err, False
            while e is not None:
                ok = ok or type(e).__name__.startswith("Injected")
                e = e.__cause__ or e.__context__
            check(ok, "error-lost", lambda: f"a write failed while saving as {fmt} and the client got {err!r}")
            return None
        check(err is None, "save", lambda: f"saving {short(sorted(life.model, key=repr), 900)} as {fmt} raised {type(err).__name__}: {err}")
        return data.decode("utf-8")

    def disk_for(op):
        return simio.SimDisk(ctx, op["sizes"], op.get("fail_at"), op["error"], op.get("transient", False))

    def save(op):
        nonlocal serial
        parts, want = [], set()
        if op["fmt"] == "split" and any(s[3] is not None and s[3][0] == "b" for s in life.model):
            op = dict(op, fmt="nq")
        if op["fmt"] == "split":
            # One file per graph: a blank node is known only within its file.
            fmt = op["part"]
            todo = []
            for name in sorted({s[3] for s in life.model}, key=repr):
                g = P.Graph()
                mine = {s for s in life.model if s[3] == name}
                g.addAll(P.Triple(q.subject, q.predicate, q.object) for q in life.store.match(graph=life.build.term(name))) if name is not None else \
                    g.addAll(life.build.triple(s) for s in mine)
                check(len(g) == len(mine), "content", lambda: f"graph {name} of the dataset has {len(g)} statements, expected {len(mine)}")
                todo.append((name, g, mine))
        else:
            fmt = op["fmt"]
            todo = [(None, life.store, life.model)]
        for name, g, mine in todo:
            text = export(g, fmt, op, disk_for(op))
            if text is None:
                exact("a failed save")
                ctx.log("save-failed", fmt)
                ctx.probe("save-failed")
                return False
            tag = lambda t: ("b", (name, t[1])) if op["fmt"] == "split" and t is not None and t[0] == "b" else t
            for s in mine:
                s = norm_st(s)
                if fmt != "ttl":
                    s = tuple(quoted(t) for t in s)
                if op["fmt"] == "split":
                    s = tuple(tag(t) for t in s[:3]) + (name,)  # the client keeps the names
                want.add(s)
            parts.append((name, fmt, text))
        exact("a save")
        if "crash" in op:
            ctx.fault("crash-during-save")
            crash({"how": "text", "sizes": [64], "bufsize": 64, "policy": "lifo"})
            return True
        serial += 1
        files[op["file"]] = (serial, parts, want)
        ctx.log("saved", op["fmt"], len(want))
        return False

    def read_part(name, fmt, text, op, target, fail=False):
        parser = {"nt": PARSERS.ntriples_parser, "nq": PARSERS.nquads_parser, "ttl": PARSERS.turtle_parser}[fmt]
        data = text.encode("utf-8")
        how = op["how"]
        if fail:
            src = io.TextIOWrapper(io.BufferedReader(simio.SimRaw(data, ctx, op["sizes"], fail_at=int(op["fail_at"] * len(data)), error=op["error"]), op["bufsize"]), encoding="utf-8")
        elif how == "string":
            src = text
        elif how == "lines":
            src = simio.LineStream(text, ctx)
        else:
            src = io.BufferedReader(simio.SimRaw(data, ctx, op["sizes"]), op["bufsize"])
            if how == "text" or fmt != "ttl":
                src = io.TextIOWrapper(src, encoding="utf-8")
        return parser.parse(src, target)

    def fill(parts, op, store, fail=False):
        for name, fmt, text in parts:
            if quads and fmt != "nq":
                g = P.Graph()
                read_part(name, fmt, text, op, g, fail)
                n = None if name is None else P.NamedNode(name[1])
                for t in g:
                    store.add(P.Quad(t.subject, t.predicate, t.object, n))
            else:
                read_part(name, fmt, text, op, store, fail)

    def load(op):
        if op["file"] not in files:
            return
        _, parts, want = files[op["file"]]
        if "fail_at" in op:
            scratch = P.Dataset() if quads else P.Graph()
            err = None
            try:
                fill(parts, op, scratch, fail=True)
            except Violation:
                raise
            except (Exception, InjectedInterrupt) as e:
                err = e
            if parts:
                check(err is not None, "error-lost", "reading a save failed and the load reported success")
            del scratch
        if op.get("merge"):
            expect = {norm_st(s) for s in life.model} | {tuple(("b", ("loaded", t[1])) if t is not None and t[0] == "b" else t for t in s) for s in want}
            # statements of the same IRIs and literals can meet; blank nodes cannot
        else:
            life.store = P.Dataset() if quads else P.Graph()
            life.build = Build(P)
            expect = want
        try:
            fill(parts, op, life.store)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("load", f"a completed save cannot be loaded: {type(e).__name__}: {str(e)[:200]}: {short([p[2] for p in parts], 1200)}")
        got = content()
        check(len(got) == len(set(got)) == len(life.store), "size", lambda: f"after a load the store iterates {len(got)} statements and says it has {len(life.store)}")
        normed = {norm_st(s) for s in got}
        r = isomorphic(normed, expect)
        check(r is not False, "reload", lambda: f"after loading ({'on top of the data' if op.get('merge') else 'anew'}, {op['how']}): {diff_text(normed, expect)}; file: {short([p[2] for p in parts], 900)}")
        if r is None:
            ctx.probe("isomorphism-undecided")
        life.model = set(got)
        ctx.log("loaded", bool(op.get("merge")), len(got))

    def crash(op):
        ctx.fault("crash")
        life.store = life.build = None
        life.model = set()
        gc.collect()
        lives[0] += 1
        W.allocator.reset(op["policy"], plan["seed"] + serial, start=0x7F00_0000_0000 + (lives[0] << 32))
        life.store = P.Dataset() if quads else P.Graph()
        life.build = Build(P)
        if files:
            newest = max(files, key=lambda k: files[k][0])
            load(dict(op, file=newest))
        exact("a restart")

    n = 0
    for op in plan["ops"]:
        k = op["op"]
        if k == "edit":
            edit(op)
        elif k == "save":
            save(op)
        elif k == "load":
            load(op)
        else:
            crash(op)
        n += 1
        ctx.log(n, k, len(life.model))
        ctx.state((k, len(life.model), len(nodes()), serial))


def preload():
    from simkit import world

    world.warm_lexers()
