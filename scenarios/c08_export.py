"""C08: N-Triples and N-Quads exports onto a faulty disk, and what can be reloaded."""
import io
import re

from simkit import docs, jobs, sched, simio
from simkit.core import ANY, InjectedInterrupt, Violation, check, short
from simkit.terms import Build, T, I, B, L, EX, diff_text, embeds, gen_literal, isomorphic, norm_st, nt_read_line

RUNS = {"quick": 12000, "thorough": 80000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: simulated disk with short, failing and torn writes and crashes at any byte; reload by the library and by an independent reader"
RULE = ("Each run builds a graph or dataset (any Unicode in literals, languages, datatypes, blank nodes also as graph names, the "
        "unnamed graph) and exports it 1-4 times: through real TextIOWrapper/BufferedWriter stacks of several buffer sizes and "
        "buffering modes onto a disk that accepts 1..n bytes per write and fails (EIO, ENOSPC, others, once or for good) at a "
        "chosen byte, or to a write-only object failing at a chosen call after a partial write; after a failure or a crash at a "
        "chosen byte the surviving complete lines are read by an independent reader and by the library's parsers and must "
        "embed in the original; the source must be unchanged and the next healthy export complete.")
REAL = ["pymantic.serializers, pymantic.primitives, pymantic.parsers, io.TextIOWrapper/BufferedWriter (all real)"]
STUB = ["raw disk (simulated)", "write-only text sink (simulated)", "allocator (blank-node addresses, hence labels)"]
ASSUMPTIONS = ["A crash keeps some prefix of the bytes handed to the disk (append-only file).",
               "Statements are valid RDF (IRI characters legal, literals with a language or a datatype, not both)."]

IRI_CHARS = "abz09-._~:/?#[]@!$&'()*+,;=%41\u00e9\u4e2d\U0001f600"


def gen_iri(rng):
    if rng.random() < 0.7:
        return rng.choice(docs.IRIS)
    s = EX + "".join(rng.choice(IRI_CHARS) for _ in range(rng.randrange(0, 8)))
    return re.sub("%(?![0-9A-Fa-f]{2})", "%25", s)


def gen(rng, tier, idx):
    quads = rng.random() < 0.5
    big = rng.random() < 0.02
    n = rng.randrange(0, 10) if not big else rng.randrange(200, 600)
    nb = rng.randrange(0, 6)
    iris = [gen_iri(rng) for _ in range(rng.randrange(1, 5))]
    names = rng.sample([None, I(EX + "g1"), I(iris[0]), B(0), B(50)], rng.randrange(1, 5)) if quads else [None]
    data = []
    for _ in range(n):
        s = B(rng.randrange(nb)) if nb and rng.random() < 0.4 else I(rng.choice(iris))
        k = rng.random()
        o = (B(rng.randrange(nb)) if nb and k < 0.3 else I(rng.choice(iris)) if k < 0.4 else gen_literal(rng, 0.5))
        data.append([s, I(rng.choice(iris)), o, rng.choice(names)])
    # One graph can be in a dataset under two names.
    twice = rng.choice([None, None, EX + "first", EX + "g1"]) if quads else None
    ops = []
    for _ in range(rng.randrange(1, 5) if not big else 2):
        size = 60 * n + 10
        k = rng.random()
        if k < 0.25:
            op = {"kind": "sink"}
            if rng.random() < 0.7:
                op.update(fail_call=rng.randrange(0, n + 2), partial=rng.randrange(0, 100) if rng.random() < 0.5 else None, transient=rng.random() < 0.3)
        elif k < 0.32:
            op = {"kind": "stringio"}
        else:
            op = {"kind": "disk", "bufsize": rng.choice([1, 2, 7, 64, 512, 8192]), "sizes": [rng.choice([1, 3, 10, 100, 4096, 65536]) for _ in range(rng.randrange(1, 4))],
                  "encoding": rng.choice(["utf-8", "utf-8", "ascii", "latin-1"]), "line": rng.random() < 0.2, "through": rng.random() < 0.2,
                  "newline": rng.choice(["\n", "", "\r\n"])}
            f = rng.random()
            if f < 0.5:
                op.update(fail_at=rng.randrange(0, size), transient=rng.random() < 0.2)
            elif f < 0.8:
                op["crash"] = rng.random()
        op["error"] = rng.choice(["enospc"] + ANY + ["closed"] + (["eintr", "eagain"] if op["kind"] == "sink" else []))
        op["how"] = rng.choice(["stream", "string", "text"])
        ops.append(op)
    return {"cfg": {"quads": quads, "policy": rng.choice(["fresh", "random", "lifo"]), "twice": twice}, "data": data, "ops": ops}


def quoted(t):
    """Characters a URI cannot contain come back percent-encoded."""
    if t is None:
        return None
    if t[0] == "i":
        return ("i", "".join(c if ord(c) < 128 else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in t[1]))
    if t[0] == "l" and t[3] is not None:
        return ("l", t[1], t[2], quoted(("i", t[3]))[1])
    return t


def run(plan, ctx):
    from simkit import world as W

    P, SER = W.P, W.SER
    W.allocator.reset(plan["cfg"]["policy"], plan["seed"])
    quads = plan["cfg"]["quads"]
    build = Build(P)
    data = [T(x) for x in plan["data"]]
    if W.allocator.policy != "fresh":
        junk = [P.BlankNode() for _ in range(8)]
        del junk
    model = {st if quads else st[:3] for st in data}
    store = P.Dataset() if quads else P.Graph()
    for st in data:
        store.add(build.quad(st) if quads else build.triple(st))
    if plan["cfg"].get("twice"):
        both = P.Graph()
        for st in data:
            both.add(build.triple(st))
        for name in (plan["cfg"]["twice"], EX + "again"):
            store.add_graph(both, named=P.NamedNode(name))
            model = {st for st in model if st[3] != I(name)} | {st[:3] + (I(name),) for st in data}
        ctx.probe("graph-under-two-names")
    want = {tuple(quoted(t) for t in norm_st(st if quads else st[:3] + (None,))) for st in model}
    ser = SER.serialize_nquads if quads else SER.serialize_ntriples
    parser = W.PARSERS.nquads_parser if quads else W.PARSERS.ntriples_parser

    def unchanged():
        got = {build.back_st(t) for t in store}
        check(got == model and len(store) == len(model), "source-changed", lambda: "exporting changed the source: " + diff_text(got, model))

    def reload(text, how):
        target = P.Dataset() if quads else P.Graph()
        if how == "string":
            parser.parse(text, target)
        elif how == "stream":
            parser.parse(io.StringIO(text, newline=""), target)
        else:
            raw = simio.SimRaw(text.encode("utf-8"), ctx, [3, 50])
            parser.parse(io.TextIOWrapper(io.BufferedReader(raw, 64), encoding="utf-8"), target)
        return jobs.got_statements(Build(P), target)

    def judge(text, complete, op):
        """text: what survived. Only complete lines count."""
        lines = text.split("\n")
        if complete:
            check(lines[-1].strip("\r") == "", "export", lambda: f"the export does not end with a complete line: {text[-200:]!r}")
        lines = [x[:-1] if x.endswith("\r") else x for x in lines[:-1]]
        mine = set()
        for x in lines:
            try:
                st = nt_read_line(x)
            except ValueError as e:
                raise Violation("export", f"a line of the export is not a statement: {e}")
            if st is not None:
                check(quads or st[3] is None, "export", lambda: f"a quad in a graph's export: {x!r}")
                mine.add(norm_st(st))
        body = "".join(x + "\n" for x in lines)
        try:
            theirs = reload(body, op["how"])
        except Exception as e:  # noqa: BLE001
            raise Violation("export", f"the library cannot read its own export: {type(e).__name__}: {str(e)[:300]}; {body[:600]!r}")
        for who, got in (("an independent reader", mine), ("the library", theirs)):
            if complete:
                r = isomorphic(got, want)
                check(r is not False, "export", lambda: f"read back by {who}: {diff_text(got, want)}")
            else:
                r = embeds(got, want)
                check(r is not False, "torn-export", lambda: f"surviving lines read by {who} are not part of the original: {diff_text(got, want)}")
            if r is None:
                ctx.probe("isomorphism-undecided")
        return len(mine)

    def attempt(op):
        kind = op["kind"]
        err = None
        disk = sink = None
        if kind == "sink":
            f = sink = simio.TextSink(ctx, op.get("fail_call"), op["error"], op.get("partial"), op.get("transient", False))
        elif kind == "stringio":
            f = io.StringIO()
        else:
            disk = simio.SimDisk(ctx, op["sizes"], op.get("fail_at"), op["error"], op.get("transient", False))
            f = io.TextIOWrapper(io.BufferedWriter(disk, op["bufsize"]), encoding=op["encoding"], newline=op["newline"],
                                 line_buffering=op["line"], write_through=op["through"])
        try:
            ser(store, f)
            if disk is not None:
                f.flush()
        except Violation:
            raise
        except (Exception, InjectedInterrupt) as e:
            err = e
        if disk is not None:
            text = bytes(disk.buf).decode(op["encoding"])
            fired = disk.fired
            disk.fail_at, disk.sizes = None, [1 << 20]
            try:
                f.close()
            except Exception:  # noqa: BLE001
                pass
        else:
            text = sink.text() if sink else f.getvalue()
            fired = bool(sink and sink.raised)
        if fired:
            check(err is not None, "error-lost", "a write failed but the export reported success")
            e, ok = err, False
            while e is not None:
                ok = ok or type(e).__name__.startswith("Injected")
                e = e.__cause__ or e.__context__
            check(ok, "wrong-error", lambda: f"a write failed and the caller got {err!r}")
            n = judge(text, False, op)
        else:
            check(err is None, "export", lambda: f"exporting to a healthy stream raised {type(err).__name__}: {err}")
            n = judge(text, True, op)
            if "crash" in op:
                # The machine dies: some prefix of what the disk was given survives.
                k = int(op["crash"] * (len(text) + 1))
                ctx.fault("crash")
                n = judge(text[:k], False, op)
        unchanged()
        ctx.log(kind, op["error"], fired, len(text), n)
        ctx.state((len(model), fired, kind, n))

    for op in plan["ops"]:
        attempt(op)
    attempt({"kind": "stringio", "how": "string", "error": "oserror"})


def preload():
    from simkit import world

    world.warm_lexers()
