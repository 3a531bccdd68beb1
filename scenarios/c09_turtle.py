"""C09: Turtle exports with any prefixes and base, onto healthy and failing streams."""
import io
import itertools

from simkit import jobs, simio
from simkit.core import ANY, InjectedInterrupt, Violation, check, short
from simkit.terms import (Build, T, I, B, L, EX, XSD, RDFNS, RDFSNS, TYPE, FIRST, REST, NIL, diff_text, gen_string, LANGS, isomorphic,
                          norm_st)

RUNS = {"quick": 8000, "thorough": 80000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded graphs, prefix configurations and stream faults; the export is reloaded and compared by graph isomorphism"
RULE = ("Each run builds a graph (strings of any characters, languages, numbers and booleans with canonical and odd lexical forms, "
        "IRIs that need escaping or must not be abbreviated, blank nodes shared every way, list structures well-formed, shared, "
        "nested, long, cyclic, branching or cut), draws prefix maps (also empty, dotted and keyword prefixes, rebound rdf and xsd) and a "
        "base, and exports 1-5 times, with edits of graph, prefixes and base in between, to healthy streams, to disks failing at a chosen byte and to objects failing at a chosen "
        "write. Healthy exports must reload to the same graph; after a failure graph and profile must be unchanged and the next "
        "export identical to one made before. One probe per run follows the recorded finding about custom datatypes.")
REAL = ["pymantic.serializers.serialize_turtle, pymantic.primitives, pymantic.rdf, pymantic.parsers.turtle_parser, io stack (all real)"]
STUB = ["raw disk and write-only sink (simulated)", "allocator (blank-node addresses)"]
ASSUMPTIONS = ["IRIs are absolute and normalized (no dot segments), so that resolving them against the base is the identity.",
               "Literals have one of the datatypes Turtle output supports (string, integer, decimal, double, boolean) or a language; other datatypes are the known finding.",
               "The library's own Turtle parser is used to reload (its meaning is checked separately by construction in C05-C07)."]

IRIS = ["a", "a.b", "a#b", "", "a%20b", "a~b!c", "\u00e9", "-x", "1a", "a.", "a?b=c&d=(e)", "a#", "a?b", "x:y", "a/b/c", "_", "a\u00b7b", "%41", "a'b", "a*b", "a,b;c=d", "\u0300x", "100%2541", "r?u=http://ex.org/a", "http://ex.org/"]
OTHER = ["urn:x:y", "mailto:a@b.c", "a:b", "ex:q", XSD + "integer", XSD + "string", "http://other/x:y", "http://other/", "tag:x,2020:y", RDFNS + "type", RDFNS + "nil",
         RDFNS + "first", RDFNS + "rest", RDFNS + "List", RDFNS, RDFSNS + "label", "http://ex.orgother/x", "http://ex.org", "http://EX.org/a"]
PREFIXES = ["ex", "a", "", "rdf", "xsd", "p.q", "true", "base", "prefix", "x-y", "rdfs", "\u00e9", "A"]
NAMESPACES = [EX, EX + "a", "http://other/", "urn:", RDFNS, XSD, EX + "a#", "http://ex.org", EX + "a/b/", "tag:", "a:"]
BASES = [EX, EX + "a", EX + "a#", EX + "a?b", EX + "a/b/", "http://other/x", "urn:x", "http://ex.org"]


def lit(rng):
    k = rng.random()
    if k < 0.3:
        return L(gen_string(rng, 0.5))
    if k < 0.5:
        return L(gen_string(rng, 0.5), rng.choice(LANGS))
    if k < 0.6:
        return L(gen_string(rng, 0.5), None, XSD + "string")
    return L(rng.choice(["0", "1", "007", "+1", "-0", "1.0", "1e5", "1.e5", "true", "false", "x", ".5", "5.", "", "1E-5", "TRUE", "-.5", "+.5e+1", "1 ", "\u0661", "INF", "1\n", "--1"]),
             None, XSD + rng.choice(["integer", "decimal", "double", "boolean"]))


def gen(rng, tier, idx):
    nb = rng.randrange(0, 7)
    iris = [I(EX + x) for x in rng.sample(IRIS, rng.randrange(1, 6))] + [I(x) for x in rng.sample(OTHER, rng.randrange(0, 4))]
    bs = [B(i) for i in range(nb)]
    node = lambda: rng.choice(bs) if bs and rng.random() < 0.5 else rng.choice(iris)
    data = []
    for _ in range(rng.randrange(0, 10)):
        data.append([node(), rng.choice(iris), node() if rng.random() < 0.5 else lit(rng)])
    cells = 100

    def well_formed(depth, n):
        nonlocal cells
        if n == 0:
            return NIL
        ids = [B(cells + i) for i in range(n)]
        cells += n
        for i, c in enumerate(ids):
            item = well_formed(depth - 1, rng.randrange(0, 4)) if depth > 0 and rng.random() < 0.4 else (node() if rng.random() < 0.5 else lit(rng))
            data.append([c, FIRST, item])
            data.append([c, REST, ids[i + 1] if i + 1 < n else NIL])
        return ids[0]

    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        big = rng.random() < 0.01
        head = well_formed(rng.randrange(0, 3), rng.randrange(0, 5) if not big else rng.randrange(200, 1500))
        used = rng.random()
        if used < 0.7:
            data.append([node(), rng.choice(iris), head])
        elif used < 0.85:
            data.append([node(), rng.choice(iris), head])
            data.append([node(), rng.choice(iris), head])
        elif head != NIL and used < 0.95:
            data.append([head, rng.choice(iris), node()])
    if bs:
        for _ in range(rng.choice([0, 0, 0, 1, 3, 8])):  # arbitrary list structure
            data.append([rng.choice(bs + [B(100)]), rng.choice([FIRST, REST]), rng.choice(bs + [NIL, B(100), lit(rng)])])
    if data and rng.random() < 0.2:
        data.pop(rng.randrange(len(data)))  # cut something
    # Only RDF: no literal predicates or subjects are ever generated.
    profile = None
    if rng.random() < 0.75:
        profile = [[p, rng.choice(NAMESPACES)] for p in PREFIXES if rng.random() < 0.25]
    drop = [p for p in ("rdf", "xsd") if rng.random() < 0.2]
    ops = []
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < 0.25:  # the history goes on between exports
            ops.append({"kind": "edit", "prefixes": [[rng.choice(PREFIXES), rng.choice(NAMESPACES + [None, None])] for _ in range(rng.randrange(0, 3))],
                        "add": [[node(), rng.choice(iris), node() if rng.random() < 0.5 else lit(rng)] for _ in range(rng.randrange(0, 3))],
                        "remove": rng.choice([0, 0, 1, 2]), "base": rng.choice([0, 0, None] + BASES)})
            continue
        k = rng.random()
        op = {"error": rng.choice(ANY + ["closed"]), "kind": "stringio"}
        if k < 0.4:
            op.update(kind="sink", error=rng.choice(ANY + ["closed", "eintr", "eagain"]), fail_call=rng.randrange(0, 40), partial=rng.choice([None, 1, 5]), transient=rng.random() < 0.3)
        elif k < 0.7:
            op.update(kind="disk", fail_at=rng.randrange(0, 600), sizes=[rng.choice([1, 5, 100, 65536])], bufsize=rng.choice([1, 16, 8192]), newline=rng.choice(["\n", "", "\r\n"]))
        ops.append(op)
    return {"cfg": {"names": rng.random() < 0.1, "drop": drop}, "data": list(dict.fromkeys(map(tuple, data))), "profile": profile, "base": rng.choice([None, None, None] + BASES),
            "ops": ops, "custom": [gen_plain(rng), rng.choice([EX + "dt", XSD + "dateTime", XSD + "int", "urn:dt"])]}


def gen_plain(rng):
    return "".join(rng.choice("abc 012-:T") for _ in range(rng.randrange(0, 8)))


def run(plan, ctx):
    from simkit import world as W

    P, SER = W.P, W.SER
    build = Build(P)
    data = {T(x) for x in plan["data"]}
    g = P.Graph()
    for st in data:
        g.add(build.triple(st))
    want = {norm_st(st) + (None,) for st in data}

    def make_profile():
        if plan["profile"] is None:
            return None
        pm = P.PrefixMap()
        for k, v in plan["profile"]:
            pm[k] = v
        p = P.Profile(pm)
        for k in plan["cfg"].get("drop", ()):
            p.prefixes.pop(k, None)
        return p

    profile = make_profile()
    before = dump(profile)
    kw = {}
    if plan["base"] is not None:
        kw["base"] = plan["base"]
    if profile is not None:
        kw["profile"] = profile
    if plan["cfg"]["names"]:
        def names():
            i = 7
            while True:
                yield "_:n%dx" % i
                i += 3

        kw["bnode_name_generator"] = names

    def unchanged():
        got = {build.back_st(t) for t in g}
        check(got == data and len(g) == len(data), "source-changed", lambda: "exporting changed the graph: " + diff_text(got, data))
        check(dump(profile) == before, "profile-changed", lambda: f"exporting changed the profile from {before} to {dump(profile)}")

    hows = itertools.cycle([1, 2, 3, 4, 5])

    def reload(text, how, graph=None):
        # Files are also read with their line ends translated, and as bytes.
        src = text
        if how:
            how = next(hows)
            data = text.encode("utf-8")
            src = (io.StringIO(text, newline="") if how == 1 else io.TextIOWrapper(io.BytesIO(data), encoding="utf-8") if how == 2
                   else io.BytesIO(data) if how == 3 else io.StringIO(text, newline=None) if how == 4 else data)
        return jobs.got_statements(Build(P), W.PARSERS.turtle_parser.parse(src))

    def healthy(graph, want, how=0):
        f = io.StringIO(newline="")
        try:
            SER.serialize_turtle(graph, f, **kw)
        except Exception as e:  # noqa: BLE001
            raise Violation("turtle", f"exporting {short(sorted(want, key=repr), 1200)} raised {type(e).__name__}: {e}")
        text = f.getvalue()
        return text

    def compare(text, want, how):
        try:
            got = reload(text, how)
        except Exception as e:  # noqa: BLE001
            raise Violation("turtle", f"the export cannot be loaded ({type(e).__name__}: {str(e)[:200]}):\n{text[:1500]}")
        r = isomorphic(got, want)
        check(r is not False, "turtle", lambda: f"reloading gave {diff_text(got, want)}:\n{text[:1500]}")
        if r is None:
            ctx.probe("isomorphism-undecided")

    first = healthy(g, want)
    unchanged()
    compare(first, want, 0)
    for i, op in enumerate(plan["ops"]):
        if op["kind"] == "edit":
            gone = set(sorted(data, key=repr)[:op["remove"]])
            for st in gone:
                g.remove(build.triple(st))
            new = {T(x) for x in op["add"]}
            for st in new:
                g.add(build.triple(st))
            data = (data - gone) | new
            want = {norm_st(st) + (None,) for st in data}
            if profile is not None:
                for k, v in op["prefixes"]:
                    if v is None:
                        profile.prefixes.pop(k, None)
                    else:
                        profile.setPrefix(k, v)
            if op["base"] != 0:
                kw["base"] = op["base"]
            before = dump(profile)
            first = healthy(g, want)
            compare(first, want, 0)
            ctx.probe("edited-between-exports")
        elif op["kind"] == "stringio":
            text = healthy(g, want)
            check(text == first, "turtle-differs", lambda: f"a second export differs:\n{text[:800]}\nfirst:\n{first[:800]}")
            compare(text, want, 1)
        else:
            disk = None
            if op["kind"] == "sink":
                f = simio.TextSink(ctx, op["fail_call"], op["error"], op["partial"], op.get("transient", False))
            else:
                disk = simio.SimDisk(ctx, op["sizes"], op["fail_at"], op["error"])
                f = io.TextIOWrapper(io.BufferedWriter(disk, op["bufsize"]), encoding="utf-8", newline=op.get("newline", "\n"))
            err = None
            try:
                SER.serialize_turtle(g, f, **kw)
                if disk is not None:
                    f.flush()
            except Violation:
                raise
            except (Exception, InjectedInterrupt) as e:
                err = e
            if disk is not None:
                fired, text = disk.fired, bytes(disk.buf)
                disk.fail_at, disk.sizes = None, [1 << 20]
                try:
                    f.close()
                except Exception:  # noqa: BLE001
                    pass
            else:
                fired, text = f.raised is not None, f.text()
            if fired:
                e, ok = err, False
                while e is not None:
                    ok = ok or type(e).__name__.startswith("Injected")
                    e = e.__cause__ or e.__context__
                check(ok, "error-lost", lambda: f"a write failed and the caller got {err!r}")
            else:
                check(err is None, "turtle", lambda: f"exporting to a healthy stream raised {err!r}")
                if isinstance(text, bytes):
                    text = text.decode("utf-8")
                compare(text, want, 1)
            ctx.log(op["kind"], op["error"], fired, len(text))
        unchanged()
    last = healthy(g, want)
    check(last == first, "turtle-differs", lambda: f"the export after the failures differs:\n{last[:800]}\nfirst:\n{first[:800]}")
    unchanged()
    ctx.log(len(data), len(first))
    ctx.state((len(data), len(first)))
    custom(plan, ctx, W, kw, healthy, compare, reload)


def custom(plan, ctx, W, kw, healthy, compare, reload):
    """The recorded finding: one caret instead of two before other datatypes."""
    value, dt = plan["custom"]
    b = Build(W.P)
    st = (I(EX + "s"), I(EX + "p"), L(value, None, dt))
    g = W.P.Graph()
    g.add(b.triple(st))
    want = {st + (None,)}
    text = healthy(g, want)
    try:
        got = reload(text, 0)
    except Exception:  # noqa: BLE001
        got = None
    if got is not None and isomorphic(got, want):
        ctx.probe("custom-datatype-ok")
        return
    if text.count("^") == 1:
        compare(text.replace("^", "^^"), want, 0)
        ctx.known.append("turtle-custom-datatype")
        return
    raise Violation("turtle", f"a literal of datatype {dt} was exported as:\n{text[:800]}")


def dump(profile):
    if profile is None:
        return None
    return (list((k, str(v)) for k, v in profile.prefixes.items()), sorted((k, str(v)) for k, v in profile.terms.items()))


def preload():
    from simkit import world

    world.warm_lexers()
