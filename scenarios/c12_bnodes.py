"""C12: blank nodes are created, stored, exported and discarded under a simulated allocator."""
import io

from simkit import sched
from simkit.core import check, Violation, short
from simkit.terms import T, I, B, L, Build, EX, diff_text, isomorphic, norm_st, nt_read, plain

RUNS = {"quick": 8000, "thorough": 80000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: simulated allocator (seeded address reuse) and seeded thread schedules of the creating "
             "threads; identity, labels and exports compared with a model of the live nodes")
RULE = ("Each run draws an address policy (never reused, last freed first, first freed first, random, far apart; several "
        "starting addresses) and a history of 6-60 operations: creating blank nodes in every way the library offers "
        "(environment, class, unnamed resources of plain and registered classes, labelled and anonymous nodes in "
        "N-Triples, N-Quads, Turtle and JSON-LD documents, creation by several preempted threads), attaching data to "
        "them in several graphs, linking them, dropping nodes and whole graphs so that their memory is reused, and "
        "exporting one or several graphs together and loading them again. After every operation all live nodes are compared "
        "pairwise by identity, equality, hash and label, and with the label they had before.")
REAL = ["pymantic.primitives.BlankNode, Graph, RDFEnvironment; pymantic.rdf.Resource.new; parsers; serializers (all real)"]
STUB = ["allocator: addresses of blank nodes (id() and hash as the library sees them)", "thread scheduler (seeded)"]
ASSUMPTIONS = ["An address is not reused while the node at it is alive.", "Nodes are not copied with copy or pickle."]

P = I(EX + "p")
LINK = I(EX + "link")


def preload():
    from simkit import world as W

    g = W.P.Graph()
    for parser, text in ((W.PARSERS.ntriples_parser, '_:a <http://a/> "x" .\n'), (W.PARSERS.turtle_parser, '_:a <http://a/> [ <http://a/> "x" ] .')):
        parser.parse(text, g)
    W.PARSERS.nquads_parser.parse('_:a <http://a/> "x" .\n', W.P.Dataset())
    W.PARSERS.jsonld_parser.parse_json({"@id": "_:a", "http://a/": "x"}, W.P.Dataset())
    W.warm_lexers()


def gen(rng, tier, idx):
    ng = rng.randrange(1, 4)
    ops = []
    nslots = rng.randrange(2, 9)
    uid = 0
    kinds = ["mk", "mk", "mk", "attach", "attach", "link", "drop", "drop", "dropgraph", "remove", "export", "export", "parse",
             "churn", "exportall", "threads"]
    kinds = rng.sample(kinds, rng.randrange(6, len(kinds))) + ["mk", "attach", "drop", "export"]
    for _ in range(rng.randrange(6, 60)):
        k = rng.choice(kinds)
        s, g = rng.randrange(nslots), rng.randrange(ng)
        uid += 1
        if k == "mk":
            ops.append(["mk", s, rng.choice(["env", "class", "resource", "view", "env2"]), g])
        elif k == "attach":
            ops.append(["attach", s, g, uid])
        elif k == "link":
            ops.append(["link", s, rng.randrange(nslots), g])
        elif k == "drop":
            ops.append(["drop", s])
        elif k == "dropgraph":
            ops.append(["dropgraph", g])
        elif k == "remove":
            ops.append(["remove", s, g])
        elif k == "churn":
            ops.append(["churn", rng.randrange(1, 12), rng.choice(["env", "class", "resource", "view"])])
        elif k == "export":
            ops.append(["export", g, rng.choice(["nt", "nt", "nq", "ttl", "str"]), rng.randrange(ng) if rng.random() < 0.4 else None])
        elif k == "exportall":
            ops.append(["exportall"])
        elif k == "parse":
            labels = rng.sample(["a", "b", "c", "b0", "AB", "a1"], rng.randrange(1, 4))
            sts = [[rng.choice(labels), uid * 100 + i] for i in range(rng.randrange(1, 5))]
            links = [[rng.choice(labels), rng.choice(labels)] for _ in range(rng.randrange(0, 3))]
            ops.append(["parse", rng.choice(["nt", "nq", "ttl", "ttl-anon", "jsonld"]), g, sts, links])
        elif k == "threads":
            n = rng.randrange(2, 4)
            how = [[rng.choice(["env", "class", "resource", "parse"]) for _ in range(rng.randrange(1, 4))] for _ in range(n)]
            if any(o[0] == "threads" for o in ops):
                continue
            ops.append(["threads", how, uid * 1000])
    return {"cfg": {"policy": rng.choice(["fresh", "lifo", "lifo", "fifo", "random", "random", "far"]),
                    "start": rng.choice([0x7F0000000000, 0xFFC0, 0x9F0, 0x5581AAAA0000, 0xFFFFF000])},
            "ng": ng, "ops": ops, "sched": sched.gen_sched(rng, 3, expect=120)}


def run(plan, ctx):
    from simkit import world as W

    Pr, R, SER, PARS = W.P, W.RDF, W.SER, W.PARSERS
    W.allocator.reset(plan["cfg"]["policy"], plan["seed"], plan["cfg"]["start"] or 0x7F0000000000)
    env = Pr.RDFEnvironment()
    R.MetaResource._classes.clear()

    class Thing(R.Resource):
        prefixes = {"ex": EX}

    R.register_class("ex:Thing")(Thing)
    TYPEOF = (I("http://www.w3.org/1999/02/22-rdf-syntax-ns#type"), I(EX + "Thing"))

    graphs = [Pr.Graph() for _ in range(plan["ng"])]
    models = [set() for _ in graphs]  # statements with ("b", sid)
    slots = {}  # slot -> sid
    node = {}  # sid -> library node, only while it is held or stored
    label, hashes = {}, {}
    ident = {}  # real id -> sid
    next_sid = [0]

    def know(x, what, kind="fresh"):
        check(isinstance(x, Pr.BlankNode), "not-blank", lambda: f"{what} made {x!r}")
        old = ident.get(id(x))
        check(old is None or old not in node, "shared-node", lambda: f"{what} gave a node that already exists ({old})")
        sid = next_sid[0]
        next_sid[0] += 1
        node[sid] = x
        ident[id(x)] = sid
        return sid

    def sweep():
        """Forget nodes nobody holds, so that their memory can be reused."""
        held = set(slots.values()) | {t[1] for m in models for st in m for t in st if t[0] == "b"}
        for sid in [s for s in node if s not in held]:
            del ident[id(node[sid])]
            del node[sid], label[sid], hashes[sid]
            ctx.probe("discarded")

    def lib(t):
        return node[t[1]] if t[0] == "b" else Pr.NamedNode(t[1]) if t[0] == "i" else Pr.Literal(t[1])

    def put(g, st):
        graphs[g].add(Pr.Triple(*(lib(t) for t in st)))
        models[g].add(st)

    def back(o):
        if isinstance(o, Pr.BlankNode):
            return ("b", ident.get(id(o), "unknown"))
        if isinstance(o, Pr.Literal):
            return L(o.value, o.language, o.datatype and plain(o.datatype))
        return I(plain(o))

    def create(how, g=None):
        if how == "env":
            return env.createBlankNode()
        if how == "class":
            return Pr.BlankNode()
        if how == "env2":
            return Pr.RDFEnvironment().createBlankNode()
        if how == "resource":
            return R.Resource.new(graphs[g] if g is not None else Pr.Graph()).subject
        return Thing.new(graphs[g] if g is not None else Pr.Graph()).subject

    def all_checks(what):
        by_label, by_node = {}, {}
        for sid, x in node.items():
            s = str(x)
            check(s.startswith("_:") and len(s) > 2, "label", lambda: f"after {what}: label {s!r}")
            check(x.toNT() == s and s == "_:" + x.value, "label", lambda: f"after {what}: {x.toNT()!r}, {s!r}, {x.value!r}")
            check(label.setdefault(sid, s) == s, "label-changed", lambda: f"after {what}: {label[sid]} became {s}")
            check(hashes.setdefault(sid, hash(x)) == hash(x), "hash-changed", lambda: f"after {what}: hash of {s} changed")
            check(by_label.setdefault(s, sid) == sid, "same-label", lambda: f"after {what}: nodes {by_label[s]} and {sid} are both {s}")
            check(by_node.setdefault(x, sid) == sid, "equal", lambda: f"after {what}: nodes {by_node[x]} and {sid} are equal")
        for sid, x in node.items():
            check(x == x and not (x != x) and by_node[x] == sid, "equal", lambda: f"after {what}: node {sid} lost its identity")
        for gi, g in enumerate(graphs):
            got = {tuple(back(t) for t in st) for st in g}
            check(got == models[gi] and len(g) == len(models[gi]), "data", lambda: f"after {what}: graph {gi}: {diff_text(got, models[gi])}")
            if len(models[gi]) < 40:
                for sid, x in node.items():
                    got = {tuple(back(t) for t in st) for st in g.match(x, None, None)}
                    want = {st for st in models[gi] if st[0] == ("b", sid)}
                    check(got == want, "data", lambda: f"after {what}: data of node {sid} in graph {gi}: {diff_text(got, want)}")

    def same_data(kind, got, want, what):
        r = isomorphic({norm_st(s[:3]) for s in got}, {norm_st(s[:3]) for s in want})
        check(r is not False, kind, lambda: f"{what}: wrote {short(sorted(want, key=repr))}, read {short(sorted(got, key=repr))}")

    def export(gs, fmt, what):
        """(text, statements in it)"""
        out = io.StringIO()
        for g in gs:
            if fmt == "nt":
                SER.serialize_ntriples(graphs[g], out)
            elif fmt == "str":
                out.write("".join(t.toString() for t in graphs[g].toArray()))
            elif fmt == "nq":
                d = Pr.Dataset()
                for t in graphs[g]:
                    d.add(Pr.Quad(*t, Pr.NamedNode(EX + "g")))
                SER.serialize_nquads(d, out)
            else:
                SER.serialize_turtle(graphs[g], out)
        text = out.getvalue()
        want = set().union(*(models[g] for g in gs))
        if fmt != "ttl":
            try:
                got = nt_read(text)
            except ValueError as e:
                raise Violation("export", f"{what}: {e} in {short(text)}")
            same_data("export", got, want, what)
        return text, want

    def load(text, fmt, what):
        if fmt == "nq":
            d = Pr.Dataset()
            PARS.nquads_parser.parse(text, d)
            items = [t[:3] for t in d]
        else:
            h = Pr.Graph()
            (PARS.turtle_parser if fmt == "ttl" else PARS.ntriples_parser).parse(text, h)
            items = list(h)
        return items

    def adopt(items, what):
        """Model statements of freshly parsed ones; every blank node must be new."""
        fresh = {}

        def term(o):
            if isinstance(o, Pr.BlankNode):
                if id(o) not in fresh:
                    fresh[id(o)] = know(o, what)
                return ("b", fresh[id(o)])
            return back(o)

        return {tuple(term(t) for t in st) for st in items}

    for n, op in enumerate(plan["ops"]):
        what = f"op {n} {op}"
        k = op[0]
        ctx.steps += 1
        if k == "mk":
            slots.pop(op[1], None)
            sweep()
            x = create(op[2], op[3])
            slots[op[1]] = sid = know(x, what)
            if op[2] == "view":
                models[op[3]].add((("b", sid), *TYPEOF))
            del x
        elif k in ("attach", "link", "remove"):
            a = slots.get(op[1])
            if a is None:
                continue
            if k == "attach":
                put(op[2], (("b", a), P, L("u%d" % op[3])))
            elif k == "link":
                b = slots.get(op[2])
                if b is not None:
                    put(op[3], (("b", a), LINK, ("b", b)))
            else:
                graphs[op[2]].removeMatches(node[a], None, None)
                models[op[2]] = {st for st in models[op[2]] if st[0] != ("b", a)}
        elif k == "drop":
            slots.pop(op[1], None)
        elif k == "dropgraph":
            graphs[op[1]] = Pr.Graph()
            models[op[1]] = set()
        elif k == "churn":
            labels = set()
            for _ in range(op[1]):
                x = create(op[2])
                s = str(x)
                check(s not in label.values() or s not in {str(y) for y in node.values()}, "same-label",
                      lambda: f"{what}: a new node is {s}, like a live one")
                check(all(x != y for y in node.values()), "equal", lambda: f"{what}: a new node equals a live one")
                labels.add(s)
                del x
            if len(labels) < op[1]:
                ctx.probe("label-reused")
        elif k == "export":
            g, fmt, into = op[1], op[2], op[3]
            text, want = export([g], fmt, what)
            try:
                items = load(text, fmt, what)
            except Exception as e:  # noqa: BLE001
                raise Violation("reload", f"{what}: {e!r} reading {short(text)}")
            got = adopt(items, what)
            same_data("reload", got, want, what)
            if into is not None:
                for t in items:
                    graphs[into].add(Pr.Triple(*t))
                models[into] |= got
            del items
            ctx.probe("exported")
        elif k == "exportall":
            export(range(len(graphs)), "nt", what)
        elif k == "parse":
            fmt, g, sts, links = op[1:5]
            if not sts:
                continue
            lines = ['_:%s <%s> "u%d" .' % (l, P[1], u) for l, u in sts] + ["_:%s <%s> _:%s ." % (a, LINK[1], b) for a, b in links]
            want = {(("b", l), P, L("u%d" % u)) for l, u in sts} | {(("b", a), LINK, ("b", b)) for a, b in links}
            try:
                if fmt == "jsonld":
                    d = Pr.Dataset()
                    doc = [{"@id": "_:" + l, P[1]: "u%d" % u} for l, u in sts] + [{"@id": "_:" + a, LINK[1]: {"@id": "_:" + b}} for a, b in links]
                    PARS.jsonld_parser.parse_json(doc, d)
                    items = [t[:3] for t in d]
                    del d
                elif fmt == "ttl-anon":
                    text = " ".join("[ <%s> \"u%d\" ] <%s> [] ." % (P[1], u, LINK[1]) for _, u in sts)
                    want = set()
                    for i, (_, u) in enumerate(sts):
                        want |= {(("b", i), P, L("u%d" % u)), (("b", i), LINK, ("b", -i - 1))}
                    items = load(text, "ttl", what)
                else:
                    items = load("\n".join(lines) + "\n", fmt, what)
            except Exception as e:  # noqa: BLE001
                raise Violation("parse", f"{what}: {e!r}")
            got = adopt(items, what)
            same_data("parse", got, want, what)
            for t in items:
                graphs[g].add(Pr.Triple(*t))
            models[g] |= got
            del items
            ctx.probe("parsed")
        elif k == "threads":
            made = []
            sc = sched.make(ctx, plan["sched"])

            def body(tid, hows):
                def go():
                    for j, how in enumerate(hows):
                        if how == "parse":
                            h = Pr.Graph()
                            PARS.ntriples_parser.parse('_:a <%s> "u%d" .\n_:b <%s> _:a .\n' % (P[1], op[2] + tid * 10 + j, LINK[1]), h)
                            xs = {id(t): t for st in h for t in st if isinstance(t, Pr.BlankNode)}.values()
                            check(len(xs) == 2, "parse", lambda: f"{what}: {len(xs)} nodes instead of 2")
                            made.extend(xs)
                        else:
                            made.append(create(how))
                        ls = [str(x) for x in made]
                        check(len(set(ls)) == len(ls), "same-label", lambda: f"{what}: {ls}")
                return go

            for tid, hows in enumerate(op[1]):
                sc.spawn(body(tid, hows))
            sc.run()
            sched.preempt_on(None)
            for i, x in enumerate(made):
                slots[1000 + i] = know(x, what)
                put(i % len(graphs), (("b", slots[1000 + i]), P, L("u%d" % (op[2] + 500 + i))))
            made.clear()
            x = None
        all_checks(what)
        sweep()
        ctx.state((sorted(models[0], key=repr), len(node)))
        ctx.log(k, len(node), [len(m) for m in models], sorted(label.values()))
    if W.allocator.reused:
        ctx.probe("address-reused", W.allocator.reused)
        ctx.probe("interleaved")
