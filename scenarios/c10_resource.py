"""C10: clients read, assign and delete through differently configured resource views of one graph."""
from simkit.core import check, Violation, short
from simkit.terms import T, I, L, B, Build, EX, XSD, TYPE, RDFSNS, diff_text, swarm
from simkit.views import check_graph, call

RUNS = {"quick": 12000, "thorough": 80000}
LEVEL = "exploration"
RULE = ("Each run draws 2-5 view classes (own scalars, default language, prefixes, some registered for a type, some "
        "inheriting), a graph shared by all of them and a history of 5-60 operations by several clients: filtered and "
        "unfiltered reads (consumed at once or lazily between other clients' writes), assignments of every kind of "
        "value including ones that must be refused, deletions, membership, scalar reads, erasing, copying, creating, "
        "listing instances and following references backwards. After every operation the whole graph is compared with "
        "a separately written model of the documented rules.")
REAL = ["pymantic.rdf.Resource, MetaResource, register_class (all real)", "pymantic.primitives.Graph and terms (all real)"]
STUB = ["allocator (addresses and hashes of blank nodes)", "client scheduling (seeded interleaving of operations and of "
        "the consumption of their results)"]
ASSUMPTIONS = ["Clients interleave between operations and result steps.",
               "Literals have a language or a datatype but not both; language tags are lower case, with at most a region; "
               "xsd:string literals are stored without datatype.",
               "Assignment with a None or empty filter, and of several values to a scalar with a filter, is not defined by "
               "the documentation: it is only required to be all or nothing."]

LANGS = ["en", "en-us", "en-gb", "fr", "fr-ca", "de"]
DTS = [XSD + "integer", XSD + "dateTime", EX + "dt", EX + "types#integer", XSD + "int"]
NS2 = EX + "n/"
PREDS = [EX + "p", EX + "q", EX + "s", NS2 + "p", RDFSNS + "label", TYPE[1]]
TYPES = [EX + "A", EX + "B", EX + "C", EX + "U"]


def lit(rng):
    v = rng.choice(["a", "b", "", "x", "0", "1"])
    k = rng.random()
    if k < 0.25:
        return L(v)
    if k < 0.65:
        return L(v, rng.choice(LANGS))
    return L(v, None, rng.choice(DTS))


def gen(rng, tier, idx):
    nsub = rng.randrange(2, 5)
    subs = [I(EX + "s%d" % i) if rng.random() < 0.7 else B(i) for i in range(nsub)]
    preds = rng.sample(PREDS[:5], rng.randrange(2, 5))
    if rng.random() < 0.5:
        preds.append(TYPE[1])
    views = []
    for i in range(rng.randrange(2, 6)):
        v = {"scalars": [p for p in preds if p != TYPE[1] and rng.random() < 0.45],
             "lang": rng.choice(["en", "en", "fr", "en-us", "de"]) if rng.random() < 0.5 else None,
             "type": rng.choice(TYPES[:3]) if rng.random() < 0.7 else None,
             "my": rng.choice([None, EX, EX, NS2, NS2]),
             "base": rng.randrange(i) if i and rng.random() < 0.35 else None}
        if v["type"] in [w["type"] for w in views]:
            v["type"] = None
        views.append(v)
    nv = len(views)
    objs = list(subs) + [I(EX + "o%d" % i) for i in range(2)]

    def value(ref=0.3):
        if rng.random() < ref:
            o = rng.choice(objs)
            return rng.choice([["node", o], ["res", rng.randrange(-1, nv), o], ["cls", o]])
        k = rng.random()
        if k < 0.4:
            return ["str", rng.choice(["a", "b", "", "x", "1"])]
        if k < 0.55:
            return ["int", rng.choice([0, 1, -5])]
        if k < 0.6:
            return ["dt"]
        return ["lit", lit(rng)]

    def key(p=None):
        p = p or rng.choice(preds)
        f = rng.choice(["", "", "", "lang", "lang", "dt", "cls", "none", "empty", "xs"])
        form = rng.choice(["iri", "curie", "my"])
        if f == "lang":
            return [p, form, "lang", rng.choice(LANGS)]
        if f == "dt":
            return [p, form, "dt", rng.choice(DTS)]
        if f == "cls":
            return [p, form, "cls", rng.randrange(-1, nv)]
        return [p, form, f, None]

    def fitting(k):
        """A value more likely to be accepted under key k."""
        r = rng.random()
        if r < 0.3:
            return value()
        if k[2] == "lang":
            l = k[3]
            return rng.choice([["str", "z"], ["lit", L("y", l)], ["lit", L("w", l.split("-")[0])], ["lit", L("v", rng.choice(LANGS))],
                               value(1.0)])
        if k[2] == "dt":
            return rng.choice([["str", "5"], ["lit", L("6", None, k[3])], ["int", 7], value(1.0)])
        if k[2] == "cls":
            return rng.choice([["res", k[3], rng.choice(objs)], ["node", rng.choice(objs)], ["cls", rng.choice(objs)]])
        return value()

    kinds = swarm(rng, ["get", "get", "set", "set", "set", "del", "in", "scalar", "erase", "copy", "new", "in_graph",
                        "object_of", "iter", "is_a", "str", "as", "combo", "bind", "by", "same"], 5) + ["set", "set", "get", "seed", "lazy", "step"]
    init = [[rng.choice(subs), I(rng.choice(preds)), rng.choice(objs) if rng.random() < 0.35 else lit(rng)]
            for _ in range(rng.randrange(0, 14))]
    init = [s if s[1] != TYPE else [s[0], s[1], I(rng.choice(TYPES))] for s in init]
    dense = rng.random() < 0.3
    init += [[rng.choice(objs), TYPE, I(rng.choice(TYPES[:3] if dense else TYPES))]
             for _ in range(rng.randrange(6, 14) if dense else rng.randrange(0, 5))]
    init += [[rng.choice(objs), I(rng.choice(preds[:2])), rng.choice(subs)] for _ in range(rng.randrange(0, 3))]
    ops = []
    nlazy = 0
    for _ in range(rng.randrange(5, 60)):
        k = rng.choice(kinds)
        c = rng.randrange(3)
        s = rng.choice(subs)
        v = rng.randrange(-1, nv)
        if k == "bind":
            ops.append(["bind", c, rng.randrange(-2, nv), rng.choice([EX, NS2])])
        elif k == "seed":
            p = I(rng.choice(preds))
            o = I(rng.choice(TYPES)) if p == TYPE else (rng.choice(objs) if rng.random() < 0.3 else lit(rng))
            ops.append(["seed", c, [s, p, o]])
        elif k in ("get", "del", "in", "scalar"):
            ops.append([k, c, v, s, key()])
        elif k == "lazy":
            ops.append(["lazy", c, v, s, key(), nlazy])
            nlazy += 1
            if rng.random() < 0.4:  # two open results of one view
                ops.append(["lazy", (c + 1) % 3, v, s, key(), nlazy])
                ops.append(["step", c, nlazy - 1, rng.choice([1, 100])])
                nlazy += 1
        elif k == "step" and nlazy:
            ops.append(["step", c, rng.randrange(nlazy), rng.choice([1, 1, 2, 100])])
        elif k == "set":
            kk = key()
            if kk[0] == TYPE[1]:
                kk[2:] = ["", None]
                many = rng.random() < 0.7
                vals = [["node", I(rng.choice(TYPES))] for _ in range(rng.randrange(0, 4) if many else 1)]
            else:
                many = rng.random() < 0.45
                vals = [fitting(kk) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]) if many else 1)]
                if many and rng.random() < 0.12:
                    vals.insert(rng.randrange(len(vals) + 1), ["bad", rng.choice(["float", "complex", "object", "none"])])
                elif not many and rng.random() < 0.06:
                    vals = [["bad", rng.choice(["float", "complex", "object", "none"])]]
            ops.append(["set", c, v, s, kk, rng.choice(["list", "set", "tuple", "frozenset"]) if many else "one", vals])
        elif k == "erase":
            ops.append(["erase", c, v, s])
        elif k == "copy":
            ops.append(["copy", c, v, s, rng.choice(objs)])
        elif k == "new":
            ops.append(["new", c, v, rng.choice(objs)])
        elif k in ("in_graph",):
            ops.append([k, c, v])
        elif k == "object_of":
            ops.append([k, c, v, rng.choice(objs), rng.choice(preds) if rng.random() < 0.6 else None, rng.choice(["iri", "curie", "my"])])
        elif k in ("iter", "is_a", "str"):
            ops.append([k, c, v, s])
        elif k == "as":
            ops.append([k, c, v, rng.randrange(-1, nv), s])
        elif k == "by":
            m = rng.choice(["bare", "lang", "lang", "dt", "dt", "type", "type", "all"])
            arg = {"lang": lambda: rng.choice(LANGS + ["", None]), "dt": lambda: rng.choice(DTS + ["", None]),
                   "type": lambda: rng.choice([None] + list(range(-1, nv)))}.get(m, lambda: None)()
            ops.append([k, c, v, s, m, rng.choice(preds), arg])
        elif k == "same":
            ops.append([k, c, v, rng.choice(objs), rng.randrange(-1, nv), rng.choice(objs)])
        elif k == "combo":
            ops.append([k, c, rng.choice(objs), rng.choice(objs) if rng.random() < 0.4 else None,
                        rng.randrange(6) if rng.random() < 0.5 else None])
    return {"held": rng.random() < 0.5, "views": views, "gmy": rng.choice([None, EX, NS2]), "init": init, "subs": subs, "preds": preds, "objs": objs, "ops": ops}


# -- the documented rules, written down separately ----------------------------


def is_res(o):
    return o[0] in ("i", "b")


def same_lang(a, b):
    if a is None or b is None:
        return a is b
    pa, _, ra = a.partition("-")
    pb, _, rb = b.partition("-")
    return pa == pb and (not ra or not rb or ra == rb)


def bare(o):
    return o[0] == "l" and o[2] is None and o[3] is None


class Rules:
    def __init__(self, views, gmy):
        self.views, self.gmy, self.mine = views, gmy, {}

    def chain(self, v):
        out = []
        while v is not None and v >= 0:
            out.append(v)
            v = self.views[v]["base"]
        return out + [-1]

    def scalars(self, v):
        s = {RDFSNS + "label"}
        for x in self.chain(v)[:-1]:
            s |= set(self.views[x]["scalars"])
        return s

    def lang(self, v):
        for x in self.chain(v)[:-1]:
            if self.views[x]["lang"]:
                return self.views[x]["lang"]
        return "en"

    def my(self, v):
        """What the prefix "my" means to a view now: its own, inherited when the class was made, or the global one."""
        if v not in self.mine:
            for x in self.chain(v)[:-1]:
                if self.views[x].get("my"):
                    self.mine[v] = self.views[x]["my"]
                    break
        return self.mine.get(v) or self.gmy

    def classes(self, model, node):
        """Views a node must be an instance of (ancestors included), given its types."""
        types = {o[1] for s, p, o in model if s == node and p == TYPE and o[0] == "i"}
        out = {-1}
        for i, v in enumerate(self.views):
            if v["type"] in types:
                out |= set(self.chain(i))
        return out

    def rdf_classes(self, v):
        for x in self.chain(v)[:-1]:
            if self.views[x]["type"]:
                return {self.views[x]["type"]}
        return set()

    def objects(self, model, s, p):
        return {o for a, b, o in model if a == s and b == ("i", p)}

    def select(self, model, v, s, key):
        p, _, f, arg = key
        objs = self.objects(model, s, p)
        scalar = p in self.scalars(v)
        res = {o for o in objs if is_res(o)}
        if f == "none" or (f == "" and not scalar):
            return objs
        if f == "":
            lang = self.lang(v)
            for part in ({o for o in objs if o[0] == "l" and o[2] is not None and same_lang(o[2], lang)}, res,
                         {o for o in objs if o[0] == "l" and o[3] is not None}, {o for o in objs if bare(o)}):
                if part:
                    return part
            return set()
        if f == "lang":
            sel = {o for o in objs if o[0] == "l" and o[2] is not None and same_lang(o[2], arg)}
            return sel if scalar else sel | res
        if f == "dt":
            sel = {o for o in objs if o[0] == "l" and o[3] == arg}
            return sel if scalar else sel | res
        if f == "cls":
            return {o for o in res if arg in self.classes(model, o)}
        return {o for o in objs if bare(o)}  # "" or xsd:string

    def assign(self, model, v, s, key, many, vals):
        """New model, None if it must be refused, or "open" if not defined.

        vals: [("l", ...) | ("ref", node, classes)]."""
        p, _, f, arg = key
        objs = self.objects(model, s, p)
        scalar = p in self.scalars(v)
        res = {o for o in objs if is_res(o)}
        typed = {o for o in objs if o[0] == "l" and o[3] is not None}
        nodes = {x[1] if x[0] == "ref" else x for x in vals}
        if f in ("none", "empty", "xs"):
            return "open"
        if f == "":
            if scalar and many:
                return None
            gone = objs
            if scalar and vals[0][0] == "l" and vals[0][2] is not None:
                gone = {o for o in objs if o[0] == "l" and o[2] is not None and same_lang(o[2], vals[0][2])}
                gone |= typed | res | {o for o in objs if bare(o)}
        else:
            for x in vals:
                if x[0] == "ref":
                    if f == "cls" and arg not in x[2]:
                        return None
                elif f == "cls" or (f == "lang" and not same_lang(x[2], arg)) or (f == "dt" and x[3] != arg):
                    return None
            if scalar and many:
                return "open"
            matching = {o for o in objs if o[0] == "l" and (
                (f == "lang" and o[2] is not None and same_lang(o[2], arg)) or (f == "dt" and o[3] == arg))}
            if scalar:
                gone = matching | typed | res if f == "lang" and vals[0][0] == "l" else objs
            elif f == "cls":
                gone = {o for o in res if arg in self.classes(model, o)}
            else:
                gone = matching | res
        P = ("i", p)
        return (model - {(s, P, o) for o in gone}) | {(s, P, n) for n in nodes}


class BadThing:
    pass


BAD = {"float": lambda: 1.5, "complex": lambda: 2j, "object": BadThing, "none": lambda: None}


def run(plan, ctx):
    import datetime
    from simkit import world as W

    P, R = W.P, W.RDF
    build = Build(P)
    rules = Rules(plan["views"], plan.get("gmy"))
    views = plan["views"]
    subs, objs = T(plan["subs"]), T(plan["objs"])
    preds = plan["preds"]
    pool = (list(dict.fromkeys(objs)), [I(p) for p in preds] + [TYPE], list(objs))
    g = P.Graph()
    model = set()
    for st in T(plan["init"]):
        g.add(build.triple(st))
        model.add(st)

    R.MetaResource._classes.clear()
    if plan.get("gmy"):
        R.Resource.global_profile.setPrefix("my", plan["gmy"])
    classes = []
    for i, v in enumerate(views):
        dct = {"prefixes": {"ex": EX}}
        if v.get("my"):
            dct["prefixes"]["my"] = v["my"]
        if v["scalars"]:
            dct["scalars"] = {p.replace(EX, "ex:") if j % 2 else p for j, p in enumerate(v["scalars"])}
        if v["lang"]:
            dct["lang"] = v["lang"]
        base = R.Resource if v["base"] is None else classes[v["base"]]
        c = R.MetaResource("V%d" % i, (base,), dct)
        classes.append(c)
        if v["type"]:
            R.register_class("ex:" + v["type"][len(EX):])(c)
    cls = lambda v: R.Resource if v < 0 or v >= len(classes) else classes[v]

    held = {}

    def view(v, s):
        if plan.get("held"):  # every client was handed the same object
            if (v, s) not in held:
                held[v, s] = cls(v)(g, build.term(s))
            return held[v, s]
        if s[0] == "i" and ctx.steps % 5 == 0:
            return cls(v)(g, s[1])  # as the README does it
        return cls(v)(g, build.term(s))

    def libkey(v, key):
        p, form, f, arg = key
        name = p
        if form == "curie":
            if p == TYPE[1]:
                name = "rdf:type"
            elif p.startswith(RDFSNS):
                name = "rdfs:" + p[len(RDFSNS):]
            elif v >= 0:
                name = "ex:" + p[len(EX):]
        elif form == "my":
            my = rules.my(v)
            if my and p.startswith(my):
                name = "my:" + p[len(my):]
        if f == "":
            return name
        return (name, {"lang": lambda: arg, "dt": lambda: P.NamedNode(arg), "cls": lambda: cls(arg), "none": lambda: None,
                       "empty": lambda: "", "xs": lambda: P.NamedNode(XSD + "string")}[f]())

    def same(kind, what):
        got = set(build.back_st(t) for t in g)
        check(got == model and len(g) == len(model), kind, lambda: f"{what}: {diff_text(got, model)}")

    def read_value(x, what, allowed):
        """Check one value handed out by the library; returns the model term."""
        if isinstance(x, P.Literal):
            return build.back(x)
        check(isinstance(x, R.Resource), "read", lambda: f"{what} handed out {x!r}")
        node = build.back(x.subject)
        check(x.graph is g, "read", lambda: f"{what} handed out a resource of another graph")
        is_ = {-1} | {i for i, c in enumerate(classes) if isinstance(x, c)}
        want = [rules.classes(m, node) for m in allowed]
        check(is_ in want, "class", lambda: f"{what} handed out {node} as views {is_}, should be one of {want}")
        return node


    def libvalue(x, v, key):
        """(library value, model value or None if it cannot be converted)"""
        k = x[0]
        if k == "str":
            lang = dt = None
            if key[2] == "lang":
                lang = key[3]
            elif key[2] == "dt":
                dt = key[3]
            elif key[2] == "" and key[0] in rules.scalars(v):
                lang = rules.lang(v)
            return x[1], L(x[1], lang, dt)
        if k == "int":
            return x[1], L(str(x[1]), None, XSD + "integer")
        if k == "dt":
            d = datetime.datetime(2020, 1, 2, 3, 4, 5)
            return d, L(d.isoformat(), None, XSD + "dateTime")
        if k == "lit":
            return build.term(T(x[1])), T(x[1])
        if k == "node":
            n = T(x[1])
            return build.term(n), ("ref", n, frozenset(rules.classes(model, n)))
        if k == "cls":
            n = T(x[1])
            return R.Resource.classify(g, build.term(n)), ("ref", n, frozenset(rules.classes(model, n)))
        if k == "res":
            n = T(x[2])
            return view(x[1], n), ("ref", n, frozenset(rules.chain(x[1] if x[1] < len(classes) else -1)))
        return BAD[x[1]](), None

    lazies = {}
    combos = []
    last = None
    for n, op in enumerate(plan["ops"]):
        k, c = op[0], op[1]
        if last is not None and last != c:
            ctx.nswitches += 1
        last = c
        ctx.steps += 1
        before = set(model)
        what = f"op {n} {op}"
        if k == "bind":
            # as the README does it: Resource.prefixes['foaf'] = Prefix(...)
            v = op[2]
            if v == -2:
                R.Resource.global_profile.setPrefix("my", op[3])
                rules.gmy = op[3]
            elif v < len(classes):
                rules.my(v)
                cls(v).prefixes["my"] = P.Prefix(op[3])
                rules.mine[v] = op[3]
        elif k == "seed":
            st = T(op[2])
            g.add(build.triple(st))
            model.add(st)
        elif k in ("get", "lazy", "scalar", "del", "in"):
            v, s, key = op[2], T(op[3]), op[4]
            want = rules.select(model, v, s, key)
            r = view(v, s)
            lk = libkey(v, key)
            scalar = k == "scalar" or (key[0] in rules.scalars(v) and key[2] != "none")
            if k == "del":
                call("delete", what, lambda: r.__delitem__(lk))
                model -= {(s, I(key[0]), o) for o in want}
                same("delete", what)
                if want:
                    ctx.probe("deleted")
            elif k == "in":
                got = call("contains", what, lambda: lk in r)
                check(got == bool(want), "contains", lambda: f"{what} is {got}, selected {want}")
            elif scalar:
                try:
                    x = r.get_scalar(lk) if k == "scalar" else r[lk]
                except ValueError as e:
                    check(len(want) > 1, "read", lambda: f"{what} raised {e!r}, selected {want}")
                    ctx.probe("ambiguous-scalar")
                else:
                    check(len(want) <= 1, "read", lambda: f"{what} gave {x!r}, selected {want}")
                    if want:
                        check(x is not None and read_value(x, what, [model]) in want, "read",
                              lambda: f"{what} gave {x!r}, should be {want}")
                    else:
                        check(x is None, "read", lambda: f"{what} gave {x!r}, nothing selected")
            else:
                it = iter(call("read", what, lambda: r[lk]))
                if k == "get":
                    got = [read_value(x, what, [model]) for x in call("read", what, lambda: list(it))]
                    check(len(got) == len(set(got)) and set(got) == want, "read",
                          lambda: f"{what}: {short(got)}, should be {short(want)}")
                    if len(want) > 1:
                        ctx.probe("read-many")
                else:
                    lazies[op[5]] = [it, want, [], [set(model)], False, what]
        elif k == "step":
            z = lazies.get(op[2])
            if z is None or z[4]:
                continue
            for _ in range(op[3]):
                try:
                    x = next(z[0])
                except StopIteration:
                    z[4] = True
                    check(len(z[2]) == len(set(z[2])) and set(z[2]) == z[1], "lazy-read",
                          lambda: f"{z[5]} consumed by {what}: {short(z[2])}, should be {short(z[1])}")
                    if len(z[3]) > 1:
                        ctx.probe("lazy-over-writes")
                    break
                except Exception as e:  # noqa: BLE001
                    raise Violation("lazy-read", f"{z[5]} raised {e!r} when consumed by {what}")
                z[2].append(read_value(x, z[5], z[3]))
        elif k == "set":
            v, s, key, shape = op[2], T(op[3]), op[4], op[5]
            pairs = [libvalue(x, v, key) for x in op[6]]
            lk = libkey(v, key)
            as_seen = {x[1][1:] for x in pairs if x[1] is not None and x[1][0] == "ref"}
            if key[2] == "cls" and len(as_seen) != len({x[0] for x in as_seen}):
                continue  # equal references seen as different classes: which one counts is open
            if shape == "one":
                if not pairs:
                    continue
                pairs = pairs[:1]
                arg = pairs[0][0]
            else:
                arg = {"list": list, "set": set, "tuple": tuple, "frozenset": frozenset}[shape](p[0] for p in pairs)
            if any(p[1] is None for p in pairs):
                want = "open"
            else:
                want = rules.assign(model, v, s, key, shape != "one", [p[1] for p in pairs])
            r = view(v, s)
            try:
                r[lk] = arg
            except Exception as e:  # noqa: BLE001
                if want is not None and want != "open":
                    raise Violation("assign", f"{what} raised {e!r}")
                same("refused-assignment", what)
                ctx.probe("refused")
                ctx.log("refused", type(e).__name__)
            else:
                check(want is not None, "assign", lambda: f"{what} was accepted")
                if want == "open":
                    # Not defined: only the addressed triples may change.
                    got = set(build.back_st(t) for t in g)
                    p = I(key[0])
                    check({t for t in got if t[:2] != (s, p)} == {t for t in model if t[:2] != (s, p)}, "assign",
                          lambda: f"{what}: touched something else: {diff_text(got, model)}")
                    model = got
                    ctx.probe("undefined-assignment")
                else:
                    model = want
                    same("assign", what)
                    ctx.probe("assigned")
        elif k == "erase":
            s = T(op[3])
            call("erase", what, lambda: view(op[2], s).erase())
            model = {t for t in model if t[0] != s}
            same("erase", what)
        elif k == "copy":
            s, t = T(op[3]), T(op[4])
            x = call("copy", what, lambda: view(op[2], s).copy(build.term(t) if t[0] == "b" or n % 2 else t[1]))
            model |= {(t, p, o) for a, p, o in model if a == s}
            same("copy", what)
            check(read_value(x, what, [model]) == t, "copy", lambda: f"{what} gave {x!r}")
        elif k == "new":
            t = T(op[3])
            x = call("new", what, lambda: cls(op[2]).new(g, t[1] if t[0] == "i" and n % 3 == 0 else build.term(t)))
            model |= {(t, TYPE, I(c)) for c in rules.rdf_classes(op[2])}
            same("new", what)
            check(type(x) is cls(op[2]) and build.back(x.subject) == t, "new", lambda: f"{what} gave {x!r}")
        elif k == "in_graph":
            got = call("in_graph", what, lambda: list(cls(op[2]).in_graph(g)))
            need = rules.rdf_classes(op[2])
            want = {s for s, p, o in model} if need else set()
            want = {s for s in want if all((s, TYPE, I(c)) in model for c in need)}
            check(len(got) == len(want) and {build.back(x.subject) for x in got} == want and
                  all(type(x) is cls(op[2]) for x in got), "in_graph", lambda: f"{what}: {got}, should be {want}")
        elif k == "object_of":
            s, p = T(op[3]), op[4]
            r = view(op[2], s)
            if p is None:
                got = call("object_of", what, lambda: [(read_value(x, what, [model]), build.back(q)) for x, q in r.object_of()])
                want = {(a, q) for a, q, o in model if o == s}
            else:
                got = call("object_of", what,
                           lambda: [read_value(x, what, [model]) for x in r.object_of(libkey(op[2], [p, op[5], "", None]))])
                want = {a for a, q, o in model if o == s and q == I(p)}
            check(len(got) == len(want) and set(got) == want, "object_of", lambda: f"{what}: {got}, should be {want}")
        elif k == "iter":
            s = T(op[3])
            got = call("iterate", what, lambda: [(build.back(p), build.back(o)) for p, o in view(op[2], s)])
            want = {t[1:] for t in model if t[0] == s}
            check(len(got) == len(want) and set(got) == want, "iterate", lambda: f"{what}: {got}, should be {want}")
        elif k == "is_a":
            s = T(op[3])
            got = call("is_a", what, lambda: view(op[2], s).is_a())
            want = all((s, TYPE, I(c)) in model for c in rules.rdf_classes(op[2]))
            check(got == want, "is_a", lambda: f"{what} is {got}")
        elif k == "str":
            s = T(op[3])
            sel = rules.select(model, op[2], s, [RDFSNS + "label", "curie", "", None])
            if len(sel) > 1 or any(is_res(o) for o in sel):
                continue
            got = call("str", what, lambda: str(view(op[2], s)))
            want = next(iter(sel))[1] if sel else (s[1] if s[0] == "i" else str(build.term(s)))
            check(got == want, "str", lambda: f"{what} is {got!r}, should be {want!r}")
        elif k == "as":
            r = view(op[2], T(op[4]))
            x = call("as_", what, lambda: r.as_(cls(op[3])))
            check(type(x) is cls(op[3]) and x == r and hash(x) == hash(r) and build.back(x.subject) == T(op[4]) and x.graph is g,
                  "as_", lambda: f"{what} gave {x!r}")
        elif k == "by":
            s, m, p, arg = T(op[3]), op[4], op[5], op[6]
            r, q = view(op[2], s), P.NamedNode(p)
            objects = rules.objects(model, s, p)
            if m == "bare" or arg == "":
                want = {o for o in objects if bare(o)}
            elif m == "lang":
                want = {o for o in objects if o[0] == "l" and o[2] is not None and (arg is None or same_lang(o[2], arg))}
            elif m == "dt":
                want = {o for o in objects if o[0] == "l" and o[3] is not None and (arg is None or o[3] == arg)}
            elif m == "type":
                want = {o for o in objects if is_res(o) and (arg is None or arg in rules.classes(model, o))}
            else:
                want = objects
            f = {"bare": lambda: r.bare_literals(q), "lang": lambda: r.objects_by_lang(q, arg), "all": lambda: r.objects(q),
                 "dt": lambda: r.objects_by_datatype(q, P.NamedNode(arg) if arg else arg),
                 "type": lambda: r.objects_by_type(q, None if arg is None else cls(arg))}[m]
            got = [build.back(x) for x in call("objects", what, lambda: list(f()))]
            check(len(got) == len(set(got)) and set(got) == want, "objects", lambda: f"{what}: {short(got)}, should be {short(want)}")
        elif k == "same":
            a, b = T(op[3]), T(op[5])
            x, y = view(op[2], a), view(op[4], b)
            for z in (y, build.term(b)) + ((b[1],) if b[0] == "i" else ()):
                if a[0] == "b" and z is not y:
                    continue  # whether a resource equals its own bare blank node is left open
                check((x == z) is (a == b) and (x != z) is (a != b), "same", lambda: f"{what}: {x!r} and {z!r} compare {x == z}, {x != z}")
                check(a != b or hash(x) == hash(z), "same", lambda: f"{what}: equal but hashed differently")
            check((x in {y}) is (a == b) and len({x, y}) == 1 + (a != b), "same", lambda: f"{what}: as members of a set")
        elif k == "combo":
            # A class combined for a node with several types: its instances have all of them.
            s = T(op[2])
            if op[4] is not None and combos:
                k2, types = combos[op[4] % len(combos)]
                ctx.probe("combined-class-later")
            else:
                types = {o for a, p, o in model if a == s and p == TYPE}
                if len([v for v in views if v["type"] and I(v["type"]) in types]) < 2:
                    continue
                ctx.probe("combined-class")
                x = call("combined", what, lambda: R.Resource.classify(g, build.term(s)))
                read_value(x, what, [model])
                k2 = type(x)
                if len([v for i, v in enumerate(views) if v["type"] and I(v["type"]) in types and k2 is not classes[i]]) < 2:
                    continue
                combos.append((k2, types))
            got = call("combined", what, lambda: list(k2.in_graph(g)))
            want = {a for a, p, o in model if all((a, TYPE, t) in model for t in types)}
            check(len(got) == len(want) and {build.back(y.subject) for y in got} == want and all(type(y) is k2 for y in got),
                  "in_graph", lambda: f"{what}: {got}, should be {want}")
            for a in objs:
                got = call("combined", what, lambda: k2(g, build.term(a)).is_a())
                check(got == (a in want), "is_a", lambda: f"{what}: {a} is_a {got}")
            if op[3] is not None:
                t = T(op[3])
                call("combined", what, lambda: k2.new(g, build.term(t)))
                model |= {(t, TYPE, y) for y in types}
            same("combined", what)
        if k in ("get", "lazy", "scalar", "in", "step", "in_graph", "object_of", "iter", "is_a", "str", "as", "by", "same"):
            same("read-writes", what)
        if model != before:
            ctx.state(sorted(model, key=repr))
            for z in lazies.values():
                if not z[4]:
                    z[3].append(set(model))
        ctx.log(op[0], sorted(model, key=repr))
    check_graph(W, g, model, build, pool, deep=len(model) < 60)
