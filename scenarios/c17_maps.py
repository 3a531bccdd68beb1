"""C17: clients edit environments, profiles, prefix and term maps made from one another, and use them."""
import collections.abc

from simkit import sched
from simkit.core import ANY, ERRORS, Violation, check, short
from simkit.terms import EX, RDFNS, XSD, swarm

RUNS = {"quick": 18000, "thorough": 180000}
LEVEL = "exploration"
TECHNIQUE = ("deterministic simulation: seeded histories of several clients over maps made from one another, failing import "
             "sources, concurrent readers under a seeded scheduler, against plain dictionaries")
RULE = ("Each run draws a history of 5-60 operations by 1-3 clients: environments are created, profiles, prefix maps and term "
        "maps made from them (empty or not), prefixes and terms bound, rebound, removed, defaulted, imported with and without "
        "override - sometimes from a source that fails midway. After every operation every object's bindings are compared "
        "with plain dictionaries; CURIEs, terms and IRIs (nested and equal namespaces, empty references, the default prefix, "
        "brackets, URI schemes used as prefixes, unknown prefixes) are resolved and shrunk, shrunk ones resolved "
        "back; in one phase 2-4 threads ask at the same time, preempted at any line or bytecode of the library.")
REAL = ["pymantic.primitives: RDFEnvironment, Profile, PrefixMap, TermMap, parse_curie, to_curie (all real, real threads)"]
STUB = ["client scheduling", "thread scheduler (seeded)", "failing import sources (simulated)"]
ASSUMPTIONS = ["Nobody changes a map while another thread asks it.",
               "What a bare word means without a default prefix, and whether an import carries over a default vocabulary, is left open.",
               "After an import whose source failed, each binding is the old or the imported one."]

NSS = [EX, EX + "e#", EX + "e/", EX + "e", "http://other.org/", "urn:x:", "http://other.org/x-", "foo", RDFNS, XSD]
NAMES = ["ex", "a", "b", "", "p.q", "x-y", "rdf", "xsd", "tag", "http", "a:b" if False else "ab"]
SCHEMES = {"tag", "http", "urn", "mailto"}
TERMS = ["label", "me", "a", "type", "ex", ""]
HOW = ["set", "set", "map", "map", "update", "setdefault"]
UNHOW = ["del", "del", "pop", "clear", "repeat"]
REFS = ["", "x", "e#y", "a:b", "e/z", "[x]", "#", "\u00e9", " ", "e", "://x"]


def gen(rng, tier, idx):
    names = rng.sample(NAMES, rng.randrange(2, 7))
    nss = rng.sample(NSS, rng.randrange(2, 6))
    kinds = swarm(rng, ["bind", "bind", "unbind", "default", "term", "unterm", "vocab", "import", "import", "make", "make",
                        "failing", "ask", "env"], 5) + ["bind", "ask", "ask", "make"]
    nobj = [1]

    favourites = [rng.choice(nss) + rng.choice(REFS) for _ in range(3)]

    def iri():
        k = rng.random()
        if k < 0.3:
            return rng.choice(favourites)
        if k < 0.75:
            return rng.choice(nss) + rng.choice(REFS)
        return rng.choice([EX, "http://nowhere.org/y", "mailto:me@x", "urn:z", "relative", "/", "\u00e9", ""])

    def question():
        o = rng.randrange(nobj[0])
        k = rng.choice(["resolve", "resolve", "shrink", "shrink", "explicit", "presolve", "tresolve", "tshrink"])
        if k in ("shrink", "explicit", "tshrink"):
            return [k, o, iri()]
        if k == "tresolve":
            return [k, o, rng.choice(TERMS[:-1])]
        k2 = rng.random()
        name = rng.choice(names) if rng.random() < 0.7 else rng.choice(["nosuch", "tag", "rdf", "zz"])
        if k2 < 0.6:
            x = name + ":" + rng.choice(REFS)
        elif k2 < 0.8:
            x = "[" + name + ":" + rng.choice(REFS[:4]) + "]"
        elif k2 < 0.9:
            x = rng.choice(TERMS[:-1])
        else:
            x = iri() or "x"
        return [k, o, x or "x"]

    ops = []
    for _ in range(rng.randrange(5, 60)):
        k, c, o = rng.choice(kinds), rng.randrange(3), rng.randrange(nobj[0])
        if k == "env":
            ops.append([k, c])
            nobj[0] += 1
        elif k == "make":
            ops.append([k, c, o, rng.choice(["profile", "profile", "pm", "tm"]), rng.random() < 0.25])
            nobj[0] += 1
        elif k == "bind":
            ops.append([k, c, o, rng.choice(names), rng.choice(nss), rng.choice(["str", "Prefix", "NamedNode"]), rng.choice(HOW)])
        elif k == "unbind":
            ops.append([k, c, o, rng.choice(names), rng.choice(UNHOW)])
        elif k == "default":
            ops.append([k, c, o, rng.choice(nss), rng.choice(["set", "map"])])
        elif k == "term":
            ops.append([k, c, o, rng.choice(TERMS), iri(), rng.choice(HOW)])
        elif k == "unterm":
            ops.append([k, c, o, rng.choice(TERMS), rng.choice(UNHOW)])
        elif k == "vocab":
            ops.append([k, c, o, rng.choice(nss), rng.choice(["set", "map"])])
        elif k == "import":
            ops.append([k, c, o, rng.randrange(nobj[0]), rng.choice([True, False, None])])
        elif k == "failing":
            src = [[rng.choice(names), rng.choice(nss)] for _ in range(rng.randrange(1, 5))]
            ops.append([k, c, o, rng.choice(["pm", "tm"]), src, rng.randrange(0, len(src)), rng.random() < 0.5,
                        rng.choice([e for e in ANY if e != "interrupt"])])
        elif k == "ask":
            ops.append([k, c, question()])
    if rng.random() < 0.35:
        n = rng.randrange(2, 5)
        ops.append(["threads", 0, [[question() for _ in range(rng.randrange(1, 6))] for _ in range(n)]])
        ops.append(["ask", 0, question()])
    return {"cfg": {"probe": rng.choice([0, 1, 1, 3])}, "ops": ops, "sched": sched.gen_sched(rng, 4, expect=100)}


class Failing(collections.abc.Mapping):
    def __init__(self, items, at, error, ctx):
        self.d, self.at, self.error, self.ctx = dict(items), at, error, ctx
        self.raised = None

    def __getitem__(self, k):
        return self.d[k]

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for i, k in enumerate(self.d):
            if i == self.at % len(self.d):
                self.ctx.fault("import-" + self.error)
                self.raised = ERRORS[self.error]()
                raise self.raised
            yield k


class Obj:
    """A library object and what its own history says it holds."""

    def __init__(self, kind, lib, p=None, t=None, default=None):
        self.kind, self.lib = kind, lib
        self.p = p  # prefix -> namespace
        self.t = t  # term -> IRI
        self.default = default

    @property
    def pm(self):
        return self.lib if self.kind == "pm" else self.lib.prefixes

    @property
    def tm(self):
        return self.lib if self.kind == "tm" else self.lib.terms


def resolved(p, x):
    """The IRI, ValueError, or None where it is left open."""
    br = x[0] == "[" and x[-1] == "]"
    body = x[1:-1] if br else x
    prefix, sep, ref = body.partition(":")
    if not br and prefix in SCHEMES:
        return body
    if not sep:
        if "" in p:
            return p[""] + body
        return None if body in p else ValueError
    return p[prefix] + ref if prefix in p else ValueError


def shrunk(p, iri):
    """The CURIEs it may become, or None."""
    ms = [(k, v) for k, v in p.items() if iri.startswith(v)]
    if not ms:
        return None
    n = max(len(v) for _, v in ms)
    return {k + ":" + iri[n:] for k, v in ms if len(v) == n}


def run(plan, ctx):
    from simkit import world as W

    P = W.P
    START = {"rdf": RDFNS, "xsd": XSD}
    objs = [Obj("env", P.RDFEnvironment(), dict(START), {})]

    def lib(fn, what):
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("map-op", f"{what} raised {type(e).__name__}: {e}")

    def look(what):
        for i, o in enumerate(objs):
            if o.p is not None:
                got = {str.__str__(k): "".join(v) for k, v in o.pm.items()}
                check(got == o.p, "bindings", lambda: f"after {what}, object {i} ({o.kind}) binds {short(got, 500)}, should be {short(o.p, 500)}")
            if o.t is not None:
                got = {str.__str__(k): "".join(v) for k, v in o.tm.items()}
                check(got == o.t, "bindings", lambda: f"after {what}, object {i} ({o.kind}) has terms {short(got, 500)}, should be {short(o.t, 500)}")

    def ask(q, bad):
        """Asks and judges; returns what was answered."""
        k, i, x = q
        o = objs[i % len(objs)]
        if k in ("resolve", "shrink", "explicit") and o.p is None or k in ("tresolve", "tshrink") and o.t is None or k == "presolve" and o.kind not in ("env", "profile"):
            return None
        if k == "presolve" and ":" not in x:
            k = "ptresolve"
        if k in ("resolve", "presolve"):
            want = resolved(o.p, x)
            try:
                got = o.pm.resolve(x) if k == "resolve" else o.lib.resolve(x)
            except ValueError as e:
                if want not in (ValueError, None):
                    bad(f"{k} {x!r} with {short(o.p)} raised {e!r}, should be {want!r}")
                return "ValueError"
            except Exception as e:  # noqa: BLE001
                bad(f"{k} {x!r} with {short(o.p)} raised {e!r}")
                return None
            if want is ValueError:
                bad(f"{k} {x!r} with {short(o.p)} is {got!r}, but its prefix is unknown")
            elif want is not None and got != want:
                bad(f"{k} {x!r} with {short(o.p)} is {got!r}, should be {want!r}")
            return str.__str__(got)
        try:
            if k in ("shrink", "explicit"):
                want = shrunk(o.p, x)
                got = o.pm.shrink(x) if k == "shrink" else P.to_curie(x, o.pm, explicit=True)
                if want is None:
                    if got != x:
                        bad(f"shrink {x!r} with {short(o.p)} is {got!r} though no prefix matches")
                    return str.__str__(got)
                if k == "explicit":
                    want = {"[" + w + "]" for w in want}
                if got not in want:
                    bad(f"shrink {x!r} with {short(o.p)} is {got!r}, should be {want}")
                if k == "explicit" or str.__str__(got).partition(":")[0] not in SCHEMES:
                    try:
                        again = o.pm.resolve(got)
                    except Exception as e:  # noqa: BLE001
                        bad(f"{x!r} shrinks to {got!r}, which does not resolve: {e!r} ({short(o.p)})")
                        return None
                    if again != x:
                        bad(f"{x!r} shrinks to {got!r}, which resolves to {again!r} ({short(o.p)})")
                return str.__str__(got)
            if k in ("tresolve", "ptresolve"):
                got = o.tm.resolve(x) if k == "tresolve" else o.lib.resolve(x)
                want = o.t[x] if x in o.t else None if o.default is None else o.default + x
                if got != want:
                    bad(f"term {x!r} is {got!r}, should be {want!r} ({short(o.t)}, default {o.default!r})")
                return got
            got = o.tm.shrink(x)
            want = {t for t, v in o.t.items() if v == x} or {x}
            if got not in want:
                bad(f"shrinking {x!r} to a term gives {got!r}, should be {want} ({short(o.t)})")
            return str.__str__(got)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            bad(f"{k} {x!r} raised {e!r} with {short(o.p)} / {short(o.t)}")

    def fail(msg):
        raise Violation("answer", msg)

    words = {"p": {}, "n": {}, "t": {}, "v": {}}  # everything ever bound, in order

    def probe(o, n):
        """Asks the object concerned, and another, about all that was ever bound."""
        if o is not None:
            for a, b in (o.p or {}).items():
                words["p"][a] = words["n"][b] = 1
            for a, b in (o.t or {}).items():
                words["t"][a] = words["v"][b] = 1
        every = plan["cfg"].get("probe", 0)
        if not every or n % every:
            return
        for i in sorted({objs.index(o) if o is not None else 0, n % len(objs)}):
            for a in words["p"]:
                ask(["resolve", i, a + ":x"], fail)
            for a in words["n"]:
                ask(["shrink", i, a + "y"], fail)
            for a in words["t"]:
                if a:
                    ask(["tresolve", i, a], fail)
            for a in words["v"]:
                ask(["tshrink", i, a], fail)

    last = None
    for n, op in enumerate(plan["ops"]):
        k, c = op[0], op[1]
        if last is not None and c != last:
            ctx.nswitches += 1
        last = c
        ctx.steps += 1
        what = f"op {n} {short(op)}"
        o = objs[op[2] % len(objs)] if k not in ("env", "ask", "threads") else None
        if k == "env":
            objs.append(Obj("env", lib(P.RDFEnvironment, what), dict(START), {}))
        elif k == "make":
            envs = [x for x in objs if x.kind == "env"]
            e = envs[op[2] % len(envs)]
            kind, empty = op[3], op[4]
            args = (True,) if empty else ()
            fn = {"profile": e.lib.createProfile, "pm": e.lib.createPrefixMap, "tm": e.lib.createTermMap}[kind]
            new = lib(lambda: fn(*args), what)
            if kind == "profile":
                objs.append(Obj(kind, new, dict(START) if empty else {**START, **e.p}, {} if empty else dict(e.t), None if empty else e.default))
            elif kind == "pm":
                objs.append(Obj(kind, new, {} if empty else dict(e.p)))
            else:
                objs.append(Obj(kind, new, None, {} if empty else dict(e.t), None if empty else e.default))
            ctx.probe("made-" + kind)
        elif k == "bind" and o.p is not None:
            v = {"str": str, "Prefix": P.Prefix, "NamedNode": P.NamedNode}[op[5]](op[4])
            if op[6] == "set" and o.kind != "pm":
                lib(lambda: o.lib.setPrefix(op[3], v), what)
                o.p[op[3]] = op[4]
            else:
                lib(lambda: bind(o.pm, op[6], op[3], v), what)
                bind(o.p, op[6], op[3], op[4])
        elif k == "unbind" and o.p is not None and op[3] in o.p:
            lib(lambda: unbind(o.pm, op[4], op[3]), what)
            unbind(o.p, op[4], op[3])
        elif k == "default" and o.p is not None:
            if op[4] == "set" and o.kind != "pm":
                lib(lambda: o.lib.setDefaultPrefix(op[3]), what)
            else:
                lib(lambda: o.pm.setDefault(op[3]), what)
            o.p[""] = op[3]
        elif k == "term" and o.t is not None:
            if op[5] == "set" and o.kind != "tm":
                lib(lambda: o.lib.setTerm(op[3], op[4]), what)
                o.t[op[3]] = op[4]
            else:
                lib(lambda: bind(o.tm, op[5], op[3], op[4]), what)
                bind(o.t, op[5], op[3], op[4])
        elif k == "unterm" and o.t is not None and op[3] in o.t:
            lib(lambda: unbind(o.tm, op[4], op[3]), what)
            unbind(o.t, op[4], op[3])
        elif k == "vocab" and o.t is not None:
            if op[4] == "set" and o.kind != "tm":
                lib(lambda: o.lib.setDefaultVocabulary(op[3]), what)
            else:
                lib(lambda: o.tm.setDefault(op[3]), what)
            o.default = op[3]
        elif k == "import":
            s = objs[op[3] % len(objs)]
            kw = {} if op[4] is None else {"override": op[4]}
            profiles = ("env", "profile")
            if o.kind in profiles and s.kind in profiles:
                out = lib(lambda: o.lib.importProfile(s.lib, **kw), what)
                check(out is o.lib, "map-op", lambda: f"{what} does not return the profile")
                merge(o.p, dict(s.p), op[4])
                merge(o.t, dict(s.t), op[4])
                ctx.probe("imported-profile")
                # (whether a default vocabulary comes along is open)
                if s.default is not None and o.default != s.default:
                    o.default = settle(o, s)
            elif o.p is not None and s.p is not None and (o.kind == "pm" or s.kind == "pm"):
                out = lib(lambda: o.pm.addAll(s.pm, **kw), what)
                check(out is o.pm, "map-op", lambda: f"{what} does not return the map")
                merge(o.p, dict(s.p), op[4])
            elif o.t is not None and s.t is not None:
                out = lib(lambda: o.tm.addAll(s.tm, **kw), what)
                check(out is o.tm, "map-op", lambda: f"{what} does not return the map")
                merge(o.t, dict(s.t), op[4])
                if s.default is not None and o.default != s.default:
                    o.default = settle(o, s)
        elif k == "failing":
            m = o.p if op[3] == "pm" else o.t
            if m is not None:
                src = Failing(op[4], op[5], op[7], ctx)
                to = o.pm if op[3] == "pm" else o.tm
                try:
                    to.addAll(src, override=op[6])
                except Exception as e:  # noqa: BLE001
                    check(e is src.raised, "import-error", lambda: f"{what}: the source raised {src.raised!r}, the caller got {e!r}")
                else:
                    raise Violation("import-error", f"{what}: the source failed but the import succeeded")
                got = {str.__str__(a): "".join(b) for a, b in to.items()}
                for a in set(got) | set(m):
                    ok = got.get(a) == m.get(a) or (a in src.d and got.get(a) == src.d[a] and (op[6] or a not in m))
                    check(ok, "bindings", lambda: f"{what} left {a!r} bound to {got.get(a)!r}, was {m.get(a)!r}")
                m.clear()
                m.update(got)
        elif k == "ask":
            out = ask(op[2], fail)
            ctx.probe(op[2][0])
            ctx.log(op[2][0], out)
        elif k == "threads":
            s = sched.make(ctx, plan["sched"])
            wrong = []
            outs = [[] for _ in op[2]]
            for i, qs in enumerate(op[2]):
                def body(i=i, qs=qs):
                    for q in qs:
                        outs[i].append(ask(q, lambda m: wrong.append(f"thread {i}: {m}")))

                s.spawn(body)
            try:
                s.run()
            finally:
                sched.preempt_on(None)
            check(not wrong, "answer", lambda: wrong[0])
            ctx.log("threads", outs)
            ctx.probe("threads")
        look(what)
        probe(o, n)
        ctx.log(k, c)
        if o is not None:
            ctx.state((sorted((o.p or {}).items()), sorted((o.t or {}).items()), o.default))


def bind(m, how, k, v):
    if how == "update":
        m.update({k: v})
    elif how == "setdefault":
        m.setdefault(k, v)
    else:
        m[k] = v


def unbind(m, how, k):
    if how == "pop":
        m.pop(k)
    elif how == "clear":
        m.clear()
    elif how == "repeat":  # gone and back again, last now
        v = m.pop(k)
        m[k] = v
    else:
        del m[k]


def merge(into, items, override):
    for k, v in items.items():
        if override or k not in into:
            into[k] = v


def settle(o, s):
    """The default after an import: what it was, or the imported one."""
    word = "nobody-binds-this"
    got = o.tm.resolve(word)
    old = None if o.default is None else o.default + word
    check(got in (old, s.default + word), "answer", lambda: f"after an import an unknown term is {got!r}")
    return o.default if got == old else s.default
