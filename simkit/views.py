"""Every public way of looking at a graph or a dataset, compared with a plain set."""
from itertools import product

from .core import check, Violation, short
from .terms import diff_text


def call(kind, what, fn):
    """Library call that must not raise."""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(kind, f"{what} raised {type(e).__name__}: {e}")


def as_set(kind, what, items, back, want, width):
    """A listing must be exactly the wanted set, nothing twice."""
    got = [back(x) for x in items]
    s = set(got)
    check(len(s) == len(got), kind, lambda: f"{what}: yields something twice: {short(got)}")
    check(s == want, kind, lambda: f"{what}: {diff_text(s, want)}")


def check_graph(W, g, model, build, pool, name="graph", deep=True):
    """model: set of (s, p, o); pool: (subjects, predicates, objects) to ask about."""
    P = W.P
    k = "graph-view"
    check(call(k, f"len({name})", lambda: len(g)) == len(model), k,
          lambda: f"len({name}) is {len(g)}, should be {len(model)}")
    back = build.back_st
    items = call(k, f"iterating {name}", lambda: list(g))
    as_set(k, f"iteration of {name}", items, back, model, 3)
    for t in items:
        check(isinstance(t, P.Triple), k, lambda: f"iteration yields {type(t)}")
    as_set(k, f"{name}.toArray()", call(k, "toArray", lambda: g.toArray()), back, model, 3)
    for i, (fn, label) in enumerate(((g.subjects, "subjects"), (g.predicates, "predicates"), (g.objects, "objects"))):
        as_set(k, f"{name}.{label}()", call(k, label, lambda: list(fn())), build.back, {st[i] for st in model}, 1)
    if not deep:
        return
    S, Pr, O = pool
    for st in model:
        check(call(k, "in", lambda: build.triple(st) in g), k, lambda: f"{st} is in {name} but not a member")
    by = {}
    for st in model:
        for mask in range(8):
            key = tuple(st[i] if mask >> i & 1 else None for i in range(3))
            by.setdefault(key, set()).add(st)
    for s, p, o in product([None, *S], [None, *Pr], [None, *O]):
        want = by.get((s, p, o), set())
        args = (build.term(s), build.term(p), build.term(o))
        res = call(k, f"{name}.match({s}, {p}, {o})", lambda: list(g.match(*args)))
        if len(res) != len(want) or {back(t) for t in res} != want:
            as_set(k, f"{name}.match({s}, {p}, {o})", res, back, want, 3)
        if s is not None and p is not None and o is not None:
            inside = call(k, "in", lambda: build.triple((s, p, o)) in g)
            check(bool(inside) == bool(want), k, lambda: f"{(s, p, o)} in {name} is {inside}")


def check_dataset(W, ds, graphs, build, pool, names, may_be_empty, name="dataset", deep=True):
    """graphs: {graph term or None: set of (s, p, o)}; names: graph names to ask about;
    may_be_empty: names that may be listed although they hold nothing."""
    P = W.P
    k = "dataset-view"
    quads = {st + (g,) for g, sts in graphs.items() for st in sts}
    back = build.back_st
    check(call(k, "len", lambda: len(ds)) == len(quads), k, lambda: f"len({name}) is {len(ds)}, should be {len(quads)}")
    items = call(k, "iteration", lambda: list(ds))
    as_set(k, f"iteration of {name}", items, back, quads, 4)
    for q in items:
        check(isinstance(q, P.Quad), k, lambda: f"iteration yields {type(q)}")
    as_set(k, f"{name}.toArray()", call(k, "toArray", lambda: ds.toArray()), back, quads, 4)
    listed = call(k, "graphs", lambda: list(ds.graphs))
    full = {g for g, sts in graphs.items() if sts}
    check(len(full) <= len(listed) <= len(full | set(may_be_empty)), k,
          lambda: f"{name}.graphs lists {len(listed)} graphs, should list {len(full)} (and may list {len(set(may_be_empty) - full)} empty ones)")
    contents = sorted((sorted(map(repr, (back(t) for t in g))) for g in listed if len(g)), key=repr)
    want = sorted((sorted(map(repr, sts)) for sts in graphs.values() if sts), key=repr)
    check(contents == want, k, lambda: f"{name}.graphs hold {short(contents)}, should hold {short(want)}")
    if not deep:
        return
    S, Pr, O = pool
    for q in quads:
        check(call(k, "in", lambda: build.quad(q) in ds), k, lambda: f"{q} is in {name} but not a member")
        check(call(k, "in", lambda: build.triple(q[:3]) in ds), k, lambda: f"triple {q[:3]} is in {name} but not a member")
    by = {}
    for q in quads:
        for mask in range(16):
            key = tuple(q[i] if mask >> i & 1 else None for i in range(4))
            by.setdefault(key, set()).add(q)
    for s, p, o, gn in product([None, *S], [None, *Pr], [None, *O], [None, *(n for n in names if n is not None)]):
        wantq = by.get((s, p, o, gn), set())
        args = tuple(build.term(x) for x in (s, p, o, gn))
        res = call(k, f"{name}.match({s}, {p}, {o}, {gn})", lambda: list(ds.match(*args)))
        if len(res) != len(wantq) or {back(q) for q in res} != wantq:
            as_set(k, f"{name}.match({s}, {p}, {o}, {gn})", res, back, wantq, 4)
        if s is not None and p is not None and o is not None:
            if gn is not None:
                inside = call(k, "in", lambda: build.quad((s, p, o, gn)) in ds)
                check(bool(inside) == bool(wantq), k, lambda: f"{(s, p, o, gn)} in {name} is {inside}")
            else:
                inside = call(k, "in", lambda: build.triple((s, p, o)) in ds)
                check(bool(inside) == bool(wantq), k, lambda: f"triple {(s, p, o)} in {name} is {inside}")
                dflt = by.get((s, p, o, None), set())
                inside = call(k, "in", lambda: build.quad((s, p, o, None)) in ds)
                check(bool(inside) == ((s, p, o, None) in quads), k,
                      lambda: f"{(s, p, o, None)} in {name} is {inside} ({len(dflt)})")
