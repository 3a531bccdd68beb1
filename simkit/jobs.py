"""Parse jobs: a document with known meaning, how it is delivered, what happens meanwhile."""
import json

from . import docs, sched, simio
from .core import HarnessError, Violation
from .terms import Build, norm_st, T, isomorphic, diff_text, EX

FMTS = ["nt", "nq", "ttl", "jsonld"]

# What the process-wide document loader serves, whatever the URL.
SHARED_TERMS = {iri: "u%d" % i for i, iri in enumerate(sorted(x for x in docs.IRIS if x.isascii()))}


def shared_loader(url, options):
    sched.yield_point()
    return {"contentType": "application/ld+json", "contextUrl": None, "documentUrl": url,
            "document": {"@context": {t: {"@id": iri} for iri, t in SHARED_TERMS.items()}}}


def install_shared_loader():
    from pyld import jsonld

    jsonld.set_document_loader(shared_loader)


def delivery(rng, fmt):
    """A delivery that hands over the text unchanged (no newline translation)."""
    if fmt == "jsonld":
        return {"kind": "object"}
    k = rng.random()
    if k < 0.3:
        return {"kind": "string"}
    if k < 0.4:
        return {"kind": "bytestring"}
    spec = simio.gen_delivery(rng, bytes_ok=fmt == "ttl")
    if "newline" in spec:
        spec["newline"] = rng.choice(["", "\n"])
    return spec


def gen_job(rng, fmt=None, size=None, depth=0, bad=0.0, maxsize=6):
    fmt = fmt or rng.choice(FMTS)
    n = size if size is not None else rng.randrange(0, maxsize)
    labels = rng.sample(["a", "a", "b", "b0", "c14n0", "genid0", "0", "anon1", "b1"], rng.randrange(0, 5))
    labels = list(dict.fromkeys(labels))
    job = {"fmt": fmt}
    if fmt in ("nt", "nq"):
        sts = docs.gen_statements(rng, n, quads=fmt == "nq", labels=labels, nasty=0.2)
        job["text"] = docs.nt_doc(rng, sts, eol=rng.choice(["\n", "\n", "\r\n", "\r"]), final=rng.random() < 0.8)[0]
    elif fmt == "ttl":
        kind = rng.random()
        job["base"] = rng.choice(["", "", EX + "base/"])
        if kind < 0.12:
            # Relative references and no @base: resolved against this parse's base only.
            sts = [(("i", job["base"] + "r%d" % i), ("i", job["base"] + "p"), ("i", job["base"]), None) for i in range(n)]
            job["text"] = "".join(f"<r{i}> <p> <> .\n" for i in range(n))
        elif kind < 0.2 and bad:
            job["text"], sts = f"@prefix zz{rng.randrange(3)}: <{EX}> . p0:a p0:b p0:c .", []
            job["bad"] = True
        else:
            job["base"] = ""
            job["text"], sts = docs.turtle_doc(rng, max(1, n // 2), eol=rng.choice(["\n", "\r\n"]), labels=labels, deep=1, raw=True)
    else:
        sts = docs.jsonld_statements(rng, n, labels=labels)
        url = "http://sim/ctx%d" % rng.randrange(2) if rng.random() < 0.7 else None
        k = rng.random()
        if k < 0.12:
            # No loader of its own: the context comes from the process-wide one.
            job["shared_loader"] = True
            doc, _ = docs.jsonld_doc(rng, sts, url or "http://sim/ctx0", SHARED_TERMS)
            job["text"], job["remote"] = json.dumps(doc), None
        elif k < 0.2:
            # Relative references: resolved against this parse's base only.
            job["jbase"] = EX + rng.choice(["base/", "other/", ""])
            sts = [(("i", job["jbase"] + "r%d" % i), ("i", EX + "p"), ("i", job["jbase"] + "x"), None) for i in range(n)]
            job["text"] = json.dumps([{"@id": "r%d" % i, EX + "p": {"@id": "x"}} for i in range(n)])
            job["remote"] = None
        else:
            doc, remote = docs.jsonld_doc(rng, sts, url)
            job["text"], job["remote"] = json.dumps(doc), remote
    job["sts"] = list(dict.fromkeys(norm_st(s) for s in sts))
    job["src"] = delivery(rng, fmt)
    hooks = []
    if depth and (job["src"]["kind"] in ("lines", "text", "bytes") or job.get("remote")) and rng.random() < 0.6:
        for _ in range(rng.randrange(1, 3)):
            hooks.append([rng.randrange(0, 4), gen_job(rng, None, None, depth - 1, bad, maxsize)])
    job["hooks"] = hooks
    job["target"] = rng.choice(["new", "given", "given", "outer"]) if fmt != "nq" else rng.choice(["given", "outer"])
    return job


def parser_of(W, fmt):
    return {"nt": W.PARSERS.ntriples_parser, "nq": W.PARSERS.nquads_parser, "ttl": W.PARSERS.turtle_parser,
            "jsonld": W.PARSERS.jsonld_parser}[fmt]


def options(job, loader):
    """The JSON-LD options of a job, as keyword arguments."""
    opts = {}
    if not job.get("shared_loader"):
        opts["documentLoader"] = loader
    if job.get("jbase") is not None:
        opts["base"] = job["jbase"]
    return {"options": opts} if opts else {}


def whole(parser, text):
    """A text given whole goes through either of the two entry points."""
    return parser.parse if len(text) % 3 else parser.parse_string


class Parse:
    """One parse, run now. Results: .graph or .error; nested ones in .inner."""

    def __init__(self, W, ctx, job, outer=None, on_read=None):
        self.W, self.ctx, self.job = W, ctx, job
        self.inner = []
        self.graph = self.error = None
        self.target = None
        self.outer = outer
        self.calls = 0
        self.on_read = on_read

    def shares(self):
        o = self.outer
        return (self.job["target"] == "outer" and o is not None and o.target is not None
                and (o.job["fmt"] in ("nq", "jsonld")) == (self.job["fmt"] in ("nq", "jsonld")))

    def hook(self, n):
        self.calls += 1
        if self.on_read is not None:
            self.on_read(n)
        for at, job in self.job["hooks"]:
            if at == self.calls - 1:
                p = Parse(self.W, self.ctx, job, self)
                self.inner.append(p)
                self.ctx.probe("nested")
                p.run()

    def run(self):
        W, job = self.W, self.job
        parser = parser_of(W, job["fmt"])
        if self.shares():
            self.target = self.outer.target
            self.ctx.probe("shared-target")
        elif job["target"] != "new" or self.outer is None and job["fmt"] == "nq":
            self.target = W.P.Dataset() if job["fmt"] in ("nq", "jsonld") else W.P.Graph()
        elif job["fmt"] == "nq":
            self.target = W.P.Dataset()
        src = job["src"]
        try:
            if job["fmt"] == "jsonld":
                kw = options(job, self.loader)
                if self.target is not None:
                    kw["sink"] = self.target
                g = parser.parse_json(json.loads(job["text"]), **kw)
            else:
                kw = {"base": job["base"]} if job.get("base") else {}
                args = [self.target] if self.target is not None else []
                if src["kind"] == "string":
                    g = whole(parser, job["text"])(job["text"], *args, **kw)
                elif src["kind"] == "bytestring":
                    g = parser.parse_string(job["text"].encode("utf-8"), *args, **kw)
                else:
                    g = parser.parse(simio.reader(job["text"], self.ctx, src, self.hook), *args, **kw)
            if self.target is not None and g is not self.target:
                raise Violation("parse-target", "parse returned something other than the target it was given")
            self.graph = self.target = g
        except (Violation, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            self.error = e
        return self

    def loader(self, url, options):
        sched.yield_point()
        self.hook(0)
        if self.job.get("load_error"):
            from .core import ERRORS

            self.ctx.fault("loader-" + self.job["load_error"])
            raise ERRORS[self.job["load_error"]]()
        return {"contentType": "application/ld+json", "contextUrl": None, "documentUrl": url, "document": self.job["remote"]}

    def all(self):
        yield self
        for p in self.inner:
            yield from p.all()


def got_statements(build, target):
    out = set()
    for st in list(target):
        st = norm_st(build.back_st(st))
        out.add(st if len(st) == 4 else st + (None,))
    return out


def tagged(sts, tag):
    """The statements with this parse's own blank nodes."""
    f = lambda t: ("b", (tag, t[1])) if t is not None and t[0] == "b" else t
    return {tuple(f(t) for t in T(s)) for s in sts}


def judge(W, ctx, parses, kind):
    """Every target must hold exactly what the parses into it stand for."""
    build = Build(W.P)
    targets = {}
    for i, p in enumerate(parses):
        if p.job.get("bad"):
            if p.error is None:
                raise Violation(kind, f"a document that is not valid on its own was accepted: {p.job['text'][:300]!r}")
            if p.target is None:
                continue
        elif p.error is not None:
            raise Violation(kind, f"{p.job['fmt']} parse failed although the document is valid: {type(p.error).__name__}: "
                            f"{str(p.error)[:300]}; document {p.job['text'][:500]!r}, delivered {p.job['src']}")
        targets.setdefault(id(p.target), (p.target, []))[1].append((i, p))
    owner = {}
    for tid, (target, ps) in targets.items():
        want = set()
        for i, p in ps:
            if not p.job.get("bad"):
                want |= tagged(p.job["sts"], i)
        got = got_statements(build, target)
        r = isomorphic(got, want)
        if r is False:
            raise Violation(kind, f"{[p.job['fmt'] for _, p in ps]} gave {diff_text(got, want, 4)}; documents "
                            f"{[p.job['text'][:400] for _, p in ps]}")
        if r is None:
            ctx.probe("isomorphism-undecided")
        for st in got:
            for t in st:
                if t is not None and t[0] == "b":
                    if owner.setdefault(t, tid) != tid:
                        raise Violation(kind, "one blank node turned up in the results of two separate parses")
    ctx.log("judged", len(parses), len(targets), [p.error is None for p in parses])
