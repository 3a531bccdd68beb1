"""C07: one document, many ways of delivering it."""
import io

from simkit import docs, jobs, simio
from simkit.core import Violation, check
from simkit.terms import Build, L, T, I, B, EX, diff_text, isomorphic, norm_st

RUNS = {"quick": 8000, "thorough": 80000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded delivery schedules (chunking, short reads, newline modes, encodings) against the meaning of the document"
RULE = ("Each run generates one N-Triples, N-Quads or Turtle document together with its meaning (raw control and line-separator "
        "characters inside strings, blank lines, mixed line endings, comments, missing final newline, sometimes >100 KB) and "
        "delivers it 3-8 times: whole as text or bytes, through real TextIOWrapper/BufferedReader stacks over a raw source "
        "that returns 1..n bytes per read (splitting characters and CR LF pairs), every newline mode, UTF-8/UTF-8-BOM/UTF-16 "
        "text, StringIO, line-at-a-time objects, byte streams for Turtle, and streams already advanced past a header line. "
        "Every delivery must give the same statements up to blank node renaming.")
REAL = ["pymantic.parsers (N-Triples, N-Quads, Turtle), io.TextIOWrapper, io.BufferedReader, io.StringIO (all real)"]
STUB = ["raw byte source (simulated short reads)"]
ASSUMPTIONS = ["Where a text stream translates newlines, the document delivered is the translated text (matters only for raw line ends inside long Turtle strings)."]


def gen(rng, tier, idx):
    fmt = rng.choice(["nt", "nt", "nq", "ttl", "ttl"])
    big = rng.random() < 0.015
    n = rng.randrange(0, 10) if not big else rng.randrange(1500, 2500)
    cfg = {"fmt": fmt, "big": big}
    if fmt == "ttl":
        if big:
            sts = [(I(EX + "s%d" % (i % 50)), I(EX + "p"), L("v%d \u00e9\u4e2d\U0001f600" % i, "en"), None) for i in range(n)]
            text = "".join(f'<{s[1]}> <{p[1]}> """{o[1]}"""@en .\n' for s, p, o, _ in sts)
        else:
            text, sts = docs.turtle_doc(rng, max(1, n // 2), eol=rng.choice(["\n", "\r\n", "\r"]), raw=True)
    else:
        quads = fmt == "nq"
        if big:
            sts = [(B("b%d" % (i % 7)) if i % 11 == 0 else I(EX + "s%d" % i), I(EX + "p"), L("v%d \u00e9\u2028\u0085\x0b\x1c" % i), I(EX + "g%d" % (i % 3)) if quads else None)
                   for i in range(n)]
            text = docs.nt_doc(rng, sts, plain=True)[0]
        else:
            sts = docs.gen_statements(rng, n, quads=quads, nasty=0.5)
            ends = rng.choice([["\n"], ["\r\n"], ["\r"], ["\n", "\r\n", "\r", "\n\n", "\n\r", "\r\r\n"]])
            text = docs.nt_doc(rng, sts, eol=lambda: rng.choice(ends), final=rng.random() < 0.6, blanks=0.2)[0]
    ops = []
    for _ in range(rng.randrange(3, 9) if not big else 3):
        k = rng.random()
        if k < 0.1:
            d = {"kind": "string"}
        elif k < 0.2:
            d = {"kind": "bytestring"}
        elif k < 0.25 and fmt == "ttl":
            d = {"kind": "bytesio"}
        else:
            d = simio.gen_delivery(rng, bytes_ok=fmt == "ttl")
            if big and d["kind"] == "text":
                d["sizes"] = [max(x, 1000) for x in d["sizes"]]
                d["chunk"] = None
            d["skip"] = rng.random() < 0.25
        ops.append(d)
    return {"cfg": cfg, "text": text, "data": list(dict.fromkeys(norm_st(s) for s in sts)), "ops": ops}


def run(plan, ctx):
    from simkit import world as W

    fmt, text = plan["cfg"]["fmt"], plan["text"]
    want = jobs.tagged(plan["data"], 0)
    parser = jobs.parser_of(W, fmt)

    def target():
        return W.P.Dataset() if fmt == "nq" else W.P.Graph()

    def deliver(d, t):
        kind = d["kind"]
        if kind == "string":
            return jobs.whole(parser, t)(t, target())
        if kind == "bytestring":
            return parser.parse_string(t.encode("utf-8"), target())
        if kind == "bytesio":
            return parser.parse(io.BytesIO(t.encode("utf-8")), target())
        full = ("header line\r\n" + t) if d.get("skip") else t
        st = simio.reader(full, ctx, d)
        if d.get("skip"):
            st.readline()
        return parser.parse(st, target())

    def delivered(d, t):
        """The text a twin of the stream hands over."""
        if d["kind"] in ("string", "bytestring", "bytesio", "bytes"):
            return t
        from simkit.core import Ctx

        return simio.reader(t, Ctx(), d).read()

    build = Build(W.P)
    whole_cache = {text: want}
    for d in plan["ops"]:
        seen = delivered(d, text)
        if seen not in whole_cache:
            if fmt != "ttl":
                whole_cache[seen] = want  # line ends only
            else:
                try:
                    whole_cache[seen] = jobs.got_statements(build, parser.parse(seen))
                except Exception as e:  # noqa: BLE001
                    raise Violation("delivery", f"{seen[:500]!r} given whole was refused: {e!r}")
        try:
            g = deliver(d, text)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation("delivery", f"delivered as {d}, {text[:600]!r} was refused: {type(e).__name__}: {str(e)[:300]}")
        got = jobs.got_statements(build, g)
        r = isomorphic(got, whole_cache[seen])
        check(r is not False, "delivery", lambda: f"delivered as {d}, {text[:600]!r} gave {diff_text(got, whole_cache[seen])}")
        if r is None:
            ctx.probe("isomorphism-undecided")
        ctx.fault("delivery-" + d["kind"]) if d["kind"] in ("text", "bytes", "lines") else None
        if seen != text:
            ctx.probe("newlines-translated")
        ctx.log(d["kind"], d.get("newline"), d.get("sizes"), d.get("bufsize"), d.get("chunk"), len(got))
    if plan["cfg"]["big"]:
        ctx.probe("large-document")
    ctx.state((fmt, len(want), len(text)))


def preload():
    from simkit import world

    world.warm_lexers()
