"""C06: parses that fail at a chosen point, and what they leave behind."""
import json

from simkit import docs, jobs, sched, simio
from simkit.core import ANY, ERRORS, HarnessError, InjectedInterrupt, Violation, check, short
from simkit.terms import Build, T, diff_text, embeds, isomorphic, norm_st, nt_read_line, EX

RUNS = {"quick": 8000, "thorough": 80000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: fault injection at every source, document, loader and target position, then healthy parses on the same parsers"
RULE = ("Each run is a sequence of 1-7 parses on 1-3 threads over documents with known meaning; each parse draws at most "
        "one fault: the source raises (I/O, value, attribute, key error, interrupt) at a byte or line, the source ends at a byte, a byte is not text, "
        "a definitely malformed piece is inserted at a statement boundary, a prefix is undefined, a document loader fails, a "
        "remote context is broken, or the target (duck-typed, Graph or Dataset subclass) refuses the n-th statement. Many "
        "parses retry the same document into the same target. The error must surface, the target must hold exactly the "
        "lines (or nothing, or the accepted statements), and every healthy parse before, between and after must be right.")
REAL = ["pymantic.parsers, pymantic.primitives, lark, pyld, io.TextIOWrapper/BufferedReader (all real)"]
STUB = ["raw byte sources and document loader (simulated, fault-injecting)", "targets that refuse (simulated)",
        "thread scheduler", "allocator"]
ASSUMPTIONS = ["A source that ends early at a place where the remaining text is still a valid document is that document.",
               "What a line is, is decided by the stream (recorded as it hands lines over)."]

BAD_NT = ["<oops", '<http://e/a> <http://e/b> "open .', "_:a _:b _:c .", "<http://e/a> <http://e/b> <http://e/c>",
          '"lit" <http://e/b> <http://e/c> .', "<http://e/a> <http://e/b> .", "<http://e/a> <http://e/b> \"x\"@ .",
          "<http://e/a> <http://e/b> \"x\"^^ .", "garbage", "<http://e/a> <http://e/b> <http://e/c> <http://e/d> <http://e/f> .",
          "<http://e/a b> <http://e/b> <http://e/c> .", "<http://e/a> <http://e/b> \"\\q\" .", "..",
          "<http://e/a> <http://e/b> <http://e/c> . <http://e/a> <http://e/b> <http://e/c> .",
          "_:a|b <http://e/b> <http://e/c> .", "_:b\\c <http://e/b> <http://e/c> .", "<http://e/a> <http://e/b> _:^ .", "_:a. <http://e/b> <http://e/c> .",
          "_:-a <http://e/b> <http://e/c> .", "<http://e/a> <http://e/b> _:x{y} .", "_:a\u2028b <http://e/b> 'c' .", "_: <http://e/b> <http://e/c> .",
          "<http://e/a> <http://e/b> <http://e/c> # .", "<http://e/a> # <http://e/b> <http://e/c> .", "<http://e/a> _:p <http://e/c> .",
          "<http://e/a> <http://e/b> <http://e/\\n> .", "<http://e/a> <http://e/b> \"x\"@-en .", "<http://e/\\u00e> <http://e/b> <http://e/c> ."]
BAD_TTL = ["<oops", '<http://e/a> <http://e/b> "open .', "@prefix x <http://e/> .", "<http://e/a> <http://e/b> .",
           "undefd:a undefd:b undefd:c .", "<http://e/a> undefd:b 1 .", "[ <http://e/p> ( 1 undefd:c ) ] <http://e/b> 2 .",
           "<http://e/a> <http://e/b> <http://e/\\u0020> .", "( 1 2 .", "<http://e/a> <http://e/b> [ .", "] .", "@base .",
           '"lit" <http://e/b> <http://e/c> .', "<http://e/a> <http://e/b> \"\\q\" .", "<http://e/a> <http://e/b> 'x'^^undefd:t ."]
BAD_JSON = [{"@graph": [{"@id": 5}]}, {"@context": 5}, {"@graph": [{"@id": "http://e/a", "@type": 7}]},
            {"@graph": [{"@id": "http://e/a", "http://e/p": [{"@value": "x", "@language": "en", "@type": "http://e/t"}]}]}]


def gen_faulty(rng):
    job = jobs.gen_job(rng, size=rng.randrange(0, 7))
    while job.get("bad"):
        job = jobs.gen_job(rng)
    fmt, src = job["fmt"], job["src"]
    job["target"] = "given"
    kinds = ["none", "none", "refuse", "malformed", "malformed"]
    if src["kind"] in ("text", "bytes", "lines"):
        kinds += ["raise", "raise", "raise"]
    if src["kind"] in ("text", "bytes"):
        kinds += ["eof", "eof"]
    if src["kind"] in ("text", "bytes", "bytestring") and src.get("encoding", "utf-8") == "utf-8":
        kinds += ["badbyte"]
    if fmt == "jsonld":
        kinds = ["none", "refuse", "malformed", "loader" if job["remote"] else "malformed", "remote" if job["remote"] else "none"]
    k = rng.choice(kinds)
    err = rng.choice(ANY)
    if k == "raise":
        src["error"] = err = rng.choice([err, err, err, "closed"] + (["eintr", "eagain"] if src["kind"] == "lines" else []))
        if src["kind"] == "lines":
            src["fail_line"] = rng.randrange(0, 8)
        else:
            n = len(job["text"].encode(src.get("encoding", "utf-8")))
            src["fail_at"] = rng.randrange(0, n + 1)
    elif k == "eof":
        n = len(job["text"].encode(src.get("encoding", "utf-8")))
        src["eof_at"] = rng.randrange(0, n + 1)
    elif k == "badbyte":
        src["bad"] = rng.choice(simio.BAD)
        src["bad_at"] = rng.randrange(0, len(job["text"].encode("utf-8")) + 1)
    elif k == "malformed":
        job["malformed"] = True
        if fmt in ("nt", "nq"):
            sts = [tuple(T(s)) for s in job["sts"]]
            _, lines, _, _ = docs.nt_doc(rng, sts, blanks=0.1)
            at = rng.randrange(len(lines) + 1)
            bad = rng.choice(BAD_NT)
            if fmt == "nt" and rng.random() < 0.1:
                bad = "<http://e/a> <http://e/b> <http://e/c> <http://e/d> ."
            if rng.random() < 0.1:  # what a crash leaves where a file was extended but not written
                at, bad = len(lines), rng.choice(["\0", "\0" * 40, "\x1a"])
            lines[at:at] = [bad]
            eol = rng.choice(["\n", "\r\n", "\r"])
            job["text"] = eol.join(lines) + (eol if rng.random() < 0.7 else "")
            job["badtext"] = bad
        elif fmt == "ttl":
            g = docs.TurtleGen(rng, rng.randrange(1, 4), labels=["a", "b"], deep=1)
            text, _ = g.doc()
            at = rng.choice([0] + g.marks)
            bad = rng.choice(BAD_TTL)
            job["text"] = text[:at] + "\n" + bad + "\n" + text[at:]
            job["base"] = ""
            # A fragment that swallows what follows is still an error at the end of
            # the document, whatever follows; a lone opening quote or bracket is not
            # reliably one, so those go last.
            if "open" in bad or bad.startswith("(") or bad.endswith("[ .") or bad == "<oops":
                job["text"] = text + "\n" + bad + "\n"
            if rng.random() < 0.1:
                job["text"] = text + "\n" + rng.choice(["\0", "\0" * 40, "\x1a"])
        else:
            job["text"] = json.dumps(rng.choice(BAD_JSON))
            job["remote"] = None
    elif k == "refuse":
        job["refuse"] = [rng.randrange(0, 6), rng.choice(["duck", "sub"]), err]
    elif k == "loader":
        job["load_error"] = err if err != "interrupt" else "oserror"
    elif k == "remote":
        job["remote"] = {"@context": {"t0": 5}}
        job["malformed"] = True
    job["again"] = rng.random() < 0.4
    return job


def gen(rng, tier, idx):
    nthreads = rng.choice([1, 1, 1, 2, 3])
    threads = [[gen_faulty(rng) for _ in range(rng.randrange(1, 7 if nthreads == 1 else 4))] for _ in range(nthreads)]
    return {"cfg": {}, "threads": threads, "sched": sched.gen_sched(rng, nthreads, expect=150 * nthreads)}


class Tap:
    """Records what a stream hands over, call by call."""

    def __init__(self, stream):
        self.stream = stream
        self.units = []

    @property
    def closed(self):
        return self.stream.closed

    def _note(self, x):
        if x:
            self.units.append(x)
        return x

    def readline(self, *a):
        return self._note(self.stream.readline(*a))

    def read(self, *a):
        return self._note(self.stream.read(*a))

    def readlines(self, *a):
        return [x for x in self]

    def __iter__(self):
        return self

    def __next__(self):
        return self._note(next(self.stream))


def refusing(W, quads, spec, ctx):
    after, how, err = spec

    class Gate:
        accepted = 0
        raised = None

        def add(self, st):
            if self.accepted >= after:
                self.raised = ERRORS[err]()
                ctx.fault("target-refuses-" + err)
                raise self.raised
            self.accepted += 1
            return self.put(st)

        def addAll(self, sts):
            for st in sts:
                self.add(st)
            return self

    if how == "duck":
        class Sink(Gate):
            def __init__(self):
                self.items = []

            def put(self, st):
                self.items.append(st)
                return self

            def __iter__(self):
                return iter(self.items)

            def __len__(self):
                return len(self.items)

        return Sink()
    base = W.P.Dataset if quads else W.P.Graph

    class Sub(Gate, base):
        def put(self, st):
            return base.add(self, st)

    return Sub()


class One:
    """One parse and what it must leave."""

    def __init__(self, W, ctx, job, target=None):
        self.W, self.ctx, self.job = W, ctx, job
        self.quads = job["fmt"] in ("nq", "jsonld")
        self.target = target
        self.error = None
        self.leaves = []  # statements this parse must have left
        self.gate = None
        self.injected = None

    def run(self):
        W, job, ctx = self.W, self.job, self.ctx
        parser = jobs.parser_of(W, job["fmt"])
        src = job["src"]
        if self.target is None:
            if job.get("refuse"):
                self.target = self.gate = refusing(W, self.quads, job["refuse"], ctx)
            else:
                self.target = W.P.Dataset() if self.quads else W.P.Graph()
        tap = None
        try:
            if job["fmt"] == "jsonld":
                p = jobs.Parse(W, ctx, job)
                parser.parse_json(json.loads(job["text"]), self.target, **jobs.options(job, p.loader))
            else:
                kw = {"base": job["base"]} if job.get("base") else {}
                if src["kind"] == "string":
                    jobs.whole(parser, job["text"])(job["text"], self.target, **kw)
                elif src["kind"] == "bytestring":
                    if "bad_at" in src:
                        ctx.fault("undecodable-byte")
                    parser.parse_string(simio.encoded(job["text"], src), self.target, **kw)
                else:
                    tap = Tap(simio.reader(job["text"], ctx, src))
                    parser.parse(tap, self.target, **kw)
        except (Violation, HarnessError):
            raise
        except (Exception, InjectedInterrupt) as e:
            self.error = e
        self.judge(tap)
        return self

    def judge(self, tap):
        """Was the outcome right, and what must the target hold because of this parse?"""
        job, src, e = self.job, self.job["src"], self.error
        sts = [tuple(T(s)) for s in job["sts"]]
        what = lambda: f"{job['fmt']} from {src}: {job['text'][:400]!r}"
        if e is not None and not isinstance(e, Exception) and not isinstance(e, InjectedInterrupt):
            raise e
        if self.gate is not None and self.gate.raised is not None:
            check(chain(e, self.gate.raised), "refusal-lost", lambda: f"the target refused a statement but the caller got {e!r}; {what()}")
            self.leaves = None  # whatever was accepted, judged below
            return
        if job.get("load_error"):
            check(e is not None, "error-lost", lambda: f"the document loader failed but the parse succeeded; {what()}")
            self.ctx.fault("loader")
            return
        fired = "fail_at" in src or "fail_line" in src
        if e is None:
            check(not (src.get("encoding", "utf-8") == "utf-8" and undecodable(job)), "error-lost", lambda: f"bytes that are not text were accepted; {what()}")
        if tap is not None and job["fmt"] in ("nt", "nq"):
            # Statements of the lines the stream handed over, one by one.
            stop = False
            for u in tap.units:
                try:
                    got = [nt_read_line(x) for x in split_lines(u)]
                    if job["fmt"] == "nt" and any(s is not None and s[3] is not None for s in got):
                        raise ValueError("a quad")
                except ValueError:
                    stop = True
                    break
                if job.get("badtext") is not None and job["badtext"] in split_lines(u):
                    stop = True
                    break
                self.leaves.extend(s for s in got if s is not None)
            if stop:
                self.ctx.fault("malformed")
                check(e is not None, "silently-shortened", lambda: f"malformed input was accepted; {what()}")
                return
            raised = self.raised_by_source(e)
            if e is None:
                full = job["text"]
                if not fired and "eof_at" not in src:
                    check(not job.get("malformed"), "silently-shortened", lambda: f"malformed input was accepted; {what()}")
                    self.leaves = list(sts)
                elif "fail_at" in src or "fail_line" in src:
                    if self.fault_pending(src, full):
                        raise Violation("error-lost", f"the source failed but the parse succeeded; {what()}")
            else:
                ok = raised or ("eof_at" in src or undecodable(job)) and isinstance(e, UnicodeDecodeError)
                check(ok, "wrong-error", lambda: f"valid input was refused with {type(e).__name__}: {e}; {what()}")
                if isinstance(e, UnicodeDecodeError):
                    self.ctx.fault("cut-character")
            return
        if "bad_at" in src:
            return
        if job["fmt"] == "ttl" and tap is not None and (fired or "eof_at" in src):
            if e is not None:
                if fired:
                    check(self.raised_by_source(e), "wrong-error", lambda: f"the source failed but the caller got {e!r}; {what()}")
                return
            if fired and self.fault_pending(src, job["text"]):
                raise Violation("error-lost", f"the source failed but the parse succeeded; {what()}")
            if "eof_at" in src and src["eof_at"] < len(job["text"].encode(src.get("encoding", "utf-8"))):
                # A prefix of a Turtle document can be a document; then it is that one.
                self.leaves = "prefix"
                return
            self.leaves = sts
            return
        if job.get("malformed"):
            self.ctx.fault("malformed")
            check(e is not None, "silently-shortened", lambda: f"malformed input was accepted; {what()}")
            return
        check(e is None, "wrong-error", lambda: f"valid input was refused with {type(e).__name__}: {e}; {what()}")
        self.leaves = sts

    def raised_by_source(self, e):
        while e is not None:
            if "injected" in str(e) or type(e).__name__.startswith("Injected"):
                return True
            e = e.__cause__ or e.__context__
        return False

    def fault_pending(self, src, text):
        """Did the fault have to be met by whoever read the source to its end?"""
        if "fail_line" in src:
            return src["fail_line"] <= len(simio._split(text))
        return src["fail_at"] <= len(text.encode(src.get("encoding", "utf-8")))


def undecodable(job):
    src = job["src"]
    if src["kind"] not in ("text", "bytes", "bytestring"):
        return False
    data = simio.encoded(job["text"], src)
    try:
        data[: src.get("eof_at", len(data))].decode(src.get("encoding", "utf-8"))
    except UnicodeDecodeError:
        return True
    return False


def split_lines(u):
    if isinstance(u, bytes):
        u = u.decode("utf-8")
    import re

    return [x for x in re.split(r"[\r\n]", u)]


def chain(e, want):
    n = 0
    while e is not None and n < 20:
        if e is want or getattr(e, "orig_exc", None) is want:
            return True
        e, n = e.__cause__ or e.__context__, n + 1
    return False


def run(plan, ctx):
    from simkit import world as W

    jobs.install_shared_loader()
    done = [[] for _ in plan["threads"]]
    s = sched.make(ctx, plan["sched"])
    for i, js in enumerate(plan["threads"]):
        def body(i=i, js=js):
            for job in js:
                one = One(W, ctx, job)
                done[i].append(one)
                one.run()
                if job["again"] and not job.get("malformed") and not job.get("refuse"):
                    # The client tries again, into the same target.
                    src = {k: v for k, v in job["src"].items() if k not in ("fail_at", "fail_line", "eof_at", "bad_at")}
                    job2 = {k: v for k, v in job.items() if k != "load_error"}
                    two = One(W, ctx, dict(job2, src=src), target=one.target)
                    done[i].append(two)
                    ctx.probe("retry")
                    two.run()

        s.spawn(body)
    try:
        s.run()
    finally:
        sched.preempt_on(None)
    ones = [o for d in done for o in d]
    build = Build(W.P)
    targets = {}
    for i, o in enumerate(ones):
        targets.setdefault(id(o.target), (o.target, []))[1].append((i, o))
    owner = {}
    for tid, (target, os_) in targets.items():
        got = jobs.got_statements(build, target)
        o = os_[0][1]
        if o.leaves is None:
            want = jobs.tagged(o.job["sts"], 0)
            check(len(list(target)) <= o.gate.accepted, "refused-target", lambda: "the target holds more than it accepted")
            r = embeds({norm_st(x) for x in got}, want)
            check(r is not False, "refused-target", lambda: f"what the target accepted is not part of the document: {diff_text(got, want)}")
        elif any(o.leaves == "prefix" for _, o in os_):
            pass
        else:
            want = set()
            for i, o in os_:
                want |= jobs.tagged([norm_st(x) for x in o.leaves], i)
            r = isomorphic(got, want)
            check(r is not False, "left-behind", lambda: f"{[(o.job['fmt'], o.job['src'], repr(o.error)[:200]) for _, o in os_]} left "
                  f"{diff_text(got, want, 4)}; documents {[o.job['text'][:400] for _, o in os_]}")
        for st in got:
            for t in st:
                if t is not None and t[0] == "b":
                    check(owner.setdefault(t, tid) == tid, "left-behind", "one blank node turned up in two separate targets")
        ctx.log(len(got), [type(o.error).__name__ for _, o in os_])
        ctx.state((len(got), tuple(type(o.error).__name__ for _, o in os_)))
    # Every parser, on this (other) thread, is as good as new.
    after = []
    for fmt, text, sts in (("nt", '_:a <http://e/p> _:b .\n_:a <http://e/p> "x"@en .\n', [(("b", "a"), ("i", "http://e/p"), ("b", "b"), None), (("b", "a"), ("i", "http://e/p"), ("l", "x", "en", None), None)]),
                           ("nq", "_:a <http://e/p> _:b _:a .\n", [(("b", "a"), ("i", "http://e/p"), ("b", "b"), ("b", "a"))]),
                           ("ttl", "_:a <p> _:b, <> .", [(("b", "a"), ("i", "p"), ("b", "b"), None), (("b", "a"), ("i", "p"), ("i", ""), None)]),
                           ("jsonld", '{"@id": "_:a", "http://e/p": {"@id": "_:b"}}', [(("b", "a"), ("i", "http://e/p"), ("b", "b"), None)])):
        job = {"fmt": fmt, "text": text, "sts": sts, "src": {"kind": "string" if fmt != "jsonld" else "object"}, "hooks": [], "target": "given"}
        after.append(jobs.Parse(W, ctx, job).run())
    jobs.judge(W, ctx, after, "parser-after-failure")


def preload():
    from simkit import world

    world.warm_lexers()
