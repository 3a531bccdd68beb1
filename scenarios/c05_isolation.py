"""C05: overlapping and nested parses on the shared parsers."""
from simkit import jobs, sched
from simkit.core import Violation

RUNS = {"quick": 5000, "thorough": 60000}
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded thread schedules (line/bytecode preemption) and nested parses, results known by construction"
RULE = ("Each run draws 1-4 threads with 1-4 parses each over N-Triples, N-Quads, Turtle and JSON-LD documents generated "
        "together with their meaning; all documents share the same few blank node labels, prefix names and context URLs, "
        "and some use a prefix only another document declares. Sources are strings, bytes, text and byte streams; "
        "streams and JSON-LD document loaders start further parses (nesting depth up to 3, into their own or the outer "
        "target). A seeded scheduler switches threads at stream reads and at any line or bytecode of the library. Every "
        "target must be isomorphic to what its documents mean and no blank node may occur in two results.")
REAL = ["pymantic.parsers (N-Triples, N-Quads, Turtle, JSON-LD), pymantic.primitives, lark, pyld (all real, real threads)"]
STUB = ["thread scheduler", "streams and document loader (simulated)", "allocator (blank-node addresses)"]
ASSUMPTIONS = ["lark and pyld themselves are not preempted except where they call back into the library or a stream.",
               "Graph isomorphism is decided with a bounded search; undecided cases (none seen) would count as equal."]


def gen(rng, tier, idx):
    nthreads = rng.choice([1, 2, 2, 3, 4])
    depth = rng.choice([0, 1, 1, 2, 3])
    threads = []
    same = rng.random() < 0.3 and jobs.FMTS[rng.randrange(4)]
    for _ in range(nthreads):
        threads.append([jobs.gen_job(rng, same or None, depth=depth, bad=1.0) for _ in range(rng.randrange(1, 5 if nthreads < 3 else 3))])
    return {"cfg": {}, "threads": threads, "sched": sched.gen_sched(rng, nthreads, expect=150 * nthreads)}


def run(plan, ctx):
    from simkit import world as W

    jobs.install_shared_loader()
    done = [[] for _ in plan["threads"]]
    s = sched.make(ctx, plan["sched"])
    for i, js in enumerate(plan["threads"]):
        def body(i=i, js=js):
            for job in js:
                p = jobs.Parse(W, ctx, job)
                done[i].append(p)
                p.run()

        s.spawn(body)
    try:
        s.run()
    finally:
        sched.preempt_on(None)
    parses = [q for d in done for p in d for q in p.all()]
    for p in parses:
        ctx.probe(p.job["fmt"] + ":" + p.job["src"]["kind"])
        if p.job.get("bad"):
            ctx.fault("foreign-prefix")
    jobs.judge(W, ctx, parses, "isolation")
    # And the parsers are as good as new.
    after = [jobs.Parse(W, ctx, dict(p.job, hooks=[], target="given")).run() for p in parses[:6]]
    jobs.judge(W, ctx, after, "isolation-after")
    ctx.state((len(parses), tuple(sorted(p.job["fmt"] for p in parses))))


def preload():
    from simkit import world

    world.warm_lexers()
