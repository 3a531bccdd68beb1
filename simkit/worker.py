"""Zygote: imports the library once, then forks one child per simulated run.

Invoked as  python -m simkit.worker PROP  with PYTHONHASHSEED set. Jobs come as
JSON lines on stdin, results go back as JSON lines on stdout:
  {"gen": idx}              generate the plan for run idx and execute it
  {"plan": {...}}           execute an explicit plan
Every run happens in its own forked child, so no run can disturb another.
"""
import gc
import importlib
import json
import os
import pkgutil
import resource
import select
import signal
import sys
import time
import traceback

RUN_WALL = float(os.environ.get("SIM_RUN_WALL", "40"))


def load(prop):
    import scenarios

    for m in pkgutil.iter_modules(scenarios.__path__):
        if m.name.upper().startswith(prop):
            return importlib.import_module("scenarios." + m.name)
    raise SystemExit(f"no scenario for {prop}")


def listed_findings():
    """{key: text} of the known findings that were recorded, not repaired."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    out = {}
    with open(path) as f:
        for line in f:
            if line.startswith("known: "):
                text = line.strip().split(" ", 2)[2]
                out[text.split(":", 1)[0]] = text
    return out


def from_library(e, prefix):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    owner = None
    tb = e.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(prefix):
            owner = "library"
        elif name.startswith(here):
            owner = "harness"
        tb = tb.tb_next
    return owner == "library"


def execute(mod, plan, trace=False):
    """One simulated run. Returns a JSON-able result."""
    from . import world, sched
    from .core import Ctx, Violation, HarnessError

    ctx = Ctx()
    if trace:
        ctx.trace = []
    world.reset(plan.get("seed", 0))
    res = {"status": "ok"}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": str(v.msg)[:4000]}
        ctx.log("violation", v.kind)
    except HarnessError as e:
        res = {"status": "harness", "msg": repr(e)}
    except MemoryError:
        res = {"status": "harness", "msg": "MemoryError"}
    except BaseException as e:
        # Scenarios turn every library error they cannot accept into a
        # Violation; an error that nonetheless comes out of the library in a
        # place where the scenario expects none is one too. Anything raised by
        # the simulator's own code is a mistake of the simulator.
        text = "".join(traceback.format_exception(e))[-3000:]
        if from_library(e, world.PREFIX):
            res = {"status": "violation", "kind": "unexpected-error", "msg": text}
            ctx.log("violation", "unexpected-error")
        else:
            res = {"status": "harness", "msg": text}
    if res["status"] == "ok":
        # A finding only counts as known when the committed file lists it.
        for k in ctx.known:
            if k not in listed_findings():
                res = {"status": "violation", "kind": "finding", "msg": k}
                break
        ctx.known = [listed_findings().get(k, k) for k in ctx.known]
    res.update(
        digest=ctx.digest(), events=ctx.events, faults=ctx.faults, probes=ctx.probes, steps=ctx.steps,
        nswitches=ctx.nswitches, simtime=ctx.simtime, switches=ctx.switches, x=ctx.xdigest, known=ctx.known,
        states=sorted(ctx._states), stalls=ctx.stall_fallbacks,
    )
    if trace:
        res["trace"] = ctx.trace
    return res


def make_plan(mod, prop, seed, idx, tier, hashseed):
    from .core import rng_for

    rng = rng_for(seed, prop, idx)
    plan = mod.gen(rng, tier, idx)
    plan["prop"] = prop
    plan["seed"] = rng.getrandbits(48)
    plan["origin"] = {"VERIF_SEED": seed, "run": idx, "tier": tier}
    plan["hashseed"] = hashseed
    # Plans are plain data: what is executed is what a replay file would hold.
    return json.loads(json.dumps(plan))


def child(mod, prop, job, wfd, hashseed):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    trace = bool(job.get("trace"))
    if "plan" in job:
        plan = job["plan"]
    else:
        plan = make_plan(mod, prop, job["seed"], job["gen"], job["tier"], hashseed)
    res = execute(mod, plan, trace)
    if res["status"] != "ok" or job.get("want_plan"):
        res["plan"] = plan
    if not trace and res["status"] == "ok" and "plan" not in job:
        res["nsw"] = res.pop("switches") is not None
    data = json.dumps(res).encode()
    while data:
        n = os.write(wfd, data[:65536])
        data = data[n:]


def run_forked(mod, prop, job, hashseed, wall=RUN_WALL):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            child(mod, prop, job, w, hashseed)
            code = 0
        except BrokenPipeError:
            pass
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if timed_out:
        res = {"status": "timeout"}
        if "plan" in job:
            res["plan"] = job["plan"]
        else:
            res["plan"] = make_plan(mod, prop, job["seed"], job["gen"], job["tier"], hashseed)
        return res
    try:
        return json.loads(buf)
    except ValueError:
        return {"status": "harness", "msg": "child died: %r" % buf[-200:]}


def main():
    prop = sys.argv[1]
    hashseed = int(os.environ["PYTHONHASHSEED"])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    mod = load(prop)
    from . import world  # noqa: F401

    if hasattr(mod, "preload"):
        mod.preload()
    gc.collect()
    gc.freeze()
    gc.disable()
    out.write(json.dumps({"ready": True, "seam_identity": world.identity_seam}) + "\n")
    for line in sys.stdin:
        job = json.loads(line)
        if "range" in job:
            # A batch of generated runs: idx in range(a, b, step)
            a, b, step = job["range"]
            stop_at = time.monotonic() + job["wall"]
            for idx in range(a, b, step):
                if time.monotonic() > stop_at:
                    break
                res = run_forked(mod, prop, {"gen": idx, "seed": job["seed"], "tier": job["tier"],
                                             "want_plan": idx < job.get("samples", 0)}, hashseed)
                res["idx"] = idx
                out.write(json.dumps(res) + "\n")
            out.write(json.dumps({"end": True}) + "\n")
        else:
            out.write(json.dumps(run_forked(mod, prop, job, hashseed, job.get("wall", RUN_WALL))) + "\n")


if __name__ == "__main__":
    main()
