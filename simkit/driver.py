"""Runs a property's simulations, minimises and reports violations, writes evidence."""
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
ZYGOTES = 8


def hashseeds(seed, n=ZYGOTES):
    return [int.from_bytes(hashlib.sha256(f"hash:{seed}:{i}".encode()).digest()[:4], "big") for i in range(n)]


class Zygote:
    def __init__(self, prop, hashseed, scratch):
        env = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy")}
        env.update(
            PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=scratch,
            PYTHONPATH=VERIF + os.pathsep + "/repo/src", HOME=scratch, NO_PROXY="*", PYTHONUTF8="1",
        )
        self.hashseed = hashseed
        self.prop = prop
        self.p = subprocess.Popen([PY, "-m", "simkit.worker", prop], cwd=VERIF, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("zygote did not start")
        self.info = json.loads(line)

    def send(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("zygote died")
        return json.loads(line)

    def execute(self, plan, wall=40, trace=False):
        self.send({"plan": plan, "wall": wall, "trace": trace})
        return self.recv()

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def explicit(plan, res):
    """Freeze the schedule a run actually took into its plan."""
    if res.get("switches") is not None and "sched" in plan:
        plan = dict(plan)
        plan["sched"] = {"mode": "explicit", "grain": plan["sched"].get("grain", "line"),
                         "switches": res["switches"]}
    return plan


class Minimiser:
    def __init__(self, zygote, zygote2, kind, budget):
        self.z, self.z2, self.kind = zygote, zygote2, kind
        self.deadline = time.monotonic() + budget
        self.tries = 0

    def fails(self, plan):
        if time.monotonic() > self.deadline:
            return False
        self.tries += 1
        r = run_plan(self.z, self.z2, plan, wall=20)
        return r["status"] == "violation" and r["kind"] == self.kind

    def ddmin(self, plan, path):
        get = lambda p: _get(p, path)
        items = get(plan)
        n = 2
        while len(items) >= 1 and time.monotonic() < self.deadline:
            size = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                p = _set(plan, path, cand)
                if self.fails(p):
                    plan, items, reduced = p, cand, True
                else:
                    i += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
            else:
                n = max(2, n - 1)
        return plan

    def run(self, plan):
        before = None
        while before != json.dumps(plan) and time.monotonic() < self.deadline:
            before = json.dumps(plan)
            for path in _lists(plan):
                if path in _lists(plan):
                    plan = self.ddmin(plan, path)
            for k, v in list(plan.get("cfg", {}).items()):
                for simpler in _simpler(v):
                    p = json.loads(json.dumps(plan))
                    p["cfg"][k] = simpler
                    if self.fails(p):
                        plan = p
                        break
        return plan


def _simpler(v):
    if isinstance(v, bool):
        return [False] if v else []
    if isinstance(v, int) and v > 0:
        return [0, 1] if v > 1 else [0]
    if isinstance(v, list) and v:
        return [[]]
    return []


def _lists(plan):
    """Paths of the lists ddmin may shorten."""
    paths = []
    for key in ("ops", "faults", "threads", "docs", "data", "quads", "classes", "clients", "init", "nodes"):
        if isinstance(plan.get(key), list):
            paths.append((key,))
    for key in ("threads", "docs", "clients"):
        for i, x in enumerate(plan.get(key) or []):
            if isinstance(x, list):
                paths.append((key, i))
            elif isinstance(x, dict):
                for k, v in x.items():
                    if isinstance(v, list) and k in ("ops", "data", "faults", "lines"):
                        paths.append((key, i, k))
    for i, x in enumerate(plan.get("phases") or []):
        paths += [("phases", i)] + [("phases", i, j) for j in range(len(x))]
    if plan.get("sched", {}).get("mode") == "explicit":
        paths.append(("sched", "switches"))
    return paths


def _get(p, path):
    for k in path:
        p = p[k]
    return p


def _set(plan, path, value):
    p = json.loads(json.dumps(plan))
    q = p
    for k in path[:-1]:
        q = q[k]
    q[path[-1]] = value
    return p


def run_plan(z, z2, plan, wall=40, trace=False):
    """Execute a plan; plans with a second hash seed run under both and compare."""
    r = z.execute(plan, wall, trace)
    if r["status"] == "timeout":
        r = dict(r, status="violation", kind="no-progress", msg="the run did not finish")
    if z2 is not None and r["status"] == "ok":
        r2 = z2.execute(plan, wall, trace)
        if r2["status"] == "ok" and r2["x"] != r["x"]:
            r = dict(r, status="violation", kind="differs-between-processes",
                     msg=f"hash seed {z.hashseed}: {r['x']}\nhash seed {z2.hashseed}: {r2['x']}")
    return r


def check(prop, tier, seed, runs=None, wall=None, verbose=True, evidence=True):
    from simkit.worker import load  # only for metadata: does not import the library

    t0 = time.monotonic()
    meta = scenario_meta(prop)
    n = runs if runs is not None else meta["RUNS"][tier]
    wall = wall if wall is not None else (420.0 if tier == "quick" else 3600.0)
    scratch = tempfile.mkdtemp(prefix="sim-")
    seeds = hashseeds(seed)
    zs = []
    try:
        boxes = [None] * ZYGOTES

        def boot(i):
            try:
                boxes[i] = Zygote(prop, seeds[i], scratch)
            except Exception as e:  # noqa: BLE001
                boxes[i] = e

        ths = [threading.Thread(target=boot, args=(i,)) for i in range(ZYGOTES)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        bad = [b for b in boxes if isinstance(b, Exception)]
        zs = [b for b in boxes if isinstance(b, Zygote)]
        if bad:
            print("ERROR: the simulator could not start:", bad[0], file=sys.stderr)
            return 2
        cross = meta.get("CROSS_HASH", False)
        q = queue.Queue()
        stop = threading.Event()

        def pump(i):
            z = zs[i]
            try:
                z.send({"range": [i, n, ZYGOTES], "seed": seed, "tier": tier, "wall": wall, "samples": 2})
                if cross:
                    z.send({"range": [(i + 3) % ZYGOTES, n, ZYGOTES], "seed": seed, "tier": tier, "wall": wall})
                ends = 2 if cross else 1
                while ends:
                    r = z.recv()
                    if r.get("end"):
                        ends -= 1
                        continue
                    r["z"] = i
                    q.put(r)
                    if stop.is_set():
                        break
            except Exception as e:  # noqa: BLE001
                if not stop.is_set():
                    q.put({"status": "harness", "msg": f"zygote {i}: {e!r}", "z": i, "idx": -1})
            q.put(None)

        ths = [threading.Thread(target=pump, args=(i,), daemon=True) for i in range(ZYGOTES)]
        [t.start() for t in ths]
        st = Stats()
        live = ZYGOTES
        cands, harness, xs = [], [], {}
        grace = None
        while live:
            try:
                r = q.get(timeout=1.0)
            except queue.Empty:
                if grace and time.monotonic() > grace:
                    break
                continue
            if r is None:
                live -= 1
                continue
            st.add(r)
            if r["status"] == "harness":
                harness.append(r)
            elif r["status"] in ("violation", "timeout"):
                cands.append(r)
            elif cross and r.get("x") is not None:
                old = xs.setdefault(r["idx"], r)
                if old is not r and old["x"] != r["x"]:
                    cands.append(dict(r, status="xdiff", other=old["z"]))
            if (len(cands) >= 12 or len(harness) >= 20) and grace is None:
                grace = time.monotonic()
            if cands and grace is None:
                grace = time.monotonic() + 2.0
            if grace and time.monotonic() > grace:
                break
        stop.set()
        for z in zs:
            z.close()
        zs = []
        search_s = time.monotonic() - t0
        rc, extra = 0, {}
        known_lines = st.known_lines(prop)
        if cands:
            rc, extra = report(prop, tier, seed, cands, seeds, scratch)
        if harness and rc == 0:
            for h in harness[:3]:
                print("ERROR: harness:", h.get("msg"), file=sys.stderr)
            rc = 2
        for line in known_lines:
            print(line)
        if evidence:
            write_evidence(prop, tier, seed, meta, st, n, search_s, time.monotonic() - t0, extra)
        if verbose:
            print(f"{prop} {tier}: {st.runs} runs, {len(st.digests)} distinct, {sum(st.faults.values())} faults, "
                  f"{st.nswitches} switches, {search_s:.1f}s search, rc={rc}")
        return rc
    finally:
        for z in zs:
            z.close()
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, cands, seeds, scratch):
    """Confirm, minimise and print the first violation that replays."""
    order = sorted(cands, key=lambda r: (r["status"] == "timeout", r["idx"]))
    tried = 0
    for c in order[:6]:
        tried += 1
        z = Zygote(prop, seeds[c["z"]], scratch)
        z2 = None
        try:
            plan = c.get("plan")
            if c["status"] == "xdiff":
                z2 = Zygote(prop, seeds[c["other"]], scratch)
                z.send({"gen": c["idx"], "seed": seed, "tier": tier, "want_plan": True})
                first = z.recv()
                plan = first.get("plan")
                if plan is None:
                    continue
                plan["hashseed"] = seeds[c["z"]]
                plan["hashseed2"] = seeds[c["other"]]
                plan = explicit(plan, first)
            wall = 90 if c["status"] == "timeout" else 40
            r = run_plan(z, z2, plan, wall=wall)
            if r["status"] != "violation":
                continue
            plan0 = explicit(plan, r)
            r0 = run_plan(z, z2, plan0, wall=wall)
            if r0["status"] == "violation" and r0["kind"] == r["kind"]:
                plan = plan0
            kind = r["kind"]
            m = Minimiser(z, z2, kind, 60 if kind != "no-progress" else 1)
            plan = m.run(plan)
            final = run_plan(z, z2, plan, wall=wall, trace=True)
            if final["status"] != "violation":
                continue
        finally:
            z.close()
            if z2:
                z2.close()
        rep = {"property": prop, "kind": final["kind"], "message": final["msg"], "digest": final.get("digest"),
               "seed": seed, "run": c["idx"], "tier": tier, "minimiser_runs": m.tries, "plan": plan,
               "trace": final.get("trace")}
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}-{c['idx']}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        # The replay file must fail the same way in a fresh process.
        again = replay(path, quiet=True, scratch=scratch)
        rep["replayed_in_fresh_process"] = again
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print(f"{prop}: {final['kind']}: {final['msg'][:1500]}")
        print(f"  seed {seed}, run {c['idx']}, minimised with {m.tries} runs, replays identically: {again}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1, {"violations": 1, "replay": path, "replay_identical": again}
    firm = [c for c in order if c["status"] == "violation"]
    if firm:
        # Observed, but not replayable: something in the code under test is not
        # behind a seam. The observation stands; the report says so.
        c = firm[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}-{c['idx']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": c["kind"], "message": c["msg"], "digest": c.get("digest"),
                       "seed": seed, "run": c["idx"], "tier": tier, "plan": c["plan"],
                       "replayed_in_fresh_process": False}, f, indent=1)
        print(f"{prop}: {c['kind']}: {c['msg'][:1500]}")
        print(f"  seed {seed}, run {c['idx']}: observed {len(firm)} times, but {tried} replays did not repeat it")
        print(f"VIOLATION property={prop} replay={path}")
        return 1, {"violations": 1, "replay": path, "replay_identical": False}
    print(f"note: {len(cands)} runs exceeded their wall-clock limit and finished when repeated")
    return 0, {"slow_runs": len(cands)}


def replay(path, quiet=False, scratch=None):
    with open(path) as f:
        rep = json.load(f)
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix="sim-")
    plan = rep["plan"]
    z = Zygote(rep["property"], plan["hashseed"], scratch)
    z2 = Zygote(rep["property"], plan["hashseed2"], scratch) if "hashseed2" in plan else None
    try:
        r = run_plan(z, z2, plan, wall=90)
    finally:
        z.close()
        if z2:
            z2.close()
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    same = r["status"] == "violation" and r["kind"] == rep["kind"] and r.get("digest") == rep.get("digest")
    if not quiet:
        if r["status"] == "violation":
            print(f"{rep['property']}: {r['kind']}: {r['msg'][:3000]}")
            print(f"identical to the recorded run: {same}")
            print(f"VIOLATION property={rep['property']} replay={path}")
        else:
            print(f"no violation ({r['status']}) {r.get('msg', '')[:2000]}")
    return same if quiet else (1 if r["status"] == "violation" else 0 if r["status"] == "ok" else 2)


class Stats:
    def __init__(self):
        self.runs = 0
        self.ok = 0
        self.digests = set()
        self.states = set()
        self.faults, self.probes = {}, {}
        self.events = self.steps = self.nswitches = self.stalls = 0
        self.faulty_runs = 0
        self.nontrivial = set()
        self.simtime = 0.0
        self.samples = []
        self.known = {}

    def add(self, r):
        self.runs += 1
        if r["status"] == "ok":
            self.ok += 1
        self.events += r.get("events", 0)
        self.steps += r.get("steps", 0)
        self.nswitches += r.get("nswitches", 0)
        self.simtime += r.get("simtime", 0.0)
        self.stalls += r.get("stalls", 0)
        if r.get("digest"):
            self.digests.add(r["digest"])
            if r.get("faults") or r.get("nswitches") or r.get("probes", {}).get("interleaved"):
                self.nontrivial.add(r["digest"])
        if r.get("faults"):
            self.faulty_runs += 1
        for k, v in r.get("faults", {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.states.update(r.get("states", ()))
        for k in r.get("known", ()):
            self.known[k] = self.known.get(k, 0) + 1
        if r.get("plan") and r["status"] == "ok" and len(self.samples) < 2:
            s = json.dumps(r["plan"], ensure_ascii=True)
            self.samples.append(r["plan"] if len(s) < 4000 else s[:4000] + "...")

    def known_lines(self, prop):
        return [f"KNOWN-FINDING: property={prop} {k}" for k in sorted(self.known)]


_META_CACHE = {}


def scenario_meta(prop):
    """Metadata of a scenario, read without importing the library here."""
    import ast
    import glob

    (path,) = glob.glob(os.path.join(VERIF, "scenarios", prop.lower() + "_*.py"))
    tree = ast.parse(open(path).read())
    meta = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                meta[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return meta


def write_evidence(prop, tier, seed, meta, st, planned, search_s, wall_s, extra):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": meta["RULE"] + " A run counts as non-trivial when a thread switch, an interleaved step of another "
                "client, or an injected fault took effect in it; it is distinct when the digest of its event log "
                "(operations, outcomes, faults, schedule) differs from every other run's.",
        "samples": st.samples or ["(no sample kept)"],
        "planned_runs": planned,
        "runs_per_hour": round(st.runs / max(search_s, 1e-9) * 3600),
        "seeds_per_hour": round(st.runs / max(search_s, 1e-9) * 3600),
        "hash_seeds": ZYGOTES,
        "distinct_event_logs": len(st.digests),
        "events_logged": st.events,
        "scheduler_steps": st.steps,
        "thread_switches": st.nswitches,
        "distinct_states": len(st.states),
        "simulated_seconds": round(st.simtime, 3),
        "faults_fired": dict(sorted(st.faults.items())),
        "runs_with_faults": st.faulty_runs,
        "probes": dict(sorted(st.probes.items())),
        "scheduler_stall_fallbacks": st.stalls,
        "real_components": meta.get("REAL", []),
        "stub_components": meta.get("STUB", []),
        "known_findings_seen": st.known,
    }
    cov.update({k: v for k, v in extra.items() if k != "violations"})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("LEVEL", "exploration"), "coverage": cov,
          "assumptions": meta.get("ASSUMPTIONS", []), "wall_s": round(wall_s, 2),
          "violations": extra.get("violations", 0)}
    path = os.path.join(d, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)
