"""Deterministic thread scheduler.

Real threads, but only the one the scheduler names runs; all the others are
parked. A switch can happen before any source line (or any bytecode
instruction) of the library, and wherever simulated I/O calls ``yield_point``.
Which thread runs next is drawn from the seeded PRNG, or taken from a recorded
list of switches ``[step, thread]`` when a run is replayed.
"""
import gc
import sys
import threading
import types
import _thread

from .core import HarnessError, Violation

TOOL = 3
_mon = sys.monitoring
_current = None  # the active Scheduler of this process


class Deadlock(Exception):
    pass


class Scheduler:
    MAXSTEPS = 5_000_000

    def __init__(self, ctx, spec, rng):
        """spec: {"mode": "random"|"pct"|"rr"|"explicit", "p": .., "switches": [...]}"""
        self.ctx = ctx
        self.spec = spec
        self.rng = rng
        self.threads = []
        self.step = 0
        self.cur = None
        self.record = []
        self.explicit = None
        self.over = False
        self.time = 0.0
        mode = spec.get("mode", "random")
        if mode == "explicit":
            self.explicit = {int(s): t for s, t in spec["switches"]}
        elif mode == "pct":
            self.prio = {}
            self.change = set(spec["points"])
        self.mode = mode

    # -- thread management -------------------------------------------------
    def spawn(self, fn, name=None):
        t = SimThread(self, len(self.threads), fn, name)
        self.threads.append(t)
        return t

    def runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def run(self):
        """Run all the threads to the end, one at a time."""
        global _current
        if not self.threads:
            return
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        if self.mode == "pct":
            order = list(range(len(self.threads)))
            self.rng.shuffle(order)
            self.prio = {tid: i + 1000 for i, tid in enumerate(order)}
        for t in self.threads:
            t.start()
        prev, _current = _current, self
        try:
            first = self._pick_any(initial=True)
            self.cur = first
            first.gate.release()
            stalls = 0
            last = -1
            while not self.done_lock.acquire(timeout=5.0):
                if self.step == last:
                    # The running thread is stuck on something real (a lock the
                    # simulator does not own). Let somebody else run, so that a
                    # correct program is not taken for a deadlocked one.
                    stalls += 1
                    others = [t for t in self.threads if t.state == "ready" and t is not self.cur]
                    if stalls > 6 or not others:
                        raise HarnessError("thread stuck outside the simulator")
                    self.ctx.stall_fallbacks += 1
                    self.cur = others[0]
                    others[0].gate.release()
                last = self.step
        finally:
            _current = prev
        self.ctx.steps += self.step
        self.ctx.nswitches += len(self.record)
        self.ctx.switches = self.record
        self.ctx.log("schedule", len(self.record), tuple(map(tuple, self.record)))
        for t in self.threads:
            if isinstance(t.exc, HarnessError):
                raise t.exc
        for t in self.threads:
            if isinstance(t.exc, Violation):
                raise t.exc
        for t in self.threads:
            if t.exc is not None:
                raise t.exc

    def _pick_any(self, initial=False):
        ready = self.runnable()
        if not ready:
            return None
        if self.explicit is not None:
            want = self.explicit.get(self.step if not initial else -1)
            for t in ready:
                if t.tid == want:
                    return t
            return ready[0]
        if self.mode == "pct":
            t = max(ready, key=lambda t: self.prio[t.tid])
        else:
            t = ready[self.rng.randrange(len(ready))]
        if initial:
            self.record.append([-1, t.tid])
        return t

    # -- called from the running thread -------------------------------------
    def yield_point(self, weight=1):
        me = self.cur
        if me is None or me.ident != _thread.get_ident() or me.nopreempt:
            return
        self.step += 1
        if self.step > self.MAXSTEPS:
            if not self.over:
                self.over = True
                raise Violation("no-progress", f"more than {self.MAXSTEPS} steps in one run")
            return
        nxt = None
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is not None:
                for t in self.threads:
                    if t.tid == want and t.state == "ready":
                        nxt = t
        elif self.mode == "pct":
            if self.step in self.change:
                self.prio[me.tid] = min(self.prio.values()) - 1
                nxt = self._pick_any()
        elif self.mode == "rr":
            if self.step % self.spec["q"] == 0:
                ready = self.runnable()
                later = [t for t in ready if t.tid > me.tid] or ready
                nxt = later[0]
        else:
            p = self.spec["p"] if weight == 1 else min(1.0, self.spec["p"] * weight + 0.2)
            if self.rng.random() < p:
                ready = self.runnable()
                nxt = ready[self.rng.randrange(len(ready))]
        if nxt is not None and nxt is not me:
            self.record.append([self.step, nxt.tid])
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.cur = nxt
        nxt.gate.release()
        me.gate.acquire()

    def block(self, why):
        """The running thread cannot go on until somebody calls wake()."""
        me = self.cur
        me.state = "blocked"
        nxt = self._next_after_leave()
        if nxt is None:
            me.state = "ready"
            raise Deadlock(why)
        self._switch(me, nxt)

    def _next_after_leave(self):
        self.step += 1
        nxt = self._pick_any()
        if nxt is not None:
            self.record.append([self.step, nxt.tid])
        return nxt

    def wake(self, thread):
        if thread.state == "blocked":
            thread.state = "ready"

    def _finished(self, me):
        me.state = "done"
        nxt = self._next_after_leave()
        if nxt is None:
            for t in self.threads:
                if t.state == "blocked":
                    t.state = "ready"
                    t.doomed = True
                    self.cur = t
                    t.gate.release()
                    return
            self.cur = None
            self.done_lock.release()
        else:
            self.cur = nxt
            nxt.gate.release()


class SimThread:
    def __init__(self, sched, tid, fn, name):
        self.sched, self.tid, self.fn = sched, tid, fn
        self.name = name or f"t{tid}"
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = "ready"
        self.exc = None
        self.result = None
        self.ident = None
        self.nopreempt = 0
        self.doomed = False

    def start(self):
        threading.Thread(target=self._main, daemon=True, name=self.name).start()

    def _main(self):
        self.ident = _thread.get_ident()
        self.gate.acquire()
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa: B902 - reported by Scheduler.run
            self.exc = e
        finally:
            self.sched._finished(self)


def yield_point(weight=4):
    if _current is not None:
        _current.yield_point(weight)


def active():
    return _current


# -- cooperative locks ------------------------------------------------------


class SimLock:
    """A lock that parks its waiters with the scheduler, not the kernel."""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            s = _current
            if not blocking or (timeout is not None and timeout >= 0 and s is None):
                return False
            if s is None or s.cur is None or s.cur.ident != me:
                raise HarnessError("lock held by a thread outside the simulation")
            if timeout is not None and timeout >= 0:
                s.yield_point()
                if self._owner is not None:
                    return False
                continue
            self._waiters.append(s.cur)
            s.block("lock")
            if s.cur.doomed:
                raise Deadlock("lock")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None or (self.reentrant and self._owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            waiters, self._waiters = self._waiters, []
            for w in waiters:
                w.sched.wake(w)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self._owner == self._me()


def install_locks(prefix):
    """Code under ``prefix`` that asks threading for a lock gets a simulated one."""

    def factory(real, sim):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                return sim()
            return real(*a, **k)

        return make

    threading.Lock = factory(threading.Lock, SimLock)
    threading.RLock = factory(threading.RLock, SimRLock)


# -- preemption points inside the library ------------------------------------

_codes = None


def _all_codes(prefix):
    seen = {}

    def visit(code):
        if code in seen or not code.co_filename.startswith(prefix):
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                visit(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            visit(o.__code__)
    return list(seen)


def _on_event(code, _where):
    s = _current
    if s is not None:
        s.yield_point()


def install_preemption(prefix):
    """Find the library's code objects; call once per process, after imports."""
    global _codes
    _codes = _all_codes(prefix)
    _mon.use_tool_id(TOOL, "simkit")
    _mon.register_callback(TOOL, _mon.events.LINE, _on_event)
    _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_event)


def preempt_on(grain):
    """grain: "line", "instr" or None."""
    ev = {"line": _mon.events.LINE, "instr": _mon.events.INSTRUCTION, None: 0}[grain]
    for c in _codes:
        _mon.set_local_events(TOOL, c, ev)


def gen_sched(rng, nthreads, expect=400):
    """Draw a scheduling policy for one run."""
    grain = "instr" if rng.random() < 0.3 else "line"
    k = rng.random()
    if k < 0.6:
        spec = {"mode": "random", "p": rng.choice([0.02, 0.1, 0.3, 0.6, 1.0])}
    elif k < 0.85:
        d = rng.randrange(1, 6)
        hi = expect * (6 if grain == "instr" else 1)
        spec = {"mode": "pct", "points": sorted(rng.randrange(1, hi) for _ in range(d))}
    else:
        spec = {"mode": "rr", "q": rng.choice([1, 2, 3, 7, 20])}
    spec["grain"] = grain
    spec["seed"] = rng.getrandbits(48)
    return spec


def make(ctx, spec):
    """Scheduler for a plan's ``sched`` entry (recorded switches win)."""
    import random

    preempt_on(spec.get("grain", "line"))
    return Scheduler(ctx, spec, random.Random(spec.get("seed", 0)))
