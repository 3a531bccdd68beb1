"""Imports the library from /repo's working tree and puts every source of
nondeterminism the properties touch behind a seam the simulator owns.

Seams: blank-node identity (hash and address), uuid4 (rdflib's blank nodes),
time.sleep/time.time/datetime.now as seen by the library, locks the library
creates, TCP connections (simkit.net), streams (simkit.simio), thread switches
(simkit.sched).
"""
import os
import sys

REPO_SRC = os.environ.get("SIM_REPO_SRC", "/repo/src")
PREFIX = os.path.join(REPO_SRC, "pymantic")

# Third-party code first, so that only the library sees the simulated locks.
import datetime as _dt  # noqa: E402
import random as _random  # noqa: E402
import time as _time  # noqa: E402
import uuid as _uuid  # noqa: E402

import lark  # noqa: E402,F401
import lark.lark  # noqa: E402,F401
import lxml.etree  # noqa: E402,F401
import lxml.objectify  # noqa: E402,F401
import pyld.jsonld  # noqa: E402,F401
import pytz  # noqa: E402,F401

_uuid_rng = _random.Random(0)


def _sim_uuid4():
    return _uuid.UUID(int=_uuid_rng.getrandbits(128), version=4)


_uuid.uuid4 = _sim_uuid4

import rdflib  # noqa: E402
import rdflib.term  # noqa: E402
import requests  # noqa: E402,F401
import encodings.idna  # noqa: E402,F401
import encodings.utf_16  # noqa: E402,F401

from . import sched  # noqa: E402

import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import warnings  # noqa: E402

warnings.simplefilter("ignore")

sched.install_locks(PREFIX)

if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
import pymantic  # noqa: E402

if not os.path.abspath(pymantic.__file__).startswith(REPO_SRC):
    raise SystemExit(f"wrong pymantic: {pymantic.__file__}")

import pymantic.primitives as P  # noqa: E402
import pymantic.rdf as RDF  # noqa: E402
import pymantic.serializers as SER  # noqa: E402
import pymantic.sparql as SPARQL  # noqa: E402
import pymantic.parsers as PARSERS  # noqa: E402
import pymantic.parsers.base  # noqa: E402,F401
import pymantic.util as UTIL  # noqa: E402

_modules = [m for n, m in list(sys.modules.items()) if n == "pymantic" or n.startswith("pymantic.")]


# -- the simulated allocator --------------------------------------------------


class Allocator:
    """Hands out addresses to blank nodes and takes them back when they die."""

    def __init__(self):
        self.epoch = 0
        self.reset("fresh", 0)

    def reset(self, policy, seed, start=0x7F00_0000_0000):
        self.policy = policy
        self.epoch += 1  # what an earlier process still holds is not given to this one
        self.rng = _random.Random(seed)
        self.free = []
        self.next = start
        self.reused = 0
        self.live = 0
        self.issued, self.pending = [], []

    def take(self):
        self.live += 1
        if self.free and self.policy != "fresh":
            self.reused += 1
            if self.policy == "lifo":
                return self.free.pop()
            if self.policy == "fifo":
                return self.free.pop(0)
            if self.rng.random() < 0.7:
                return self.free.pop(self.rng.randrange(len(self.free)))
        if self.pending:
            return self.pending.pop()
        a = self.next
        while a in self.issued:
            a += 16
        self.next = a
        if self.policy == "fresh":
            self.next += 64
        elif self.policy == "far":
            self.next += self.rng.choice((16, 1 << 12, 1 << 16, 1 << 20, 1 << 24, 1 << 32))
            self.issued.append(a)
            if self.rng.random() < 0.3:
                # an address that folds to the same value as an earlier one
                k = self.rng.choice((16, 24, 32))
                d = 16 << self.rng.randrange(0, 8)
                b = self.rng.choice(self.issued) ^ (d | d << k)
                if b not in self.issued and b > 1 << 40:
                    self.issued.append(b)
                    self.pending.append(b)
        else:
            self.next += self.rng.choice((16, 32, 48, 64))
        return a

    def give(self, addr, epoch):
        if epoch != self.epoch:
            return
        self.live -= 1
        self.free.append(addr)


allocator = Allocator()


class _Cell:
    __slots__ = ("addr", "epoch")

    def __init__(self):
        self.addr = allocator.take()
        self.epoch = allocator.epoch

    def __del__(self):
        allocator.give(self.addr, self.epoch)


_BN = P.BlankNode
_CELL = "_sim_cell"
_real_id = id
identity_seam = False


def _install_identity():
    """Addresses of blank nodes come from the simulated allocator."""
    global identity_seam
    if "__slots__" in _BN.__dict__:
        return
    orig_new = _BN.__new__

    def __new__(cls, *a, **k):
        if orig_new is object.__new__:
            obj = object.__new__(cls)
        else:
            obj = orig_new(cls, *a, **k)
        d = obj.__dict__
        if _CELL not in d:
            d[_CELL] = _Cell()
        return obj

    _BN.__new__ = staticmethod(__new__)
    try:
        probe = _BN()
        ok = _CELL in probe.__dict__
        del probe
    except Exception:
        ok = False
    if not ok:
        _BN.__new__ = orig_new
        return

    def sim_id(obj):
        if isinstance(obj, _BN):
            c = obj.__dict__.get(_CELL)
            if c is not None:
                return c.addr
        return _real_id(obj)

    if _BN.__hash__ is object.__hash__ and "__eq__" not in _BN.__dict__:

        def __hash__(self):
            c = self.__dict__.get(_CELL)
            return c.addr >> 4 if c is not None else object.__hash__(self)

        _BN.__hash__ = __hash__
    for m in _modules:
        if "id" not in m.__dict__:
            m.id = sim_id
    identity_seam = True


_install_identity()

# -- clocks -------------------------------------------------------------------


class Clock:
    """Simulated time, as far as the library (and the sockets) can tell."""

    def __init__(self):
        self.now = 1_700_000_000.0
        self.slept = 0.0

    def sleep(self, s):
        self.now += max(0.0, s)
        self.slept += max(0.0, s)
        sched.yield_point()


clock = Clock()
_real_sleep = _time.sleep
_real_time = _time.time


def _sim_sleep(s):
    clock.sleep(s)


class _SimDateTimeMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _dt.datetime)


class SimDateTime(_dt.datetime, metaclass=_SimDateTimeMeta):
    @classmethod
    def now(cls, tz=None):
        return _dt.datetime.fromtimestamp(clock.now, tz)

    @classmethod
    def utcnow(cls):
        return _dt.datetime.fromtimestamp(clock.now, _dt.timezone.utc).replace(tzinfo=None)


    @classmethod
    def today(cls):
        return _dt.datetime.fromtimestamp(clock.now)


class _SimTimeModule:
    """Stands in for the time module inside the library."""

    sleep = staticmethod(_sim_sleep)
    time = staticmethod(lambda: clock.now)
    time_ns = staticmethod(lambda: int(clock.now * 1e9))
    monotonic = perf_counter = time

    def __getattr__(self, name):
        return getattr(_time, name)


def real_time():
    return _real_time()


class _SimDatetimeModule:
    """Stands in for the datetime module inside pymantic.sparql."""

    datetime = SimDateTime

    def __getattr__(self, name):
        return getattr(_dt, name)


def install_clock():
    _time.sleep = _sim_sleep
    for m in _modules:
        if m is P:
            continue  # Literal.types is keyed by the real datetime class
        for name, val in list(m.__dict__.items()):
            if val is _dt:
                m.__dict__[name] = _SimDatetimeModule()
            elif val is _time:
                m.__dict__[name] = _SimTimeModule()
            elif val is _dt.datetime:
                m.__dict__[name] = SimDateTime
            elif val is _real_sleep:
                m.__dict__[name] = _sim_sleep
            elif val is _real_time:
                m.__dict__[name] = lambda: clock.now


install_clock()
sched.install_preemption(PREFIX)


def reset(seed):
    """Put every seam in its initial state for one run."""
    _uuid_rng.seed(seed)
    allocator.reset("fresh", seed)
    clock.now = 1_700_000_000.0
    clock.slept = 0.0


def warm_lexers():
    """Let lark build its scanners before the forks (its own lazy cache, not the library's)."""
    import gc
    from lark.lexer import BasicLexer

    for o in gc.get_objects():
        if isinstance(o, BasicLexer):
            o.scanner
