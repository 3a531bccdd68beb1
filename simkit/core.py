"""Shared vocabulary of the simulator: violations, the run context, plan helpers."""
import hashlib
import random


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, msg=""):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is at fault; never reported as a violation."""


class Injected(Exception):
    """Marker mixin for the errors the simulator injects."""


class InjectedError(Injected):
    pass


class InjectedOSError(Injected, OSError):
    pass


class InjectedValueError(Injected, ValueError):
    pass


class InjectedKeyError(Injected, KeyError):
    pass


class InjectedAttributeError(Injected, AttributeError):
    pass


class InjectedTypeError(Injected, TypeError):
    pass


class InjectedInterrupted(Injected, InterruptedError):
    pass


class InjectedBlocking(Injected, BlockingIOError):
    pass


class InjectedTimeout(Injected, TimeoutError):
    pass


class InjectedBrokenPipe(Injected, BrokenPipeError):
    pass


class InjectedEOFError(Injected, EOFError):
    pass


class InjectedIndexError(Injected, IndexError):
    pass


class InjectedRuntimeError(Injected, RuntimeError):
    pass


class InjectedMemoryError(Injected, MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


ERRORS = {
    "error": lambda: InjectedError("injected"),
    "oserror": lambda: InjectedOSError(5, "injected EIO"),
    "enospc": lambda: InjectedOSError(28, "injected ENOSPC"),
    "valueerror": lambda: InjectedValueError("injected"),
    "keyerror": lambda: InjectedKeyError("injected"),
    "attributeerror": lambda: InjectedAttributeError("injected"),
    "typeerror": lambda: InjectedTypeError("injected"),
    "interrupt": lambda: InjectedInterrupt("injected"),
    "timeout": lambda: InjectedTimeout(110, "injected ETIMEDOUT"),
    "pipe": lambda: InjectedBrokenPipe(32, "injected EPIPE"),
    "eoferror": lambda: InjectedEOFError("injected"),
    "indexerror": lambda: InjectedIndexError("injected"),
    "runtimeerror": lambda: InjectedRuntimeError("injected"),
    "memoryerror": lambda: InjectedMemoryError("injected"),
    # Raised by objects the library is given, never below the io module, which retries or converts them.
    "eintr": lambda: InjectedInterrupted(4, "injected EINTR"),
    "eagain": lambda: InjectedBlocking(11, "injected EAGAIN"),
    # The stream is closed under its user.
    "closed": lambda: InjectedValueError("I/O operation on closed file. (injected)"),
}

ANY = ["oserror", "oserror", "enospc", "error", "valueerror", "keyerror", "attributeerror", "typeerror", "interrupt",
       "timeout", "pipe", "eoferror", "indexerror", "runtimeerror", "memoryerror"]


def rng_for(*parts):
    """One integer (with labels) decides everything: a PRNG per labelled stream."""
    text = ":".join(str(p) for p in parts)
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:16], "big"))


class Ctx:
    """What one run records. Recording never draws randomness or reads clocks."""

    def __init__(self):
        self._h = hashlib.blake2b(digest_size=16)
        self._states = set()
        self.events = 0
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0
        self.steps = 0
        self.nswitches = 0
        self.switches = None
        self.xdigest = None
        self.known = []
        self.stall_fallbacks = 0
        self.trace = None

    def log(self, *event):
        self.events += 1
        text = repr(event)
        self._h.update(text.encode("utf-8", "surrogatepass"))
        if self.trace is not None:
            self.trace.append(text)

    def fault(self, kind):
        """An injected fault actually fired."""
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("fault", kind)

    def probe(self, name, n=1):
        """A condition worth reaching was reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._h.hexdigest()

    def state(self, value):
        """Note a distinct abstract state the run went through."""
        self._states.add(hashlib.blake2b(repr(value).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())


def check(cond, kind, msg=""):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def crash(e, prefix):
    """Is this error a mishap inside the library itself, not a report of what went wrong?"""
    if not isinstance(e, (AttributeError, NameError, KeyError, TypeError, IndexError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(prefix)
