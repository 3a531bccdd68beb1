"""Simulated storage and streams.

SimFile is a byte store behind real io.BufferedReader/BufferedWriter/TextIOWrapper
objects; the raw layer below them is the simulator's and injects short reads and
writes, errors, early ends and crashes at chosen byte offsets. Every raw call is
a scheduling point.
"""
import io

from . import sched
from .core import ERRORS


class SimRaw(io.RawIOBase):
    """Raw reader over bytes. ``sizes`` cycles through the most each read returns."""

    def __init__(self, data, ctx, sizes=(65536,), fail_at=None, error="oserror", eof_at=None, hook=None):
        self.data = data if eof_at is None else data[:eof_at]
        self.cut = eof_at is not None and eof_at < len(data)
        self.ctx, self.sizes, self.fail_at, self.error = ctx, list(sizes) or [65536], fail_at, error
        self.pos = 0
        self.n = 0
        self.hook = hook
        self.fired = False

    def readable(self):
        return True

    def readinto(self, b):
        sched.yield_point()
        if self.hook is not None:
            self.hook(self.n)
        want = min(len(b), max(1, self.sizes[self.n % len(self.sizes)]))
        self.n += 1
        if self.fail_at is not None:
            if self.pos >= self.fail_at:
                self.fired = True
                self.ctx.fault("read-" + self.error)
                if self.error == "closed":
                    self.close()
                raise ERRORS[self.error]()
            want = min(want, self.fail_at - self.pos)
        chunk = self.data[self.pos:self.pos + want]
        if len(chunk) < len(b) and self.pos + len(chunk) < len(self.data):
            self.ctx.fault("short-read")
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        if not chunk and self.cut and not self.fired:
            self.fired = True
            self.ctx.fault("early-eof")
        return len(chunk)


class SimDisk(io.RawIOBase):
    """Raw writer. What a crash leaves is ``durable()``."""

    def __init__(self, ctx, sizes=(65536,), fail_at=None, error="oserror", transient=False):
        self.ctx, self.sizes, self.fail_at, self.error = ctx, list(sizes) or [65536], fail_at, error
        self.buf = bytearray()
        self.n = 0
        self.transient = transient
        self.fired = False

    def writable(self):
        return True

    def write(self, b):
        sched.yield_point()
        want = min(len(b), max(1, self.sizes[self.n % len(self.sizes)]))
        self.n += 1
        if self.fail_at is not None and not (self.transient and self.fired):
            room = self.fail_at - len(self.buf)
            if room <= 0:
                self.fired = True
                self.ctx.fault("write-" + self.error)
                if self.error == "closed":
                    self.close()
                raise ERRORS[self.error]()
            want = min(want, room)
        if want < len(b):
            self.ctx.fault("short-write")
        self.buf += bytes(b[:want])
        return want


class TextSink:
    """Duck-typed text stream that only has write(); fails at the n-th call."""

    closed = False

    def __init__(self, ctx, fail_call=None, error="oserror", partial=None, transient=False):
        self.transient = transient
        self.ctx, self.fail_call, self.error, self.partial = ctx, fail_call, error, partial
        self.parts = []
        self.calls = 0
        self.raised = None

    def write(self, s):
        sched.yield_point()
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not " + type(s).__name__)
        if self.fail_call is not None and self.calls >= self.fail_call and not (self.transient and self.raised):
            self.calls += 1
            if self.partial is not None and s:
                self.parts.append(s[: self.partial % (len(s) + 1)])
                self.partial = None
            self.ctx.fault("sink-" + self.error)
            self.closed = self.error == "closed"
            self.raised = ERRORS[self.error]()
            raise self.raised
        self.calls += 1
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


class LineStream:
    """Duck-typed text stream (readline, read, iteration) with line-level faults."""

    closed = False

    def __init__(self, text, ctx, split="keep", fail_line=None, error="oserror", hook=None, chunk=None):
        self.ctx, self.fail_line, self.error, self.hook = ctx, fail_line, error, hook
        self.lines = text.splitlines(keepends=True) if split == "py" else _split(text)
        self.i = 0
        self.chunk = chunk
        self.pending = ""
        self.fired = False

    def readline(self, size=-1):
        sched.yield_point()
        if self.hook is not None:
            self.hook(self.i)
        if self.fail_line is not None and self.i >= self.fail_line:
            self.fired = True
            self.ctx.fault("read-" + self.error)
            self.closed = self.error == "closed"
            raise ERRORS[self.error]()
        if self.i >= len(self.lines):
            return ""
        self.i += 1
        return self.lines[self.i - 1]

    def read(self, size=-1):
        if size is None or size < 0:
            out = [self.pending]
            self.pending = ""
            while True:
                line = self.readline()
                if not line:
                    return "".join(out)
                out.append(line)
        if not self.pending:
            self.pending = self.readline()
        out, self.pending = self.pending[:size], self.pending[size:]
        return out

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line


def _split(text):
    """Split after every \\n (the way files opened with newline='\\n' do)."""
    out, start = [], 0
    while True:
        j = text.find("\n", start)
        if j < 0:
            break
        out.append(text[start:j + 1])
        start = j + 1
    if start < len(text):
        out.append(text[start:])
    return out


BAD = ["ff", "ff", "eda080", "c080", "f5808080", "fe"]


def encoded(text, spec):
    data = text.encode(spec.get("encoding", "utf-8"), "surrogatepass")
    if "bad_at" in spec:  # bytes no UTF-8 text contains: see BAD
        data = data[: spec["bad_at"]] + bytes.fromhex(spec.get("bad", "ff")) + data[spec["bad_at"]:]
    return data


def reader(text, ctx, spec, hook=None):
    """A stream for a spec drawn by gen_delivery()."""
    kind = spec["kind"]
    if kind == "stringio":
        return io.StringIO(text, newline=spec.get("newline"))
    if kind == "lines":
        return LineStream(text, ctx, hook=hook, fail_line=spec.get("fail_line"), error=spec.get("error", "oserror"))
    data = encoded(text, spec)
    if "bad_at" in spec:
        ctx.fault("undecodable-byte")
    raw = SimRaw(data, ctx, spec.get("sizes", [65536]), fail_at=spec.get("fail_at"), error=spec.get("error", "oserror"),
                 eof_at=spec.get("eof_at"), hook=hook)
    if kind == "raw":
        return raw
    buf = io.BufferedReader(raw, buffer_size=spec.get("bufsize", 8192))
    if kind == "bytes":
        return buf
    st = io.TextIOWrapper(buf, encoding=spec.get("encoding", "utf-8"), newline=spec.get("newline"))
    if spec.get("chunk"):
        st._CHUNK_SIZE = spec["chunk"]
    return st


def gen_delivery(rng, bytes_ok=False):
    k = rng.random()
    if k < 0.15:
        return {"kind": "stringio", "newline": rng.choice([None, "", "\n", "\r\n"])}
    if k < 0.3:
        return {"kind": "lines"}
    spec = {"kind": "text", "newline": rng.choice([None, "", "\n", "\r", "\r\n"]),
            "sizes": [rng.choice([1, 1, 2, 3, 5, 7, 16, 64, 1000, 65536]) for _ in range(rng.randrange(1, 4))],
            "bufsize": rng.choice([1, 2, 3, 8, 64, 512, 8192]),
            "chunk": rng.choice([None, 1, 2, 5, 17, 128])}
    if bytes_ok and rng.random() < 0.3:
        spec["kind"] = "bytes"
    elif rng.random() < 0.1:
        spec["encoding"] = rng.choice(["utf-16", "utf-8-sig", "utf-16-le"])
    return spec
