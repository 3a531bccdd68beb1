"""Simulated TCP: in-memory sockets under urllib3 and http.client, servers as objects,
and faults at every stage of a connection.

A call of the library is announced with ``net.begin(call, faults)`` on the thread that
makes it; every connection or request made by that thread until ``net.end()`` belongs to
it. The n-th request of a call meets the n-th fault of its list (a healthy network once
the list is used up).

Faults:
  {"k": "refuse" | "dns" | "ctimeout" | "unreachable"}   no connection
  {"k": "send", "at": f, "how": reset|pipe}              connection breaks after that share of the request was sent
  {"k": "lost", "act": bool, "how": reset|eof|timeout}   nothing of the response arrives
  {"k": "cut", "at": f, "how": reset|eof|timeout}        the response stops after that share of its bytes
  {"k": "garbage", "what": text}                         something that is not HTTP comes back
  {"k": "stall", "s": seconds}                           a long pause, then all is well
  {"k": "stale", "how": reset|eof}                       a kept-alive connection turns out dead after the request is sent
"""
import errno
import gzip
import io
import os
import socket
import threading
import zlib

from . import sched
from .core import HarnessError

for _v in list(os.environ):
    if _v.lower().endswith("_proxy"):
        del os.environ[_v]
os.environ["NETRC"] = "/nonexistent/netrc"

import http.client  # noqa: E402
import urllib3.connection  # noqa: E402
import urllib3.util.connection  # noqa: E402


class Request:
    def __init__(self, method, target, headers, body):
        self.method, self.target, self.headers, self.body = method, target, headers, body
        self.call = None
        self.delivered = False  # all of the response reached the client
        self.maybe = False  # as far as the client can tell
        self.acted = False  # set by the server

    def header(self, name, default=None):
        vals = [v for k, v in self.headers if k.lower() == name.lower()]
        return vals[-1] if vals else default

    def __repr__(self):
        return f"<{self.method} {self.target} {self.body[:80]!r}>"


class Response:
    """framing: length, chunked or close."""

    def __init__(self, status=200, ctype=None, body=b"", framing="length", encoding=None, keep=False, headers=()):
        self.status, self.ctype, self.framing, self.encoding, self.keep = status, ctype, framing, encoding, keep
        self.body = body.encode("utf-8") if isinstance(body, str) else body
        self.headers = list(headers)

    def encode(self, method):
        body = self.body
        h = list(self.headers)
        if self.ctype is not None:
            h.append(("Content-Type", self.ctype))
        if self.encoding == "gzip":
            body = gzip.compress(body, mtime=0)
            h.append(("Content-Encoding", "gzip"))
        elif self.encoding == "deflate":
            body = zlib.compress(body)
            h.append(("Content-Encoding", "deflate"))
        bodyless = method == "HEAD" or self.status in (204, 304) or self.status < 200
        keep = self.keep and self.framing != "close"
        if bodyless:
            data = b""
        elif self.framing == "chunked":
            h.append(("Transfer-Encoding", "chunked"))
            data, i, n = b"", 0, 1
            while i < len(body):
                part = body[i:i + n]
                data += b"%x\r\n" % len(part) + part + b"\r\n"
                i += n
                n = n * 3 % 61 + 1
            data += b"0\r\n\r\n"
        elif self.framing == "close":
            data, keep = body, False
        else:
            h.append(("Content-Length", str(len(body))))
            data = body
        h.append(("Connection", "keep-alive" if keep else "close"))
        head = f"HTTP/1.1 {self.status} {http.client.responses.get(self.status, 'Odd')}\r\n"
        head += "".join(f"{k}: {v}\r\n" for k, v in h) + "\r\n"
        return head.encode("latin-1"), data, keep


def _error(how):
    return {"reset": lambda: ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (injected)"),
            "pipe": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe (injected)"),
            "timeout": lambda: OSError(errno.ETIMEDOUT, "Connection timed out (injected)")}[how]()


class Conn:
    """Both ends of one connection."""

    def __init__(self, net, server):
        self.net, self.server = net, server
        self.inbuf = b""  # from the client
        self.out = []  # to the client: bytes, or an error to raise, or None for the end
        self.fault = None
        self.fault_used = True
        self.closed = False  # by the server
        self.sent = 0
        self.sizes = None
        self.request_no = 0

    # client side ------------------------------------------------------------
    def sendall(self, data):
        data = bytes(data)
        net = self.net
        sched.yield_point()
        net.tick(0.0005)
        if not self.inbuf and self.fault_used:
            self.fault = net.next_fault(first=self.request_no == 0, fresh=self.request_no == 0)
            self.fault_used = False
        f = self.fault or {}
        if f.get("k") == "send" and not self.fault_used:
            # The share of the whole request is only known once it is complete; break at
            # a position within this piece, or let the piece through.
            self.inbuf += data
            need = self._missing()
            total = len(self.inbuf) + max(0, need)
            at = int(f["at"] * total)
            if len(self.inbuf) >= at:
                whole = need <= 0 and at >= total
                if not whole:
                    self.inbuf = self.inbuf[:at]
                self.fault_used = True
                net.ctx.fault("net-send-" + f["how"])
                self.closed = True
                if whole:
                    req = self._take()
                    req.call = net.current()
                    req.delivered = False
                    if f.get("act"):
                        net.served.append(req)
                        self.server.handle(req)
                    else:
                        net.unserved.append(req)
                raise _error(f["how"])
            return
        self.inbuf += data

    def _missing(self):
        """How many bytes of the request are still to come (as far as known)."""
        i = self.inbuf.find(b"\r\n\r\n")
        if i < 0:
            return 1
        head = self.inbuf[:i].decode("latin-1").split("\r\n")
        length, chunked = 0, False
        for line in head[1:]:
            k, _, v = line.partition(":")
            if k.lower() == "content-length":
                length = int(v)
            if k.lower() == "transfer-encoding" and "chunked" in v.lower():
                chunked = True
        if chunked:
            return 0 if self.inbuf.endswith(b"0\r\n\r\n") else 1
        return length - (len(self.inbuf) - i - 4)

    def _take(self):
        i = self.inbuf.find(b"\r\n\r\n")
        head = self.inbuf[:i].decode("latin-1").split("\r\n")
        method, target, _ = head[0].split(" ", 2)
        headers = []
        for line in head[1:]:
            k, _, v = line.partition(":")
            headers.append((k, v.strip()))
        body = self.inbuf[i + 4:]
        if any(k.lower() == "transfer-encoding" and "chunked" in v.lower() for k, v in headers):
            raw, body = body, b""
            while raw:
                n, _, raw = raw.partition(b"\r\n")
                n = int(n.split(b";")[0], 16)
                body += raw[:n]
                raw = raw[n + 2:]
        self.inbuf = b""
        return Request(method, target, headers, body)

    def recv(self, n):
        net = self.net
        sched.yield_point()
        net.tick(0.001)
        if not self.out:
            if self.closed:
                return b""
            if self.inbuf and self._missing() <= 0:
                self._serve()
            else:
                raise HarnessError("client waits for a response to an incomplete request: %r" % self.inbuf[:200])
        x = self.out[0]
        if x is None:
            self.closed = True
            return b""
        if isinstance(x, Exception):
            self.closed = True
            raise x
        size = min(n, net.chunk())
        part, rest = x[:size], x[size:]
        if rest:
            self.out[0] = rest
        else:
            self.out.pop(0)
        return part

    def _serve(self):
        net = self.net
        f = self.fault or {}
        k = None if self.fault_used else f.get("k")
        self.fault_used = True
        req = self._take()
        self.request_no += 1
        req.call = net.current()
        if k == "stale":
            net.ctx.fault("net-stale-" + f["how"])
            net.unserved.append(req)
            self.out = [None if f["how"] == "eof" else _error(f["how"])]
            return
        if k == "lost" and not f["act"]:
            net.ctx.fault("net-lost-request-" + f["how"])
            net.unserved.append(req)
            self.out = [None if f["how"] == "eof" else _error(f["how"])]
            return
        if k == "garbage":
            net.ctx.fault("net-garbage")
            net.unserved.append(req)
            self.out = [f["what"].encode("utf-8"), None]
            return
        if k == "stall":
            net.ctx.fault("net-stall")
            net.tick(f["s"])
            for _ in range(20):
                sched.yield_point()
        net.served.append(req)
        resp = self.server.handle(req)
        head, data, keep = resp.encode(req.method)
        whole = head + data
        if k == "lost":
            net.ctx.fault("net-lost-response-" + f["how"])
            self.out = [None if f["how"] == "eof" else _error(f["how"])]
            req.delivered = False
        elif k == "cut":
            at = int(f["at"] * len(whole))
            at = min(at, len(whole) - 1)
            how = f["how"]
            if how == "eof" and 0 < at < len(head):
                how = "reset"  # http.client takes the end of the stream for the end of the headers
            net.ctx.fault("net-cut-" + how)
            self.out = [whole[:at]] if at else []
            self.out.append(None if how == "eof" else _error(how))
            req.delivered = False
            # A response can be complete to the reader though its last bytes are missing.
            if how == "eof" and resp.framing == "close":
                req.maybe = True
            elif resp.framing == "chunked" and at >= len(whole) - 4 and at >= len(head):
                req.maybe = True
        else:
            req.delivered = True
            self.out = [whole]
            if not keep:
                self.out.append(None)


class _Raw(io.RawIOBase):
    def __init__(self, conn):
        self.conn = conn

    def readable(self):
        return True

    def readinto(self, b):
        data = self.conn.recv(len(b))
        b[:len(data)] = data
        return len(data)


class SimSocket:
    def __init__(self, conn):
        self.conn = conn
        self._timeout = None
        self._open = True

    def sendall(self, data, flags=0):
        if not self._open:
            raise OSError(errno.EBADF, "closed socket")
        self.conn.sendall(data)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        return self.conn.recv(n)

    def recv_into(self, b, n=0, flags=0):
        data = self.conn.recv(n or len(b))
        b[:len(data)] = data
        return len(data)

    def makefile(self, mode="r", buffering=None, **k):
        if "b" not in mode or "r" not in mode:
            raise HarnessError("makefile " + mode)
        return io.BufferedReader(_Raw(self.conn), 4096)

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ("192.0.2.1", 80)

    def getsockname(self):
        return ("192.0.2.2", 40000)

    def shutdown(self, how):
        pass

    def close(self):
        self._open = False

    def fileno(self):
        return -1

    def readable_now(self):
        return bool(self.conn.out) or self.conn.closed


class Net:
    def __init__(self):
        self.reset(None, None)

    def reset(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.servers = {}
        self.calls = {}
        self.served, self.unserved = [], []
        self.connections = 0
        self.sizes = [65536]

    def serve(self, host, port, server):
        self.servers[(host, port)] = server

    def begin(self, call, faults):
        self.calls[threading.get_ident()] = {"call": call, "faults": list(faults), "attempts": 0}

    def end(self):
        return self.calls.pop(threading.get_ident(), None)

    def current(self):
        c = self.calls.get(threading.get_ident())
        return None if c is None else c["call"]

    def next_fault(self, first, fresh):
        c = self.calls.get(threading.get_ident())
        if c is None or not c["faults"]:
            return None
        if c["faults"][0].get("k") == "stale" and fresh:
            c["faults"].pop(0)  # only a kept-alive connection can be stale
            return None
        return c["faults"].pop(0)

    def tick(self, s):
        from . import world

        world.clock.now += s
        if self.ctx is not None:
            self.ctx.simtime += s

    def chunk(self):
        return self.sizes[0] if len(self.sizes) == 1 else self.rng.choice(self.sizes)

    def connect(self, host, port):
        sched.yield_point()
        self.tick(0.002)
        self.connections += 1
        c = self.calls.get(threading.get_ident())
        f = c["faults"][0] if c and c["faults"] else {}
        k = f.get("k")
        if k in ("refuse", "dns", "ctimeout", "unreachable"):
            c["faults"].pop(0)
            self.ctx.fault("net-" + k)
            if k == "dns":
                raise socket.gaierror(socket.EAI_NONAME, "Name or service not known (injected)")
            raise {"refuse": ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused (injected)"),
                   "ctimeout": OSError(errno.ETIMEDOUT, "Connection timed out (injected)"),
                   "unreachable": OSError(errno.EHOSTUNREACH, "No route to host (injected)")}[k]
        server = self.servers.get((host.strip("[]"), port))
        if server is None:
            raise socket.gaierror(socket.EAI_NONAME, f"Name or service not known: {host}:{port}")
        return SimSocket(Conn(self, server))


net = Net()
_installed = False


def install():
    """From here on, every TCP connection of this process is simulated."""
    global _installed
    if _installed:
        return
    _installed = True
    for k in list(os.environ):  # no proxies, no credentials of whoever runs this
        if k.lower().endswith("_proxy") or k == "NETRC":
            del os.environ[k]

    def create_connection(address, *a, **k):
        return net.connect(address[0], address[1])

    urllib3.util.connection.create_connection = create_connection
    socket.create_connection = create_connection
    real_wait = urllib3.connection.wait_for_read

    def wait_for_read(sock, timeout=None):
        if isinstance(sock, SimSocket):
            return sock.readable_now()
        return real_wait(sock, timeout)

    urllib3.connection.wait_for_read = wait_for_read


HOWS = ["reset", "eof", "timeout"]


def gen_fault(rng, kinds=None):
    k = rng.choice(kinds or ["refuse", "dns", "ctimeout", "unreachable", "send", "send", "lost", "lost", "lost", "cut", "cut", "cut",
                             "garbage", "stall", "stale"])
    if k == "send":
        return {"k": k, "at": rng.choice([0.0, rng.random(), rng.random(), 1.0, 1.0]), "how": rng.choice(["reset", "pipe"]),
                "act": rng.random() < 0.6}
    if k == "lost":
        return {"k": k, "act": rng.random() < 0.6, "how": rng.choice(HOWS)}
    if k == "cut":
        return {"k": k, "at": rng.choice([0.0, rng.random(), rng.random(), rng.random(), 0.97, 1.0]), "how": rng.choice(HOWS)}
    if k == "garbage":
        return {"k": k, "what": rng.choice(["", "\r\n\r\n", "hello", "HTTP/9.9\r\n", "HTTP/1.1 abc\r\n\r\n", "SSH-2.0-x\r\n",
                                            "HTTP/1.1 200 OK\r\nContent-Length: 10\r\n"])}
    if k == "stall":
        return {"k": k, "s": rng.choice([1, 30, 600, 86400])}
    if k == "stale":
        return {"k": k, "how": rng.choice(["reset", "eof"])}
    return {"k": k}
