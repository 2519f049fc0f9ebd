"""Simulated network: a fake TCP/TLS client socket and the servers behind it.

The process under test runs the real requests / urllib3 / http.client code on
top of `SimSocket`; every connect, send and recv is a request to the scheduler,
which holds the servers and decides segmentation, delay and failure.
"""
import gzip
import io
import json
import socket


# ------------------------------------------------------------ client side
class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock.recv(len(b))
        b[:len(d)] = d
        return len(d)

    def fileno(self):
        return self.sock.fileno()


class SimSocket:
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 6

    def __init__(self, seam, host, port, timeout):
        self.seam, self.host, self.port, self.t = seam, host, port, timeout
        self.fd = socket.socketpair()     # something selectable that is never readable
        self.cid = self._do("connect", host, port)

    def _do(self, op, *a):
        r = self.seam.call("net", op, *a, self.t)
        if isinstance(r, tuple) and r and r[0] == "err":
            k = r[1]
            if k == "refused":
                raise ConnectionRefusedError(111, "Connection refused")
            if k == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if k == "dns":
                raise socket.gaierror(-2, "Name or service not known")
            if k == "unreach":
                raise OSError(113, "No route to host")
            raise TimeoutError("timed out")
        return r

    def settimeout(self, t):
        self.t = t

    def gettimeout(self):
        return self.t

    def setblocking(self, f):
        self.t = None if f else 0.0

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return (self.host, self.port)

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def fileno(self):
        return self.fd[0].fileno()

    def send(self, data, flags=0):
        self._do("send", self.cid, bytes(data))
        return len(data)

    def sendall(self, data, flags=0):
        self._do("send", self.cid, bytes(data))

    def recv(self, n, flags=0):
        return self._do("recv", self.cid, n)

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def makefile(self, mode="r", buffering=None, **k):
        raw = _Raw(self)
        if "b" in mode:
            return io.BufferedReader(raw, buffering if buffering and buffering > 1 else 8192)
        return io.TextIOWrapper(io.BufferedReader(raw))

    def shutdown(self, how):
        pass

    def close(self):
        for s in self.fd:
            s.close()

    def getpeercert(self, binary_form=False):
        return None

    def version(self):
        return "TLSv1.3"

    def detach(self):
        return self.fd[0].detach()


def install(seam):
    """Replace the bottom of the network stack of this process."""
    import http.client
    import urllib3.connection
    import urllib3.util.connection

    def create(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **k):
        t = socket.getdefaulttimeout() if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout
        if not isinstance(t, (int, float, type(None))):
            t = None
        return SimSocket(seam, address[0], address[1], t)
    socket.create_connection = create
    urllib3.util.connection.create_connection = create
    urllib3.connection.connection.create_connection = create

    def connect(self):
        t = self.timeout
        self.sock = create((getattr(self, "_dns_host", self.host), self.port), t)
        self.is_verified = True
        if hasattr(self, "_has_connected_to_proxy"):
            self._has_connected_to_proxy = False
    urllib3.connection.HTTPSConnection.connect = connect
    http.client.HTTPSConnection.connect = connect

    def deny(*a, **k):
        raise OSError(101, "Network is unreachable")
    socket.socket.connect = deny


# ------------------------------------------------------------ server side
class Servers:
    """All hosts of the simulated internet; `routes` maps URL -> (kind, value)."""

    def __init__(self, routes, rng, faults, style):
        self.routes, self.rng, self.faults, self.style = routes, rng, faults, style
        self.conns = {}
        self.n = 0              # network operations so far
        self.reqs = 0           # requests so far
        self.log = []           # (method, url, process)
        self.who = 0
        self.fired = []

    def down(self):
        """Connections die with the process."""
        self.conns = {}

    def op(self, q, advance):
        """One network operation of the simulated process -> reply."""
        self.n += 1
        kind = q[0]
        tmo = q[-1]
        f = self._due("net", self.n)
        if f is not None:
            r = self._fail(f, kind, q, tmo, advance)
            if r is not None:
                return r
        if kind == "connect":
            cid = len(self.conns) + 1000 * self.n
            self.conns[cid] = {"host": q[1], "port": q[2], "in": b"", "out": b"", "end": None}
            return cid
        c = self.conns[q[1]]
        if kind == "send":
            if c["end"] == "reset":
                return ("err", "reset")
            c["in"] += q[2]
            while b"\r\n\r\n" in c["in"]:
                head, c["in"] = c["in"].split(b"\r\n\r\n", 1)
                self._respond(c, head.decode("latin-1"))
            return len(q[2])
        # recv
        if c["out"]:
            n = q[2]
            if self.style == "drip":
                n = min(n, self.rng.randint(1, 1500))
            elif self.style == "mixed":
                n = min(n, self.rng.choice([1, 100, 1460, 8192, 65536]))
            elif self.style == "slow":
                n = min(n, 8192)
                advance(self.rng.random() * 20.0)
            b, c["out"] = c["out"][:n], c["out"][n:]
            return b
        if c["end"] == "reset":
            return ("err", "reset")
        if c["end"] == "stall":
            advance(tmo if tmo else 7200.0)
            return ("err", "timeout") if tmo else ("err", "reset")
        return b""

    def _due(self, what, n):
        for f in self.faults:
            if f.get(what) == n and not f.get("done"):
                f["done"] = True
                return f
        return None

    def _fail(self, f, kind, q, tmo, advance):
        a = f["act"]
        self.fired.append(f"{a}@{kind}")
        if kind == "connect":
            if a in ("refused", "dns", "unreach"):
                return ("err", a)
            advance(tmo if tmo else 130.0)
            return ("err", "timeout")
        c = self.conns[q[1]]
        c["out"] = b""
        c["end"] = {"eof": "eof", "stall": "stall"}.get(a, "reset")
        if kind == "send":
            return ("err", "reset") if c["end"] == "reset" else None
        return None

    def _respond(self, c, head):
        lines = head.split("\r\n")
        method, path, _ = lines[0].split(" ", 2)
        hdrs = {k.strip().lower(): v.strip() for k, v in (x.split(":", 1) for x in lines[1:])}
        url = f"{'https' if c['port'] == 443 else 'http'}://{c['host']}{path}"
        self.reqs += 1
        self.log.append((method, url, self.who))
        kind, val = self.routes.get(url, ("status", 404))
        f = self._due("req", self.reqs)
        cut = None
        if f is not None:
            a = f["act"]
            self.fired.append(a if isinstance(a, str) else f"http{a}")
            if isinstance(a, int):
                kind, val = "status", a
            else:
                cut = f
        body, extra, status = b"", [], "200 OK"
        if kind == "status":
            status = f"{val} Error"
            body = json.dumps({"message": "no"}).encode()
        elif kind == "redirect":
            status = "302 Found"
            extra = ["Location: " + val]
        elif kind == "json":
            body = json.dumps(val).encode()
        else:
            body = val
            extra = ["Last-Modified: Tue, 07 Mar 2023 10:11:12 GMT", "Accept-Ranges: bytes"]
        if kind == "bytes" and "range" in hdrs and hdrs["range"].startswith("bytes="):
            a, _, b = hdrs["range"][6:].partition("-")
            if a.isdigit():
                lo = int(a)
                hi = int(b) if b.isdigit() else len(body) - 1
                if lo >= len(body):
                    status, body = "416 Range Not Satisfiable", b""
                else:
                    extra.append(f"Content-Range: bytes {lo}-{hi}/{len(body)}")
                    status, body = "206 Partial Content", body[lo:hi + 1]
        enc = self.rng.choice(["length", "length", "chunked", "gzip"])
        if enc == "gzip" and "gzip" in hdrs.get("accept-encoding", "") and status.startswith("200"):
            body = gzip.compress(body, 1, mtime=0)
            extra.append("Content-Encoding: gzip")
        if enc == "chunked":
            extra.append("Transfer-Encoding: chunked")
            out, k = b"", 0
            while k < len(body):
                m = self.rng.randint(1, 40000)
                ch = body[k:k + m]
                out += b"%x\r\n%s\r\n" % (len(ch), ch)
                k += m
            wire = out + b"0\r\n\r\n"
        else:
            extra.append(f"Content-Length: {len(body)}")
            wire = body
        if method == "HEAD":
            wire = b""
        full = ("HTTP/1.1 " + status + "\r\n" + "\r\n".join(extra + ["Connection: close"]) + "\r\n\r\n").encode()
        h = len(full)
        full += wire
        if cut is not None:
            # the connection fails at this point of the response
            if kind == "json" and cut["where"] == "head":
                # not one of the waveform's files; a header cut here poisons sxs's own catalogue cache
                cut = dict(cut, at=0.0)
            at = h + int(cut["at"] * (len(wire) - 1)) if cut["where"] == "body" and wire else int(cut["at"] * h)
            full = full[:at]
            c["end"] = {"eof": "eof", "stall": "stall"}.get(cut["act"], "reset")
        else:
            c["end"] = "eof"
        c["out"] += full
