"""A scripted network under the real http.client / urllib stack.

Only the connection is replaced: requests are parsed as they leave
HTTPConnection, responses are delivered as raw bytes, so redirects, content
lengths, chunking, short bodies and resets are handled by the real library."""
import contextlib
import http.client
import io
import os
import socket
import ssl
import urllib.request


class Resp:
    """One scripted answer.

    body: full body; cut: deliver only the first `cut` bytes of the body and
    then close (or reset); clen: announce Content-Length; chunked: use chunked
    transfer encoding (cut then counts bytes of the payload)."""

    def __init__(self, body=b"", status=200, headers=(), clen=True, chunked=False,
                 cut=None, reset=False, refused=False, drop_header=False):
        self.body, self.status, self.headers = body, status, list(headers)
        self.clen, self.chunked, self.cut = clen, chunked, cut
        self.reset, self.refused, self.drop_header = reset, refused, drop_header

    def stream(self):
        if self.drop_header:
            return b""
        h = [f"HTTP/1.1 {self.status} X"]
        if self.chunked:
            h.append("Transfer-Encoding: chunked")
        elif self.clen:
            h.append(f"Content-Length: {len(self.body)}")
        h.append("Connection: close")
        h += [f"{k}: {v}" for k, v in self.headers]
        head = ("\r\n".join(h) + "\r\n\r\n").encode()
        body = self.body if self.cut is None else self.body[: self.cut]
        if self.chunked:
            out = b""
            for i in range(0, len(body), 1000):
                c = body[i:i + 1000]
                out += b"%x\r\n" % len(c) + c + b"\r\n"
            if self.cut is None:
                out += b"0\r\n\r\n"
            body = out
        return head + body


class _Raw(io.RawIOBase):
    def __init__(self, data, reset):
        self.data, self.pos, self.reset = data, 0, reset

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if n == 0 and self.reset:
            raise ConnectionResetError(104, "Connection reset by peer")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class FakeSock:
    def __init__(self, net, scheme, host):
        self.net, self.scheme, self.host = net, scheme, host
        self.buf = b""

    def sendall(self, data):
        self.buf += bytes(data)

    def send(self, data):
        self.buf += bytes(data)
        return len(data)

    def makefile(self, mode="r", *a, **k):
        head = self.buf.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        method, path, _ = head[0].split(" ")
        headers = {}
        for line in head[1:]:
            k_, v = line.split(":", 1)
            headers[k_.strip().lower()] = v.strip()
        resp = self.net.answer(dict(method=method, scheme=self.scheme, host=self.host, path=path, headers=headers))
        return io.BufferedReader(_Raw(resp.stream(), resp.reset))

    def close(self):
        pass

    def shutdown(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def gettimeout(self):
        return None

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1


class Net:
    """routes: url -> Resp or list of Resp (consumed in order, last repeats)"""

    def __init__(self, routes):
        self.routes = {k: (list(v) if isinstance(v, (list, tuple)) else [v]) for k, v in routes.items()}
        self.log = []
        self.raw = []
        self.connects = []

    def answer(self, req):
        self.log.append(req)
        url = f"{req['scheme']}://{req['host']}{req['path']}"
        rs = self.routes.get(url)
        if rs is None:
            return Resp(b"not found", status=404)
        return rs.pop(0) if len(rs) > 1 else rs[0]

    def refused(self, scheme, host):
        for url, rs in self.routes.items():
            if url.startswith(f"{scheme}://{host}/") and rs and rs[0].refused:
                self.connects.append(host)
                return True
        return False

    @contextlib.contextmanager
    def installed(self):
        net = self

        def connect(conn, scheme):
            if net.refused(scheme, conn.host):
                raise ConnectionRefusedError(111, "Connection refused")
            conn.sock = FakeSock(net, scheme, conn.host)

        def sockfail(*a, **k):
            net.raw.append(repr(a)[:200])
            raise ConnectionRefusedError(111, "Connection refused")

        saved = [
            (http.client.HTTPConnection, "connect", http.client.HTTPConnection.connect),
            (http.client.HTTPSConnection, "connect", http.client.HTTPSConnection.connect),
            (socket, "create_connection", socket.create_connection),
            (socket, "getaddrinfo", socket.getaddrinfo),
            (ssl.SSLContext, "load_default_certs", ssl.SSLContext.load_default_certs),
        ]
        env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}
        http.client.HTTPConnection.connect = lambda c: connect(c, "http")
        http.client.HTTPSConnection.connect = lambda c: connect(c, "https")
        ssl.SSLContext.load_default_certs = lambda *a, **k: None  # no TLS is spoken; loading is slow
        socket.create_connection = sockfail
        socket.getaddrinfo = sockfail
        opener = urllib.request._opener
        urllib.request._opener = None
        try:
            yield self
        finally:
            for o, n, v in saved:
                setattr(o, n, v)
            os.environ.update(env)
            urllib.request._opener = opener
            with contextlib.suppress(Exception):
                urllib.request.urlcleanup()


def urls(net):
    return [f"{r['scheme']}://{r['host']}{r['path']}" for r in net.log]
