"""A faked network below http.client: every connection the real code opens is answered by a scripted server.
Nothing leaves the process, and what the code sends is recorded as raw bytes."""
import contextlib
import http.client
import io
import socket
import urllib.request


class Body(io.RawIOBase):
    def __init__(self, data, fault):
        self.data, self.fault, self.pos = data, fault, 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.pos >= len(self.data):
            if self.fault is not None:
                raise self.fault
            return 0
        n = min(len(b), len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    """what a server sends: raw bytes, then end of stream or a fault"""
    def __init__(self, net, host, data, fault):
        self.net, self.host, self.data, self.fault, self.sent = net, host, data, fault, b""

    def sendall(self, data):
        self.sent += bytes(data)

    def makefile(self, *a, **k):
        self.net.log.append((self.host, self.sent))
        return io.BufferedReader(Body(self.data, self.fault), 1)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        pass


class Net:
    """answer(host, nth) -> ('connect', exception) | ('send', raw bytes, exception or None)"""
    def __init__(self, answer):
        self.answer = answer
        self.tried = []
        self.log = []

    @contextlib.contextmanager
    def installed(self):
        net = self

        def connect(conn):
            n = len(net.tried)
            net.tried.append(conn.host)
            a = net.answer(conn.host, n)
            if a[0] == "connect":
                raise a[1]
            conn.sock = Sock(net, conn.host, a[1], a[2])
        saved = [(c, c.connect) for c in (http.client.HTTPConnection, http.client.HTTPSConnection)]
        opener = urllib.request._opener
        proxies = urllib.request.getproxies
        create = socket.create_connection

        def forbidden(*a, **k):
            raise AssertionError("the code opened a connection on its own")
        try:
            for c, _ in saved:
                c.connect = connect
            urllib.request._opener = None
            urllib.request.getproxies = lambda: {}
            socket.create_connection = forbidden
            yield self
        finally:
            for c, f in saved:
                c.connect = f
            urllib.request._opener = opener
            urllib.request.getproxies = proxies
            socket.create_connection = create


def http_response(code, body, reason="x", length=None, chunked=False):
    head = "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nConnection: close\r\n" % (code, reason)
    if chunked:
        head += "Transfer-Encoding: chunked\r\n\r\n"
        return head.encode() + b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 7]), body[i:i + 7]) for i in range(0, len(body), 7)) + b"0\r\n\r\n"
    if code != 204:
        head += "Content-Length: %d\r\n" % (len(body) if length is None else length)
    return head.encode() + b"\r\n" + body


def request_of(raw):
    """(method, target, headers, body) of a recorded request"""
    head, _, body = raw.partition(b"\r\n\r\n")
    lines = head.decode("latin-1").split("\r\n")
    method, target, _ = lines[0].split(" ")
    return method, target, {k.lower(): v.strip() for k, _, v in (l.partition(":") for l in lines[1:])}, body
