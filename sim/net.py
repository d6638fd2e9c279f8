"""Simulated network: `socket.create_connection` gives simulated stream sockets talking to simulated HTTP servers.

http.client runs for real on top; requests are parsed by the simulated server, which answers through a fault layer:
refused connections, resets before / inside a response, premature end of a body, delayed segments, stalls that exceed
the socket time-out, idle keep-alive closes.
"""
import gzip
import io
import socket
import zlib

from . import core

CRLF = b"\r\n"
NET = None


class Response:
    def __init__(self, status=200, headers=None, body=b"", framing="length", reason="OK", close=False):
        self.status = status
        self.headers = dict(headers or {})
        self.body = body
        self.framing = framing  # length | chunked
        self.reason = reason
        self.close = close


class SimSocket:
    def __init__(self, net, addr, timeout):
        self.net = net
        self.addr = addr
        self.timeout = timeout
        self.rx = bytearray()  # delivered to the client
        self.segs = []  # (time, bytes | None (eof) | "rst")
        self.eof = False
        self.rst = False
        self.closed = False
        self.tx = bytearray()
        self.waiters = []
        self.peer_closed = False
        self.nreq = 0
        self.last = core.SIM.now
        net.nsock += 1
        self.id = net.nsock
        self.io_users = set()
        self._refs = 0

    # ---- client side api used by http.client
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def setblocking(self, b):
        pass

    def fileno(self):
        return -1

    def getpeername(self):
        return self.addr

    def shutdown(self, how=None):
        pass

    def detach(self):
        return -1

    def makefile(self, mode="r", buffering=None, **kw):
        self._refs += 1
        return SockFile(self)

    def close(self):
        if not self.closed:
            self.closed = True
            core.SIM.event(f"net close s{self.id}")
            self.net.on_close(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def sendall(self, data, flags=0):
        s = core.SIM
        s.yield_point("net")
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        self._deliver()
        if self.rst or self.peer_closed:
            # writing to a connection closed by the peer
            self.rst = True
            raise BrokenPipeError(32, "Broken pipe") if self.nreq % 2 else ConnectionResetError(104, "reset by peer")
        if self.net._draw("send", ["reset-send"]):
            self.rst = True
            self.peer_closed = True
            raise BrokenPipeError(32, "Broken pipe") if self.nreq % 2 else ConnectionResetError(104, "reset by peer")
        self.tx += bytes(data)
        self.net.on_data(self)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _deliver(self):
        now = core.SIM.now
        while self.segs and self.segs[0][0] <= now:
            _, d = self.segs.pop(0)
            if d is None:
                self.eof = True
                self.peer_closed = True
            elif d == "rst":
                self.rst = True
                self.rx.clear()
            else:
                self.rx += d

    def recv_some(self, n):
        """blocks for at least one byte; b'' at end of stream"""
        s = core.SIM
        s.yield_point("net")
        end = None if self.timeout is None else s.now + self.timeout
        while True:
            if self.closed and self._refs <= 0:
                raise OSError(9, "Bad file descriptor")
            self._deliver()
            if self.rx:
                d = bytes(self.rx[:n])
                del self.rx[:n]
                return d
            if self.rst:
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.eof:
                return b""
            nxt = self.segs[0][0] if self.segs else None
            rem = None if end is None else end - s.now
            if rem is not None and rem <= 0:
                s.count("net-timeout")
                raise socket.timeout("timed out")
            w = rem
            if nxt is not None:
                w = nxt - s.now if w is None else min(w, nxt - s.now)
            s.block(f"recv s{self.id}", w)

    def recv(self, n, flags=0):
        return self.recv_some(n)

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv_some(nbytes or len(b))
        b[:len(d)] = d
        return len(d)


class SockFile:
    """pure python buffered reader over a simulated socket (same read-ahead behaviour as socket.makefile('rb'))"""
    BUF = 8192

    def __init__(self, sock):
        self.sock = sock
        self.buf = bytearray()
        self.closed = False

    def _fill(self):
        d = self.sock.recv_some(self.BUF)
        self.buf += d
        return len(d)

    def readline(self, limit=-1):
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                n = i + 1
                if 0 <= limit < n:
                    n = limit
                break
            if 0 <= limit <= len(self.buf):
                n = limit
                break
            if not self._fill():
                n = len(self.buf)
                break
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def read(self, n=-1):
        if n is None or n < 0:
            while self._fill():
                pass
            d = bytes(self.buf)
            self.buf.clear()
            return d
        while len(self.buf) < n:
            if not self._fill():
                break
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def read1(self, n=-1):
        if not self.buf:
            self._fill()
        if n is None or n < 0:
            n = len(self.buf)
        d = bytes(self.buf[:n])
        del self.buf[:n]
        return d

    def peek(self, n=0):
        if not self.buf:
            self._fill()
        return bytes(self.buf)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readinto1(self, b):
        d = self.read1(len(b))
        b[:len(d)] = d
        return len(d)

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.sock._refs -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Request:
    def __init__(self, method, target, headers, body, sock):
        self.method = method
        self.target = target
        self.headers = headers
        self.body = body
        self.sock = sock
        self.at = core.SIM.now
        self.event = core.SIM.nlog
        self.host = sock.addr[0]
        self.port = sock.addr[1]
        self.id = None
        self.task = core.SIM.current
        self.fault = None
        self.response = None


class SimNet:
    """handler(request) -> Response; faults drawn from the decision stream N"""

    FAULTS = ["none", "refuse", "reset-before", "reset-mid", "eof-mid", "slow", "stall", "close-after", "eof-before"]

    def __init__(self, handler):
        self.handler = handler
        self.nsock = 0
        self.nconn = 0
        self.requests = []
        self.p_fault = 0.0
        self.enabled = set()
        self.max_faults = 3
        self.nfaults = 0
        self.open_socks = []
        self.latency = 0.001
        self.idle_close = 0.0
        self.hosts = None
        self.seg_mode = 0

    def faults_on(self, p, kinds, budget):
        self.p_fault = p
        self.enabled = set(kinds)
        self.max_faults = budget
        self.nfaults = 0

    def faults_off(self):
        self.p_fault = 0.0

    def _draw(self, at, kinds):
        s = core.SIM
        kinds = [k for k in kinds if k in self.enabled]
        if not kinds or self.p_fault <= 0 or self.nfaults >= self.max_faults:
            return None
        k = s.dec.rare("N", len(kinds) + 1, self.p_fault)
        if not k:
            return None
        self.nfaults += 1
        f = kinds[k - 1]
        s.count(f"net-{f}")
        s.event(f"FAULT net {f} at {at}")
        return f

    def connect(self, address, timeout):
        s = core.SIM
        s.yield_point("net")
        self.nconn += 1
        s.event(f"net connect {address}")
        if self.hosts is not None and address[0] not in self.hosts:
            raise socket.gaierror(-2, "Name or service not known")
        f = self._draw("connect", ["refuse", "connect-timeout"])
        if f == "refuse":
            raise ConnectionRefusedError(111, "Connection refused")
        if f == "connect-timeout":
            if timeout:
                s.sleep(timeout)
            raise socket.timeout("timed out")
        sk = SimSocket(self, address, timeout)
        self.open_socks.append(sk)
        return sk

    def on_close(self, sk):
        if sk in self.open_socks:
            self.open_socks.remove(sk)

    def maybe_idle_close(self):
        """the servers may drop idle keep-alive connections"""
        for sk in list(self.open_socks):
            if not sk.segs and not sk.tx and not sk.peer_closed:
                if self._draw(f"idle s{sk.id}", ["idle-close"]):
                    sk.segs.append((core.SIM.now, None))

    def on_data(self, sk):
        while True:
            i = sk.tx.find(b"\r\n\r\n")
            if i < 0:
                return
            head = bytes(sk.tx[:i]).decode("latin1").split("\r\n")
            method, target, _ = head[0].split(" ", 2)
            headers = {}
            for h in head[1:]:
                k, v = h.split(":", 1)
                headers[k.strip().lower()] = v.strip()
            n = int(headers.get("content-length", "0"))
            if headers.get("transfer-encoding", "") == "chunked":
                rest = bytes(sk.tx[i + 4:])
                body, used = _dechunk(rest)
                if body is None:
                    return
                total = i + 4 + used
            else:
                total = i + 4 + n
                if len(sk.tx) < total:
                    return
                body = bytes(sk.tx[i + 4:total])
            del sk.tx[:total]
            sk.nreq += 1
            rq = Request(method, target, headers, body, sk)
            rq.id = len(self.requests)
            self.requests.append(rq)
            core.SIM.event(f"net request #{rq.id} s{sk.id} {method} {target}")
            self.respond(sk, rq)

    def respond(self, sk, rq):
        s = core.SIM
        f = self._draw("request", ["reset-before", "eof-before", "reset-mid", "eof-mid", "slow", "stall", "close-after",
                                   "http-503", "http-500", "http-202", "http-206"])
        t = max(s.now, sk.segs[-1][0] if sk.segs else 0) + self.latency
        rq.fault = f
        if f == "reset-before":
            sk.segs.append((t, "rst"))
            sk.peer_closed = True
            return
        if f == "eof-before":
            sk.segs.append((t, None))
            return
        if f in ("http-503", "http-500"):
            resp = Response(int(f[-3:]), {"Content-Type": "text/plain"}, b"busy " * s.dec.choose("N", 4000), reason="Busy")
        elif f == "http-202":
            resp = Response(202, {"Content-Type": "text/plain"}, b"accepted, come back later", reason="Accepted")
        else:
            resp = self.handler(rq)
            if f == "http-206" and resp.status == 200 and len(resp.body) > 1 and rq.method == "GET":
                # a part of the content that nobody asked for
                resp.status, resp.reason = 206, "Partial Content"
                resp.body = resp.body[:1 + s.dec.choose("N", len(resp.body) - 1)]
        rq.response = resp
        data = encode(resp, rq)
        cut = None
        if f in ("reset-mid", "eof-mid"):
            lo = data.find(b"\r\n\r\n") + 4
            mode = s.dec.choose("N", 4)
            if mode == 0 and len(data) > lo:
                cut = lo + s.dec.choose("N", len(data) - lo)  # inside the body
            elif mode == 1:
                cut = lo
            elif mode == 2 and len(data) > lo:
                cut = len(data) - 1
            else:
                cut = s.dec.choose("N", len(data))
            if f == "eof-mid":
                # http.client accepts an orderly end of stream inside the header block as the end of the headers;
                # servers closing a connection between two header bytes are outside of the fault model
                cut = max(cut, lo)
            data = data[:cut]
        # segments
        k = s.dec.choose("N", 4) if self.seg_mode else 0
        if k == 0 or len(data) < 4:
            parts = [data]
        elif k == 1:
            hd = data.find(b"\r\n\r\n") + 4
            parts = [data[:hd], data[hd:]]
        else:
            step = max(1, len(data) // (k + 2))
            parts = [data[i:i + step] for i in range(0, len(data), step)]
        gap = 0.0005
        if f == "slow":
            gap = 1.0 + s.dec.choose("N", 5)
        if f == "stall":
            t += 60.0
        for p in parts:
            if p:
                sk.segs.append((t, p))
                t += gap
        if f == "reset-mid":
            sk.segs.append((t, "rst"))
        elif f in ("eof-mid", "close-after") or resp.close:
            sk.segs.append((t, None))
        self.wake(sk)

    def wake(self, sk):
        pass


def encode(resp, rq):
    body = resp.body
    h = dict(resp.headers)
    if resp.status in (304, 204) or rq.method == "HEAD":
        body = b""
    lines = [f"HTTP/1.1 {resp.status} {resp.reason}"]
    if resp.status not in (304, 204):
        if resp.framing == "chunked":
            h["Transfer-Encoding"] = "chunked"
            out = bytearray()
            step = max(1, len(body) // 3 + 1)
            for i in range(0, len(body), step):
                c = body[i:i + step]
                out += b"%x\r\n" % len(c) + c + CRLF
            out += b"0\r\n\r\n"
            body = bytes(out)
        else:
            h["Content-Length"] = str(len(body))
    if resp.close:
        h["Connection"] = "close"
    for k, v in h.items():
        lines.append(f"{k}: {v}")
    return ("\r\n".join(lines) + "\r\n\r\n").encode("latin1") + body


def _dechunk(b):
    out = bytearray()
    i = 0
    while True:
        j = b.find(CRLF, i)
        if j < 0:
            return None, 0
        n = int(b[i:j].split(b";")[0], 16)
        if len(b) < j + 2 + n + 2:
            return None, 0
        out += b[j + 2:j + 2 + n]
        i = j + 2 + n + 2
        if n == 0:
            return bytes(out), i


_real_create = socket.create_connection


def _sim_create_connection(address, timeout=None, source_address=None, **kw):
    if NET is not None and core._in_sim():
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = None
        return NET.connect(address, timeout)
    raise OSError("no network in the simulation")


def install():
    import ssl
    import http.client
    socket.create_connection = _sim_create_connection
    ssl.SSLContext.wrap_socket = lambda self, sock, *a, **k: sock
    # http.client binds self._create_connection = socket.create_connection at construction: patched attribute is used


def attach(handler):
    global NET
    NET = SimNet(handler)
    return NET


def detach():
    global NET
    NET = None
