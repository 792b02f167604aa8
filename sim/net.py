"""Simulated network: the sockets below the real requests/urllib3/http.client stack.

A Server answers requests from its pages; every request takes the next entry of a script that says how the response is sent
(with a length, in chunks, compressed, after a redirect, slowly, ended by closing the connection) and what goes wrong (refused,
name not found, timeouts, resets or closed connections at any byte, error statuses, garbage). Time is simulated."""
import gzip
import io
import socket
from urllib.parse import urlsplit

FINE = ["length", "chunked", "gzip", "gzip-chunked", "redirect", "slow", "close", "pieces"]
BROKEN = ["refused", "no-such-host", "connect-timeout", "reset-early", "eof-early", "stall-early", "reset-mid", "eof-mid", "stall-mid", "404", "403", "429", "500", "503", "garbage", "redirect-loop", "redirect-broken"]
FRAMES = ["length", "chunked", "gzip", "gzip-chunked"]  # framings that tell a complete body from a cut one


class Server:
    def __init__(self):
        self.pages = {}  # url -> bytes
        self.script = []  # one entry per request to come
        self.requests = []  # urls asked for (redirect targets excluded)
        self.failed = []  # whether each of them failed
        self.now = 0.0
        self.following = False  # the next connection follows a redirect

    def reply(self, host, port, request):
        line = request.split(b"\r\n", 1)[0].decode()
        method, target, _ = line.split(" ")
        url = f"{'https' if port == 443 else 'http'}://{host}{target}"
        if target.startswith("/moved/"):
            how = self.moved
            url = self.moved_url
            if how["mode"] == "redirect-loop":
                self.following = True
                return _head(302, {"Location": target + "x"}), None, how
        else:
            how = self.current
            self.requests.append(url)
            self.failed.append(how["mode"] in BROKEN)
            if how["mode"] in ("redirect", "redirect-loop", "redirect-broken"):
                self.moved, self.moved_url = {**how, "mode": {"redirect": "length", "redirect-loop": "redirect-loop", "redirect-broken": "eof-mid"}[how["mode"]]}, url
                self.following = True
                return _head(302, {"Location": f"/moved/{len(self.requests)}"}), None, {**how, "mode": "length"}
        if how["mode"].isdigit():
            return _head(int(how["mode"]), {"Content-Length": "9"}) + b"no luck\r\n", None, how
        if url not in self.pages:
            return _head(404, {"Content-Length": "0"}), None, how
        if how["mode"] == "garbage":
            return b"\x00\xffnot http at all\r\n\r\n" + self.pages[url], None, how
        body, headers = self.pages[url], {}
        frame = how["mode"] if how["mode"] in FRAMES + ["close"] else how["frame"]
        if frame.startswith("gzip"):
            body = gzip.compress(body, mtime=0)
            headers["Content-Encoding"] = "gzip"
        if frame.endswith("chunked"):
            headers["Transfer-Encoding"] = "chunked"
            n = max(1, len(body) // 3)
            body = b"".join(b"%x\r\n%s\r\n" % (len(body[k:k + n]), body[k:k + n]) for k in range(0, len(body), n)) + b"0\r\n\r\n"
        elif frame != "close":
            headers["Content-Length"] = str(len(body))
        head = _head(200, headers)
        cut = None
        if how["mode"].endswith("-mid"):
            # (without the end mark of the last chunk alone, nothing of the body is missing)
            room = len(body) - (len(b"0\r\n\r\n") if frame.endswith("chunked") else 1)
            cut = len(head) + how["at"] * room // 1000 if room > 0 or (room == 0 and frame == "length") else 0
        elif how["mode"] in ("reset-early", "eof-early", "stall-early"):
            # a connection closed inside the head is only recognisable within the status line
            cut = how["at"] * (len(head) - 3 if how["mode"] != "eof-early" else 11) // 1000 if how["at"] > 500 else 0
        return head + body, cut, how

    # ---- the connection
    def connect(self, address, timeout=None, **kwargs):
        host, port = address
        how = self.script.pop(0) if self.script and not self.following else None
        self.following = False
        if how is not None:
            self.current = how
        else:
            how = {"mode": "length"}
        m = how["mode"]
        if m in ("refused", "no-such-host", "connect-timeout"):
            self.requests.append("?")
            self.failed.append(True)
            if m == "refused":
                raise ConnectionRefusedError(111, "Connection refused")
            if m == "no-such-host":
                raise socket.gaierror(-2, "Name or service not known")
            self.now += timeout if isinstance(timeout, int | float) else 120.0
            raise TimeoutError("timed out")
        return FakeSocket(self, host, port, timeout)


def _head(status, headers):
    return "".join([f"HTTP/1.1 {status} Simulated\r\n", "Connection: close\r\n"] + [f"{k}: {v}\r\n" for k, v in headers.items()] + ["\r\n"]).encode()


class FakeSocket:
    def __init__(self, server, host, port, timeout):
        self.server, self.host, self.port, self.timeout = server, host, port, timeout
        self.sent = b""
        self.data = None
        self.pos = 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    shutdown = close

    def sendall(self, data, *a):
        self.sent += bytes(data)

    def makefile(self, *a, **k):
        return io.BufferedReader(_Stream(self), 512)

    def recv_into(self, buf):
        if self.data is None:
            self.data, self.cut, self.how = self.server.reply(self.host, self.port, self.sent)
        end = len(self.data) if self.cut is None else self.cut
        n = min(len(buf), end - self.pos)
        if self.how["mode"] in ("slow", "pieces"):
            n = min(n, 1 + self.how["at"] % 97)
        if self.how["mode"] == "slow":
            self.server.now += 4.0  # below any sensible timeout
        if n <= 0 and self.cut is not None:
            m = self.how["mode"]
            if m.startswith("reset"):
                raise ConnectionResetError(104, "Connection reset by peer")
            if m.startswith("stall"):
                self.server.now += self.timeout if isinstance(self.timeout, int | float) else 1e6
                raise TimeoutError("timed out")
            return 0
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class _Stream(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, buf):
        return self.sock.recv_into(buf)


def install(server):
    """From now on every connection of this process goes to the simulated server."""
    import os

    import urllib3.connection as C
    import urllib3.util.connection as U

    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]

    def create_connection(address, timeout=None, *a, **k):
        return server.connect(address, timeout)

    U.create_connection = create_connection

    def connect(self):
        self.sock = self._new_conn()
        self.is_verified = True

    C.HTTPSConnection.connect = connect

    def refuse(*a, **k):
        raise AssertionError("a connection went past the simulated network")

    socket.create_connection = refuse
    socket.socket.connect = refuse


def plan(q, n, broken):
    """The script for up to n requests; with `broken`, one of them goes wrong."""
    bad = q.int(0, n - 1) if broken and n else None
    return [{"mode": q.choice(BROKEN) if j == bad else q.choice(FINE), "frame": q.choice(FRAMES), "at": q.int(0, 1000)} for j in range(n)], bad


__all__ = ["Server", "install", "plan", "urlsplit"]
