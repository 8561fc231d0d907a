"""A stand-in for github.com: an HTTPS server reached through a local CONNECT proxy."""
import os, socket, ssl, subprocess, threading, time
from common import scratch, ToolError

HOST, ASSETS = "github.com", "objects.githubusercontent.com"


def make_certificates():
    d = scratch("tls")
    os.makedirs(d)

    def run(*a):
        p = subprocess.run(["openssl"] + list(a), cwd=d, capture_output=True)
        if p.returncode:
            raise ToolError("openssl: " + p.stderr.decode()[-500:])
    ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes"]
    run("req", "-x509", *ec, "-keyout", "ca.key", "-out", "ca.pem", "-days", "3650", "-subj", "/CN=verif CA")
    run("req", *ec, "-keyout", "s.key", "-out", "s.csr", "-subj", "/CN=" + HOST)
    open(d + "/ext", "w").write("subjectAltName=DNS:%s,DNS:%s\n" % (HOST, ASSETS))
    run("x509", "-req", "-in", "s.csr", "-CA", "ca.pem", "-CAkey", "ca.key", "-CAcreateserial", "-days", "3650",
        "-extfile", "ext", "-out", "s.pem")
    return d


_ctx = None
_lock = threading.Lock()


def context():
    global _ctx
    with _lock:
        if _ctx is None:
            d = make_certificates()
            _ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            _ctx.load_cert_chain(d + "/s.pem", d + "/s.key")
    return _ctx


# ways in which a release can be served
GOOD = ["ok", "redirect", "chunked", "slow", "hops", "close"]
BAD = ["404", "500", "cut", "cutchunked", "cuthead", "reset", "loop"]
# answers that carry the whole release but whose status says that they are not it
STATUS = ["300", "304", "305", "302", "400", "401", "402", "403", "410", "418", "429", "451", "501", "502", "503", "504", "599"]
BAD += STATUS


class Net:
    """catalog(path) -> bytes or None. mode(path) -> one of GOOD, BAD or "stall"."""

    def __init__(self, catalog):
        self.catalog = catalog
        self.mode = lambda path: "ok"
        self.requests = []
        self.stalled = threading.Event()
        self.release = threading.Event()
        context()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.closed = False
        threading.Thread(target=self.accept, daemon=True).start()

    def close(self):
        self.closed = True
        self.release.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def accept(self):
        while not self.closed:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(60)
            head = b""
            while b"\r\n\r\n" not in head:
                x = c.recv(4096)
                if not x:
                    return
                head += x
            line = head.split(b"\r\n")[0].decode("latin-1").split(" ")
            if line[0] != "CONNECT":
                self.requests.append("http:" + line[1])
                c.sendall(b"HTTP/1.1 400 Bad\r\nContent-Length: 0\r\n\r\n")
                return
            host = line[1].rsplit(":", 1)[0]
            c.sendall(b"HTTP/1.1 200 OK\r\n\r\n")
            t = context().wrap_socket(c, server_side=True)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    x = t.recv(4096)
                    if not x:
                        return
                    buf += x
                head, buf = buf.split(b"\r\n\r\n", 1)
                method, path = head.split(b"\r\n")[0].decode("latin-1").split(" ")[:2]
                if not self.answer(t, host, method, path):
                    return
        except (OSError, ValueError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def answer(self, t, host, method, path):
        if host == ASSETS and path.startswith("/hop"):
            # a chain of redirections of every kind
            n, rest = int(path[4]), path[5:]
            to = rest if n == 0 else "https://%s/hop%d%s" % (ASSETS, n - 1, rest) if n % 2 else "/hop%d%s" % (n - 1, rest)
            t.sendall(b"HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: 5\r\n\r\nmoved" % ([301, 302, 303, 307, 308][n % 5], to.encode()))
            return True
        if host == ASSETS:
            body = self.catalog(path)
            mode = "ok" if body is not None else "404"
        else:
            self.requests.append("https://%s%s%s" % (host, path, "" if method == "GET" else " " + method))
            body = self.catalog(path) if host == HOST else None
            mode = self.mode(path)
            if body is None and mode in GOOD:
                mode = "404"
        body = body or b"x" * 5000
        full = b"HTTP/1.1 200 OK\r\nContent-Type: application/wasm\r\nContent-Length: %d\r\n\r\n" % len(body) + body
        if mode == "ok":
            t.sendall(full)
            return True
        if mode == "slow":
            for i in range(0, len(full), 9001):
                t.sendall(full[i:i + 9001])
                time.sleep(.002)
            return True
        if mode == "chunked":
            t.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
            for i in range(0, len(body), 7000):
                p = body[i:i + 7000]
                t.sendall(b"%x\r\n" % len(p) + p + b"\r\n")
            t.sendall(b"0\r\n\r\n")
            return True
        if mode == "redirect":
            t.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://%s%s\r\nContent-Length: 0\r\n\r\n" % (ASSETS.encode(), path.encode()))
            return True
        if mode == "hops":
            t.sendall(b"HTTP/1.1 301 Moved\r\nLocation: https://%s/hop%d%s\r\nContent-Length: 0\r\n\r\n" % (ASSETS.encode(), 6, path.encode()))
            return True
        if mode == "close":
            t.sendall(full.replace(b"Content-Length: %d" % len(body), b"Connection: close", 1))
            t.unwrap()
            return False
        if mode == "loop":
            t.sendall(b"HTTP/1.1 302 Found\r\nLocation: https://github.com%s\r\nContent-Length: 0\r\n\r\n" % path.encode())
            return True
        if mode == "404":
            t.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nNot Found")
            return True
        if mode == "500":
            # with the release as its body, so that only the status tells
            t.sendall(full.replace(b"200 OK", b"500 Internal Server Error", 1))
            return True
        if mode in STATUS:
            t.sendall(full.replace(b"200 OK", mode.encode() + b" Whatever", 1))     # (3xx: without a Location)
            return mode != "304"
        if mode == "cut":
            t.sendall(full[:len(full) // 2])
        elif mode == "cutchunked":
            p = body[:len(body) // 2]
            t.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % len(p) + p + b"\r\n")
        elif mode == "cuthead":
            t.sendall(full[:30])
        elif mode == "stall":
            t.sendall(full[:len(full) // 2])
            self.stalled.set()
            self.release.wait(60)
        if mode != "reset":
            try:
                t.unwrap()
            except (OSError, ValueError):
                pass
        return False
