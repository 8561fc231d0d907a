"""A small language client: Client(binary).request(method, params) / .note(method, params) / .raw(bytes)."""
import json, select, subprocess, sys, time
class Client:
    def __init__(self, binary, **k):
        self.p = subprocess.Popen([binary, "language-server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0, **k)
        self.n, self.buf, self.notes = 0, b"", []
    def raw(self, b):
        try: self.p.stdin.write(b); self.p.stdin.flush()
        except OSError: pass
    def send(self, v):
        b = json.dumps(v).encode()
        self.raw(b"Content-Length: %d\r\n\r\n" % len(b) + b)
    def read(self, seconds=8):
        """the next message, None if there is none, "garbage" if it is not one"""
        end = time.time() + seconds
        while True:
            if b"\r\n\r\n" in self.buf:
                h, rest = self.buf.split(b"\r\n\r\n", 1)
                if not h.lower().startswith(b"content-length:"): return "garbage"
                n = int(h.split(b":")[1])
                if len(rest) >= n:
                    self.buf = rest[n:]
                    try: return json.loads(rest[:n].decode())
                    except ValueError: return "garbage"
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]: return None
            x = self.p.stdout.read(65536)
            if not x: return None
            self.buf += x
    def answer(self, id):
        while True:
            m = self.read()
            if m is None or m == "garbage" or (m.get("id") == id and "method" not in m): return m
            self.notes.append(m)
    def request(self, method, params, id=None):
        self.n += 1
        id = self.n if id is None else id
        self.send({"jsonrpc": "2.0", "id": id, "method": method, "params": params})
        return self.answer(id)
    def note(self, method, params):
        self.send({"jsonrpc": "2.0", "method": method, "params": params})
    def initialize(self):
        return self.request("initialize", {"processId": None, "rootUri": None, "capabilities": {"textDocument": {"publishDiagnostics": {}}}})
    def diagnostics(self, path):
        self.notes = []
        self.note("textDocument/didSave", {"textDocument": {"uri": "file://" + path}})
        self.request("no/such", None)
        return [d for m in self.notes if m.get("method") == "textDocument/publishDiagnostics" for d in [m["params"]["diagnostics"]]]
    def end(self):
        self.p.kill()
