"""C21-C26: sessions with the real language server, judged by the specification."""
import array, fcntl, json, os, random, re, shutil, subprocess, termios, threading, time, urllib.parse
import docs, net, proj, wasm
from common import *
from proj import config, plugin, render, BADCONF
from wasm import command

OFF = [False] * 4
P0 = {"ok": True, "file": True, "doc": "", "uri": "", "root": "", "diag": False, "trigger": []}
TOKENS, COMPLETE = "textDocument/semanticTokens/full", "textDocument/completion"
OPEN, SAVE, CHANGE = "textDocument/didOpen", "textDocument/didSave", "textDocument/didChange"


# ----------------------------------------------------------------- messages
class M:
    """A message: its JSON value (or raw bytes) and what it means."""

    def __init__(self, t, value, id=None, method="", raw=None, **p):
        self.t, self.value, self.raw, self.method = t, value, raw, method
        self.id = json.dumps(id, ensure_ascii=False) if t == "request" else ""
        self.p = dict(P0, **p)

    def body(self, r):
        if self.raw is not None:
            return self.raw
        v = self.value
        if isinstance(v, dict):
            ks = list(v)
            if r.random() < .4:
                r.shuffle(ks)
            v = {k: v[k] for k in ks}
            if self.t in ("request", "note") and r.random() < .06:
                x = r.random()
                if x < .4:
                    v.pop("jsonrpc", None)
                else:
                    v[r.choice(["meta", "ID", "Method", "Params", "trace", ""])] = r.choice([None, 1, "initialize", {}, {"id": 3}])
        return json.dumps(v, ensure_ascii=r.random() < .5, indent=r.choice([None] * 5 + [1]),
                          separators=r.choice([None, (",", ":"), (" , ", " : ")])).encode("utf-8", "surrogatepass")

    def meaning(self):
        return {"t": self.t, "id": self.id, "method": self.method, "p": self.p}


def request(id, method, params, **p):
    v = {"jsonrpc": "2.0", "id": id, "method": method}
    if params is not ...:
        v["params"] = params
    return M("request", v, id=id, method=method, **p)


def note(method, params, **p):
    v = {"jsonrpc": "2.0", "method": method}
    if params is not ...:
        v["params"] = params
    return M("note", v, method=method, **p)


def uri(path, r):
    q = urllib.parse.quote(path, safe="/" if r.random() < .5 else "/[]!$&'()*+,;=:@")
    return "file://" + q


def caps(diag, r):
    td = {}
    if diag:
        td["publishDiagnostics"] = r.choice([{}, {"relatedInformation": True}, {"versionSupport": False}])
    elif r.random() < .3:
        td["publishDiagnostics"] = None
    if r.random() < .5:
        td["completion"] = {"completionItem": {"snippetSupport": True}}
    c = {"textDocument": td} if td or r.random() < .5 else {}
    if r.random() < .3:
        c["workspace"] = {"applyEdit": True}
    return c


def initialize(id, diag, r):
    return request(id, "initialize", {"processId": None, "rootUri": None, "capabilities": caps(diag, r)}, diag=diag)


STYLES = [0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14]
POSITION = {"line": 0, "character": 0}
BADPARAMS = [..., None, 3, "x", [], [1], {}, {"textDocument": None}, {"textDocument": {}}, {"textDocument": {"uri": 5}}, {"textDocument": {"uri": "not a uri"}},
             {"textDocument": {"uri": ""}}, {"textDocument": []}, {"capabilities": 7}, {"textdocument": {"uri": "file:///x"}}]


def completion(id, path, trigger, r, context=True):
    params = {"textDocument": {"uri": uri(path, r)}, "position": POSITION}
    if trigger is not None:
        params["context"] = {"triggerKind": 2, "triggerCharacter": trigger}
    elif context:
        params["context"] = r.choice([{"triggerKind": 1}, {"triggerKind": 1, "triggerCharacter": None}, {"triggerKind": 3}])
    return request(id, COMPLETE, params, trigger=[trigger] if trigger is not None else [])


def opened(path, r, root=None):
    return note(OPEN, {"textDocument": {"uri": uri(path, r), "languageId": "brack", "version": 1, "text": r.choice(["", "[m.c other text]", "é\n"])}},
                root=root if root is not None else os.path.dirname(os.path.dirname(path)))


def saved(path, r):
    u = uri(path, r)
    v = {"textDocument": {"uri": u}}
    if r.random() < .4:
        v["text"] = r.choice(["", "]", "stale text"])
    return note(SAVE, v, doc=path, uri=u)


def changed(path, r):
    return note(CHANGE, {"textDocument": {"uri": uri(path, r), "version": 2}, "contentChanges": [{"text": r.choice(["", "]]]", "other"])}]})


def tokens(id, path, r):
    return request(id, TOKENS, {"textDocument": {"uri": uri(path, r)}}, doc=path)


def idle(path, r):
    """A notification that the server has no use for."""
    doc = {"textDocument": {"uri": uri(path, r)}}
    return note(*r.choice([("textDocument/didClose", doc), ("textDocument/didClose", doc), ("textDocument/willSave", dict(doc, reason=1)),
                           ("workspace/didChangeWatchedFiles", {"changes": [{"uri": uri(path, r), "type": r.choice([1, 2, 3])}]}),
                           ("workspace/didChangeConfiguration", {"settings": {}}), ("workspace/didRenameFiles", {"files": [{"oldUri": uri(path, r), "newUri": uri(path, r) + "2"}]}),
                           ("workspace/didDeleteFiles", {"files": [{"uri": uri(path, r)}]}), ("$/cancelRequest", {"id": r.choice([1, 101, "id1"])}),
                           ("$/setTrace", {"value": "verbose"}), ("$/progress", {"token": 1, "value": {}}), ("notebookDocument/didClose", {}), ("initialized", {})]))


JUNK = [b"", b"{", b"}", b"[", b"nope", b"{\"id\":1,\"method\":\"initialize\"", b"{\"jsonrpc\":\"2.0\",}", b"'x'", b"\xff\xfe", b"\"\xff\"", b"{\"method\":\"\xc3\"}",
        b"{} {}", b"{}x", b"\x00", b"{\"id\":1,\"method\":\"no/such\"}}", b"NaN", b"\"\\ud800\"", b"01", b"[1,2", b"{\"a\":1 \"b\":2}", b"\r\n\r\n", b"Content-Length: 5\r\n\r\n"]
OTHERS = [None, True, 1, -2.5, "text", "", [], [1, 2], [{"jsonrpc": "2.0", "id": 1, "method": "initialize"}], {}, {"jsonrpc": "2.0"}, {"id": None}, {"id": {}, "result": 1},
          {"params": {}}, {"id": True}, {"id": [1]}, {"jsonrpc": "2.0", "id": None, "error": {"code": -1, "message": "x"}}, {"Method": "initialize", "Id": 3}]
RESPONSES = [{"jsonrpc": "2.0", "id": 1, "result": None}, {"id": "x", "error": {"code": 1, "message": "m"}}, {"jsonrpc": "2.0", "id": 0, "result": {"method": "initialize"}}, {"id": 7}]
UNKNOWN = ["shutdown", "textDocument/hover", "", "Initialize", "initialize ", "textDocument/semanticTokens", "textDocument/semanticTokens/full/delta", "é", "$/cancelRequest",
           "textDocument/didSave", "textDocument/didOpen", "initialized", "workspace/executeCommand", "textDocument/completion/"]
QUIET = ["initialized", "exit0", "$/setTrace", "workspace/didChangeConfiguration", "textDocument/didClose", "", "initialize", COMPLETE, TOKENS, "é"]
IDS = [0, 1, -1, 7, 2 ** 31, 2 ** 53, 1.5, "", "a", "1", "é\"\\\n", "ping", "null", 9007199254740993, "i" * 65, "é" * 130, "k" * 257, "w " * 600, -2 ** 63, 2 ** 64 - 1]


# ------------------------------------------------------------------ session
class Session:
    def __init__(self, n, r, home="home", network=True):
        self.n, self.r = n, r
        self.base = scratch("lsp%d" % n)
        os.makedirs(self.base + "/files")
        self.catalog = {}
        self.net = net.Net(lambda path: self.catalog.get(path)) if network else None
        env = {"PATH": "/usr/bin:/bin", "HOME": scratch("home"), "RUST_BACKTRACE": "0", "SSL_CERT_FILE": scratch("tls", "ca.pem"),
               "HTTPS_PROXY": "http://127.0.0.1:%d" % (self.net.port if self.net else 9), "NO_PROXY": ""}
        self.p = subprocess.Popen([scratch("brack"), "language-server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  cwd=self.base + "/files", bufsize=0, **contained())
        self.lock = threading.Condition()
        self.outs, self.pings = [], set()
        self.closed = False
        self.reader = threading.Thread(target=self.read, daemon=True)
        self.reader.start()
        self.steps, self.worlds, self.bodies, self.seen = [], [], [], {}
        self.paths, self.projects, self.saved_plugins = set(), {}, {}
        self.fetched = set()
        self.count = 0
        self.dead = None
        self.initialized = None
        self.notes = []

    # reading what the server sends
    def read(self):
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            x = os.read(fd, 65536)
            if not x:
                break
            buf += x
            while buf:
                e = buf.find(b"\r\n\r\n")
                if e < 0:
                    if len(buf) > 4000:
                        self.got({"t": "garbage"})
                        buf = b""
                    break
                m = re.fullmatch(rb"(?:[A-Za-z-]+: [^\r\n]*\r\n)*Content-Length: (\d+)(?:\r\n[A-Za-z-]+: [^\r\n]*)*", buf[:e])
                if not m:
                    self.got({"t": "garbage"})
                    buf = b""
                    break
                n = int(m.group(1))
                if len(buf) < e + 4 + n:
                    break
                body, buf = buf[e + 4:e + 4 + n], buf[e + 4 + n:]
                try:
                    self.got(classify(json.loads(body.decode("utf-8"))))
                except (ValueError, KeyError, TypeError, IndexError, AttributeError):
                    self.got({"t": "garbage"})
        with self.lock:
            if buf:
                self.outs.append({"t": "garbage", "id": "", "code": 0, "uri": "", "k": "", "list": []})
            self.closed = True
            self.lock.notify_all()

    def got(self, o):
        if o is None:
            return
        if o.get("k") == "capabilities" and self.initialized is None:
            self.initialized = o["value"]
        o.pop("value", None)
        o = dict({"id": "", "code": 0, "uri": "", "k": "", "list": []}, **o)
        with self.lock:
            self.outs.append(o)
            self.pings.add(o["id"])
            self.lock.notify_all()

    # the world around the server
    def world(self):
        w = {"files": [], "projects": []}
        for p in sorted(self.paths):
            try:
                w["files"].append({"path": p, "st": "ok", "gr": open(p, "rb").read().decode("utf-8")})
            except (OSError, UnicodeDecodeError):
                w["files"].append({"path": p, "st": "unreadable", "gr": ""})
        w["projects"] = [dict(x, root=k) for k, x in sorted(self.projects.items())]
        if not self.worlds or self.worlds[-1] != w:
            self.worlds.append(w)
        return len(self.worlds)

    def file(self, path, content):
        """Puts content (text, bytes, None: nothing, "<dir>") at path."""
        self.paths.add(path)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        elif os.path.lexists(path):
            os.remove(path)
        if content is None:
            return
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if content == "<dir>":
            os.mkdir(path)
        else:
            open(path, "wb").write(content if isinstance(content, bytes) else content.encode())

    def project(self, root, open_, plugins=()):
        """plugins: [(name, flags, commands or bytes)]. open_: ok, bad, missing or unreachable."""
        os.makedirs(root + "/docs", exist_ok=True)
        self.fetched.discard(root)
        self.restore(root)
        f = root + "/Brack.toml"
        if os.path.exists(f):
            os.remove(f)
        self.count += 1
        ver = "v%d" % self.count
        recs = []
        for name, flags, content in plugins:
            good = not isinstance(content, bytes)
            path = "/o/r/releases/download/%s/%s.html.wasm" % (ver, name)
            if open_ != "unreachable":
                self.catalog[path] = wasm.build(content, getlog=False) if good else content
            recs.append({"name": name, "flags": list(flags), "file": "ok" if good else "damaged", "entries": [],
                         "cmds": [{"name": c["name"], "x": "c%d" % c["entry"], "ret": c["ret"], "args": c["args"]} for c in content] if good else []})
        if open_ == "unreachable":
            self.net.mode = lambda path, v=ver, old=self.net.mode, how=self.r.choice(["404", "500", "reset", "cut"]): how if "/%s/" % v in path else old(path)
            plugins = plugins or [("m", OFF, [])]
        if open_ == "bad":
            open(f, "w").write(self.r.choice(BADCONF))
        elif open_ != "missing":
            open(f, "w").write(render(config("html", *[plugin(n, ver, fl) for n, fl, _ in plugins]), self.count))
        self.projects[root] = {"open": open_ if open_ in ("ok", "unreachable") else "bad", "plugins": recs if open_ == "ok" else [], "spoiled": False}

    def spoil(self, root):
        d = root + "/plugins"
        # (what has not been downloaded cannot be spoiled)
        if root not in self.fetched or self.projects[root]["spoiled"] or not os.path.isdir(d) or not os.listdir(d):
            return
        self.saved_plugins[root] = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
        for n in os.listdir(d):
            open(os.path.join(d, n), "wb").write(b"spoiled")
        self.projects[root]["spoiled"] = True

    def restore(self, root):
        for n, b in self.saved_plugins.pop(root, {}).items():
            open(os.path.join(root, "plugins", n), "wb").write(b)

    # sending
    def frame(self, m, style=0):
        body = m.body(self.r)
        key = bytes(body)
        mean = m.meaning()
        if key in self.seen and self.seen[key] != mean:
            raise ToolError("one body, two meanings: %r" % body)
        if key not in self.seen:
            self.seen[key] = mean
            if m.t != "junk":
                self.bodies.append({"bytes": list(body), "m": mean})
        n = len(body)
        head = [b"Content-Length: %d\r\n" % n, b"content-length: %d\r\nX-Content-Length: 9\r\n" % n, b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %d\r\n" % n,
                b"Content-Length:%d\r\nContent-Type: x\r\n" % n, b"CONTENT-LENGTH:   %d  \r\n" % n, b"X-Note: Content-Length\r\nContent-Length: 0%d\r\n" % n,
                b"Content-Lengths: 3\r\nContent-Length: %d\r\n" % n, b"A: b\r\nContent-Length: %d\r\nC: \r\n" % n,
                b"X-Pad: " + b"z" * 250 + b"\r\nContent-Length: %d\r\n" % n, b"Content-Length: %d\r\nX-Pad: " % n + b"Content-Length: 3 " * 70 + b"\r\n",
                b"X-A: b\r\n" * 130 + b"Content-Length: %d\r\nX-B: c\r\n" % n,
                b"X-\xc3\x9c: \xff\xfe\r\nContent-Length: %d\r\n\x80\xc3: \xf0\r\n" % n, b"no field\r\nContent-Length: %d\r\nnor this" % n + b"\r\n",
                b": 4\r\nContent-Length:\t%d \t\r\n:\r\n" % n, b"Content-Length : %d\r\nX: a:b:c\r\n" % n][style]
        return head + b"\r\n" + body

    def take(self):
        with self.lock:
            o, self.outs = self.outs, []
        return o

    def write(self, data):
        try:
            view = memoryview(data)
            while view:
                view = view[os.write(self.p.stdin.fileno(), view):]
        except (BrokenPipeError, OSError):
            self.dead = self.dead or "stopped reading"

    def send(self, ms, style=None):
        """Sends messages and a request the answer of which shows that they have been handled."""
        if self.dead:
            return
        w = self.world()
        self.fetched |= {m.p["root"] for m in ms if m.method == OPEN and m.p["ok"] and m.p["root"] in self.projects}
        self.count += 1
        ping = "ping-%d" % self.count
        data = b"".join(self.frame(m, self.r.choice(STYLES) if self.r.random() < .2 else 0) for m in list(ms) + [request(ping, "verif/ping", {})])
        self.write(data)
        key = json.dumps(ping)
        with self.lock:
            ok = self.lock.wait_for(lambda: key in self.pings or self.closed, patience())
            if key not in self.pings:
                self.dead = "died" if ok else "hang"
                if not ok:
                    HANGS.append(self.n)
        self.steps.append({"w": w, "bytes": list(data), "outs": self.take()})

    def quiet(self, patient):
        """Waits until the server has read everything and does nothing any more."""
        fd, pid = self.p.stdin.fileno(), self.p.pid
        a = array.array("i", [0])
        deadline = time.time() + patience()
        last, same = None, 0
        while time.time() < deadline:
            if self.p.poll() is not None or self.closed:
                return
            try:
                fcntl.ioctl(fd, termios.FIONREAD, a, True)
                facts = []
                for t in os.listdir("/proc/%d/task" % pid):
                    s = open("/proc/%d/task/%s/status" % (pid, t)).read()
                    facts.append((re.search(r"State:\s+(\S)", s)[1], re.findall(r"ctxt_switches:\s+(\d+)", s)))
            except (OSError, TypeError):
                continue
            if a[0] == 0 and all(f[0] == "S" for f in facts) and facts == last:
                same += 1
                if same >= 3:
                    break
            else:
                same = 0
            last = facts
            time.sleep(.001)
        if patient:   # an answer is due: if there is none yet, it gets more time
            with self.lock:
                self.lock.wait_for(lambda: self.outs or self.closed, 2)

    def chunk(self, data, patient):
        if self.dead:
            return
        w = self.world()
        self.write(data)
        self.quiet(patient)
        self.steps.append({"w": w, "bytes": list(data), "outs": self.take()})

    def end(self, partial=b""):
        if partial:
            self.chunk(partial, False)
        with self.lock:
            pass
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(patience())
        except subprocess.TimeoutExpired:
            rc = None
            HANGS.append(self.n)
            self.p.kill()
            self.p.wait()
        self.reader.join(20)
        if self.net:
            self.net.close()
        rest = self.take()
        end = self.dead or ("hang" if rc is None else "clean" if rc == 0 else "status %d" % rc)
        shutil.rmtree(self.base, ignore_errors=True)
        return {"n": self.n, "bodies": self.bodies, "worlds": self.worlds, "steps": self.steps, "end": end, "rest": len(rest)}


def snippet(t):
    """The text that a client inserts for a snippet of text and tab stops (anything else in it counts as \0)."""
    return re.sub(r"\\([\\$}])|\$\d+|\$\{\d+\}|[$]", lambda m: m.group(1) or ("\0" if m.group() == "$" else ""), t)


def classify(v):
    if v.get("jsonrpc") != "2.0":
        return {"t": "garbage"}
    if "method" in v:
        if "id" in v or not isinstance(v["method"], str):
            return {"t": "server request"}
        if v["method"] in ("window/logMessage", "window/showMessage"):
            return None
        if v["method"] != "textDocument/publishDiagnostics":
            return {"t": "message " + v["method"]}
        u = v["params"]["uri"]
        ps = [{"k": d["message"], "l": [d["range"]["start"]["line"], d["range"]["start"]["character"], d["range"]["end"]["line"], d["range"]["end"]["character"]]}
              for d in v["params"]["diagnostics"]]
        return {"t": "diagnostics", "id": "null", "uri": u, "k": "problems", "list": ps}
    ident = json.dumps(v["id"], ensure_ascii=False)
    if "error" in v:
        if "result" in v or not isinstance(v["error"]["message"], str):
            return {"t": "garbage"}
        return {"t": "error", "id": ident, "code": int(v["error"]["code"])}
    x = v["result"]
    o = {"t": "result", "id": ident, "k": "?"}
    if x is None:
        o["k"] = "null"
    elif isinstance(x, dict) and "capabilities" in x:
        o.update(k="capabilities", list=x["capabilities"]["completionProvider"]["triggerCharacters"], value=x)
    elif isinstance(x, dict) and isinstance(x.get("data"), list) and len(x["data"]) % 5 == 0:
        o.update(k="tokens", list=[x["data"][i:i + 5] for i in range(0, len(x["data"]), 5)])
    elif isinstance(x, list) or isinstance(x, dict) and isinstance(x.get("items"), list):
        items = []
        for c in x if isinstance(x, list) else x["items"]:
            t = c.get("insertText", c["label"])
            plain = snippet(t) if c.get("insertTextFormat") == 2 else t
            items.append({"label": c["label"], "close": plain[-1:] if plain.startswith(c["label"]) and len(plain) > len(c["label"]) else "?"})
        o.update(k="offers", list=items)
    return o


# -------------------------------------------------------------------- plans
def document(r, size=None):
    x = r.random()
    if x < .15:
        return r.choice(["", "a", "\n", "]", "[", "\\", "[m.c", "a\r\nb", "é🇯🇵\n[m.c é]", "[m.c x]\n\n]\n", ">a}\n[m.c x\n{n.b <m.s , y> \\q}\n"])
    d = docs.clean(r, depth=r.choice([0, 1, 2]), paragraphs=r.choice([1, 2]))
    if x < .55:
        d = docs.mutate(r, d)
    if x < .25:
        d = docs.soup(r, 15)
    return d[:600]


def large(r):
    """Long enough to have hundreds of lines, commands and problems."""
    unit = r.choice(["]\n", "a]\n", "x }\n", "]", "]\n\n", "[m.c é]\n", "[m.c x] ", "[\n", "a\n", "a\n\n", ">b\n", "[m.c\n{n.d x}]\n", "\\[ <m.a y>]\n"])
    d = unit * r.choice([60, 101, 130, 257, 400])
    return d[:len(unit) * max(1, 1600 // len(unit))]


def any_file(r):
    x = r.random()
    if x > .97:
        return large(r)
    return document(r) if x < .8 else None if x < .9 else b"\xff[m.c" if x < .95 else "<dir>"


def some_plugins(r, hooks=True):
    out = []
    for m in r.sample(["m", "n", "k", "M", "m-n", "x_1", "std", "s$1"], r.choice([0, 1, 1, 2, 2, 3])):
        cmds, e = [], 0
        for _ in range(r.choice([0, 1, 2, 4, 8] * 8 + [120])):
            cmds.append(command(r.choice(["k%d" % len(cmds)] if e > 8 else ["c", "d", "e", "C", "cc", "a_b", "text", "document", "expr", "h1", "é", "日", "a$b", "$0", "c$1$"]), e, r.choice("IBA"),
                                r.choice([[], ["I"], ["I", "O"], ["*"], ["B", "I", "OB"]]), mode=r.choice(["ECHO", "SQUARE"])))
            e = e + 1 if len(cmds) < 9 else 9
        flags = list(OFF)
        if hooks and r.random() < .3:
            h = r.randrange(4)
            flags[h] = True
            if r.random() < .8:
                cmds = [c for c in cmds if c["name"] != ["document", "stmt", "expr", "text"][h]]
                cmds.append(command(["document", "stmt", "expr", "text"][h], e, "BBII"[h], ["I"]))
        out.append((m, flags, b"no plugin" if r.random() < .06 else cmds))
    return out


class Plan:
    """What happens in a session, step by step; deterministic in its random generator."""

    def __init__(self, s, r):
        self.s, self.r = s, r
        self.ids = 0

    def id(self):
        self.ids += 1
        return self.r.choice(IDS) if self.r.random() < .3 else self.ids + 100 if self.r.random() < .8 else "id%d" % self.ids

    def path(self, name="a.[]"):
        return self.s.base + "/files/" + name

    def bad(self):
        """A message that is of no use."""
        r = self.r
        x = r.random()
        if x < .2:
            return M("junk", None, raw=r.choice(JUNK) if r.random() < .7 else bytes(r.randrange(128, 256) for _ in range(r.randint(1, 40))))
        if x < .35:
            return M("other", r.choice(OTHERS))
        if x < .42:
            return M("response", r.choice(RESPONSES))
        if x < .6:
            meth = r.choice(["initialize", TOKENS, COMPLETE])
            b = r.choice(BADPARAMS)
            if meth == "initialize" and isinstance(b, dict) and "capabilities" not in b:
                b = {"processId": 1}
            return request(self.id(), meth, b, ok=False)
        if x < .72:
            b = r.choice(BADPARAMS)
            return note(r.choice([OPEN, SAVE, CHANGE]), b, ok=False)
        if x < .8:
            return request(self.id(), r.choice(UNKNOWN), r.choice(BADPARAMS))
        if x < .86:
            return note(r.choice(QUIET), r.choice(BADPARAMS))
        u = r.choice(["untitled:Untitled-1", "https://example.com/a.[]", "file://other-host/x.[]", "mailto:a@b.c", "git:a/b", "data:,x", "file:///tmp/%FF", "file:///%FE/docs/%80.[]", "file:///tmp/docs/\\%ff"])
        if x < .9:
            return request(self.id(), TOKENS, {"textDocument": {"uri": u}}, file=False)
        if x < .95:
            return note(SAVE, {"textDocument": {"uri": u}}, file=False)
        return note(OPEN, {"textDocument": {"uri": r.choice([u, "file:///", "file:///x.[]"]), "languageId": "b", "version": 1, "text": ""}}, file=False)

    def good(self, paths, roots):
        r = self.r
        x = r.random()
        if x < .1:
            return initialize(self.id(), r.random() < .75, r)
        if x < .35:
            return tokens(self.id(), r.choice(paths), r)
        if x < .6:
            return saved(r.choice(paths), r)
        if x < .65:
            return changed(r.choice(paths), r)
        if x < .7:
            return idle(r.choice(paths), r)
        if x < .8:
            return opened(r.choice(roots) + "/docs/x.[]", r) if roots and r.random() < .7 else opened(r.choice(paths), r)
        return completion(self.id(), r.choice(paths), r.choice(["[", "{", "<", " ", ".", "", "x", None, None, "[["]), r, context=r.random() < .7)

    def edit(self, paths, roots):
        r, s = self.r, self.s
        if roots and r.random() < .35:
            root = r.choice(roots)
            x = r.random()
            if x < .2:
                s.spoil(root)
            else:
                open_ = "ok" if x < .7 else r.choice(["bad", "missing", "unreachable"])
                s.project(root, open_, some_plugins(r))
        else:
            s.file(r.choice(paths), any_file(r))

    def play(self, length, badness, roots=2, batch=3, start=True):
        r, s = self.r, self.s
        paths = [self.path(n) for n in r.sample(["a.[]", "b b.[]", "é日.[]", "sub/c.[]", "%41.[]", "x"], 3)]
        roots = [s.base + "/" + n for n in ["p", "q é", "r"][:roots]]
        for p in paths:
            s.file(p, any_file(r))
        for x in roots:
            s.project(x, "ok" if r.random() < .7 else "missing", some_plugins(r))
        if start:
            s.send([initialize(1, r.random() < .8, r), note("initialized", {})])
        for _ in range(length):
            if r.random() < .4:
                self.edit(paths, roots)
            s.send([self.bad() if r.random() < badness else self.good(paths, roots) for _ in range(r.randint(1, batch))])


# the sessions of each property: functions of (number, random generator) that play one
def scripted(f, network=False):
    def go(n, r):
        s = Session(n, r, network=network)
        try:
            rest = f(Plan(s, r), s, r)
            return s.end(rest or b"")
        finally:
            if s.p.poll() is None:
                s.p.kill()
    return go


def mixed(length, badness, roots, batch, start=True):
    return scripted(lambda p, s, r: p.play(length, badness, roots, batch, start), network=roots > 0)


def stream_messages(p, s, r, n):
    path = p.path("é.[]")
    s.file(path, "x [m.c y]\n]")
    ms = []
    for _ in range(n):
        x = r.random()
        ms.append(tokens(p.id(), path, r) if x < .25 else request(p.id(), r.choice(UNKNOWN), {"π": "é日🇯🇵" * r.choice([1, 3])}) if x < .5 else saved(path, r) if x < .6 else
                  initialize(p.id(), True, r) if x < .7 else p.bad())
    return ms


def cut(data, points):
    points = [0] + sorted(set(x for x in points if 0 < x < len(data))) + [len(data)]
    return [data[a:b] for a, b in zip(points, points[1:])]


def framing(points, n, tail=False, big=0):
    """points(r, data, ends): where the stream is cut."""
    def go(p, s, r):
        ms = [initialize(1, True, r)] + stream_messages(p, s, r, n) if n > 1 else stream_messages(p, s, r, n)
        if big:
            ms.insert(r.randint(0, len(ms)), request("big", "no/such", {"x": "é" * big}))
        data, ends, answer = b"", [], []
        for m in ms:
            data += s.frame(m, r.choice(STYLES))
            ends.append(len(data))
            answer.append(m.t in ("request", "junk", "other"))
        pos = 0
        for c in cut(data, points(r, data, ends)):
            pos2 = pos + len(c)
            s.chunk(c, any(a and pos < e <= pos2 for e, a in zip(ends, answer)))
            pos = pos2
        if tail:
            t = s.frame(request("never", "no/such", {}), 0)
            return t[:r.randint(1, len(t) - 1)]
    return scripted(go)


def sessions_c21(r):
    out = []
    every = lambda r, data, ends: range(1, len(data))
    for _ in range(24 if THOROUGH else 6):
        out.append(framing(every, 3))
    # every way to cut a stream of two messages in two
    for k in range(1, 420, 1 if THOROUGH else 4):
        out.append(framing(lambda r, data, ends, k=k: [k], 1))
    for _ in range(600 if THOROUGH else 110):
        out.append(framing(lambda r, data, ends: [r.randrange(len(data)) for _ in range(r.choice([1, 2, 4, 10, 20]))], r.randint(2, 7), tail=r.random() < .4))
    for _ in range(200 if THOROUGH else 40):
        out.append(framing(lambda r, data, ends: [e + r.choice([-3, -2, -1, 0, 1, 2, 15, 20, 21, 22, 23]) for e in ends for _ in range(r.choice([1, 2]))], r.randint(2, 6), tail=r.random() < .5))
    for _ in range(60 if THOROUGH else 12):
        out.append(framing(lambda r, data, ends: [e - r.randint(0, 4) for e in ends], r.randint(2, 5), big=r.choice([400, 510, 512, 1000, 2000])))
    for k in (0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4096):
        out.append(framing(lambda r, data, ends, k=k: [k, 1024, 2048], 3, big=r.choice([300, 500])))
    # long headers, cut within
    for style in (8, 9, 10, 11, 12):
        for k in (1, 100, 199, 255, 300, 511, 1000, 1024, 2000, 2500):
            def long(p, s, r, style=style, k=k):
                a = s.frame(initialize(1, True, r), style)
                b = s.frame(request(2, "no/such", {}), style)
                for c in cut(a + b, [k, len(a) + k]):
                    s.chunk(c, True)
            out.append(scripted(long))
    out.append(framing(lambda r, data, ends: range(7000, len(data), 30011), 2, big=14000))
    out.append(framing(lambda r, data, ends: [200000], 2, big=170000))
    # many messages at once
    for k in (60, 150, 300):
        out.append(framing(lambda r, data, ends: [r.randrange(len(data)) for _ in range(r.choice([0, 1, 3]))], k, tail=True))
    if THOROUGH:
        out += [framing(lambda r, data, ends: range(7000, len(data), 9001), 2, big=40000) for _ in range(4)]
    return out


def crowd(n, badness):
    """Many messages at once, then some more."""
    def go(p, s, r):
        s.send([initialize(1, True, r)] + [p.bad() if r.random() < badness else m for m in stream_messages(p, s, r, n)])
        s.send(stream_messages(p, s, r, 3))
    return scripted(go)


def sessions_c22(r):
    return [crowd(n, .5) for n in ([40, 130, 260] if not THOROUGH else [40, 130, 260] * 10)] + [mixed(8, .6, 0, 6, r.random() < .5) for _ in range(600 if THOROUGH else 120)] + [mixed(8, .4, 2, 4) for _ in range(200 if THOROUGH else 30)]


def sessions_c23(r):
    out = [mixed(10, .75, 0, 3, r.random() < .7) for _ in range(500 if THOROUGH else 80)] + [mixed(10, .5, 3, 2) for _ in range(300 if THOROUGH else 50)]

    def one(bad):
        def go(p, s, r):
            a, root = p.path("a.[]"), s.base + "/p"
            s.file(a, "[m.c x\n]")
            s.project(root, "ok", [("m", OFF, [command("c", 0, "I", [])])])
            ask = [tokens(p.id(), a, r), saved(a, r), completion(p.id(), a, "[", r)]
            s.send([initialize(1, True, r), opened(root + "/docs/a.[]", r)] + ask)
            s.send([bad(p, s, r)])
            s.send([tokens(p.id(), a, r), saved(a, r), completion(p.id(), a, "[", r)])
        return scripted(go, network=True)
    # long histories
    out += [mixed(n, .75, 0, 3) for n in ([120, 300] if not THOROUGH else [120, 300, 1000] * 5)] + [crowd(n, .9) for n in (40, 130, 260)]
    for b in JUNK:
        out.append(one(lambda p, s, r, b=b: M("junk", None, raw=b)))
    for b in OTHERS:
        out.append(one(lambda p, s, r, b=b: M("other", b)))
    for b in BADPARAMS:
        for meth in ("initialize", TOKENS, COMPLETE):
            if meth == "initialize" and isinstance(b, dict) and "capabilities" not in b:
                continue
            out.append(one(lambda p, s, r, b=b, meth=meth: request(p.id(), meth, b, ok=False)))
        for meth in (OPEN, SAVE, CHANGE):
            out.append(one(lambda p, s, r, b=b, meth=meth: note(meth, b, ok=False)))
    for x in ("missing", "bad", "unreachable"):
        def broken(p, s, r, x=x):
            s.project(s.base + "/q", x, [("m", OFF, [command("d", 0, "I", [])])])
            return opened(s.base + "/q/docs/a.[]", r)
        out += [one(broken)] * (3 if x == "bad" else 1)
    for c in (None, b"\xff", "<dir>", "[m.", "\na", "]", "\\", ""):
        def unreadable(p, s, r, c=c, how=r.random() < .5):
            s.file(p.path("z.[]"), c)
            return saved(p.path("z.[]"), r) if how else tokens(p.id(), p.path("z.[]"), r)
        out += [one(unreadable)] * 2
    return out


def sessions_c24(r):
    def go(p, s, r):
        paths = [p.path(n) for n in ("a.[]", "b é.[]", "c[1].[]")]
        for x in paths:
            s.file(x, document(r))
        if r.random() < .9:
            s.send([initialize(1, r.random() < .85, r), note("initialized", {})])
        for _ in range(10):
            x = r.random()
            if x < .5:
                s.file(r.choice(paths), any_file(r))
            ms = [r.choice([saved, saved, saved, saved, changed, opened, idle])(r.choice(paths), r)]
            if r.random() < .2:
                ms.append(initialize(p.id(), r.random() < .5, r))
            if r.random() < .2:
                ms.append(tokens(p.id(), r.choice(paths), r))
            if r.random() < .3:
                ms.append(saved(r.choice(paths), r))
            s.send(ms)

    def many(unit):
        def go(p, s, r):
            a = p.path("a.[]")
            s.send([initialize(1, True, r)])
            for n in r.sample([100, 101, 129, 257, 300], 2):
                s.file(a, unit * n)
                s.send([saved(a, r)])
            s.file(a, "x")
            s.send([saved(a, r)])
        return scripted(go)
    plans = [scripted(go) for _ in range(600 if THOROUGH else 130)] + [many(u) for u in ("]\n", "a]\n", "x }\n\n", "[m.c", ">")]
    return plans + [mixed(10, .1, 1, 2) for _ in range(100 if THOROUGH else 15)]


def sessions_c25(r):
    def go(p, s, r):
        path = p.path(r.choice(["a.[]", "b é.[]", "%5B.[]", "plain"]))
        if r.random() < .6:
            s.send([initialize(1, True, r)])
        for _ in range(12):
            if r.random() < .8:
                s.file(path, any_file(r) if r.random() < .5 else document(r))
            s.send([tokens(p.id(), path, r)] + ([saved(path, r)] if r.random() < .2 else []) + ([tokens(p.id(), p.path("none.[]"), r)] if r.random() < .1 else []))

    def long(p, s, r):
        a = p.path("a.[]")
        s.send([initialize(1, True, r)])
        for n in r.sample([100, 127, 128, 255, 256, 257, 300, 511, 512, 700, 1024], 4):
            s.file(a, r.choice(["%s", "x [m.c %s, y]z", "[%s.c]", "[m.%s", "a" * 260 + "[m.c x]%s", "é[m.c x]\n%s]", "%s\nz\n" + "\n" * 260 + "[m.c x]"])
                   % (r.choice(["w", "é", "👍🏽", "\\]", " ", "w "]) * n))
            s.send([tokens(p.id(), a, r)])
    def wide(p, s, r):
        a = p.path("a.[]")
        s.file(a, r.choice(["a" * 66000 + "[m.c x, y]", "[m.c " + "é" * 33000 + "]\n[n.d z]"]))
        s.send([initialize(1, True, r), tokens(p.id(), a, r)])

    def many(unit):
        def go(p, s, r):
            a = p.path("a.[]")
            s.send([initialize(1, True, r)])
            for n in (1010, 2060):
                s.file(a, (unit * n)[:3000])
                s.send([tokens(p.id(), a, r)])
            s.file(a, "x")
            s.send([tokens(p.id(), a, r)])
        return scripted(go)
    return [scripted(wide)] + [many(u) for u in ("\n", "]", "a\n", "[m.c x]", ",]", "é[")] + [scripted(go) for _ in range(800 if THOROUGH else 120)] + [scripted(long) for _ in range(60 if THOROUGH else 14)]


def sessions_c26(r):
    def go(p, s, r):
        roots = [s.base + "/" + n for n in ("p", "q é", "r.x")]
        for x in roots:
            s.project(x, r.choice(["ok", "ok", "ok", "missing", "unreachable"]), some_plugins(r, hooks=r.random() < .5))
        s.send([initialize(1, True, r)] + [completion(p.id(), roots[0] + "/docs/a.[]", t, r) for t in ("[", None)])
        for _ in range(6):
            root = r.choice(roots)
            if r.random() < .3:
                if r.random() < .3:
                    s.spoil(root)
                else:
                    s.project(root, r.choice(["ok", "ok", "ok", "bad", "unreachable"]), some_plugins(r))
            ms = [opened(root + "/docs/" + r.choice(["a.[]", "é.[]", "none"]), r)] if r.random() < .7 else []
            if r.random() < .35:
                ms.append(r.choice([initialize(p.id(), r.random() < .5, r), idle(root + "/docs/a.[]", r), saved(root + "/docs/a.[]", r), changed(root + "/docs/a.[]", r)]))
            ms += [completion(p.id(), r.choice(roots) + "/docs/a.[]", t, r, context=r.random() < .7) for t in r.sample(["[", "{", "<", " ", ".", "]", "", "[[", None], r.choice([1, 3, 9]))]
            s.send(ms)

    def many(p, s, r):
        x = s.base + "/p"
        k = r.choice([99, 101, 128, 130, 257])
        cmds = lambda b: [command("%s%d" % (b, i), min(i, 9), r.choice(["I", "I", "I", "B"]) if b == "k" else "BBIA"[i % 4], []) for i in range(k)]
        s.project(x, "ok", [("m", OFF, cmds("k"))] + [(n_, OFF, cmds("c")) for n_ in r.sample(["a", "n", "z"], r.choice([0, 1, 3]))])
        s.send([initialize(1, True, r), opened(x + "/docs/a.[]", r)])
        s.send([completion(p.id(), x + "/docs/a.[]", t, r) for t in ("[", "{", "<", " ", None)])
    return [scripted(go, network=True) for _ in range(500 if THOROUGH else 90)] + [scripted(many, network=True) for _ in range(30 if THOROUGH else 8)]


def from_model(r, count):
    """Sessions generated by TLC from MC_Lsp."""
    out, _ = tlc("MC_Lsp", "SPECIFICATION Spec\nCONSTANTS\n MaxSteps = 12\n MaxEdits = 6\n Record = TRUE\nINVARIANTS Printed\nCHECK_DEADLOCK FALSE\n", workers=1,
                 must_pass=False, name="MC_Lsp-generate", extra=("-simulate", "num=%d" % count, "-depth", "19", "-seed", str(r.randint(1, 10 ** 6))))
    hs, last = [], {}
    for line in re.findall(r'^"?HIST (.*?)"?$', out, re.M):
        hs.append(json.loads(json.loads('"' + line + '"')))
    if len(hs) < count // 2:
        raise ToolError("TLC generated %d sessions:\n%s" % (len(hs), out[-2000:]))
    if len(hs) > count * 8:
        hs = r.sample(hs, count * 8)

    def player(h):
        def go(p, s, r):
            path = lambda d: p.path(d + ".[]")
            root = lambda x: s.base + "/" + x
            old = {}

            def world(w):
                for f in w["files"]:
                    if old.get(f["path"]) != f:
                        s.file(path(f["path"]), "".join(f["gr"]) if f["st"] == "ok" else None)
                        old[f["path"]] = f
                for x in w["projects"]:
                    was = old.get("/" + x["root"])
                    if was != x:
                        if was is not None and dict(was, spoiled=True) == x:
                            s.spoil(root(x["root"]))
                        else:
                            s.project(root(x["root"]), x["open"], [(q["name"], q["flags"], [command(c["name"], i, c["ret"], []) for i, c in enumerate(q["cmds"])]) for q in x["plugins"]])
                        old["/" + x["root"]] = x

            def message(m):
                q, meth = m["p"], m["method"]
                ident = int(m["id"]) if m["id"].isdigit() else m["id"]
                if m["t"] == "junk":
                    return M("junk", None, raw=r.choice(JUNK))
                if m["t"] == "other":
                    return M("other", r.choice(OTHERS))
                if m["t"] == "response":
                    return M("response", r.choice(RESPONSES))
                if not q["ok"]:
                    b = r.choice([..., None, 3, []])
                    return request(ident, meth, b, ok=False) if m["t"] == "request" else note(meth, b, ok=False)
                if meth == "initialize":
                    return initialize(ident, q["diag"], r)
                if meth == TOKENS:
                    return tokens(ident, path(q["doc"]), r) if q["file"] else request(ident, TOKENS, {"textDocument": {"uri": "untitled:x"}}, file=False)
                if meth == COMPLETE:
                    return completion(ident, path("a"), q["trigger"][0] if q["trigger"] else None, r)
                if meth == SAVE:
                    return saved(path(q["doc"]), r)
                if meth == OPEN:
                    return opened(root(q["root"]) + "/docs/a.[]", r)
                if meth == CHANGE:
                    return changed(path("a"), r)
                return request(ident, meth, {}) if m["t"] == "request" else note(meth, {})
            world(INITIAL)
            for x in h:
                if x["op"] == "world":
                    world(x["world"])
                else:
                    s.send([message(x["m"])])
        return scripted(go, network=True)
    return [player(h) for h in hs]


INITIAL = {"files": [{"path": "a", "st": "ok", "gr": ["x"]}, {"path": "b", "st": "ok", "gr": ["]"]}],
           "projects": [{"root": "p", "open": "ok", "spoiled": False, "plugins": [
               {"name": "n", "flags": [False, False, False, True], "cmds": [{"name": "text", "ret": "I"}]}, {"name": "m", "flags": OFF, "cmds": [{"name": "c", "ret": "I"}]}]},
               {"root": "q", "open": "ok", "spoiled": False, "plugins": []}]}


def check(prop):
    o = Outcome(prop)
    build(binary=True)
    contained()
    net.context()
    r = random.Random("%s/%d" % (prop, SEED))
    if prop == "C21":
        tlc("MC_LspFrames", "SPECIFICATION Spec\nCONSTANTS\n MaxMessages = %d\nINVARIANTS Framed NothingLost\nCHECK_DEADLOCK FALSE\n" % (3 if THOROUGH else 2))
    else:
        tlc("MC_Lsp", "SPECIFICATION Spec\nCONSTANTS\n MaxSteps = 3\n MaxEdits = %d\n Record = FALSE\nINVARIANTS OneAnswer Published Mirrors Offered OpenedLast\n"
            "PROPERTIES Unmoved\nCHECK_DEADLOCK FALSE\n" % (2 if THOROUGH else 1), heap="12g")
    plans = {"C21": sessions_c21, "C22": sessions_c22, "C23": sessions_c23, "C24": sessions_c24, "C25": sessions_c25, "C26": sessions_c26}[prop](r)
    if prop != "C21":
        plans += from_model(r, 300 if THOROUGH else 40)
    t = time.time()
    # the announced legend
    s = Session(-1, r, network=False)
    s.send([initialize(1, True, r)])
    s.end()
    try:
        legend = s.initialized["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
    except (TypeError, KeyError):
        legend = []
    seeds = [r.random() for _ in plans]
    recs = parallel(lambda a: a[1][0](a[0], random.Random(a[1][1])) if len(HANGS) < 24 else None, list(enumerate(zip(plans, seeds))))
    recs = [x for x in recs if x is not None]
    texts = sorted({f["gr"] for x in recs for w in x["worlds"] for f in w["files"]})
    gr = dict(zip(texts, [x["gr"] for x in run_jobs([{"n": i, "doc": d, "want": ["gr"]} for i, d in enumerate(texts)])]))
    for x in recs:
        x["legend"] = legend
        for w in x["worlds"]:
            for f in w["files"]:
                f["gr"] = gr[f["gr"]]
    log("played %d sessions, %.1fs" % (len(plans), time.time() - t))
    bad = conform("ConformLsp", prop, recs, chunk=1200)
    o.traces = len(recs)
    for k, why in sorted(bad.items()):
        x = next(x for x in recs if x["n"] == k)
        show = [{"in": bytes(st["bytes"]).decode("utf-8", "replace"), "out": st["outs"]} for st in x["steps"]]
        o.violation("session:%d/%d" % (SEED, k), why, {"end": x["end"], "steps": show, "worlds": x["worlds"][:3]})
    outs = {}
    for x in recs:
        for st in x["steps"]:
            for y in st["outs"]:
                key = y["t"] + ("/" + y["k"] if y["k"] else "/%d" % y["code"] if y["t"] == "error" else "")
                outs[key] = outs.get(key, 0) + 1
    o.coverage.update(sessions=len(plans), steps=sum(len(x["steps"]) for x in recs), sent_by_server=outs)
    for x in r.sample(recs, 3):
        o.sample([bytes(st["bytes"]).decode("utf-8", "replace")[:200] for st in x["steps"]][:6])
    o.assumptions = ["window/logMessage notifications are not answers and may appear anywhere", "positions are counted in graphemes, as everywhere in brack"]
    return o.finish()
