"""C27: several commands at the same time in one project. The disk accesses of every process are announced by the shim and
let through one by one, so that the interleaving is the one that was asked for."""
import json, os, select, signal, socket, subprocess, time
import net, proj
from common import *
from proj import World, release, read_config, tree_of, texts

CHANGES = ("open ", "write ", "rename", "mkdir", "unlink", "rmdir", "link", "symlink")


def frame(m):
    b = json.dumps(m).encode()
    return b"Content-Length: %d\r\n\r\n" % len(b) + b


def labels_of(out):
    """What the language server offered, <<>> if nothing; None if it did not answer properly."""
    got = None
    while out:
        e = out.find(b"\r\n\r\n")
        m = re.search(rb"Content-Length: (\d+)", out[:max(e, 0)])
        if not m:
            return None
        n = int(m[1])
        body, out = out[e + 4:e + 4 + n], out[e + 4 + n:]
        try:
            x = json.loads(body)
            if isinstance(x, dict) and x.get("id") == 2:
                r = x.get("result")
                got = [] if r is None else [i["label"] for i in (r["items"] if isinstance(r, dict) else r)]
        except (ValueError, KeyError, TypeError):
            return None
    return got


class Proc:
    def __init__(self, w, n, a, root):
        self.a, self.n, self.fault, self.blocked = a, n, "none", 0
        self.net = net.Net(proj.published)
        modes = a.get("modes", "ok")
        self.net.mode = (lambda path: modes.get("https://github.com" + path, "ok")) if isinstance(modes, dict) else lambda path: modes
        self.path = w.base + "/g%d-%d" % (w.round, n)
        self.listener = socket.socket(socket.AF_UNIX)
        self.listener.bind(self.path)
        self.listener.listen(1)
        env = {"PATH": "/usr/bin:/bin", "HOME": scratch("home"), "RUST_BACKTRACE": "0", "SSL_CERT_FILE": scratch("tls", "ca.pem"),
               "HTTPS_PROXY": "http://127.0.0.1:%d" % self.net.port, "NO_PROXY": "",
               "LD_PRELOAD": scratch("shim.so"), "VERIF_ROOT": root, "VERIF_GATE": self.path}
        stdin = subprocess.DEVNULL
        if a["kind"] == "open":
            doc = {"textDocument": {"uri": "file://" + root + "/docs/a.[]".replace("[", "%5B").replace("]", "%5D"), "languageId": "brack", "version": 1, "text": ""}}
            pos = {"textDocument": {"uri": doc["textDocument"]["uri"]}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}}
            f = w.base + "/in%d-%d" % (w.round, n)
            open(f, "wb").write(frame({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": {"capabilities": {}}})
                                + frame({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": doc})
                                + frame({"jsonrpc": "2.0", "id": 2, "method": "textDocument/completion", "params": pos}))
            stdin = open(f, "rb")
        args = {"build": ["build"], "open": ["language-server"], "add": ["add", "".join(a["arg"])], "new": ["new", "--name=" + "".join(a["arg"])]}[a["kind"]]
        self.out, self.err = open(w.base + "/out%d-%d" % (w.round, n), "w+b"), open(w.base + "/err%d-%d" % (w.round, n), "w+b")
        self.p = subprocess.Popen([scratch("brack")] + args, cwd=root, env=env, stdin=stdin, stdout=self.out, stderr=self.err, **contained())
        if stdin != subprocess.DEVNULL:
            stdin.close()
        self.conn, self.buf, self.at = None, b"", None     # at: the access it is waiting to make

    def settle(self, seconds):
        """Until it waits at an access, or is over, or seconds have passed (perhaps it waits for another process)."""
        end = time.time() + seconds
        while self.at is None and not self.over():
            fd = self.conn or self.listener
            if not select.select([fd], [], [], min(.02, max(0, end - time.time())))[0]:
                if time.time() > end:
                    return False
                continue
            if self.conn is None:
                self.conn = self.listener.accept()[0]
                continue
            try:
                x = self.conn.recv(4096)
            except OSError:
                x = b""
            if not x:
                self.p.wait(patience(60))
                return True
            self.buf += x
            if b"\n" in self.buf:
                self.at = self.buf.decode("utf-8", "replace").strip()
                self.buf = b""
        return True

    def over(self):
        return self.p.poll() is not None

    def go(self):
        self.at = None
        try:
            self.conn.sendall(b"g")
        except OSError:
            pass

    def kill(self):
        if not self.over():
            self.fault = "kill"
            self.p.kill()
            self.p.wait()

    def close(self):
        for f in (self.conn, self.listener, self.out, self.err):
            if f:
                f.close()
        self.net.close()


def run(w, acts, schedule, root, log_):
    """schedule: [(process, how many accesses (None: all), or "change": up to and with the next that changes something, "before": up to it, or "kill")]"""
    procs = [Proc(w, n, a, root) for n, a in enumerate(acts)]
    start = time.time()

    def live():
        return [p for p in procs if not p.over()]

    def settle(p, seconds=4):
        if not p.settle(0 if p.blocked > 2 else seconds):
            p.blocked += 1
        else:
            p.blocked = 0

    def step(p):
        """One access; False if there is none."""
        if p.at is None:
            settle(p)
        if p.at is None:
            return False
        log_.append((p.n, p.at.replace(root, "")))
        p.go()
        settle(p)
        w.look()
        return True
    try:
        for p in procs:
            settle(p, 30)
        for who, what in schedule:
            if who >= len(procs):
                continue
            p = procs[who]
            if what == "kill":
                p.kill()
                log_.append((p.n, "kill"))
            elif what in ("change", "before"):
                while p.at and not p.at.startswith(CHANGES) and step(p):
                    pass
                if what == "change":
                    step(p)
            else:
                k = 0
                while (what is None or k < what) and step(p):
                    k += 1
        hung = 0
        while live():
            moved = False
            for p in live():
                while step(p):
                    moved = True
            hung = 0 if moved else hung + 1
            if not moved:
                time.sleep(.05)
                if time.time() - start > patience(120):
                    break
        out = []
        for a, p in zip(acts, procs):
            hang = not p.over()
            if hang:
                HANGS.append(a)
                p.p.kill()
                p.p.wait()
            p.out.seek(0)
            p.err.seek(0)
            o, e, rc = p.out.read(), p.err.read(), p.p.returncode
            st = "hang" if hang else "killed" if p.fault == "kill" and rc == -signal.SIGKILL else "panic" if rc == 101 or b"panicked" in e else \
                 "signal" if rc < 0 else "ok" if rc == 0 else "fail"
            if rc in (97, 98):
                raise ToolError("gate: %r" % e)
            x = {"kind": a["kind"], "arg": list(a["arg"]), "down": [], "st": st, "fault": p.fault, "reqs": sorted(set(p.net.requests)), "labels": [], "whole": False}
            if a["kind"] == "open" and st == "ok":
                got = labels_of(o)
                if got is None:
                    x["st"] = "no answer"
                else:
                    x["labels"] = sorted(set(got))
            out.append((x, e.decode("utf-8", "replace")[-300:]))
        return out
    finally:
        for p in procs:
            p.kill()
            p.close()


pick = lambda c: {k: c[k] for k in ("st", "backend", "plugins", "document")}


def op_shared(self, acts, schedule):
    self.round = getattr(self, "round", 0) + 1
    root = self.root
    f = root + "/Brack.toml"
    cfg = read_config(f)
    urls = set()
    for p in cfg["plugins"] + [proj.plugin("".join(a["arg"]).split("/")[1].split("@")[0].split(".")[0], "".join(a["arg"]).split("@")[1], owner="o",
                                           repo="".join(a["arg"]).split("/")[1].split("@")[0]) for a in acts if a["kind"] == "add"]:
        url, _, rec = release(p["owner"], p["repo"], p["version"], p["name"], cfg["backend"])
        urls.add(url)
        if rec:
            self.releases[url] = rec
    for a in acts:
        if a["kind"] == "add":
            m = re.match(r"github:([^/]*)/([^@]*)@(.*)$", "".join(a["arg"]))
            urls.add("https://github.com/%s/%s/releases/download/%s/%s.wasm" % (m[1], m[2], m[3], m[2]))
    seen, ls = [], []

    def look():
        c = pick(read_config(f))
        c["plugins"].sort(key=lambda p: p["name"])
        if c not in seen:
            seen.append(c)
    self.look = look
    look()
    out0 = texts(root + "/out")
    got = run(self, acts, schedule, root, ls)
    runs = []
    for a, (x, err) in zip(acts, got):
        x["down"] = sorted(self.bad_urls(urls, a.get("modes", "ok")))
        if a["kind"] == "new":
            t = tree_of(os.path.join(root, "".join(a["arg"])))
            c = read_config(os.path.join(root, "".join(a["arg"]), "Brack.toml"))
            x["whole"] = set(t) == {"docs", "docs/main.[]", "Brack.toml", ".gitignore"} and c["st"] == "ok" and c["name"] == "".join(a["arg"])
        runs.append(x)
    self.facts["together"] = self.facts.get("together", 0) + 1
    for x in runs:
        k = x["kind"] + " " + x["st"]
        self.facts[k] = self.facts.get(k, 0) + 1
    self.facts["accesses"] = self.facts.get("accesses", 0) + len(ls)
    look()
    self.steps.append({"op": "shared", "h": {"cfg": pick(cfg), "docs": self.doc_records(), "runs": runs, "seen": seen, "last": pick(read_config(f)),
                                             "out0": out0, "out1": texts(root + "/out")},
                       "log": ["%d %s" % x for x in ls], "errs": [e for _, e in got]})


World.op_shared = op_shared

m, n = proj.plugin("m", "v1"), proj.plugin("n", "v2", [False, True, False, True])
URLS = {p["name"]: "https://github.com/o/r/releases/download/%s/%s.html.wasm" % (p["version"], p["name"]) for p in (m, n)}


def act(kind, arg="", modes="ok"):
    return {"kind": kind, "arg": list(arg), "modes": modes}


BUILD, OPEN, NEW = act("build"), act("open"), act("new", "fresh")
X, Y, X2 = act("add", "github:o/x@v1"), act("add", "github:o/y.z@v2"), act("add", "github:o/x@v3")
CUT = act("build", "", {URLS["m"]: "cut"})
GONE = act("build", "", {URLS["n"]: "404"})


def from_model(r, count):
    out, _ = tlc("MC_Shared", MC_CFG % ("three", 1, "TRUE") + "SPECIFICATION Spec\nINVARIANTS Judged Printed\n", workers=1, must_pass=False, name="MC_Shared-generate",
                 extra=("-simulate", "num=%d" % count, "-depth", "80", "-seed", str(r.randint(1, 10 ** 6))))
    hs = []
    for line in re.findall(r'"HIST (.*)"', out):
        h = json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))
        acts = []
        for a in h["acts"]:
            acts.append(act(a["kind"], "".join(a["arg"]), {u: r.choice(["cut", "404", "reset", "503"]) for u in a["down"]} or "ok"))
        ops = [("cfg", proj.config("html", *[proj.plugin(p["name"], p["version"], p["flags"]) for p in h["cfg"]["plugins"]])),
               ("docs", {"".join(d["name"]): proj.MODEL_DOCS[d["content"]] for d in h["docs"]})]
        sched = [(s["who"] - 1, "kill" if s["at"] == "kill" else "change" if s["at"] in ("create", "write", "move", "output", "docs", "ccreate", "cwrite", "cmove", "furnish") else 1)
                 for s in h["steps"]]
        hs.append(ops + [("shared", acts, sched), ("build",)])
    return hs


MC_CFG = ("CONSTANTS\n Mixes = \"%s\"\n MaxKills = %d\n Record = %s\n Loads <- MCLoads\n Compatible2 <- MCCompatible\n Output <- MCOutput\n Offered <- MCOffered\n"
          "CHECK_DEADLOCK FALSE\n")


def histories(r):
    two = proj.config("html", m, n)
    start = [("docs", dict(proj.DOCS)), ("cfg", two)]
    offline = [("build", "refused")]
    hs = []
    deep = range(0, 60) if THOROUGH else range(0, 44)
    # one is stopped at each of its accesses while the other runs from beginning to end
    for acts, ks, after in [([BUILD, BUILD], deep, offline), ([BUILD, OPEN], deep, offline), ([OPEN, BUILD], deep, offline), ([X, Y], range(0, 14), [("build",)]),
                            ([X, BUILD], range(0, 14), [("build",)]), ([BUILD, X], deep, [("build",)]), ([X, OPEN], range(0, 14), [("build",)]),
                            ([NEW, NEW], range(0, 14), []), ([X, X2], range(0, 14), [("build",)]), ([CUT, BUILD], range(0, 12), offline), ([BUILD, CUT], deep, offline),
                            ([OPEN, OPEN], deep, offline), ([GONE, OPEN], range(0, 12), [("build",)])]:
        for k in ks if THOROUGH or len(ks) < 20 else r.sample(list(ks), len(ks) * 2 // 3):
            hs.append(start + [("shared", acts, [(0, k), (1, None), (0, None)])] + after)
    # one is stopped before each access that changes something
    for acts, ks, after in [([BUILD, BUILD], range(0, 16), offline), ([BUILD, OPEN], range(0, 8), offline), ([OPEN, BUILD], range(0, 8), offline),
                            ([X, BUILD], range(0, 6), [("build",)]), ([X, Y], range(0, 6), [("build",)]), ([NEW, NEW], range(0, 6), [])]:
        for k in ks:
            hs.append(start + [("shared", acts, [(0, "change")] * k + [(0, "before"), (1, None), (0, None)])] + after)
    # the same, from a state in which one plugin is there, and with the stopped one killed or never started again before a third
    for k in r.sample(list(deep), 30 if THOROUGH else 12):
        hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", proj.config("html", m)), ("build",), ("docs", dict(proj.DOCS)), ("cfg", two),
                   ("shared", [BUILD, BUILD], [(0, k), (1, None), (0, None)])] + offline)
        hs.append(start + [("shared", [BUILD, r.choice([BUILD, OPEN])], [(0, k), (1, r.randint(1, 30)), (0, "kill"), (1, None)])] + offline)
    # back and forth
    for _ in range(400 if THOROUGH else 60):
        acts = r.choice([[BUILD, BUILD], [BUILD, BUILD, BUILD], [BUILD, OPEN], [BUILD, OPEN, X], [X, Y], [X, Y, BUILD], [NEW, NEW, NEW], [CUT, BUILD, OPEN], [X, X2, Y], [BUILD, X]])
        sched = []
        for _ in range(r.choice([3, 10, 60])):
            sched.append((r.randrange(len(acts)), r.choice([1, 1, 2, 3, 8, "change", "change"])))
        if r.random() < .25:
            sched.insert(r.randrange(len(sched)), (r.randrange(len(acts)), "kill"))
        hs.append(start + [("shared", acts, sched), ("build",), ("build", "refused")])
    return hs + from_model(r, 300 if THOROUGH else 60)
