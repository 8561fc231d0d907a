"""C16-C20: projects. Histories of brack build, add and new on real directories, with a network and a disk that
misbehave on request, judged by the specification."""
import itertools, json, os, random, re, shutil, signal, subprocess, threading, tomllib
import docs, net, plug, wasm
from common import *
from wasm import command

KILL, FAULT = ("kill", "half", "after"), ("fail", "full")
OFF = [False] * 4
HOOKS = ["document_hook", "stmt_hook", "expr_hook", "text_hook"]


# ----------------------------------------------------------------- releases
def release(owner, repo, version, name, backend):
    """(bytes or None, record) of what is published at this address."""
    url = "https://github.com/%s/%s/releases/download/%s/%s.%s.wasm" % (owner, repo, version, name, backend)
    if version.startswith("gone"):
        return url, None, None
    if version.startswith("bad"):
        return url, b"<html>not a plugin</html>", {"url": url, "file": "damaged", "cmds": [], "entries": []}
    if version.startswith("empty"):
        return url, b"", {"url": url, "file": "damaged", "cmds": [], "entries": []}
    tag = "%s/%s/%s/%s.%s" % (owner, repo, version, name, backend)
    cmds = [command("c", 0, "I", ["*"], payload=tag), command("b", 1, "B", ["*"], payload=tag), command("s", 2, "A", mode="SQUARE"), command("s", 7, "I", ["*"], payload=tag + " s")]
    if not version.startswith("bare"):
        cmds += [command("document", 3, "B", ["I"], payload=tag + " D"), command("stmt", 4, "B", ["I"], payload=tag + " S"),
                 command("expr", 5, "I", ["I"], payload=tag + " E"), command("text", 6, "I", ["I"], payload=tag + " T")]
    return url, cmds, {"url": url, "file": "ok",
                       "cmds": [{"name": c["name"], "x": "c%d" % c["entry"], "ret": c["ret"], "args": c["args"]} for c in cmds],
                       "entries": [{"x": "c%d" % c["entry"], "mode": c["mode"], "payload": c["payload"] if c["mode"] == "ECHO" else "", "tree": []}
                                   for c in cmds]}


PATH = re.compile(r"/([^/]+)/([^/]+)/releases/download/(.+)/([^/]+)\.wasm$")


def published(path):
    """What github.com answers for this path."""
    m = PATH.match(path)
    if not m:
        return None
    owner, repo, version, file = m.groups()
    name, _, backend = file.partition(".")
    _, content, _ = release(owner, repo, version, name, backend)
    return wasm.build(content, getlog=False, pad=4200000 if version.startswith("big") else 0) if isinstance(content, list) else content


# ------------------------------------------------------------ configuration
def plugin(name, version="v1", flags=OFF, owner="o", repo="r"):
    return {"name": name, "owner": owner, "repo": repo, "version": version, "flags": list(flags)}


def config(backend="html", *plugins, name="p", version="0.1.0", authors=("a",), text=None):
    return {"st": "ok", "backend": backend, "plugins": list(plugins), "name": name, "version": version, "authors": list(authors), "text": text}


def quote(s):
    return json.dumps(s, ensure_ascii=False).replace("\x7f", "\\u007f")


def render(c, style=0):
    """Brack.toml; style varies what means the same."""
    if c.get("text") is not None:
        return c["text"]
    out = "[document]\nname = %s\nversion = %s\nbackend = %s\nauthors = [%s]\n" % (
        quote(c["name"]), quote(c["version"]), quote(c["backend"]), ", ".join(map(quote, c["authors"])))
    if style % 3 == 2 and not c["plugins"]:
        out += "\n[plugins]\n"
    ps = c["plugins"] if style % 2 == 0 else c["plugins"][::-1]
    for p in ps:
        # false may be said or left out; which of the two must not change what is designated, so it depends on the name only
        hooks = [(h, f) for h, f in zip(HOOKS, p["flags"]) if f or (sum(map(ord, p["name"])) % 3 == 0 and h != "expr_hook")]
        key = p["name"] if re.fullmatch("[A-Za-z0-9_-]+", p["name"]) else quote(p["name"])
        if style % 5 == 4:
            out = out.replace("[document]\n", "plugins.%s = { schema = \"github\", owner = %s, repo = %s, version = %s%s }\n[document]\n" % (
                key, quote(p["owner"]), quote(p["repo"]), quote(p["version"]), "".join(", %s = %s" % (h, str(f).lower()) for h, f in hooks)), 1)
        else:
            out += "\n[plugins.%s]\nschema = \"github\"\nowner = %s\nrepo = %s\nversion = %s\n" % (
                key, quote(p["owner"]), quote(p["repo"]), quote(p["version"]))
            out += "".join("%s = %s\n" % (h, str(f).lower()) for h, f in hooks)
    return out


BADCONF = ["", "[document\n", "not toml at all", "[plugins]\n", "[document]\nname = \"p\"\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = 7\nauthors = []\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.m]\nschema = \"gitlab\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v1\"\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.m]\nowner = \"o\"\nrepo = \"r\"\nversion = \"v1\"\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v1\"\ntext_hook = \"yes\"\n",
           "[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n[plugins.m]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"v1\"\nversion = \"v1\"\n",
           "plugins = 3\n[document]\nname = \"p\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n"]
NOCONF = {"st": "missing", "backend": "", "plugins": [], "name": "", "version": "", "document": ""}


def read_config(path):
    """The configuration of a file, by another TOML parser."""
    try:
        raw = open(path, "rb").read()
    except OSError:
        return dict(NOCONF)
    bad = dict(NOCONF, st="bad")
    try:
        t = tomllib.loads(raw.decode("utf-8"))
        d = t["document"]
        if not all(isinstance(d[k], str) for k in ("name", "version", "backend")) or not isinstance(d["authors"], list) \
                or not all(isinstance(a, str) for a in d["authors"]):
            return bad
        ps = []
        for name, p in t.get("plugins", {}).items():
            if not set(p) <= {"schema", "owner", "repo", "version", *HOOKS} or p["schema"] != "github" \
                    or not all(isinstance(p[k], str) for k in ("owner", "repo", "version")) \
                    or not all(isinstance(p.get(h, False), bool) for h in HOOKS):
                return bad
            ps.append(plugin(name, p["version"], [p.get(h, False) for h in HOOKS], p["owner"], p["repo"]))
        return {"st": "ok", "backend": d["backend"], "plugins": ps, "name": d["name"], "version": d["version"],
                "document": json.dumps(d, sort_keys=True)}
    except (ValueError, KeyError, TypeError, AttributeError):
        return bad


# ---------------------------------------------------------------- histories
def tree_of(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("dir", "")
            else:
                out[rel] = ("file", open(p, "rb").read())
    return out


def texts(d):
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p):
                out.append({"name": n, "text": open(p, "rb").read().decode("utf-8", "surrogateescape").encode("utf-8", "replace").decode()})
            else:
                out.append({"name": n, "text": "<directory>"})
    return out


class World:
    """A scratch directory with a project in it, and a network."""

    def __init__(self, n):
        self.n = n
        self.base = scratch("world%d" % n)
        self.root = self.base + "/p"
        os.makedirs(self.root)
        self.net = net.Net(published)
        self.style = n
        self.steps = []
        self.releases = {}
        self.facts = {}

    def close(self):
        self.net.close()
        shutil.rmtree(self.base, ignore_errors=True)

    # the run of one command
    def run(self, args, modes="ok", fault=None, cwd=None, root=None):
        """modes: one mode for all, or {url: mode}; "refused": no network at all. fault: (how, k) or "stall".
        Returns what happened."""
        cwd = cwd or self.root
        env = {"PATH": "/usr/bin:/bin", "HOME": scratch("home"), "RUST_BACKTRACE": "0", "SSL_CERT_FILE": scratch("tls", "ca.pem"),
               "HTTPS_PROXY": "http://127.0.0.1:%d" % (self.net.port if modes != "refused" else 9), "NO_PROXY": ""}
        self.net.requests = []
        self.net.stalled.clear()
        self.net.release.clear()
        mode = (lambda path: modes.get("https://github.com" + path, "ok")) if isinstance(modes, dict) else lambda path: modes
        self.net.mode = mode
        logf = self.base + "/shim.log"
        if fault and fault != "stall":
            env.update(LD_PRELOAD=scratch("shim.so"), VERIF_ROOT=root or self.root, VERIF_HOW=fault[0], VERIF_AT=str(fault[1]), VERIF_LOG=logf)
            open(logf, "w").close()
        p = subprocess.Popen([scratch("brack")] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, **contained())
        stalled = False
        if fault == "stall":
            while p.poll() is None and not stalled:
                stalled = self.net.stalled.wait(.02)
            if stalled:
                time.sleep(.03)
                p.kill()
                self.net.release.set()
        try:
            out, err = p.communicate(timeout=patience(120))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            HANGS.append(args)
            return dict(st="hang", fault="none", reqs=[], twice=False, out="", err="")
        fired = "none"
        if stalled:
            fired = "kill"
        elif fault and fault != "stall" and "FIRED" in open(logf).read():
            fired = "kill" if fault[0] in KILL else "fail"
        st = "ok" if p.returncode == 0 else "killed" if p.returncode == -signal.SIGKILL and fired == "kill" else \
             "panic" if p.returncode == 101 or b"panicked" in err else "signal" if p.returncode < 0 else "fail"
        reqs = sorted(set(self.net.requests))
        twice = any(self.net.requests.count(u) > 1 for u in reqs if mode(u[len("https://github.com"):]) != "loop")
        self.facts[st + "/" + fired] = self.facts.get(st + "/" + fired, 0) + 1
        return dict(st=st, fault=fired, reqs=reqs, twice=twice, out=out.decode("utf-8", "replace"), err=err.decode("utf-8", "replace")[-400:])

    def bad_urls(self, urls, modes):
        get = (lambda u: modes.get(u, "ok")) if isinstance(modes, dict) else lambda u: modes
        return [u for u in urls if get(u) not in net.GOOD or published(u[len("https://github.com"):]) is None]

    # operations
    def do(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def op_cfg(self, c):
        f = self.root + "/Brack.toml"
        if os.path.lexists(f):
            os.remove(f)
        if c["st"] != "missing":
            self.style += 1
            with open(f, "w", encoding="utf-8", newline="") as g:
                g.write(c["text"] if c["st"] == "bad" else render(c, self.style))
            got = read_config(f)
            if got["st"] != c["st"] or c["st"] == "ok" and c.get("text") is None and sorted(map(json.dumps, got["plugins"])) != sorted(map(json.dumps, c["plugins"])):
                raise ToolError("wrote another configuration than intended: %r %r" % (c, got))

    def op_docs(self, ds):
        """ds: {name: text or bytes, ("link", target)}"""
        d = self.root + "/docs"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, x in ds.items():
            p = os.path.join(d, n)
            if isinstance(x, tuple) and x[0] == "locked":
                open(p, "w").write(x[1])
                os.chmod(p, 0)
            elif isinstance(x, tuple):
                os.symlink(x[1], p)
            elif x == "<dir>":
                os.mkdir(p)
            else:
                open(p, "wb").write(x if isinstance(x, bytes) else x.encode())

    def op_out(self, name, text):
        os.makedirs(self.root + "/out", exist_ok=True)
        open(os.path.join(self.root, "out", name), "w").write(text)

    def op_clean(self):
        shutil.rmtree(self.root + "/plugins", ignore_errors=True)
        self.steps.append({"op": "clean"})

    def doc_records(self):
        out = []
        d = self.root + "/docs"
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            p = os.path.join(d, n)
            st, text = "ok", ""
            if not n.endswith(".[]"):
                st = "none"
            else:
                try:
                    text = open(p, "rb").read().decode("utf-8")
                except (OSError, UnicodeDecodeError):
                    st = "bad"
                if contained() and os.path.isfile(p) and not os.stat(p).st_mode & 4:
                    st = "bad" # not readable for the user brack runs as
            out.append({"name": list(n), "st": st, "content": text})
        return out

    def op_build(self, modes="ok", fault=None, cwd=None):
        root = cwd or self.root
        cfg = read_config(root + "/Brack.toml")
        urls = []
        for p in cfg["plugins"]:
            url, _, rec = release(p["owner"], p["repo"], p["version"], p["name"], cfg["backend"])
            urls.append(url)
            if rec:
                self.releases[url] = rec
        before = tree_of(root)
        ds = self.doc_records() if cwd is None else [{"name": list("main.[]"), "st": "ok", "content": ""}]
        out0 = texts(root + "/out")
        x = self.run(["build"], modes, fault, cwd=root, root=root)
        after = tree_of(root)
        mine = lambda t: {k: v for k, v in t.items() if k.split("/")[0] not in ("plugins", "out")}
        listed = [l.split("out/", 1)[1] for l in x["out"].split("\n") if "out/" in l]
        self.steps.append({"op": "build", "b": {
            "cfg": {k: cfg[k] for k in ("st", "backend", "plugins")}, "docs": ds, "down": self.bad_urls(urls, modes), "fault": x["fault"], "st": x["st"],
            "reqs": x["reqs"], "twice": x["twice"], "out0": out0, "out1": texts(root + "/out"), "listed": sorted(set(listed)),
            "same": mine(before) == mine(after)}, "err": x["err"]})

    def op_add(self, arg, modes="ok", fault=None):
        f = self.root + "/Brack.toml"
        c0 = read_config(f)
        raw0 = open(f, "rb").read() if os.path.exists(f) else None
        x = self.run(["add", arg] if not arg.startswith("-") else ["add", "--", arg], modes, fault)
        raw1 = open(f, "rb").read() if os.path.exists(f) else None
        m = re.match(r"[^:]*:([^/]*)/([^@]*)@(.*)$", arg, re.S)
        urls = set(x["reqs"])
        if m:
            urls.add("https://github.com/%s/%s/releases/download/%s/%s.wasm" % (m[1], m[2], m[3], m[2]))
        pick = lambda c: {k: c[k] for k in ("st", "backend", "plugins", "document")}
        self.steps.append({"op": "add", "a": {
            "cfg0": pick(c0), "cfg1": pick(read_config(f)), "same": raw0 == raw1, "arg": list(arg), "down": self.bad_urls(urls, modes),
            "fault": x["fault"], "st": x["st"], "reqs": x["reqs"], "twice": x["twice"]}, "err": x["err"]})

    def op_new(self, name, fault=None, impossible=False):
        before = tree_of(self.root)
        # where it goes, seen from the directory the command runs in
        path = os.path.join(self.root, name) if name else None
        taken = impossible or not name or os.path.lexists(path) or os.path.lexists(path.rstrip("/"))
        x = self.run(["new", "--name=" + name], "refused", fault)
        after = tree_of(self.root)
        real = os.path.join(os.path.realpath(os.path.dirname(path.rstrip("/"))), os.path.basename(path.rstrip("/"))) if name else ""
        rel = os.path.relpath(real, os.path.realpath(self.root)) if name else ""
        inside = {k: v for k, v in after.items() if rel and not taken and k.startswith(rel + "/")}
        made = [{"path": k[len(rel) + 1:], "type": v[0], "text": v[1].decode("utf-8", "replace") if v[0] == "file" else "",
                 "lines": v[1].decode("utf-8", "replace").split("\n") if v[0] == "file" else []} for k, v in sorted(inside.items())]
        others = {k: v for k, v in after.items() if k not in inside and not (k == rel and not taken)}
        c = read_config(os.path.join(self.root, rel, "Brack.toml")) if rel and not taken else dict(NOCONF)
        self.steps.append({"op": "new", "a": {
            "name": list(name), "taken": taken, "fault": x["fault"], "st": x["st"], "made": made, "others": others == before,
            "left": after == before, "cfg1": {k: c[k] for k in ("st", "backend", "plugins", "name", "version")}}, "err": x["err"]})
        if x["st"] == "ok" and not taken and os.path.isdir(os.path.join(self.root, rel)):
            self.op_build("refused", cwd=os.path.join(self.root, rel))

    def record(self):
        return {"n": self.n, "releases": list(self.releases.values()), "steps": self.steps}


def play(histories):
    """Runs all histories; the records."""
    results = []

    def one(a):
        n, ops = a
        w = World(n)
        try:
            for op in ops:
                w.do(op)
            return w.record(), w.facts
        finally:
            w.close()
    results = parallel(one, list(enumerate(histories)))
    facts = {}
    for _, f in results:
        for k, v in f.items():
            facts[k] = facts.get(k, 0) + v
    recs = [r for r, _ in results]
    # graphemes of the documents, by the segmentation the specification is given
    docs_ = [d for r in recs for s in r["steps"] if s["op"] in ("build", "shared") for d in s["b" if s["op"] == "build" else "h"]["docs"]]
    texts_ = sorted({d["content"] for d in docs_})
    gr = dict(zip(texts_, [x["gr"] for x in run_jobs([{"n": i, "doc": t, "want": ["gr"]} for i, t in enumerate(texts_)])]))
    for d in docs_:
        d["content"] = gr[d["content"]]
    return recs, facts


# ----------------------------------------------------------------- scenarios
NAMED = {n + ".[]": "in " + str(i) for i, n in enumerate([".a", "..a", "-a", "~a", "#x", "_x", "a b", "é", "%20", "A", "*", "a~", "(1)", "$HOME"])}
DOCS = {"a.[]": "plain text", "b.[]": "[m.c x] and {n.b y}\n\n<m.s z>"}


def sweep(before, op, after, hows, ks):
    """The same operation with the disk failing in every way at every change."""
    return [before + [op + ((how, k),)] + after for how in hows for k in ks]


MODEL_DOCS = {"plain": "plain", "usesm": "[m.c x]", "usesn": "{n.b x}", "wrong": "[zz.c x]"}


def from_model(r, count, faults):
    """Histories generated by TLC from MC_Project."""
    out, _ = tlc("MC_Project", MC_CFG % (4, 2 if faults else 0, 4, "TRUE") + "SPECIFICATION Spec\nINVARIANTS Judged Printed\n",
                 workers=1, must_pass=False, name="MC_Project-generate",
                 extra=("-simulate", "num=%d" % count, "-depth", "200", "-seed", str(r.randint(1, 10 ** 6))))
    hs = []
    for line in re.findall(r'^"?HIST (.*?)"?$', out, re.M):
        try:
            steps = json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))
        except ValueError:
            raise ToolError("history: " + line[:300])
        ops = []
        for s in steps:
            if s["op"] == "cfg":
                c = s["cfg"]
                if c["st"] == "ok":
                    ops.append(("cfg", config(c["backend"], *[plugin(p["name"], p["version"], p["flags"], p["owner"], p["repo"]) for p in c["plugins"]])))
                else:
                    ops.append(("cfg", {"st": c["st"], "text": r.choice(BADCONF)}))
            elif s["op"] == "docs":
                ops.append(("docs", {"".join(d["name"]): MODEL_DOCS[d["content"]] for d in s["docs"]}))
            else:
                modes = {u: r.choice(net.BAD) for u in s["down"]}
                if len(s["down"]) > 2 and r.random() < .5:
                    modes = "refused"
                fault = None
                if s["fault"] != "none":
                    fault = (r.choice(KILL if s["fault"] == "kill" else FAULT), 1 + 3 * s["at"] // 2 + r.randint(0, 3))
                    if s["fault"] == "kill" and r.random() < .15:
                        fault, modes = "stall", {u: "stall" for u in ["https://github.com/o/r/releases/download/v1/m.html.wasm"]}
                ops.append(("build", modes, fault))
        hs.append(ops)
    if len(hs) < count // 2:
        raise ToolError("TLC generated %d histories:\n%s" % (len(hs), out[-2000:]))
    return hs


MC_CFG = """CONSTANTS
 MaxBuilds = %d
 MaxFaults = %d
 MaxEdits = %d
 Record = %s
 Loads <- MCLoads
 Compatible2 <- MCCompatible
 Output <- MCOutput
CHECK_DEADLOCK FALSE
"""


def random_docs(r, mods=("m", "n"), sane=False):
    names = [(m, c) for m in mods for c in ("c", "b", "s")]
    ds = {}
    for _ in range(r.randint(0, 3)):
        n = r.choice(["a", "b", "main", "x.y", "ü 1", "README", "out", "-d", "a.html", "日本", "x.[]", ".a", "..a", "~a", "#x", "_x", "a b", "é", "-", "%20", "A", "0", "*", "a~", "(1)"]) + r.choice([".[]"] * 6 + ["", ".md", ".[]~", ".[", ".[].bak"])
        x = r.random()
        d = docs.clean(r, depth=r.choice([0, 1]), paragraphs=1, names=names) if x < .6 else r.choice(["", "plain\n", "[m.c x", "\\q", "]", "[zz.c x]"])
        if sane and x >= .6:
            d = r.choice(["", "plain\n", "[m.c x]", "<m.s [n.c y]>", "{n.b z}\n\nend", "é", "[m.c [n.s x], y]"])
        ds[n] = d[:200] if x >= .6 or len(d) < 200 else "[m.c short]"
    if sane:
        return ds
    if r.random() < .1:
        ds["w.[]"] = b"\xff\xfe"
    if r.random() < .1:
        ds["l.[]"] = ("link", "/nonexistent")
    if r.random() < .1:
        ds["sub"] = "<dir>"
    if r.random() < .05:
        ds["k" + r.choice([".[]", ".txt"])] = ("locked", "x")
    return ds


def random_cfg(r, sane=False):
    if sane:   # one that builds
        owner = [r.choice("mnk-") for _ in range(4)]
        return config(r.choice(["html", "html", "tex", "x.y"]), *[plugin(n, r.choice(["v1", "v1", "v2", "v3"]), [o == n and r.random() < .5 for o in owner], r.choice(["o", "o", "O2"]), r.choice(["r", "r", "r.git"]))
                                                                for n in r.choice(["mn", "nm", "mnk"])], name=r.choice(["p", "é"]))
    x = r.random()
    if x < .05:
        return {"st": "missing"}
    if x < .12:
        return {"st": "bad", "text": r.choice(BADCONF)}
    ps = []
    for n in r.sample(["m", "n", "k"], r.choice([0, 1, 1, 2, 2, 3])):
        flags = [r.random() < .15 for _ in range(4)]
        ps.append(plugin(n, r.choice(["v1", "v1", "v1", "v1", "v2", "v2", "bare", "bad", "gone", "empty"]), flags, r.choice(["o", "o", "O2"]), r.choice(["r", "r", "r.git"])))
    return config(r.choice(["html", "html", "html", "tex", "", "x.y"]), *ps, name=r.choice(["p", "é\"\\", ""]), authors=r.choice([(), ("a", "b")]))


def random_history(r, length, faults):
    sane = r.random() < .6
    ops = [("cfg", random_cfg(r, sane)), ("docs", random_docs(r, sane=sane))]
    for _ in range(length):
        x = r.random()
        if x < .25:
            ops.append(("cfg", random_cfg(r, sane and r.random() < .9)))
        elif x < .4:
            ops.append(("docs", random_docs(r, sane=sane and r.random() < .9)))
        elif x < .45:
            ops.append(("out", r.choice(["old.html", "a.html", "a.tex", "note"]), "old"))
        elif x < .48:
            ops.append(("clean",))
        else:
            modes = r.choice(["ok", "ok", "ok", "redirect", "chunked", "slow", "hops", "close", "ok" if sane else "refused", "ok" if sane and r.random() < .7 else r.choice(net.BAD)])
            fault = (r.choice(KILL + FAULT), r.randint(1, 16)) if r.random() < faults else None
            ops.append(("build", modes, fault))
    return ops


def crowd(k, version="v1", flags=(-1,) * 4):
    """Many plugins (the hooks spread over them), and a document that uses each."""
    names = ["q%d" % i for i in range(k)]
    ps = [plugin(n, version, [i == h for h in flags]) for i, n in enumerate(names)]
    return ps, {"a.[]": "".join("[%s.c %d]" % (n, i) for i, n in enumerate(names)), "b.[]": "[%s.c x]" % names[-1]}


def histories_c16(r):
    hs = [h for h in from_model(r, 150 if THOROUGH else 30, False)]
    m, n, bare = plugin("m"), plugin("n"), plugin("m", "bare")
    for k in range(16):
        f = [bool(k >> j & 1) for j in range(4)]
        hs.append([("cfg", config("html", plugin("m", "v1", f), n)), ("docs", DOCS), ("build",), ("build", "refused")])
    for ds in [{}, {"a.[]": ""}, {".[]": "x", "a[]": "y", "b.[]x": "z", "c.[": "w"}, {"x.y.[]": "[m.c x]", "x.[].[]": "[m.c y]"},
               {"a.[]": "[m.c x]", "bad.[]": "[zz.c x]"}, {"a.[]": "x", "bad.[]": "]"}, {"a.[]": "x", "bad.[]": "[m.c"}, {"a.[]": b"\xff"},
               {"a.[]": ("link", "b.txt"), "b.txt": "[m.c x]"}, {"l.[]": ("link", "gone")}, {"a.[]": "x", "k.[]": ("locked", "y")}, {"a.[]": "x", "k.txt": ("locked", "y")}, {"sub": "<dir>", "a.[]": "x"},
               {"%d.[]" % i: "[m.c %d]" % i for i in range(12)}, NAMED, {"%d.[]" % i: "[m.c %d]" % i for i in range(40)}, {"p%d.[]" % i: "t%d" % i for i in range(130)},
               {**{"d%d.[]" % i: "x%d" % i for i in range(70)}, **{"n%d.txt" % i: "]" for i in range(70)}}, {"w" * 250 + ".[]": "x", "é" * 100 + ".[]": "y"},
               {**{"a" + e: "]" for e in ("", ".draft", ".md", ".lock", ".txt", ".html", ".[]~", ".[]x", ".bak", ".ignore", ".[", "..[] ")}, "a.[]": "[m.c x]"},
               {**{n_: "]" for n_ in ("README.md", ".gitignore", ".brackignore", "index", "main", "main.md", "Brack.toml", "_draft", "LICENSE")}, "main.[]": "x", "index.[]": "y"},
               {"a.[]": "[m.c x]", "A.[]": "[m.c y]", "a.B.[]": "z", "a.b.[]": "w"}, {"big.[]": "w" * 9000, "para.[]": "p\n\n" * 60 + "end"}, {"a.[]": "[m.q x]"}, {"a.[]": "[m.s x]"}, {"a.[]": "<m.s <n.s x>> [n.c]"}, {"a.[]": "[m.c , x]"}]:
        hs.append([("cfg", config("html", m, n)), ("docs", ds), ("build",), ("out", "a.html", "older"), ("out", "keep.txt", "mine"), ("build", "refused"),
                   ("cfg", config("tex", m, n)), ("build",)])
    # documents that change while their outputs keep their length, trade places, shrink to nothing and come back
    for seq in [("x", "y", "x"), ("[m.c x]", "[m.c y]"), ("[m.c x]", "[n.c x]", "[m.c x]"), ("abc", "abd", "bbc", ""), ("", "x", ""), ("x\n\ny", "y\n\nx"),
                ("long text that is there", "x", "long text that is here"), ("[m.s 1]", "[m.s 2]", "{m.b 2}")]:
        h = [("cfg", config("html", m, n))]
        for i, t in enumerate(seq):
            h += [("docs", {"a.[]": t, "b.[]": seq[i - 1], "c.[]": "constant"}), ("build",)]
        hs.append(h)
    for old in ("", "x", "elder", "<p>y</p>", "z" * 5000):
        hs.append([("cfg", config("html", m, n)), ("docs", {"a.[]": "[m.c x]", "b.[]": "y"}), ("build",), ("out", "a.html", old), ("out", "b.html", old), ("build",),
                   ("docs", {"a.[]": "[m.c y]", "b.[]": "x"}), ("build",)])
    for c in BADCONF:
        hs.append([("cfg", config("html", m)), ("docs", DOCS | {"b.[]": "[m.c x]"}), ("build",), ("cfg", {"st": "bad", "text": c}), ("build",),
                   ("cfg", config("html", m)), ("build", "refused")])
    hs.append([("docs", DOCS), ("cfg", {"st": "missing"}), ("build",)])
    for v in ("bad", "gone", "empty", "bare"):
        for f in (OFF, [False, False, False, True]):
            hs.append([("cfg", config("html", plugin("m", v, f), n)), ("docs", DOCS), ("build",), ("cfg", config("html", m, n)), ("build",)])
    for a, b in itertools.product(range(16), repeat=2):
        if THOROUGH or (a & b) or r.random() < .05:
            fa, fb = ([bool(x >> j & 1) for j in range(4)] for x in (a, b))
            if THOROUGH or r.random() < .2:
                hs.append([("cfg", config("html", plugin("m", "v1", fa), plugin("n", "v1", fb))), ("docs", DOCS), ("build",)])
    hs += [random_history(r, 8, 0) for _ in range(500 if THOROUGH else 60)]
    return hs


def histories_c17(r):
    hs = from_model(r, 200 if THOROUGH else 50, False)
    base = plugin("m")
    # many plugins; one of them changes
    for k in (4, 5, 6, 9, 17, 33):
        ps, ds = crowd(k, flags=r.choice([(0, 1, 2, 3), (k - 1,) * 4, (k - 1, k - 2, 0, 1)]))
        i = r.choice([0, k // 2, k - 1])
        qs = ps[:i] + [dict(ps[i], version="v2")] + ps[i + 1:]
        hs.append([("cfg", config("html", *ps)), ("docs", ds), ("build",), ("build", "refused"), ("cfg", config("html", *qs)), ("build",), ("build", "refused")])
        hs.append([("cfg", config("html", *ps[:k // 2])), ("docs", {"a.[]": "x"}), ("build",), ("cfg", config("html", *ps)), ("docs", ds), ("build", "slow"), ("build", "refused")])
    # every single change to what designates a file, and back
    variants = [dict(base, version="V1"), dict(base, owner="O"), dict(base, repo="R"), dict(base, name="M"), dict(base, version="v2"), dict(base, owner="O2"), dict(base, repo="r2"), dict(base, name="k")] + \
               [dict(base, flags=[j == h for j in range(4)]) for h in range(4)] + [dict(base, flags=[True] * 4)]
    for v in variants:
        for backend in ("html", "tex", "HTML"):
            hs.append([("cfg", config("html", base)), ("docs", {"a.[]": "[%s.c x]" % v["name"], "t.[]": "text"} if v["name"] != "m" else {"a.[]": "[m.c x]"}),
                       ("build",), ("build", "refused"), ("cfg", config(backend, v)), ("build",), ("build", "refused"), ("build",),
                       ("cfg", config("html", base)), ("docs", {"a.[]": "[m.c x]"}), ("build",), ("build", "refused")])
    # two plugins from similar addresses must not be mistaken for each other
    pairs = [(dict(base, owner="o", repo="rv"), dict(base, owner="or", repo="v")), (dict(base, repo="r", version="v1"), dict(base, repo="rv", version="1")),
             (dict(base, version="v1"), dict(base, version="V1")), (dict(base, version="1.0"), dict(base, version="1.00")),
             (dict(base, version="a_b"), dict(base, version="a-b")), (dict(base, version="x" * 100 + "1"), dict(base, version="x" * 100 + "2"))]
    for p, q in pairs:
        hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", p)), ("build",), ("cfg", config("html", q)), ("build",), ("build", "refused"),
                   ("cfg", config("html", p)), ("build",)])
    hs.append([("docs", {"a.[]": "[m.c x] [n.c y]"}), ("cfg", config("html", plugin("m"), plugin("n", owner="other"))), ("build",),
               ("cfg", config("html", plugin("n"), plugin("m", owner="other"))), ("build",), ("build", "refused")])
    # whatever a version is called, it is a version
    for v in ("latest", "main", "master", "HEAD", "nightly", "dev", "0", "0.0.0", "1", "v1.2.3-rc.1", "v1.2.3+build", "snapshot", "x", "LATEST", "stable", "local", "*"):
        hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", dict(base, version=v))), ("build",), ("build", "refused")])
    for o_, r_ in (("O", "R"), ("brack-lang", "brack"), ("a.b", "c_d"), ("0", "1"), ("x" * 39, "y" * 100)):
        hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", config("tex", dict(base, owner=o_, repo=r_))), ("build",), ("build", "refused")])
    for nm in ("a_b", "a-b", "A1", "é", "x.y", "0"):
        u = plugin(nm, repo="r")
        if nm == "é":
            continue
        hs.append([("docs", {"a.[]": "[%s.c x]" % nm if "." not in nm else "x"}), ("cfg", config("html", u)), ("build",), ("build", "refused")])
    # configurations saying the same in other words, comments and hook flags that are off
    for t in ["[document]\nname=\"p\"\nversion=\"0.1.0\"\nbackend=\"html\"\nauthors=[]\n[plugins.m]\nschema=\"github\"\nowner=\"o\"\nrepo=\"r\"\nversion=\"v1\"\n%s" % x
              for x in ("# off\n", "text_hook = true\nexpr_hook = true\n", "stmt_hook = true\ndocument_hook = true\n", "text_hook = false\ndocument_hook = true\n",
                        "stmt_hook=true\nexpr_hook=false\n", "expr_hook=true\nstmt_hook=false\n")]:
        hs.append([("docs", DOCS | {"b.[]": "[m.c x]\n\n{m.b}"}), ("cfg", config(text=t)), ("build",), ("build", "refused")])
    for k in range(16):
        f = [bool(k >> j & 1) for j in range(4)]
        hs.append([("cfg", config("html", plugin("m", "v1", f))), ("docs", {"a.[]": "[m.c x] text\n\n{m.b y}"}), ("build",), ("build", "refused"),
                   ("cfg", config("html", plugin("m", "v1", f[::-1]))), ("build",), ("build", "refused")])
    for mode in net.GOOD:
        if mode != "slow":
            hs.append([("cfg", config("html", dict(base, version="big1"), plugin("n"))), ("docs", DOCS), ("build", mode), ("build", "refused")])
        hs.append([("cfg", config("html", base, plugin("n"))), ("docs", DOCS), ("build", mode), ("build", "refused"), ("build", mode)])
    hs.append([("cfg", config("html", base, plugin("n"))), ("docs", DOCS), ("build",), ("clean",), ("build",), ("build", "refused")])
    hs += [random_history(r, 10, 0) for _ in range(500 if THOROUGH else 60)]
    return hs


def histories_c18(r):
    hs = from_model(r, 300 if THOROUGH else 60, True)
    m, n = plugin("m"), plugin("n")
    two = config("html", m, n)
    url = lambda p, b="html": release(p["owner"], p["repo"], p["version"], p["name"], b)[0]
    start = [("docs", DOCS), ("cfg", two)]
    rec = [("build",), ("build", "refused")]
    ks = range(1, 25 if THOROUGH else 17)
    hs += sweep(start, ("build", "ok"), rec, KILL + FAULT, ks)
    hs += sweep(start + [("build",), ("cfg", config("html", m, plugin("n", "v2")))], ("build", "ok"),
                [("build",), ("build", "refused"), ("cfg", two), ("build",)], KILL + FAULT, ks if THOROUGH else range(1, 12))
    # dies again and again
    hs += [start + [("build", "ok", (how, k)), ("build", "ok", (how2, k2))] + rec
           for how, how2, k, k2 in [(r.choice(KILL), r.choice(KILL + FAULT), r.randint(1, 6), r.randint(1, 6)) for _ in range(200 if THOROUGH else 24)]]
    # every way of failing to deliver, for one plugin or the other or both, with or without something there already
    for mode in net.BAD + ["refused"]:
        for which in ([m], [n], [m, n]) if mode not in net.STATUS else r.sample(([m], [n], [m, n]), 1):
            modes = mode if mode == "refused" else {url(p): mode for p in which}
            hs.append(start + [("build", modes)] + rec)
            hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", m)), ("build",), ("docs", DOCS), ("cfg", two), ("build", modes),
                       ("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", m)), ("build", "refused"), ("docs", DOCS), ("cfg", two)] + rec)
    for mode in net.BAD:
        tex = {url(p, "tex"): mode for p in (m, n)}
        hs.append(start + [("build",), ("cfg", config("tex", m, n)), ("build", tex), ("build",), ("build", "refused")])
    for which in ([m], [n], [m, n]):
        hs.append(start + [("build", {url(p): "stall" for p in which}, "stall"), ("build", "refused")] + rec)
        hs.append(start + [("build", {url(p): "stall" for p in which}, "stall")] + rec)
    # many plugins, some of which do not arrive
    for k in (5, 9, 17):
        ps, ds = crowd(k)
        for which in ([0], [k - 1], [k // 2, k - 2]):
            hs.append([("cfg", config("html", *ps)), ("docs", ds), ("build", {url(ps[i]): r.choice(net.BAD) for i in which})] + rec)
        hs += [[("cfg", config("html", *ps)), ("docs", ds), ("build", "ok", (r.choice(KILL + FAULT), r.randint(1, 4 * k)))] + rec for _ in range(4)]
    # large plugins
    for mode in ("cut", "cutchunked", "reset", "500"):
        hs.append([("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", plugin("m", "big1"))), ("build", mode)] + rec)
    hs += [[("docs", {"a.[]": "[m.c x]"}), ("cfg", config("html", plugin("m", "big1"))), ("build", "ok", (how, k))] + rec for how in KILL + FAULT for k in (1, 2, 3, 4)]
    # bad releases that are replaced by good ones
    hs.append([("docs", DOCS), ("cfg", config("html", m, plugin("n", "bad"))), ("build",), ("cfg", two)] + rec)
    hs += [random_history(r, 9, .5) + [("cfg", two), ("docs", DOCS), ("build",), ("build", "refused")] for _ in range(400 if THOROUGH else 40)]
    return hs


ARGS = ["github:o/r@v1", "github:O2/r.x@v2", "github:o/a.b.c@v1", "github:o/.dot@v1", "github:o-1/r_2@1.2.3-rc+4", "github:o/r@v1@2", "github:o/r@a/b",
        "github:o/r@a:b", "github:o/plug@gone1", "github:o/m@v9", "github:o/m.x@v1", "github:o/n@v1"]
BADARGS = ["", "github", "github:", "github:o", "github:o/", "github:o/r", "github:o/r@", "github:/r@v1", "github:o/@v1", "o/r@v1", ":o/r@v1", "gitlab:o/r@v1",
           "GitHub:o/r@v1", " github:o/r@v1", "github :o/r@v1", "github:o/r/s@v1", "github:o:p/r@v1", "github:o@p/r@v1", "github:o/r:s@v1", "github@o/r:v1",
           "/:@", "github:@/r", "https://github.com/o/r@v1", "github:o//r@v1", "github:o/r@v1/..//", "github:\n/r@", "::o/r@v1", "github::o/r@v1"]


def histories_c19(r):
    authors = [("a", "a"), ("b", "a", "b", "b"), ("z", "a", "m"), (" a ", "\ta", "a "), ("", ""), ("A", "a"), ("x <x@y>",) * 5, ("a\nb", "é", "e\u0301")]
    m, n = plugin("m", "v1", [True, False, True, False]), plugin("n", "v2", [False, True, False, True])
    full = config("html", m, n, plugin("z", "v3"), name="my \"book\" é", version="1.2.3", authors=("x <x@y>", "ü", ""))
    confs = [config("html"), config("", name="", authors=()), config("tex", m), full]
    hs = []
    for a in ARGS:
        for i, c in enumerate(confs):
            hs.append([("cfg", c), ("docs", {}), ("add", a), ("add", a), ("add", "github:q/later@v1")] + ([("build",)] if i % 2 else []))
    for a in BADARGS:
        if a == "github:o/r@v1/..//":
            continue
        hs.append([("cfg", full if r.random() < .5 else confs[0]), ("add", a)])
    # to a configuration of many
    for k in (5, 17, 40):
        big = config("html", *crowd(k, flags=(0, k - 1, 2, 3))[0], name="b" * 200, authors=tuple("author %d" % i for i in range(k)))
        hs.append([("cfg", big), ("add", "github:o/r@v1"), ("add", "github:o/q0@v9"), ("add", "github:o/%s@v1" % ("l" * 100)), ("add", "github:o/%s@%s" % ("k" * 90, "7" * 90))])
    for i, who in enumerate(authors):
        c = config("html", m, name=[" p ", "P", "p\np", ""][i % 4], version=["1", " 1", "01", "1.0.0-x+y"][i % 4], authors=who)
        hs.append([("cfg", c), ("add", "github:o/r@v1"), ("add", "github:o/%s@v1" % "mMnNrR"[i % 6]), ("docs", {}), ("build",)])
    # names that are not those of the project's plugins, only much like them
    for name, arg in [("m", "M"), ("M", "m"), ("m", "m-"), ("m", "m_"), ("a-b", "a_b"), ("a_b", "a-b"), ("ab", "a"), ("a", "ab"), ("m", "mm"), ("plugin", "plug-in"), ("m1", "m01"),
                      ("o", "r"), ("v1", "r"), ("r", "o")]:
        for c in (config("html", plugin(name)), config("html", plugin("z"), plugin(name, "v2", [False, True, False, False], "o", arg))):
            hs.append([("cfg", c), ("add", "github:o/%s@v1" % arg), ("add", "github:o/%s@v1" % name), ("add", "github:o/%s@v2" % arg)])
    # several plugins one after the other, with failures in between
    for _ in range(60 if THOROUGH else 12):
        ops = [("cfg", r.choice(confs))]
        for _ in range(6):
            modes = r.choice(["ok"] * 4 + net.GOOD + net.BAD + ["refused"])
            fault = (r.choice(KILL + FAULT), r.randint(1, 8)) if r.random() < .3 else None
            ops.append(("add", r.choice(ARGS + ["github:w/%s@v%d" % (r.choice("abcdefgh"), r.randint(1, 3))] * 12 + BADARGS[:20]), modes, fault))
        hs.append(ops)
    for t in BADCONF:
        hs.append([("cfg", {"st": "bad", "text": t}), ("add", "github:o/r@v1"), ("cfg", confs[0]), ("add", "github:o/r@v1")])
    hs.append([("cfg", {"st": "missing"}), ("add", "github:o/r@v1")])
    for mode in net.BAD + ["refused"] + net.GOOD:
        for c in (confs[0], full) if mode not in net.STATUS else r.sample((confs[0], full), 1):
            hs.append([("cfg", c), ("add", "github:o/r@v1", mode), ("add", "github:o/r@v1")])
    hs += sweep([("cfg", full)], ("add", "github:o/r@v1", "ok"), [("add", "github:o/r@v1"), ("add", "github:o/s@v1"), ("docs", {})], KILL + FAULT, range(1, 11))
    hs += sweep([("cfg", confs[0]), ("add", "github:o/q@v1")], ("add", "github:o/r@v1", "ok"), [("add", "github:o/r@v1")], KILL + FAULT, range(1, 11))
    for c in (confs[0], full):
        hs.append([("cfg", c), ("add", "github:o/r@v1", "stall", "stall"), ("add", "github:o/r@v1")])
    for t in ["[plugins]\n[document]\nname = 'p'\nversion = '1'\nbackend = 'html'\nauthors = ['''a\nb''']\n",
              "# comment\nplugins.m = {schema = \"github\", owner = \"o\", repo = \"r\", version = \"v1\", text_hook = false}\n[document]\r\nname = \"\\u00e9\"\nversion = \"\"\nbackend = \"x\"\nauthors = [\n \"a\", # first\n]\n",
              "document = {name = \"n\", version = \"2\", backend = \"b\", authors = []}\n[plugins.\"a b\"]\nschema = \"github\"\nowner = \"\"\nrepo = \"\"\nversion = \"\"\nstmt_hook = true\nexpr_hook = true\n"]:
        hs.append([("cfg", config(text=t)), ("add", "github:o/r@v1"), ("add", "github:o/m@v1"), ("add", "github:o/k@v1", "404"), ("add", "github:o/k@v1", "chunked")])
    for _ in range(120 if THOROUGH else 25):
        c = random_cfg(r)
        hs.append([("cfg", c)] + [("add", "github:%s/%s%s@%s" % (r.choice(["o", "O-1", "x.y"]), r.choice(["m", "n", "k", "w", "m.x", "w.y"]), r.choice(["", "", ".git", "_1", "-a"]),
                                                              r.choice(["v1", "1.0", "gone", "V_2"])), r.choice(["ok", "ok", "redirect", "404"])) for _ in range(3)])
    return hs


def histories_c20(r):
    names = ["p1", "my book", "é日本", "a.b", "Brack.toml", "docs", "out", ".hidden", "x\"y", "x'y", "x\\y", "x\ty", "new\nline", "-n", "--name", "a=b", "#c", "[t]", "{b}",
             "'''", '"""', "\u200b", "e\u0301", "\x01\x7f", "$HOME", "~", "*", "%s", "{}", "true", "0", "\U0001F600", "a" * 255, "日" * 85, "..x", "a..", "\u0085x", "\u2028"]
    hs = [[("docs", {}), ("new", n), ("new", n)] for n in names]
    for n, imp in [("", True), (".", False), ("..", False), ("/", False), ("a" * 256, True), ("日" * 86, True), ("nodir/x", True), ("file/x", True), ("dir/sub/../y", True), ("dangling/x", True),
                   ("file", False), ("dir", False), ("full", False), ("link", False), ("dangling", False), ("dirlink", False), ("dir/", False), ("./dir", False), ("dir/../file", False)]:
        hs.append([("things",), ("new", n, None, imp)])
    for made in range(1, 64, 1 if THOROUGH else 7):
        hs.append([("here", made), ("new", "p1"), ("new", "é"), ("new", "p1")])
    for n in ("dir/x", "dir/../y", "./z", "full/x", "dirlink/q", "q/"):
        hs.append([("things",), ("new", n)])
    hs += sweep([("things",)], ("new", "fresh"), [("new", "fresh2")], KILL + FAULT, range(1, 12))
    hs += sweep([("things",)], ("new", "dir/fresh"), [], KILL + FAULT, range(1, 12))
    hs += sweep([("things",)], ("new", "file"), [], FAULT, range(1, 4))
    for _ in range(300 if THOROUGH else 40):
        n = "".join(r.choice(docs.GRAPHEMES + ["a", "b", " ", ".", "[", "]", "\n", "\"", "\\", "'"]) for _ in range(r.randint(1, 12)))
        n = n.replace("/", "|").replace("\x00", "0")
        if n in (".", "..") or len(n.encode()) > 255:
            continue
        hs.append([("new", n), ("new", n), ("new", n + "2")])
    return hs


def op_things(self):
    for n, x in [("file", "old"), ("dir", None), ("full", {"docs": "mine", "Brack.toml": "mine"})]:
        p = os.path.join(self.root, n)
        if x is None:
            os.mkdir(p)
        elif isinstance(x, dict):
            os.mkdir(p)
            for k, v in x.items():
                open(os.path.join(p, k), "w").write(v)
        else:
            open(p, "w").write(x)
    os.symlink("file", self.root + "/link")
    os.symlink("nowhere", self.root + "/dangling")
    os.symlink("dir", self.root + "/dirlink")


World.op_things = op_things


def op_here(self, made):
    """What a directory that is something already has in it."""
    for i, (n, x) in enumerate([(".git", {"HEAD": "ref: refs/heads/main"}), (".gitignore", "*"), ("Brack.toml", "mine"), ("docs", {"main.[]": "mine"}), ("out", {"a.html": "old"}), ("main.[]", "mine")]):
        if made >> i & 1:
            p = os.path.join(self.root, n)
            if isinstance(x, dict):
                os.mkdir(p)
                for k, v in x.items():
                    open(os.path.join(p, k), "w").write(v)
            else:
                open(p, "w").write(x)


World.op_here = op_here


def check(prop):
    if prop == "C15":
        import comp
        return comp.check(prop)
    o = Outcome(prop)
    build(binary=True)
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", scratch("shim.so"), VERIF + "/driver/shim.c", "-ldl", "-lpthread"], capture_output=True, text=True)
    if p.returncode:
        raise ToolError("shim: " + p.stderr)
    contained()
    net.context()
    r = random.Random("%s/%d" % (prop, SEED))
    if prop in ("C16", "C17", "C18"):
        sizes = (3, 2, 3) if THOROUGH else (2, 1, 2)
        tlc("MC_Project", MC_CFG % (sizes + ("FALSE",)) + "SPECIFICATION FairSpec\nINVARIANTS Judged Knows Recovers Complete\nPROPERTIES Terminates\n", heap="12g")
    elif prop == "C27":
        import share
        for mixes, kills in [("two", 2), ("three", 1)] if THOROUGH else [("two", 1)]:
            tlc("MC_Shared", share.MC_CFG % (mixes, kills, "FALSE") + "SPECIFICATION Spec\nINVARIANTS Judged Sound Afterwards\nPROPERTIES Ends\n", heap="12g")
    else:
        tlc("MC_Manage", "CONSTANTS\n MaxArg = %d\n What = \"%s\"\n Loads <- MCLoads\n Compatible2 <- MCCompatible\n Output <- MCOutput\nCHECK_DEADLOCK FALSE\n"
            "SPECIFICATION Spec\nINVARIANTS Judged Atomic ReadOnce\nPROPERTIES Ends\n" % (5 if THOROUGH else 4, "add" if prop == "C19" else "new"))
    hs = share.histories(r) if prop == "C27" else {"C16": histories_c16, "C17": histories_c17, "C18": histories_c18, "C19": histories_c19, "C20": histories_c20}[prop](r)
    t = time.time()
    recs, facts = play(hs)
    log("played %d histories, %.1fs" % (len(hs), time.time() - t))
    bad = conform("ConformProject", prop, [{k: v for k, v in x.items()} for x in recs])
    o.traces = len(recs)
    for k, why in sorted(bad.items()):
        o.violation("history:" + json.dumps(hs[k], default=repr), why, {"history": repr(hs[k]), "steps": recs[k]["steps"]})
    o.coverage.update(histories=len(hs), runs=sum(len([s for s in x["steps"] if s["op"] != "clean"]) for x in recs), outcomes=facts)
    for h in r.sample(hs, 4):
        o.sample(repr(h)[:1000])
    o.assumptions = ["owner, repository and version need no escaping in a URL", "the server's files do not change while a project uses them"]
    return o.finish()
