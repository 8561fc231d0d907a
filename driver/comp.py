"""C15: the compile command against the specification."""
import json, os, random, re, subprocess
import docs, plug
from common import *
from plug import P, BLANK, command

KINDS = {"AngleBracketOpen": "AO", "AngleBracketClose": "AC", "SquareBracketOpen": "SO", "SquareBracketClose": "SC",
         "CurlyBracketOpen": "CO", "CurlyBracketClose": "CC", "NewLine": "NL", "Newline": "NL", "WhiteSpace": "WS",
         "Whitespace": "WS", "BackSlash": "BS"}
ERRORS = {"AngleNotOpened": "Angle bracket not opened", "AngleNotClosed": "Angle bracket not closed",
          "CurlyNotOpened": "Curly bracket not opened", "CurlyNotClosed": "Curly bracket not closed",
          "SquareNotOpened": "Square bracket not opened", "SquareNotClosed": "Square bracket not closed",
          "ModuleNotFound": "Need module", "IdentifierNotFound": "Need identifier after module",
          "DotNotFound": "Need dot after module", "UnexpectedDot": "Unexpected dot", "UnexpectedComma": "Unexpected comma",
          "InvalidBackslash": "Backslash must be followed by dot, comma, backslash, or bracket"}


# ------------------------------------------------- reading what was printed
TOK = re.compile(r'\s*(?:([A-Za-z_]\w*)|(-?\d+)|("(?:[^"\\]|\\.)*")|([{}()\[\],:]))', re.S)


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|.)", f, s[1:-1], flags=re.S)


def read_debug(text):
    """Values printed by Rust's Debug, as JSON-like data."""
    toks, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError("at %d" % i)
        toks.append(m.groups())
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None,) * 4

    def need(c):
        if peek()[3] != c:
            raise ValueError(c)
        pos[0] += 1

    def items(close):
        out = []
        while peek()[3] != close:
            out.append(value())
            if peek()[3] == ",":
                pos[0] += 1
        need(close)
        return out

    def value():
        a, n, s, c = peek()
        pos[0] += 1
        if s is not None:
            return unescape(s)
        if n is not None:
            return int(n)
        if c == "[":
            return items("]")
        if a is None:
            raise ValueError(c)
        if peek()[3] == "(":
            pos[0] += 1
            v = items(")")
            if a == "Some":
                return v[0]
            return {a: v[0] if len(v) == 1 else v}
        if peek()[3] == "{":
            pos[0] += 1
            d = {}
            while peek()[3] != "}":
                k = peek()[0]
                pos[0] += 1
                need(":")
                d[k] = value()
                if peek()[3] == ",":
                    pos[0] += 1
            need("}")
            return d
        return None if a == "None" else a
    out = []
    while pos[0] < len(toks):
        out.append(value())
    return out


def place(l):
    return [l["start"]["line"], l["start"]["character"], l["end"]["line"], l["end"]["character"]]


def token(v):
    (k, x), = v.items()
    t = ""
    if isinstance(x, list):
        t, x = x
    return {"k": KINDS.get(k, k), "t": t, "l": place(x)}


def tree(v):
    out = []

    def go(v):
        (k, x), = v.items()
        if k == "BackSlash":
            kk = k
        else:
            kk = KINDS.get(k, k)
        val = x.get("value")
        e = {"k": kk, "v": val if kk in ("Text", "Module", "Ident") and val is not None else "⊥" if kk in ("Text", "Module", "Ident") else "",
             "l": place(x["location"]), "ch": []}
        out.append(e)
        me = len(out)
        e["ch"] = [go(c) for c in x.get("children", [])]
        return me
    go(v)
    return out


def printed(stdout, level, js):
    """What kind of result was printed, and the result."""
    r = {"kind": "none", "tok": [], "tree": BLANK, "errs": [], "text": ""}
    if stdout == "":
        return r
    try:
        if js:
            v = json.loads(stdout)
            if isinstance(v, list):
                return dict(r, kind="tokens", tok=[token(x) for x in v])
            return dict(r, kind="tree", tree=tree(v))
        if level == 5:
            return dict(r, kind="text", text=stdout[:-1] if stdout.endswith("\n") else stdout)
        vs = read_debug(stdout)
        if level == 1:
            return dict(r, kind="tokens", tok=[token(x) for x in vs])
        if len(vs) == 1 and isinstance(vs[0], dict) and "Document" in vs[0]:
            return dict(r, kind="tree", tree=tree(vs[0]))
        es = []
        for v in vs:
            (k, x), = v.items()
            es.append({"k": ERRORS.get(k, "?"), "l": place(x)})
        return dict(r, kind="problems", errs=es)
    except (ValueError, KeyError, TypeError, AttributeError):
        return dict(r, kind="unreadable")


# -------------------------------------------------------------------- cases
def commands_of(tag):
    return [command("c", 0, "I", ["*"], payload=tag), command("b", 1, "B", ["*"], payload=tag), command("s", 2, "A", mode="SQUARE"),
            command("s", 3, "I", ["*"], payload=tag + "s"), command("i", 4, "A", mode="INNER"), command("o", 5, "I", ["I", "O"], payload=tag),
            # of the names of hooks, and of no kind a hook could have
            command("text", 6, "B", ["*"], payload=tag), command("document", 7, "I", ["*"], payload=tag), command("expr", 8, "A", mode="CURLY"),
            command("stmt", 9, "B", ["*"], payload=tag), command("t", 10, "I", ["*"], mode="TRAP")]


def plugin_dirs(r):
    """name -> (path or None, state, files)"""
    def plugin(tag):
        return P(tag, commands_of(tag))
    dirs = {}

    def make(name, files, sub=None):
        path = scratch("dirs", sub or name)
        os.makedirs(path)
        recs = []
        for fn, content in files:
            f = os.path.join(path, fn)
            rec = {"name": list(fn), "file": "damaged", "cmds": [], "entries": []}
            if isinstance(content, P):
                os.link(content.path, f)
                rec = dict(rec, file="ok", cmds=content.record()["cmds"], entries=content.record()["entries"])
            elif content == "dir":
                os.mkdir(f)
            elif content == "dangling":
                os.symlink("/nonexistent/x", f)
            elif isinstance(content, tuple):     # a link to a file elsewhere that is not called that
                os.symlink(content[1].path, f)
                rec = dict(rec, file="ok", cmds=content[1].record()["cmds"], entries=content[1].record()["entries"])
            else:
                open(f, "wb").write(content)
            recs.append(rec)
        dirs[name] = (path, "ok", recs)
    m, n, big, other = plugin("m"), plugin("n"), plugin("Big"), plugin("other")
    make("empty", [])
    make("plain", [("m_0.wasm", m), ("n_a1B2.wasm", n), ("Big_ff.wasm", big)])
    make("mixed", [("m_0.wasm", m), ("README.md", b"hello"), ("notes.wasm", b"not a plugin"), ("n.wasm", other), ("sub", "dir")])
    bad = ["my-html_0.wasm", "x_1.wasm.bak", "y_a-b.wasm", "z_.wasm", "_a.wasm", "m2_0.wasm", "a_b_c.wasm", "q_1xwasm", "k_0.WASM",
           "v_0.wasm ", " u_0.wasm", "t_0 .wasm", "s_0..wasm", "w_é.wasm", "_.wasm", "r_0.wasm.wasm"]
    make("lookalike", [(x, b"not a plugin") for x in bad] + [("m_0.wasm", m)])
    make("lookalike2", [(x, other) for x in bad])
    make("p_1.wasm", [("m_0.wasm", m), ("junk", b"x")], sub="p_1.wasm")
    make("parent_1.wasm/inner", [("m_Z9.wasm", m), ("junk.txt", b"x")], sub="parent_1.wasm/inner")
    make("damaged", [("m_0.wasm", m), ("n_0.wasm", b"\0asm junk")])
    make("emptyfile", [("m_0.wasm", b"")])
    make("directory", [("m_0.wasm", "dir"), ("n_0.wasm", n)])
    make("dangling", [("m_0.wasm", m), ("n_0.wasm", "dangling")])
    make("long", [("m_" + "0" * 200 + ".wasm", m), (LETTERS + "_0.wasm", other)])
    make("characters", [("m_" + LETTERS + "0123456789.wasm", m), (LETTERS[::-1] + "_9876543210" + LETTERS + ".wasm", other)])
    # many plugins (the same files under many names)
    pair = [a + b for a in "abcdefghij" for b in "klmnopqrst"]
    make("crowd", [("%s_%d.wasm" % (x, i), (m, n, big, other)[i % 4]) for i, x in enumerate(pair[:70])] + [("note%d" % i, b"x") for i in range(40)])
    make("crowd2", [("%s_%d.wasm" % (x, i), (m, n, big, other)[i % 4]) for i, x in enumerate(pair[:20])] + [("zz_0.wasm", b"not a plugin")])
    make("sp ace é", [("m_0.wasm", m), ("n_0.wasm", n)])
    make("links", [("m_0.wasm", ("link", m)), ("n_0.wasm", n), ("other", ("link", other)), ("q-1_0.wasm", ("link", other))])
    make("hidden/.d", [("m_0.wasm", m), (".n_0.wasm", n)], sub="hidden/.d")
    os.symlink("plain", scratch("dirs", "linked"))
    dirs["linked"] = (scratch("dirs", "linked"),) + dirs["plain"][1:]
    dirs["missing"] = (scratch("dirs", "nowhere"), "missing", [])
    f = scratch("dirs", "afile")
    open(f, "w").write("x")
    dirs["file"] = (f, "missing", [])
    dirs["none"] = (None, "missing", [])
    return dirs


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DOCS = ["", "a", "plain text, with. punctuation\nand lines\n\nand paragraphs\n", "[m.c x]", "a [m.c x, [n.c y]] {m.b z}", "<m.s q> and <m.i r [m.c s]>",
        "[Big.c x]", "[html.c x]", "[q.c x]", "[m.c x", "[m.c x}\n]", "]", "\\a", "[m.c ,x]", "[m.c x,]", "[]", "\na", "[m.", "[m.o x]", "[m.o x,y,z]",
        "[m.o]", "é🇯🇵 [m.c é\\]\\\\]", "<m.s <m.s x>>", "<m.q>", "[m.t]", "{m.c x}", "[m.document x]", "{m.text y}", "<m.expr w>", "{m.stmt x}", "\"quotes\" 'and' \\\\ [m.c \"x\"]",
        "tab\there\u0000\u200b\u0301", "a\r\nb\r\n\r\nc", "[p.c x]", "[other.c x]", "[x.c y]", "a\n\n\n[m.c x]\n", "<m.i <m.i x>>", "[m.c [m.c [m.c x] y] z]", "x [m.c] y"]


def cases(r, n_random):
    dirs = plugin_dirs(r)
    out = []

    def case(dirname, how, doc, level, js, suffix=".[]", docst="ok", style=None):
        # style: how the paths and the backend are written
        out.append(dict(dir=dirname, how=how, doc=doc, level=level, json=js, suffix=suffix, docst=docst,
                        style=style or [r.choice(["abs"] * 4 + ["bare", "dot", "up"]), r.choice(["abs"] * 3 + ["slash", "rel", "dot"]), r.choice(["html"] * 3 + ["latex", "x", ""])]))
    for d in DOCS:
        for level in range(1, 6):
            for js in (False, True):
                if level in (4, 5) and not js or r.random() < .25:
                    case("plain", "opt", d, level, js)
    for name in dirs:
        for how in ("opt", "env", "both"):
            for d in ("[m.c x]", "a", "[n.c x]", "[other.c y]"):
                if how == "opt" or r.random() < .3:
                    case(name, how, d, r.choice([1, 3, 4, 5, 5, 5]), False)
        case(name, "opt", "[html.c x]", 5, False)
    pair = [a + b for a in "abcdefg" for b in "klmnopqrst"]
    for k in (0, 15, 16, 19, 31, 63, 69):
        case("crowd", "opt", "[%s.c x]" % pair[k], 5, False)
    case("crowd", "env", "".join("[%s.c x]" % x for x in pair), 5, False)
    case("crowd2", "opt", "a", 5, False)
    case("sp ace é", "opt", "[m.c x][n.c y]", 5, False)
    for name in ("links", "linked", "hidden/.d"):
        for d in ("abs", "slash", "rel", "dot", "."):
            case(name, r.choice(["opt", "env"]), "[m.c x]" if name != "links" else "[n.c x][m.c y]", 5, False, style=["abs", d, "html"])
    case("sp ace é", "env", "[m.c x][n.c y]", 4, True)
    for f in ("abs", "bare", "dot", "up"):
        for d in ("abs", "slash", "rel", "dot", "."):
            for b in ("html", "latex", ""):
                for suffix in (".[]", ".txt"):
                    if suffix == ".[]" or b == "html":
                        case("plain", r.choice(["opt", "env"]), "[m.c x]", r.choice([1, 3, 5, 5]), False, suffix=suffix, style=[f, d, b])
    for name, mod in (("long", LETTERS), ("characters", LETTERS[::-1])):
        case(name, "opt", "[m.c x][%s.c y]" % mod, 5, False)
    for name in ("none",):
        case(name, "neither", "a", 5, False)
        case(name, "neither", "a", 1, True)
    for level in (0, 6, 7, 255, 256, -1, "x", "", 10 ** 30):
        for js in (False, True):
            case("plain", "opt", "a", level, js)
    for level in (None, 1, 2, 3, 4, 5):
        for js in (False, True):
            for suffix in (".[]", ".txt", "", ".[", "[]", ".[].", ".[]x", ".[]/"):
                if suffix == ".[]" or r.random() < .3:
                    case("plain", "opt", "[m.c ok]", level, js, suffix=suffix)
            for st in ("missing", "dir", "notutf8", "dangling", "link", "readonly"):
                case("plain", "opt", "[m.c x]", level, js, docst=st)
    names = [(p, c) for p in ("m", "n", "Big") for c in ("c", "b", "s", "i", "o", "expr", "text", "document", "stmt")]
    for _ in range(n_random):
        d = docs.clean(r, depth=r.choice([0, 1, 2]), paragraphs=r.choice([1, 1, 2]), names=names)
        if r.random() < .5:
            d = docs.mutate(r, d)
        if r.random() < .1:
            d = docs.soup(r, 12)
        case(r.choice(["plain", "plain", "plain", "mixed", "lookalike"]), r.choice(["opt", "env"]), d, r.choice([1, 2, 3, 4, 5]), r.random() < .4)
    fit = [plug.P(t, [c for c in commands_of(t) if c["name"] != "t"]) for t in ("m", "n", "Big")]
    for _ in range(n_random):
        case("plain", r.choice(["opt", "env"]), plug.document(r, fit, "C12"), r.choice([None, 2, 3, 4, 5, 5, 5]), r.random() < .3)
    return dirs, out


def check(prop):
    o = Outcome(prop)
    build(binary=True)
    tlc("MC_Compile", "SPECIFICATION Spec\nCONSTANTS\n MaxName = %d\n EchoOpen <- MCOpen\n EchoClose <- MCClose\nINVARIANTS Ends CompileInv NameInv\n"
        "CHECK_DEADLOCK FALSE\n" % (6 if THOROUGH else 4))
    r = random.Random("C15/%d" % SEED)
    dirs, cs = cases(r, 3000 if THOROUGH else 250)
    gr = [x["gr"] for x in run_jobs([{"n": i, "doc": c["doc"], "want": ["gr"]} for i, c in enumerate(cs)])]

    contained()

    def run(i):
        c = cs[i]
        w = scratch("case-%d" % i)
        os.makedirs(w)
        path = "%s/%s%s" % (w, r_name(i), c["suffix"])
        real = path.rstrip("/")
        if c["docst"] == "ok":
            with open(real, "w", encoding="utf-8", newline="") as f:
                f.write(c["doc"])
        elif c["docst"] == "dir":
            os.mkdir(real)
        elif c["docst"] == "notutf8":
            open(real, "wb").write(b"[m.c \xff\xfe]")
        elif c["docst"] == "dangling":
            os.symlink("/nonexistent/doc", real)
        elif c["docst"] == "link":
            there = scratch("case-%d.there" % i)
            with open(there, "w", encoding="utf-8", newline="") as f:
                f.write(c["doc"])
            os.symlink(there, real)
        elif c["docst"] == "readonly":
            with open(real, "w", encoding="utf-8", newline="") as f:
                f.write(c["doc"])
            os.chmod(real, 0o444)
        env = {"PATH": "/usr/bin:/bin", "HOME": scratch("home"), "RUST_BACKTRACE": "0"}
        fs, ds, backend = c["style"]
        if docst_plain(c) and fs != "abs":
            name = os.path.basename(path)
            path = {"bare": name if name[0] != "-" else "./" + name, "dot": "./" + name, "up": "../%s/./%s" % (os.path.basename(w), name)}[fs]
        args = [scratch("brack"), "compile", "-b", backend, "-f", path]
        d, cwd = dirs[c["dir"]][0], w
        if d is not None:
            d = {"abs": d, "slash": d + "/", "rel": os.path.relpath(d, w), "dot": d + "/.", ".": d}[ds]
            if ds == "." and fs == "abs":
                cwd, d = dirs[c["dir"]][0], "."
        if c["how"] in ("opt", "both") and d is not None:
            args += ["-p", d] if i % 2 else ["--plugins-dir-path", d]
        if c["how"] == "env" and d is not None:
            env["BRACK_PLUGINS_PATH"] = d
        if c["how"] == "both":
            env["BRACK_PLUGINS_PATH"] = dirs["damaged"][0] if i % 2 else "/nonexistent"
        if c["level"] is not None:
            args += ["--output-level=%s" % c["level"]]
        if c["json"]:
            args += ["--json"]
        try:
            q = subprocess.run(args, capture_output=True, timeout=patience(), env=env, cwd=cwd, **contained())
        except subprocess.TimeoutExpired:
            HANGS.append(i)
            return {"st": "hang", "stdout": "", "args": args[1:]}
        st = "ok" if q.returncode == 0 else "panic" if q.returncode == 101 or b"panicked" in q.stderr else "killed" if q.returncode < 0 else "fail"
        left = sorted(os.listdir(w))
        if left != ([] if c["docst"] == "missing" else [os.path.basename(real)]):
            st = "left files"
        return {"st": st, "stdout": q.stdout.decode("utf-8", "replace"), "args": args[1:]}
    res = parallel(run, range(len(cs)))
    recs = []
    for i, (c, x) in enumerate(zip(cs, res)):
        level = 5 if c["level"] is None else c["level"] if isinstance(c["level"], int) and abs(c["level"]) < 1000 else 0
        rec = {"n": i, "st": x["st"],
               "case": {"dir": dirs[c["dir"]][1], "files": dirs[c["dir"]][2], "suffix": c["suffix"] == ".[]", "doc": "ok" if c["docst"] in ("link", "readonly") else c["docst"], "gr": gr[i],
                        "level": level, "json": c["json"]}}
        rec.update(printed(x["stdout"], level, c["json"]))
        recs.append(rec)
    bad = conform("ConformCompile", "C15", recs)
    o.traces = len(recs)
    for n, why in sorted(bad.items()):
        o.violation("run:" + json.dumps(cs[n]), why, {"case": cs[n], "args": res[n]["args"], "st": res[n]["st"], "stdout": res[n]["stdout"][:3000]})
    kinds = {}
    for x in recs:
        kinds[x["st"] + "/" + x["kind"]] = kinds.get(x["st"] + "/" + x["kind"], 0) + 1
    o.coverage.update(runs=len(cs), outcomes=kinds, directories=sorted(dirs))
    for c in r.sample(cs, 4):
        o.sample(c)
    o.assumptions = ["no two plugin files of a directory have the same module name", "letters are ASCII letters"]
    return o.finish()


def docst_plain(c):
    return not c["suffix"].endswith("/")


def r_name(i):
    return ["doc", "my doc", "ü", "a.b", "-x", "x_1.wasm"][i % 6]
