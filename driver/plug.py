"""C09-C14: plugins, macro expansion and code generation against the specification."""
import itertools, json, os, random, subprocess
import docs, wasm
from common import *
from wasm import command

BR = {"I": "[]", "B": "{}", "A": "<>"}
HOOKS = [("document", "B"), ("stmt", "B"), ("expr", "I"), ("text", "I")]
OFF = [False] * 4
NOTHING = "\u22a5"      # a leaf without value
BLANK = [{"k": "-", "v": "", "id": 0, "l": [0, 0, 0, 0], "ch": []}]
ROOTS = {"C09": ["ast", "exp"], "C10": ["exp", "gen"], "C11": ["ast", "exp", "gen"], "C12": ["exp", "gen"]}
MODULES = ["m", "n", "k", "M", "mm", "é", "0", "m-n", "日本", "std"]
NAMES = ["c", "d", "e", "s", "C", "cc", "é", "1", "*", "document", "stmt", "expr", "text", "a_b", "日"]
EXPORTED = ["c%d" % i for i in range(8)] + ["get_metadata"]     # names of exports that are not (or not these) commands


# names that differ late
LONG = ["n" * 40 + x for x in ("", "1", "2", "n")] + ["x" * 299, "x" * 300, "é" * 90, "é" * 91, "a-" * 70 + "b", "a-" * 70 + "c"]
LONGMODULES = ["p" * 50 + x for x in ("", "a", "b")] + ["日" * 100, "日" * 101]
# names that one might take for each other
NEAR = [["a-b", "a_b", "ab", "a--b"], ["\u00e9", "e\u0301", "e", "\u00c9"], ["c", "C", "cc", "c\u200b", "\uff43"], ["x1", "x01", "x", "X1"], ["*", "**", "***"], ["\u00df", "ss", "\u1e9e", "s"],
        ["\u0130", "i", "I", "\u0131"], ["1", "01", "10", "1_0"], ["text", "Text", "text_", "texts"], ["\u4e00", "\u4e8c", "\u2f00"], ["h1", "h2", "H1", "h"], ["K", "\u212a", "k"]]
ODD = [" ", " x", "x ", "\n", "x\n", "\n\nx", "\t", "x\r\n", "<b>&amp;</b>", "\"q\\n\"", "[m.c x]", "\u00a0x\u00a0", "\u3000", "\ufeffx", "\u0000", "e\u0301", "🇯🇵", "null", "[]"]


class P:
    """A plugin: name, flags, commands; written to a file once."""
    count = 0

    def __init__(self, name, cmds, flags=OFF, getlog=True):
        self.name, self.cmds, self.flags = name, cmds, list(flags)
        P.count += 1
        self.path = scratch("plugin%d.wasm" % P.count)
        with open(self.path, "wb") as f:
            f.write(wasm.build(cmds, getlog))

    def spec(self):
        return {"name": self.name, "path": self.path, "flags": self.flags, "getlog": True}

    def record(self):
        return {"name": self.name, "flags": self.flags, "file": "ok",
                "cmds": [{"name": c["name"], "x": c.get("call") or "c%d" % c["entry"], "ret": c["ret"], "args": c["args"]}
                         for c in self.cmds],
                "entries": [{"x": "c%d" % c["entry"], "mode": c["mode"],
                             "payload": c["payload"] if c["mode"] in ("ECHO", "ECHOSEQ") or
                             c["mode"] == "CONST" and c["ret"] != "A" else "",
                             "tree": c.get("tree", [])} for c in self.cmds]}


# ------------------------------------------------------------------ plugins
def sig(r, ordered=True):
    """A signature; mandatory before optional before one array if ordered."""
    s = [r.choice("IB") if r.random() < .9 else r.choice(["IC", "BC", "A"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
    s += [r.choice(["O", "O", "OB"]) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    if r.random() < .35:
        s.append(r.choice(["*", "*", "*B"]))
    if not ordered:
        r.shuffle(s)
    return s


def fits(s):
    lo = len([a for a in s if a not in ("O", "OB", "*", "*B")])
    hi = 10 ** 9 if any(a in ("*", "*B") for a in s) else len(s)
    return lo, hi


def const_tree(r):
    """A tree some macro answers with, as the plugin's answer and as the specification's value."""
    n = [0]

    def loc():
        return [r.randint(0, 9) for _ in range(4)]

    def inner(k, ch):
        n[0] += 1
        return {"k": k, "v": "", "id": n[0], "l": loc(), "ch": ch}

    def leaf(k, v):
        n[0] += 1
        if r.random() < .06:
            v = NOTHING
        return {"k": k, "v": v, "id": n[0], "l": loc(), "ch": []}

    def text():
        return leaf("Text", r.choice(["t", "", "é\n", "\\\"", " ", "⟦"]))

    def build(d):
        x = r.random()
        if d == 0 or x < .35:
            return text()
        if x < .55:
            return inner("Expr", [build(d - 1) for _ in range(r.randint(0, 3))])
        if x < .75:
            return inner(r.choice(["Square", "Curly"]), [leaf("Module", "m"), leaf("Ident", "c")] +
                         [build(d - 1) for _ in range(r.randint(0, 2))])
        if x < .9:
            return inner("Stmt", [build(d - 1) for _ in range(r.randint(0, 2))])
        if x < .94:
            return inner("Angle", [leaf("Module", "m"), leaf("Ident", "c")])
        return leaf(r.choice(["Module", "Ident", "Invalid", "Ignored"]), "x")

    return answered(build(3), r)


def answered(t, r=None):
    """A tree as the plugin's answer and as the specification's value."""
    def js(t):
        l = {"start": {"line": t["l"][0], "character": t["l"][1]}, "end": {"line": t["l"][2], "character": t["l"][3]}}
        b = {"id": "#%d" % t["id"], "location": l}
        if t["k"] in ("Text", "Module", "Ident", "Invalid", "Ignored"):
            if t["v"] != NOTHING:
                b["value"] = t["v"]
            elif r.random() < .5:
                b["value"] = None
        else:
            b["children"] = [js(c) for c in t["ch"]]
        return {t["k"]: b}

    flat = []

    def go(t):
        v = t["v"] if t["k"] in ("Text", "Module", "Ident") else ""
        e = {"k": t["k"], "v": v, "id": 1000000 + t["id"], "l": t["l"], "ch": []}
        flat.append(e)
        me = len(flat)
        e["ch"] = [go(c) for c in t["ch"]]
        return me
    go(t)
    return json.dumps(js(t), ensure_ascii=bool(r and r.random() < .5)), flat


def answering(name, entry, kind, *children):
    """A macro that answers with this tree; a child is (kind, children..) or (kind, text)."""
    n = [0]

    def node(k, *ch):
        n[0] += 1
        v = len(ch) == 1 and isinstance(ch[0], str)
        return {"k": k, "v": ch[0] if v else "", "id": n[0], "l": [n[0], 1, n[0], 2], "ch": [] if v else [node(*c) for c in ch]}
    c = command(name, entry, "A", mode="CONST")
    c["payload"], c["tree"] = answered(node(kind, *children))
    return c


def macro(r, name, entry, tame):
    x = r.random()
    c = command(name, entry, "A", mode="IDENTITY" if x < (.1 if tame else .2) else "SQUARE" if x < .4 else "CURLY" if x < .55
                else "INNER" if x < .75 else "CONST" if x < (.97 if tame else .88) else "WHOLE" if x < .92 or tame
                else r.choice(["ERR", "TRAP", "NOOUT"]))
    if c["mode"] == "CONST":
        c["payload"], c["tree"] = const_tree(r)
        if not tame and r.random() < .1:
            c["payload"], c["tree"] = r.choice(["", "{}", "null", "not json", '{"Text":{}}', '{"Text":']), []
    return c


def plugin_set(r, prop):
    """1-3 plugins with distinct names whose signatures suit the property."""
    n = r.choice([1, 2, 2, 3])
    near = r.choice(NEAR) if prop == "C11" and r.random() < .3 else None
    mods = r.sample(near if near and r.random() < .5 else LONGMODULES if prop == "C11" and r.random() < .15 else MODULES, n)
    if prop in ("C10", "C12") and "m" not in mods:
        mods[0] = "m"
    free = [h for h in range(4)]
    ps = []
    for m in mods:
        entry = iter(range(23))
        cmds, used = [], set()

        def add(name, ret, args, mode="ECHO"):
            if (name, ret) in used:
                return
            used.add((name, ret))
            e = next(entry)
            if ret == "A":
                cmds.append(macro(r, name, e, tame=prop != "C09"))
            else:
                c = command(name, e, ret, args, mode=mode, payload=r.choice(["c%d" % e, "%s.%s" % (m, name), "", "é"] + ODD))
                cmds.append(c)

        def args():
            return sig(r) if prop == "C10" else ["*"]

        def mode():
            return r.choice(["ECHO"] * 8 + ["ECHOSEQ"] * 3 + ["CONST", "NOOUT"])

        if prop == "C11":
            for name in (r.sample(near, len(near)) if near and r.random() < .7 else r.sample(LONG if r.random() < .2 else NAMES, r.choice([2, 3, 4]))) + r.sample(EXPORTED, 2):
                for ret in r.choice(["I", "B", "A", "IB", "IA", "BA", "IBA", "IBA"]):
                    add(name, ret, args(), "ECHO")
        else:
            names = r.sample(NAMES, r.choice([3, 4, 5])) + ["c"] + r.sample(EXPORTED, r.choice([0, 1]))
            for name in names:
                for ret in r.choice(["I", "I", "B", "IB", "A" if prop == "C09" else "I"]):
                    add(name, ret, args(), mode())
            if prop == "C09":
                for name in r.sample(NAMES, 3):
                    add(name, "A", [])
            elif r.random() < .3:
                add("mac", "A", [])
            if r.random() < .1:
                c = command("fail", next(entry), r.choice("IB"), ["*"], mode=r.choice(["TRAP", "ERR"]))
                cmds.append(c)
            if r.random() < .06:
                c = command("gone", next(entry), r.choice("IB"), ["*"])
                c["call"] = "no_such_export"
                cmds.append(c)
        flags = list(OFF)
        if prop == "C12":
            for h in list(free):
                if r.random() < .55:
                    free.remove(h)
                    flags[h] = True
                    name, ret = HOOKS[h]
                    cmds[:] = [c for c in cmds if c["name"] != name]
                    cmds.append(command(name, next(entry), ret, ["I"], mode=r.choice(["ECHO"] * 6 + ["ECHOSEQ", "ECHOSEQ", "CONST", "NOOUT"]),
                                        payload=r.choice(["hook " + name] * 2 + ODD)))
        if prop != "C11" and r.random() < .5:
            # one entry point may serve several commands
            a, b = r.choice(cmds), r.choice(cmds)
            if a["ret"] != "A" and b["ret"] != "A" and not a.get("call") and not b.get("call"):
                if not (any(flags) and (a["name"] in dict(HOOKS) or b["name"] in dict(HOOKS))):
                    for k in ("entry", "mode", "payload"):
                        b[k] = a[k]
        r.shuffle(cmds)
        ps.append(P(m, cmds, flags))
    return ps


# ---------------------------------------------------------------- documents
def arg(r, cat, depth, prop):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if depth > 0 and r.random() < .45:
            parts.append(cmd(r, cat, depth - 1, prop))
        else:
            parts.append(docs.inner_text(r).strip() or "w")
        parts.append(r.choice(["", "", "", " ", "  "]))
    s = "".join(parts)
    return s if s.strip(" \r\n") else "x"


def cmd(r, cat, depth, prop):
    name, ret, args, module = r.choice(cat)
    lo, hi = fits(args)
    k = r.choice([lo, lo, lo + 1, lo + 2, lo + 3]) if hi > 10 ** 8 else r.randint(lo, hi)
    if ret == "A":
        k = r.choice([0, 1, 2])
    x = r.random()
    if prop == "C10" and x < .025:
        k += r.choice([-1, 1, 2])
    if prop == "C11" and x < .05 or x < .006:
        y = r.random()
        if y < .5:
            ret = r.choice("IBA")
        elif y < .75:
            module = r.choice(MODULES)
        else:
            name = r.choice(NAMES + [name.upper(), name + name, "nothing"] + (r.choice(NEAR) * 4 if prop == "C11" else []))
    o, c = BR.get(ret, "[]")
    s = o + module + "." + name
    k = max(0, k)
    if k == 0:
        return s + r.choice(["", " "]) + c
    sep = lambda: r.choice([",", ", ", " ,", ",\n"])
    s += r.choice([" ", "  ", " \n"]) + arg(r, cat, depth, prop)
    for _ in range(k - 1):
        s += sep() + arg(r, cat, depth, prop)
    return s + r.choice(["", " "]) + c


def document(r, ps, prop):
    cat = [(c["name"], c["ret"], c["args"], p.name) for p in ps for c in p.cmds
           if c["name"] not in ("fail", "gone") or r.random() < .25]
    if prop == "C09":
        cat += [c for c in cat if c[1] == "A"] * 2
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        lines = []
        for _ in range(r.choice([1, 1, 2, 3])):
            s = ""
            for _ in range(r.randint(1, 4)):
                s += cmd(r, cat, r.choice([0, 1, 2, 2, 3]), prop) if r.random() < .55 else docs.word(r) + r.choice(["", " ", "\\]", ". "])
            s = s.replace("\n\n", "\n")
            lines.append(s if s.strip("\r\n") else "z")
        out.append(docs.newline(r).join(lines))
    s = "\n\n".join(out) + r.choice(["", "", "\n"])
    if r.random() < .08:
        s = docs.mutate(r, s)
    return s


def model_plugin(flags, sg, mac, inline):
    """The plugin of spec/MC_Generate.tla."""
    return P("m", [command("i", 0, "I", sg, mode=inline, payload="c0"), command("b", 1, "B", ["*"]),
                   command("s", 2, "A", mode=mac), command("s", 0, "I", ["*"], mode=inline, payload="c0"),
                   command("o", 3, "I", ["I", "O", "O"]), command("a", 0, "I", ["I", "O", "*"], mode=inline, payload="c0"),
                   command("document", 4, "B", ["I"]), command("stmt", 5, "B", ["I"]),
                   command("expr", 6, "I", ["I"]), command("text", 7, "I", ["I"])], flags)


def model_cases(r, n):
    """Behaviours of spec/MC_Generate.tla: documents made of pieces with a configuration."""
    nest = ["x", "[m.i ", "{m.b ", "<m.s ", "]", "}", ">", ","]
    args = ["[m.i ", "x", "x,", "]", "\n", "[m.o ", "[m.a "]
    flags = [OFF, [True] * 4, [False, True, False, True]]
    configs = [model_plugin(*c) for c in itertools.product(flags, (["I"], ["O", "O"]), ("SQUARE", "INNER", "WHOLE", "ERR"), ("ECHO", "TRAP"))]
    out = []
    for _ in range(n):
        pieces = r.choice([nest, nest, args])
        k = r.choice([1, 2, 3, 4, 5, 6])
        out.append(([r.choice(configs)], "".join(r.choice(pieces) for _ in range(k))))
    return out


def large(r, prop):
    """Documents that cross thresholds in one dimension each."""
    flags = [True] * 4 if prop == "C12" else OFF
    mk = lambda: P("m", [command("c", 0, "I", ["*"]), command("b", 1, "B", ["*"]), command("o", 2, "I", ["I"] + ["O"] * 9),
                         command("s", 3, "A", mode="SQUARE"), command("u", 4, "I", ["I", "O", "*"], mode="ECHOSEQ"),
                         command("s", 5, "I", ["*"], mode="CONST", payload="S"),
                         command("document", 6, "B", ["I"]), command("stmt", 7, "B", ["I"]), command("expr", 8, "I", ["I"]),
                         command("text", 9, "I", ["I"], mode="CONST", payload="t")], flags)
    ds = ["[m.c " + ",".join("a%d" % i for i in range(280)) + "]",
          "[m.u " + ", ".join("a%d" % i for i in range(140)) + "]",
          "[m.o " + ",".join("abcdefghij") + "][m.o " + ",".join("abc") + "]",
          "[m.c x]" * 150, "{m.b y}\n" * 80, "a\n\n" * 90 + "z", "\n".join("l%d[m.u %d]" % (i, i) for i in range(90)),
          "<m.s q>" * 20 + "[m.c x <m.s <m.s y>>, <m.s>]" * 5, "[m.c " * 40 + "x" + "]" * 40, "[m.u a" * 30 + "]" * 30,
          "{m.b [m.c " * 15 + "y" + "]}" * 15, "w" * 800, "[m.c " + "v" * 600 + "]", "\\[" * 150,
          "[m.c " + "".join("[m.c %d]" % i for i in range(70)) + "]", "\n".join("<m.s %d>" % i for i in range(40))]
    ds += [f % (pre + c * n) for c, n in (("é", 150), ("日", 100), ("👍🏽", 40)) for pre in ("", "a", "aa") for f in ("%s", "[m.c %s, b]", "<m.s %s>")]
    if THOROUGH:
        ds += ["[m.c " * 95 + "x" + "]" * 95, "{m.b x,[m.c " * 45 + "y" + "]}" * 45, "[m.c x]" * 600,
               "[m.c " + ",".join("[m.u %d,b]" % i for i in range(200)) + "]", "<m.s q>" * 100]
    p = mk()
    # megabytes of output (only judged where hooks are: the other properties have no use for them)
    big = P("m", [command("k", 0, "I", [], mode="CONST", payload="0123456789" * 3000), command("document", 1, "B", ["I"]), command("stmt", 2, "B", ["I"])],
            [True, False, False, False] if prop == "C12" else OFF)
    return [([p], d) for d in ds] + ([([big], "[m.k]" * 90)] if prop in ("C10", "C12") else [])


SPECIAL = [
    # macros: nested ones are handed over inside the outermost; heads; results are not expanded again
    "<m.s x>", "<m.s <m.s x>>", "[m.c <m.s x>]", "[m.c <m.s x>, <m.s y>]<m.s z>", "a<m.s>b\n<m.s x, y>\n\n<m.s>", "[<m.s x>.c y]",
    "[m.<m.s x> y]", "<m.t x>", "<m.t [m.c z]>", "[m.c <m.t [m.c z]>]", "<m.w>", "x<m.w>", "<m.k x> y", "[m.c <m.k>]", "<m.s x",
    "<m.s x>]", "<m.q>", "<q.s>", "<m.c x>", "[m.s x]", "{m.s x}", "{m.c x}", "[m.b x]", "{m.b x}", "[m.c x]{m.b x}<m.s x>", "[M.c x]", "[m.C x]",
    "[m.both 1]{m.both 2}<m.both 3>", "{n.c 1}[n.c 2][m.c 3]", "[m.o x]", "[m.o x,y]", "[m.o x,y,z]", "[m.o x,y,z,w]", "[m.o]",
    "[m.v]", "[m.v x]", "[m.v x,y]", "[m.v x,y,z]", "[m.w x]", "{m.w}", "[m.z]", "[m.z x]", "[m.p]", "[m.p x]", "[m.p x,y]",
    "[m.c [m.c 1], [m.c 2] [m.c 3]]", "[m.q [m.q 1], [m.q 2] [m.q 3]][n.c]", "[m.fail]", "x[m.c [m.fail]]", "[m.fail [m.c 1]]", "[m.gone x]", "",
    "a", "a\nb", "a\n\nb", "a\n\n\n\nb\nc[m.c d]", "[m.text x]", "[m.expr x]", "{m.document x}", "{m.stmt x}", "[m.document x]", "{m.text y}", "\n", "]", "a\n]\nb",
    "[m.c x y  z]", "[m.c \\]\\,\\.\\\\]", "\\[m.c x\\]", "[m.c", "[m.c x", "{m.b [m.c x}", "[m.c ,x]", "[]", "[m]", "[m.c.d]", ". ,", "é[m.c 日本 🇯🇵]",
    "[m.c\nx]", "[m.c x,\ny]", "[m.c x", "[m.c a{m.b b}c<m.s d>e]", "<m.e>", "[m.c <m.e>]", "<m.e>\n<m.e>", "<m.r x>", "a <m.r x> b", "<m.x>",
    "<n.a>", "<n.self>", "<n.r>", "<n.in>", "<n.ex>", "<n.st>", "<n.cu>", "<n.no>", "<n.doc>", "x <n.r y>\n[m.c <n.r>, <n.k>]", "[m.c <n.a>]{m.b <n.in>}",
    "<m.r <n.r>>", "<m.t <n.r>>", "<n.r><m.r <m.k>>",
]


def special(r, prop):
    base = [command("c", 0, "I", ["*"]), command("b", 1, "B", ["*"]), command("s", 2, "A", mode="IDENTITY" if prop == "C09" else "SQUARE"),
            command("s", 0, "I", ["*"], payload="c0"), command("t", 3, "A", mode="INNER"), command("w", 4, "A", mode="WHOLE"),
            command("both", 5, "I", ["*"], payload="bi"), command("both", 6, "B", ["*"], payload="bb"), command("both", 7, "A", mode="CURLY"),
            command("o", 8, "I", ["I", "O", "O"]), command("v", 9, "I", ["O", "*"]), command("w", 10, "I", ["I"]), command("w", 11, "B", []),
            command("z", 12, "I", []), command("p", 13, "I", ["OB"]), command("q", 14, "I", ["*"], mode="ECHOSEQ"),
            command("fail", 15, "I", ["*"], mode="ERR"), dict(command("gone", 16, "I", ["*"]), call="absent"),
            command("k", 17, "A", mode="CONST", payload='{"Text":{"id":"#1","value":"K","location":{"start":{"line":1,"character":2},"end":{"line":3,"character":4}}}}'),
            command("e", 18, "A", mode="ERR"), command("r", 19, "A", mode="CURLY"), command("r", 1, "B", ["*"], payload="c1"), command("x", 20, "A", mode="CONST", payload="[]")]
    for c in base:
        if c["name"] == "k":
            c["tree"] = [{"k": "Text", "v": "K", "id": 1000001, "l": [1, 2, 3, 4], "ch": []}]
    # entry 21/22 serve the hooks (declared also where they are off)
    hooks = [command("document", 21, "B", ["I"]), command("stmt", 21, "B", ["I"]), command("expr", 22, "I", ["I"]), command("text", 22, "I", ["I"])]
    call = lambda m, c, *ch: ("Angle", ("Module", m), ("Ident", c)) + ch
    n = P("n", [command("c", 0, "I", ["*"], payload="n"), command("c", 1, "B", ["*"], mode="ECHOSEQ", payload="nb"),
                # macros that answer with macro commands: of another macro, of themselves, at every kind of place
                answering("a", 2, *call("m", "s")), answering("self", 3, *call("n", "self")), answering("r", 4, *call("m", "r", ("Expr", ("Text", "r")))),
                answering("in", 5, "Square", ("Module", "m"), ("Ident", "c"), ("Expr", call("m", "r"), ("Text", "x"))),
                answering("ex", 6, "Expr", call("n", "r")), answering("st", 7, "Stmt", ("Expr", call("m", "k")), call("m", "k")),
                answering("cu", 8, "Curly", ("Module", "m"), ("Ident", "b"), call("n", "a")), answering("no", 9, *call("absent", "x")),
                answering("doc", 10, "Document", ("Stmt", ("Expr", call("m", "e"))))])
    out = []
    flagss = [OFF] if prop != "C12" else [OFF, [True] * 4] + [[i == h for i in range(4)] for h in range(4)] + [[i != h for i in range(4)] for h in range(4)]
    for flags in flagss:
        m = P("m", base + hooks, flags)
        for d in SPECIAL:
            out.append(([m, n], d))
    return out


def slow():
    """Commands that take their time."""
    ps = [P("m", [dict(command("c", 0, "I", ["*"]), slow=True), dict(command("b", 1, "B", ["I"]), slow=True), command("d", 2, "I", ["*"])])]
    return [(ps, "[m.c x]"), (ps, "{m.b y}z"), (ps, "[m.d a][m.c [m.c x]]")]


def near(r):
    """Commands, and plugins, with names that one might take for each other: all there, and all but one."""
    out = []
    for names in NEAR + [LONG[:4], LONG[4:6], LONG[6:8], LONG[8:]]:
        names = r.sample(names, len(names))
        every = "".join("[m.%s a]{m.%s b}" % (x, x) for x in names)
        for gone in [None] + names:
            cmds = [command(x, 2 * i + j, k, ["*"], payload="%d%s" % (i, k)) for i, x in enumerate(names) for j, k in enumerate("IB") if x != gone]
            r.shuffle(cmds)
            out.append(([P("m", cmds)], every if gone is None else "{m.%s x}" % gone if r.random() < .5 else "[m.%s x]" % gone))
            ps = [P(x, [command("c", i, "I", ["*"], payload="%d" % i)]) for i, x in enumerate(names) if x != gone]
            out.append((ps, "".join("[%s.c x]" % x for x in names) if gone is None else "[%s.c x]" % gone))
    return out


def cases(prop):
    r = random.Random("%s/%d" % (prop, SEED))
    n_sets, per = (70, 6) if not THOROUGH else (600, 10)
    out = special(r, prop) + large(r, prop)
    out += near(r) if prop == "C11" else slow() if prop == "C10" else []
    out += model_cases(r, 150 if not THOROUGH else 4000)
    for _ in range(n_sets):
        ps = plugin_set(r, prop)
        out += [(ps, document(r, ps, prop)) for _ in range(per)]
    return out


def generate_like(prop):
    o = Outcome(prop)
    build()
    inv = {"C09": "ExpandInv", "C10": "GenerateInv StacksInv", "C11": "GenerateInv", "C12": "GenerateInv"}[prop]
    for piece, n in (("nest", 4), ("args", 5)) if THOROUGH else (("nest", 3), ("args", 3)):
        if piece == "args" and prop in ("C09", "C11"):
            continue
        tlc("MC_Generate", 'SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\n Piece = "%s"\n EchoOpen <- MCOpen\n EchoClose <- MCClose\n'
            'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (n, piece, inv), name="MC_Generate-" + piece, heap="10g")
    cs = cases(prop)
    want = ROOTS[prop]
    res = run_jobs([{"n": i, "doc": d, "plugins": [p.spec() for p in ps], "want": want} for i, (ps, d) in enumerate(cs)])
    recs, stages = [], {}
    for i, ((ps, d), x) in enumerate(zip(cs, res)):
        stages[x["at"] + "/" + x["st"]] = stages.get(x["at"] + "/" + x["st"], 0) + 1
        recs.append({"n": i, "at": x["at"], "st": x["st"], "plugins": [p.record() for p in ps],
                     "ast": x.get("ast", BLANK), "exp": x.get("exp", BLANK), "log": x.get("log", []), "out": x.get("out", "")})
    bad = conform("ConformGen", prop, recs, chunk=4000)
    o.traces = len(recs)
    for n, why in sorted(bad.items()):
        ps, d = cs[n]
        o.violation("doc:" + d, why, {"doc": d, "plugins": recs[n]["plugins"], "at": recs[n]["at"], "st": recs[n]["st"],
                                      "out": recs[n]["out"][:2000], "log": recs[n]["log"] if len(json.dumps(recs[n]["log"])) < 20000 else "large"})
    calls = sum(len(x.get("log", [])) for x in res)
    o.coverage.update(compilations=len(cs), outcomes=stages, plugin_sets=len(set(tuple(p.path for p in ps) for ps, _ in cs)), plugin_calls=calls)
    for ps, d in random.Random(SEED).sample(cs, 4):
        o.sample({"doc": d[:300], "plugins": [[p.name, p.flags, [(c["name"], c["ret"], c["args"]) for c in p.cmds]] for p in ps]})
    o.assumptions = ["plugins are those of plugin/template.c, whose answers are specified in BrackPlugins",
                     "macro answers nest at most 120 JSON levels (limit of serde_json)"]
    return o.finish()


# ---------------------------------------------------------------------- C13
DAMAGED = ["missing", "directory", "empty", "text", "truncated", "header", "no_metadata", "meta_text", "meta_object", "meta_missing_field",
           "meta_bad_type", "meta_trap", "meta_empty", "flipped", "wrong_magic", "meta_null", "meta_not_utf8"]
NOMETA = bytes.fromhex("0061736d01000000")


def damaged(kind, good):
    path = scratch("damaged-%d.wasm" % P.count)
    P.count += 1
    b = None
    m = '[{"command_name":"c","call_name":"c0","argument_types":[],"return_type":"TInline"}]'
    if kind == "missing":
        return path
    if kind == "directory":
        os.makedirs(path)
        return path
    if kind == "empty":
        b = b""
    if kind == "text":
        b = b"this is not a plugin\n"
    if kind == "truncated":
        b = good[:len(good) // 2]
    if kind == "header":
        b = good[:8] + b"\xff" * 40
    if kind == "wrong_magic":
        b = b"\0asn" + good[4:]
    if kind == "flipped":
        b = good[:12] + bytes([good[12] ^ 0xff]) + good[13:]
    if kind == "no_metadata":
        b = NOMETA
    if kind == "meta_text":
        b = wasm.build([], metadata="hello")
    if kind == "meta_object":
        b = wasm.build([], metadata="{}")
    if kind == "meta_null":
        b = wasm.build([], metadata="null")
    if kind == "meta_empty":
        b = wasm.build([], metadata="")
    if kind == "meta_not_utf8":
        b = wasm.build([], metadata=m.encode().replace(b"\"c\"", b"\"\xff\""))
    if kind == "meta_missing_field":
        b = wasm.build([], metadata=m.replace('"call_name":"c0",', ""))
    if kind == "meta_bad_type":
        b = wasm.build([], metadata=m.replace("TInline", "TSomething"))
    if kind == "meta_trap":
        b = good.replace(b"get_metadata", b"get_metadatx")
    with open(path, "wb") as f:
        f.write(b)
    return path


def c13():
    o = Outcome("C13")
    build()
    tlc("MC_Load", "SPECIFICATION Spec\nCONSTANTS\n MaxCmds = %d\nINVARIANTS LoadInv SetInv\nCHECK_DEADLOCK FALSE\n" % (3 if THOROUGH else 2))
    r = random.Random("C13/%d" % SEED)
    sets = []       # lists of (spec, record)
    lib = {}

    def plug(name, decl, flags, file="ok", pad=0):
        """decl: tuple of (command name, kind)"""
        if file == "ok":
            if decl not in lib:
                lib[decl] = P("x", [command(n, i % 23, k, ["I"]) for i, (n, k) in enumerate(decl)], getlog=False)
            p = lib[decl]
            path, rec = p.path, p.record()
            if pad:
                path = scratch("padded-%d.wasm" % P.count)
                P.count += 1
                open(path, "wb").write(wasm.padded(open(p.path, "rb").read(), pad))
        else:
            path, rec = damaged(file, GOOD), {"cmds": [{"name": n, "x": "c0", "ret": "I", "args": []} for n, _ in HOOKS], "entries": []}
        return ({"name": name, "path": path, "flags": list(flags), "getlog": False},
                {"name": name, "flags": list(flags), "file": "ok" if file == "ok" else "damaged", "cmds": rec["cmds"], "entries": rec["entries"]})

    GOOD = open(P("x", [command(n, i, k, ["I"]) for i, (n, k) in enumerate(HOOKS)]).path, "rb").read()
    allflags = list(itertools.product([False, True], repeat=4))
    good = tuple(HOOKS)
    # every hook name with every non-empty set of kinds (and other commands around), each hook on and off
    kinds = [k for n in range(4) for k in itertools.combinations("IBA", n)]
    for h, (name, _) in enumerate(HOOKS):
        for ks in kinds:
            for order in set(itertools.permutations(ks)):
                for other in ((), (("c", "I"),)):
                    decl = other + tuple((name, k) for k in order)
                    for on in (False, True):
                        sets.append([plug("m", decl, [on and i == h for i in range(4)])])
    # all flags with all hooks declared, each missing, each of a wrong kind
    for f in allflags:
        sets.append([plug("m", good, f)])
        for h in range(4):
            sets.append([plug("m", tuple(x for i, x in enumerate(good) if i != h), f)])
            wrong = "A" if h % 2 else ("I" if HOOKS[h][1] == "B" else "B")
            sets.append([plug("m", tuple((n, wrong if i == h else k) for i, (n, k) in enumerate(good)), f)])
    # other return types, hook names in other spellings
    for decl in ((("Document", "B"),), (("documents", "B"), ("statement", "B")), (("doc", "B"),), (("text ", "I"), ("TEXT", "I")), ()):
        for f in allflags:
            sets.append([plug("m", decl, f)])
    for name, ret in HOOKS:
        for k in ("O", "*", "OB", "*B", "IC", "BC"):
            sets.append([plug("m", ((name, k),), [True if n == name else False for n, _ in HOOKS])])
            sets.append([plug("m", ((name, k),), OFF)])
    # sets of plugins
    for a in allflags:
        for b in allflags:
            sets.append([plug("m", good, a), plug("n", good, b)])
    n = 400 if THOROUGH else 120
    for _ in range(n):
        k = r.choice([3, 3, 4, 5])
        owner = [r.randint(0, k) for _ in range(4)]     # k: nobody
        fl = [[owner[h] == i for h in range(4)] for i in range(k)]
        if r.random() < .5:
            fl[r.randrange(k)][r.randrange(4)] = True
        sets.append([plug("p%d" % i, good, fl[i]) for i in range(k)])
    for _ in range(n * 3):
        decl = tuple(dict.fromkeys((r.choice(["document", "stmt", "expr", "text", "c", "d"]), r.choice("IBA")) for _ in range(r.randint(0, 7))))
        sets.append([plug("m", decl, [r.random() < .3 for _ in range(4)])])
    # plugins with many commands; hooks among them, and near misses
    for k in (60, 99, 100, 101, 129, 257, 300):
        many = tuple(("k%d" % i, "IBA"[i % 3]) for i in range(k))
        for decl in (many + good, good + many, many[:k // 2] + good + many[k // 2:], many + good[1:], many + tuple((n_, "A") for n_, _ in good), many + good[::-1] + (("c", "O"),)):
            for f in ([True] * 4, OFF, [False, True, False, True]):
                sets.append([plug("m", decl, f)])
    # many plugins
    for k in (17, 33, 65):
        sets.append([plug("q%d" % i, good, [i == k - 1, i == 0, i == k // 2, False]) for i in range(k)])
        sets.append([plug("q%d" % i, good, [i in (0, k - 1), False, False, False]) for i in range(k)])
        sets.append([plug("q%d" % i, good, [i == k - 1] * 4) if i < k - 1 or k % 4 else plug("q", good[1:], [True] + [False] * 3) for i in range(k)])
    # large plugins
    for pad in (70000, 1100000, 5000000, 34000000):
        for decl in (good, good[1:]):
            sets.append([plug("m", decl, [True, True, False, False], pad=pad)])
    for kind in DAMAGED:
        for f in (OFF, [True] * 4):
            sets.append([plug("m", (), f, kind)])
        sets.append([plug("n", good, OFF), plug("m", (), OFF, kind)])
    res = run_jobs([{"n": i, "load": [x for x, _ in s]} for i, s in enumerate(sets)])
    recs = [{"n": i, "plugins": [y for _, y in s], "each": x.get("each", [x.get("st", "crash")]), "set": x.get("set", x.get("st", "crash"))}
            for i, (s, x) in enumerate(zip(sets, res))]
    bad = conform("ConformGen", "C13", recs)
    o.traces = len(recs)
    for n, why in sorted(bad.items()):
        o.violation("set:" + json.dumps([[y["name"], y["flags"], y["file"], [[c["name"], c["ret"]] for c in y["cmds"]]] for _, y in sets[n]]), why, recs[n])
    o.coverage.update(plugin_sets=len(sets), damaged=DAMAGED, accepted=len([x for x in res if x.get("set") == "ok"]))
    for s in r.sample(recs, 4):
        o.sample({"each": s["each"], "set": s["set"], "plugins": [[y["name"], y["flags"], y["file"], [[c["name"], c["ret"]] for c in y["cmds"]]] for y in s["plugins"]]})
    return o.finish()


# ---------------------------------------------------------------------- C14
def c14():
    o = Outcome("C14")
    build(binary=True)
    tlc("MC_Front", 'SPECIFICATION FairSpec\nCONSTANTS\n Alphabet = {"a", " ", "\\n", ".", ",", "\\\\", "<", ">", "[", "]", "{", "}"}\n MaxLen = %d\n'
        "INVARIANTS Bounded\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n" % (4 if THOROUGH else 3))
    tlc("MC_Generate", 'SPECIFICATION FairSpec\nCONSTANTS\n MaxLen = %d\n Piece = "nest"\n EchoOpen <- MCOpen\n EchoClose <- MCClose\n'
        "INVARIANTS OneWay\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n" % (3 if THOROUGH else 2), heap="10g")
    r = random.Random("C14/%d" % SEED)
    cs = []
    wild = P("m", [command("c", 0, "I", ["*"]), command("c", 1, "B", ["*"]), command("c", 2, "A", mode="SQUARE"), command("d", 3, "I", ["I", "O"]),
                   command("d", 4, "A", mode="INNER"), command("a", 0, "I", ["*"], payload="c0"), command("a", 5, "A", mode="IDENTITY")])
    tight = P("n", [command("d", 0, "I", ["O", "I", "*", "I"]), command("c", 1, "B", ["*", "*", "O", "I"]), command("e", 2, "A", mode="WHOLE"),
                    command("c", 3, "A", mode="CONST", payload="{}"), command("z", 4, "I", [], mode="TRAP")])
    # every short document, the corpus and larger soups, with plugins that know its usual names
    ds = list(docs.exhaustive(2)) + [d for d in docs.exhaustive(3) if r.random() < (.2 if not THOROUGH else 1)]
    ds += docs.corpus(r, 400 if not THOROUGH else 5000, 200 if not THOROUGH else 3000, 300 if not THOROUGH else 4000)
    ds += docs.long_words()
    names = [("m", x) for x in "cda"] + [("n", x) for x in "dcez"] + [("q", "c")]
    for _ in range(400 if not THOROUGH else 4000):
        d = docs.clean(r, depth=r.choice([1, 2, 3]), paragraphs=2, names=names)
        ds.append(d if r.random() < .5 else docs.mutate(r, d))
    for d in ds:
        cs.append(([wild, tight], d))
    # macros that answer with any kind of node, alone or inside another, with and without a value
    loc = {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}
    leaves = [{k: {"id": "l", "location": loc, **v}} for k in ("Text", "Module", "Ident", "Invalid", "Ignored") for v in ({}, {"value": None}, {"value": "v"})]
    nodes = leaves + [{k: {"id": "i", "location": loc, "children": c}} for k in ("Document", "Stmt", "Expr", "Square", "Curly", "Angle")
                      for c in [[]] + [[l] for l in leaves] + [[leaves[5], l] for l in (leaves[6], leaves[8])] + [[leaves[5], leaves[8], leaves[0]]]]
    for k in range(0, len(nodes), 20):
        answers = P("m", [command("c", 0, "I", ["*"]), command("v", 0, "B", ["*"], payload="c0")] +
                    [command("k%d" % i, i + 1, "A", mode="CONST", payload=json.dumps(x)) for i, x in enumerate(nodes[k:k + 20])])
        for i in range(len(nodes[k:k + 20])):
            for d in ("<m.k%d>", "a <m.k%d>\n\n[m.c b]") + (("[m.c <m.k%d>]", "{m.v a, b <m.k%d>}") if THOROUGH or i % 2 else ()):
                cs.append(([answers], d % i))
    for _ in range(25 if not THOROUGH else 300):
        ps = []
        for m in r.sample(MODULES, r.choice([0, 1, 2, 3])):
            used, cmds = set(), []
            flags = [r.random() < .2 and not any(p.flags[h] for p in ps) for h in range(4)]
            for e in range(r.randint(1, 12)):
                name, ret = r.choice(NAMES), r.choice("IIBBA")
                if any(flags[h] and n == name for h, (n, _) in enumerate(HOOKS)):
                    continue
                if r.random() < .03:
                    ret = r.choice(["O", "*", "IC", "BC"])
                c = macro(r, name, e, False) if ret == "A" else command(name, e, ret, sig(r, ordered=False), mode=r.choice(["ECHO"] * 6 + ["CONST", "NOOUT", "TRAP", "ERR", "ECHOSEQ"]))
                if r.random() < .03:
                    c["call"] = r.choice(["nothing", "", "memory", "c22", "_start"])
                cmds.append(c)
            for h, (n, k) in enumerate(HOOKS):
                if flags[h]:
                    cmds.append(command(n, 12 + h, k, r.choice([["I"], ["I"], [], ["O"], ["*"], ["I", "I"]]), mode=r.choice(["ECHO", "ECHO", "ECHO", "NOOUT", "TRAP"])))
            ps.append(P(m, cmds, flags))
        if ps:
            cs += [(ps, document(r, ps, r.choice(["C10", "C11"]))) for _ in range(8)]
            cs += [(ps, docs.soup(r, 15)) for _ in range(3)]
    for _ in range(40 if not THOROUGH else 400):
        ps = plugin_set(r, r.choice(["C10", "C12", "C12", "C13"]))
        cs += [(ps, document(r, ps, "C10")) for _ in range(8)]
    jobs = [{"n": i, "doc": d, "plugins": [dict(p.spec(), getlog=False) for p in ps], "want": ["gen"]} for i, (ps, d) in enumerate(cs)]
    first = run_jobs(jobs)
    order = list(range(len(jobs)))
    r.shuffle(order)
    again = dict(zip(order, run_jobs([jobs[i] for i in order])))
    recs = [{"n": i, "runs": [{"st": x["st"], "out": x.get("out", "")} for x in (first[i], again[i])]} for i in range(len(cs))]
    # the same through the compile command
    n = 60 if not THOROUGH else 600
    some = [i for i in range(len(cs)) if not any(any(p.flags) for p in cs[i][0])
            and all(p.name.isascii() and p.name.isalpha() for p in cs[i][0])]
    picked = r.sample(some, n)

    def cli(k):
        i = picked[k]
        ps, d = cs[i]
        dir = scratch("cli-%d" % k)
        os.makedirs(dir + "/p")
        for p in ps:
            os.symlink(p.path, "%s/p/%s_0.wasm" % (dir, p.name))
        with open(dir + "/d.[]", "w", encoding="utf-8", newline="") as f:
            f.write(d)
        runs = []
        for _ in range(2):
            env = {"PATH": "/usr/bin:/bin", "HOME": dir, "RUST_BACKTRACE": "0"}
            try:
                q = subprocess.run([scratch("brack"), "compile", "-b", "html", "-p", dir + "/p", "-f", dir + "/d.[]"], capture_output=True, timeout=patience(), env=env, cwd=dir, **contained())
                rc = q.returncode
                st = "ok" if rc == 0 else "panic" if b"panicked" in q.stderr or rc == 101 else "crash" if rc < 0 or rc >= 128 else "err"
                runs.append({"st": st, "out": q.stdout.decode("utf-8", "replace")})
            except subprocess.TimeoutExpired:
                HANGS.append(k)
                runs.append({"st": "hang", "out": ""})
        runs.append({"st": first[i]["st"], "out": first[i].get("out", "")})
        # the command ends its output with a newline
        for x in runs[:2]:
            if x["st"] == "ok" and x["out"].endswith("\n"):
                x["out"] = x["out"][:-1]
        return {"n": len(cs) + k, "runs": runs}
    recs += parallel(cli, range(n))
    bad = conform("ConformGen", "C14", recs)
    o.traces = 2 * len(cs) + 2 * n
    for k, why in sorted(bad.items()):
        d = cs[k][1] if k < len(cs) else cs[picked[k - len(cs)]][1]
        o.violation("doc:" + d, why, {"doc": d, "runs": recs[k]["runs"], "how": "library" if k < len(cs) else "brack compile"})
    stages = {}
    for x in first:
        stages[x["at"] + "/" + x["st"]] = stages.get(x["at"] + "/" + x["st"], 0) + 1
    o.coverage.update(documents=len(cs), outcomes=stages, cli_runs=2 * n)
    for ps, d in r.sample(cs, 4):
        o.sample({"doc": d[:300], "plugins": [p.name for p in ps]})
    o.assumptions = ["brackets nest at most 100 deep", "plugins' own code terminates"]
    return o.finish()


def check(prop):
    if prop == "C13":
        return c13()
    if prop == "C14":
        return c14()
    return generate_like(prop)
