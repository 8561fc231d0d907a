"""Generators of documents. Everything is a function of the random generator passed in."""
import itertools

SYMBOLS = ["a", " ", "\n", ".", ",", "\\", "<", ">", "[", "]", "{", "}"]
GRAPHEMES = ["a", "b", "x", "Z", "0", "-", "_", "*", "@", "!", "'", '"', ":", "/", "(", ")", "é", "e\u0301",
             "あ", "漢", "🇯🇵", "👨\u200d👩\u200d👧", "👍🏽", "한", "\u1112\u1161\u11ab", "नि", "\u0000", "\t", "\r",
             "\u00a0", "\u3000", "\u2028", "\u200b", "\ufeff", "¥", "§", "ß", "\u0600", "\u0301", "\u200d", "\x7f", "\x85",
             "．", "，", "［", "＼", "𝒳", "\uffff", "\U0010ffff", ";", "=", "#", "%", "~", "|", "&", "^", "`", "?", "+",
             "\x0b", "\x0c", "\x1b", "\x1f", "\x08", "\u2029", "\u1680", "\u2003", "\u202f", "\ufffd", "\u00ad", "\u2060", "\u202e", "\ufe0f", "\ue000",
             "İ", "ſ", "K", "ǅ", "٣", "½", "$", "—", "“", "…", "。", "、", "＜", "｛", "〈", "❮", "⁄", "¨", "❤\ufe0f", "#\ufe0f\u20e3", "ก็", "\u0e33"]
OPEN = "<{["
CLOSE = {"<": ">", "{": "}", "[": "]"}


def exhaustive(n, symbols=SYMBOLS):
    for k in range(n + 1):
        for t in itertools.product(symbols, repeat=k):
            yield "".join(t)


def word(r, lo=1, hi=6, plain=False):
    n = r.randint(lo, hi)
    if plain or r.random() < 0.7:
        return "".join(r.choice("abcxyzABC019-_") for _ in range(n))
    return "".join(r.choice(GRAPHEMES) for _ in range(n))


def newline(r):
    return r.choice(["\n", "\n", "\n", "\r\n", "\r\r\n"])


def soup(r, n):
    """Anything goes."""
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.25:
            out.append(word(r))
        elif x < 0.40:
            out.append(r.choice(OPEN))
        elif x < 0.53:
            out.append(r.choice(">}]"))
        elif x < 0.62:
            out.append(r.choice(OPEN) + word(r) + "." + word(r) + r.choice([" ", " ", "", "]", ">", "}"]))
        elif x < 0.70:
            out.append(" ")
        elif x < 0.75:
            out.append(",")
        elif x < 0.80:
            out.append(".")
        elif x < 0.88:
            out.append("\\" + r.choice(["\\", "<", ">", "{", "}", "[", "]", ".", ",", " ", "a", "\n", ""]))
        elif x < 0.95:
            out.append(newline(r) * r.choice([1, 1, 2, 3]))
        else:
            out.append(r.choice(GRAPHEMES))
    return "".join(out)


def inner_text(r):
    s = ""
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.7:
            s += word(r)
        elif x < 0.85:
            s += "\\" + r.choice("\\<>{}[].,")
        else:
            s += " " * r.randint(1, 3)
    return s


def argument(r, depth, names):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if depth > 0 and r.random() < 0.4:
            parts.append(command(r, depth - 1, names))
        else:
            parts.append(inner_text(r))
        if r.random() < 0.2:
            parts.append(" " * r.randint(1, 2))
        if r.random() < 0.1:
            parts.append(newline(r))
    s = "".join(parts)
    return s if s.strip(" \r\n") else "x"


def command(r, depth, names=None, nargs=None, kinds=OPEN):
    """A clean command."""
    o = r.choice(kinds)
    if names:
        m, c = r.choice(names)
    else:
        m, c = word(r, plain=r.random() < .8) or "m", word(r, plain=r.random() < .8) or "c"
    for ch in "\r\n":
        m, c = m.replace(ch, ""), c.replace(ch, "")
    m, c = m or "m", c or "c"
    n = nargs if nargs is not None else r.choice([0, 1, 1, 2, 2, 3, 5])
    if n == 0:
        return o + m + "." + c + r.choice(["", " ", "  "]) + CLOSE[o]
    sep = lambda: r.choice([",", ", ", " ,", ",  ", ",\n", "\n,"])
    args = argument(r, depth, names)
    for _ in range(n - 1):
        args += sep() + argument(r, depth, names)
    return o + m + "." + c + r.choice([" ", " ", "  ", " \n"]) + args + r.choice(["", "", " ", "\n"]) + CLOSE[o]


def line(r, depth, names=None):
    s = ""
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.5:
            s += command(r, depth, names)
        elif x < 0.85:
            s += word(r) + r.choice(["", " ", ". ", ", "])
        else:
            s += "\\" + r.choice("\\<>{}[].,")
    s = s.replace("\n\n", "\n")
    return s if s.strip("\r\n") else "z"


def clean(r, depth=3, paragraphs=3, names=None):
    """A document without problems (mostly: odd graphemes may fuse with syntax)."""
    out = []
    for _ in range(r.randint(1, paragraphs)):
        out.append(newline(r).join(line(r, depth, names) for _ in range(r.randint(1, 3))))
    s = out[0]
    for p in out[1:]:
        s += newline(r) * r.randint(2, 4) + p
    return s + newline(r) * r.choice([0, 0, 1, 2])


def mutate(r, s):
    """One or two small edits."""
    for _ in range(r.choice([1, 1, 2])):
        i = r.randint(0, len(s))
        x = r.random()
        if x < 0.4:
            s = s[:i] + s[i + 1:]
        elif x < 0.75:
            s = s[:i] + r.choice(SYMBOLS[1:]) + s[i:]
        else:
            j = r.randint(0, len(s))
            a, b = min(i, j), min(max(i, j), min(i, j) + 20)
            s = s[:b] + s[a:b] + s[b:]
    return s


def nested(o, depth, body="x", close=True, sep=""):
    pre = "".join(o[i % len(o)] + "m.c " + sep for i in range(depth))
    post = "".join(CLOSE[o[i % len(o)]] + sep for i in reversed(range(depth))) if close else ""
    return pre + body + post


def deep():
    """Nested deeper than the parser has to follow (for the tokenizer alone)."""
    out = [nested(o, d, body="x, y.z") for o in ("[", "{", "<", "[{<") for d in (127, 128, 129, 140, 200)]
    return out + [nested("[{", 270, body="a, b\n c")]


def wide(r):
    """Lines of more columns than fit 16 bits."""
    # and files of which any block boundary is inside a character
    return ["é" + "w" * 66000 + "[m.c x]y\nz", "[m.c " + "w" * 70000 + ", v]"] + \
           [pre + c * n for c, n in (("é", 9000), ("日", 6000), ("𝒳", 4500), ("日", 22100)) for pre in ("", "a", "aa", "aaa")[:len(c.encode())]]


def long_words():
    """Long words of wide characters, at every offset within a character."""
    return [f % (pre + c * n) for c, n in (("é", 150), ("日", 100), ("👍🏽", 40), ("𝒳", 150), ("e\u0301", 100)) for pre in ("", "a", "aa", "aaa")
            for f in ("%s", "[m.c %s]", "[m.%s x]", "[%s.c x]", "\\%s")]


def big(r):
    """Documents that cross size thresholds in one dimension each."""
    out = []
    out.append("a" * 700)
    out.append("x y" * 150 + "[m.c " + "w" * 300 + ", v]" + "\\]" * 20)
    out.append("\n".join("l%d [m.c %d]" % (i, i) for i in range(330)))
    out.append("\n\n".join("p%d" % i for i in range(300)))
    out.append("\n" * 400)
    out.append("\r\n".join("é🇯🇵%d" % i for i in range(120)))
    out.append("[m.c " + ", ".join("a%d" % i for i in range(300)) + "]")
    out.append("{m.c " + ",".join("[m.d b%d]" % i for i in range(70)) + "}")
    out.append("[m.c " + " ".join("w%d" % i for i in range(300)) + "]")
    out.append("[m.c a" + " " * 300 + "b ,  c]")
    out.append("[m.c x]" * 120)
    out.append("<m.c x>{m.d y}\n" * 70)
    out.append("\\\\" * 200 + "\\[" * 100)
    out.append("[m." + "n" * 300 + " z]" + "[" + "k" * 300 + ".c z]")
    for o in ("[", "{", "<", "[{<"):
        for d in (33, 70, 100):
            out.append(nested(o, d))
    out.append(nested("[{", 60, body="a, b\n c", close=False))
    out.append(nested("[", 40, body="}", close=True))
    out.append("[" * 64 + "]" * 64)
    out.append("a\n" + "]\n" * 100)
    out.append("]\n}\n>" + "\n]" * 80)
    out.append("b" * 260 + "\n" + "c" * 260 + "[m.c d" + "e" * 260 + "\n" + "f" * 300 + "]g")
    out.append("\n".join("x" * (i % 17 + 1) + "[m.c " + "y" * (i % 23 + 1) + ", [n.d z]" + (" .,\\"[i % 4]) + "]" for i in range(110)))
    out.append("[m.c\n" + "\n".join("a%d" % i for i in range(280)) + "\n]")
    out.append(", . " * 100 + "[m.c " + ", " * 50 + "]" + "[m.c " + ". " * 50 + "]")
    out += r.sample(long_words(), 20)
    out.append("".join(GRAPHEMES) * 3)
    out.append("[m.c " + "".join(GRAPHEMES) + "," + " ".join(GRAPHEMES) + "]")
    return out


CURATED = [
    "", "a", " ", "\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n\n\nb\n", "\r\n", "a\r\nb", "a\r\r\nb", "a\rb", "\r",
    "[m.c x]", "[m.c x, y]", "[m.c]", "[m.c ]", "[ m.c x]", "[m .c x]", "[m. c x]", "[]", "[m]", "[m.]", "[.c]", "[m.c.d x]",
    "[m.c x.y]", "[m.c x\\.y]", "[m.c ,x]", "[m.c x,]", "[m.c x,,y]", "[m.c ,]", "[m.c , ]", "[m.c x, ]", "[m.c x ,]",
    "[m.c x\n]", "[m.c\nx]", "[m\n.c x]", "[\nm.c x]", "[m.c x y  z]", "[m.c  x]", "[m.c x ]", "[m.c [n.d y] z]", "[m.c [n.d y],z]",
    "<m.c x>", "{m.c x}", "{m.c [m.d <n.e z>]}", "[m.c x", "[m.c x}", "{[m.c x}", "[m.c x\n\ny", "a]", "]", "]\n]", "]a", "a\n]\nb", "[a]]",
    "\\[m.c x\\]", "\\a", "\\", "a\\", "\\\n", "[m.c \\]]", "[m.c \\, \\. x]", "[m\\.c x]", "[\\m.c x]", "[m.\\c x]", "[m.c\\]x]",
    "<m.<n.d e> x>", "[<n.d e>.c x]", "[m.<n.d e> x]", "[m.c x]y[m.d z]", "[m.c [m.c [m.c x]]]", "[m.c x,\ny]",
    "a.b, c", "[m.c a.b]", "[m,c x]", "[m c x]", "[m. x]", "[ .c x]", "[m..c x]", "[[m.c x].d y]", "[{m.c x}]", "[a.b<c.d>]", "[m.c <n.d>]",
    "{\n\n}", "[m.c \n\n x]", "a[", "a[\n", "[\n[\n", "<[{", "<[{}]>", "<[{>]}", "[m.c x] ", " [m.c x]", "\u0000", "a\u0000b", "[m.c \u0000]",
    "[m\u0301.c x]", "[\u0301m.c x]", "\\\u0301[", "[m.c\u0301 x]", "[m.c x\u0301]", "[m.c x,\u0301y]", "\u0600[m.c x]", "[m.c \u0301x]",
    "[m.c x]\u0301", "\u200d", "🇯🇵🇺", "[m.c 🇯🇵]", "[ ]", "[ , ]", "[.]", "[,]", "[\\]", "[\\\\]", "[m.c \\\\]", "[m.c x\\", "[m.c x\\\n]",
    "\t", "\t\n\t", "[m.c \t]", "[m.c \t,\t]", "[m.c x,\t]", "[m.c \u3000]", "[m.c \u00a0, x]", "[m.c \x0b]", "[m.c \x0c\x0c, ]", "[\t.c x]", "[m.\t x]", "[m.c\tx]", "[m\t.c]",
    "[m.c \x85]", "[m.c \u2028]", "a\u2028\u2029b", "a\x0cb\x0bc", "a\x85b", "[m.c x\x0c,y\x1b]", "\\\t", "\\\x0c", "[m.c \u200b,\ufeff]", "\x0c\n\x0c", "a \t b", "[m.c  \t ]",
]


def corpus(seed_rng, n_soup, n_clean, n_mut, bigs=True):
    r = seed_rng
    out = list(CURATED)
    for _ in range(n_soup):
        out.append(soup(r, r.choice([2, 4, 6, 10, 20, 40])))
    for _ in range(n_clean):
        out.append(clean(r, depth=r.choice([0, 1, 2, 3]), paragraphs=r.choice([1, 1, 2, 4])))
    for _ in range(n_mut):
        out.append(mutate(r, clean(r, depth=r.choice([0, 1, 2]), paragraphs=r.choice([1, 2]))))
    if bigs:
        out += big(r)
    seen, res = set(), []
    for d in out:
        if len(d) <= 12000 and d not in seen:
            seen.add(d)
            res.append(d)
    return res
