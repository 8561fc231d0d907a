#!/usr/bin/env python3
"""mutspec.py DIR SEED COUNT [FILE-PATTERN]: small textual mutants of the specification, run against the unchanged code in a copy
of /verif at DIR. A mutant is killed if the model checking of a quick check fails or real behaviour no longer conforms; SURVIVED
means that the mutated part of the specification is bound neither by an invariant nor by the code (or that the mutant is equivalent,
or only forbids less)."""
import os, random, re, subprocess, sys, time
D = sys.argv[1]
r = random.Random(sys.argv[2])


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


sh("rm -rf %s; mkdir -p %s; git -C /verif archive HEAD | tar x -C %s --exclude=seeded" % (D, D, D))
CHECKS = {"BrackTokenizer": "C03 C02 C01", "BrackParser": "C04 C05 C06", "BrackTransformer": "C07 C08 C06", "BrackPlugins": "C11 C13 C12 C10", "BrackExpander": "C09",
          "BrackCodegen": "C10 C12 C14", "BrackCompile": "C15", "BrackProject": "C16 C17 C18 C19 C20", "BrackShared": "C27", "BrackLsp": "C21 C22 C24 C25 C26 C23"}
RULES = [(r" = ", " # "), (r" # ", " = "), (r"\\in ", r"\\notin "), (r"\\notin ", r"\\in "), (r"/\\", r"\\/"), (r"\\/", r"/\\"), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
         (r"\+ 1\b", "+ 0"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 0"), (r"- 2\b", "- 1"), (r"- 3\b", "- 2"), (r"\b1\.\.", "2.."), (r"<= 4", "<= 3"), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"),
         (r"\\cup", r"\\cap"), (r"\\cap", r"\\cup"), (r"\\E ", r"\\A "), (r"\\A ", r"\\E "), (r"\bIF ~", "IF "), (r"\bIF ([A-Za-z\\(])", r"IF ~\1"), (r"~\(", "("), (r" ~", " "),
         (r"\"([A-Za-z][A-Za-z ]*)\"", r'"\1x"'), (r"\bHead\(", "Last("), (r"\bTail\(", "Front("), (r"<<>>", '<<"z">>'), (r"\b(\d)\b", lambda m: str(int(m[1]) + 1)), (r"\\subseteq", "="),
         (r"StartOf", "EndOf"), (r"EndOf", "StartOf"), (r"\bo\.name\b", "o.text"), (r"\\o", "\\\\o <<>> \\\\o"), (r"\bkind\b", "arg"), (r"\bversion\b", "repo"), (r"\bowner\b", "repo"),
         (r"\[(\d)\]", lambda m: "[%d]" % (int(m[1]) % 4 + 1))]


def candidates(pattern):
    out = []
    for name in CHECKS:
        f = D + "/spec/" + name + ".tla"
        if not re.search(pattern, name) or not os.path.exists(f):
            continue
        for i, l in enumerate(open(f).read().split("\n")):
            if l.startswith(("(*", "---", "===", "EXTENDS", "VARIABLE", "CONSTANT", " ", "\\*")) and "(*" in l[:6] or l.startswith(("---", "===", "EXTENDS")) or "When(" in l:
                continue
            code = re.sub(r"\\\*.*$|\(\*.*?\*\)", "", l)
            for a, b in RULES:
                for m in re.finditer(a, code):
                    new = l[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + l[m.end():]
                    if new != l:
                        out.append((name, i, l, new))
    return out


pool = candidates(sys.argv[4] if len(sys.argv) > 4 else "")
groups = {}
for c in pool:
    groups.setdefault(c[0], []).append(c)
for g in groups.values():
    r.shuffle(g)
print(len(pool), {k: len(v) for k, v in groups.items()}, flush=True)
done = 0
while done < int(sys.argv[3]) and any(groups.values()):
    k = r.choice([k for k in sorted(groups) if groups[k]])
    name, i, old, new = groups[k].pop()
    f = D + "/spec/" + name + ".tla"
    src = open(f).read()
    ls = src.split("\n")
    ls[i] = new
    open(f, "w").write("\n".join(ls))
    try:
        if "Parsing or semantic analysis failed" in sh("tla-sany %s.tla" % name, cwd=D + "/spec").stdout or sh("tla-sany %s.tla" % name, cwd=D + "/spec").returncode:
            continue
        done += 1
        s, got = time.time(), []
        for p in CHECKS[name].split():
            x = sh("timeout 900 python3 check.py %s" % p, cwd=D)
            got.append("%s=%d" % (p, x.returncode))
            if x.returncode:
                break
        print("%s %ds %s | %s:%d  %s  =>  %s" % ("killed  " if not got[-1].endswith("=0") else "SURVIVED", time.time() - s, " ".join(got), name, i + 1, old.strip(), new.strip()), flush=True)
    finally:
        open(f, "w").write(src)
