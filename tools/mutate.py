#!/usr/bin/env python3
"""mutate.py LANE SEED COUNT [FILE-PATTERN]: small textual mutants of /repo, each built, run against the stable tests and, if it
passes them, against the quick checks of the crate's properties, in a mount namespace of its own (copies of /repo and /verif).
Prints one line per mutant; SURVIVED means no check noticed it."""
import os, random, re, subprocess, sys, time
LANE = "/tmp/try" + sys.argv[1]
if not os.environ.get("LANED"):
    os.environ["LANED"] = "1"
    os.execvp("unshare", ["unshare", "-m", "python3"] + sys.argv)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


sh("rm -rf {0}/verif; mkdir -p {0}/repo {0}/verif; [ -d {0}/repo/.git ] || cp -a /repo/. {0}/repo; cp -a ${{SRC:-/verif}}/. {0}/verif; "
   "git -C {0}/repo checkout -q -- .; git -C {0}/repo fetch -q /repo HEAD; git -C {0}/repo reset -q --hard $(git -C /repo rev-parse HEAD); "
   "mount --bind {0}/repo /repo; mount --bind {0}/verif /verif".format(LANE))
CHECKS = {"tokenizer": "C01 C02 C03", "parser": "C04 C05 C06", "transformer": "C07 C08 C06", "expander": "C09 C11", "codegen": "C10 C12 C14 C11",
          "plugin": "C11 C13 C12 C10 C09 C14", "project-manager": "C19 C16 C17 C18", "language-server": "C24 C25 C26 C22 C23 C21", "src": "C15 C20 C16 C19"}
RULES = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"\+ 1\b", "+ 0"), (r"\+ 1\b", "+ 2"),
         (r"- 1\b", "- 0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"Some\(0\)", "Some(1)"), (r"if !", "if "), (r"\bcontinue;", "break;"),
         (r"\bbreak;", "continue;"), (r"is_none\(\)", "is_some()"), (r"is_some\(\)", "is_none()"), (r"is_ok\(\)", "is_err()"), (r"\bif ([a-z])", r"if !\1"),
         (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"skip\((\d)\)", lambda m: "skip(%d)" % (int(m[1]) + 1)),
         (r"(?<![\w.\"])([1-9])(?![\w.\"])", lambda m: str(int(m[1]) + 1)), (r"(?<![\w.\"])([1-9])(?![\w.\"])", lambda m: str(int(m[1]) - 1)),
         (r"TInline", "TBlock"), (r"TBlock", "TInline"), (r"TAST", "TInline"), (r"\.start\b", ".end"), (r"\.end\b", ".start"),
         (r"Square", "Curly"), (r"Curly", "Square"), (r"Angle", "Square"), (r"Module\b", "Ident"), (r"Ident\b", "Module"), (r"Dot\b", "Comma"), (r"Comma\b", "Dot"),
         (r"Whitespace\b", "Newline"), (r"Newline\b", "Whitespace"), (r"\btail\b", "s"), (r"\.clone\(\)\?;", ".clone();"), (r"\.iter\(\)", ".iter().rev()"),
         (r"^(\s*)[a-z_]+(\.[a-z_]+)*\.(push|append|add|insert|push_str|clear|pop|extend)\(.*\);$", r"\1"), (r"^(\s*)return .*;$", r"\1"),
         (r"^(\s*)[a-z_.]+ = .*;$", r"\1"), (r"^(\s*)(self|std|fs|crate)[a-zA-Z_.:]+\(.*\)(\.await)?\?;$", r"\1"), (r"_hook\b", "_hOOk"),
         (r"document_hook", "stmt_hook"), (r"stmt_hook", "expr_hook"), (r"expr_hook", "text_hook"), (r"text_hook", "document_hook"),
         (r"\"([^\"{}\\]{1,12})\"", r'"\1x"'), (r"\"([^\"{}\\]{1,12})\"", r'""'), (r"unwrap_or_default\(\)", "unwrap()"), (r"min\b", "max"), (r"\bmax\b", "min"),
         (r"create_dir_all", "create_dir"), (r"create_dir\b", "create_dir_all"), (r"split_once", "rsplit_once"), (r"\.next\(\)", ".last()"), (r"\bowner\b", "repo"),
         (r"\bversion\b", "repo"), (r"\brepo\b", "owner"), (r"\bname\b", "version"), (r"line\b", "column"), (r"column\b", "line"), (r"-32(\d\d\d)", r"-31\1")]


def candidates(pattern):
    out = []
    for f in sh("git -C /repo ls-files '*.rs'").stdout.split():
        if "test" in f or "debug" in f or f == "build.rs" or not re.search(pattern, f):
            continue
        lines = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            if l.strip().startswith(("//", "use ", "pub mod", "mod ", "#[")):
                continue
            for n, (a, b) in enumerate(RULES):
                for m in re.finditer(a, l):
                    new = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
                    if new != l:
                        out.append((f, i, l, new))
    return out


env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=LANE + "/mt-target")
env["PATH"] += ":/root/.cargo/bin:/usr/local/cargo/bin"
r = random.Random(sys.argv[2])
pool = candidates(sys.argv[4] if len(sys.argv) > 4 else "")
groups = {}
for c in pool:
    groups.setdefault(c[0].split("/")[1].replace("brack-", "") if c[0].startswith("crates") else "src", []).append(c)
done, keys = 0, sorted(groups)
print(len(pool), "candidates", {k: len(v) for k, v in groups.items()}, flush=True)
for g in groups.values():
    r.shuffle(g)
while done < int(sys.argv[3]) and any(groups.values()):
    k = r.choice([k for k in keys if groups[k]])
    f, i, old, new = groups[k].pop()
    sh("git -C /repo checkout -q -- .")
    ls = open("/repo/" + f).read().split("\n")
    ls[i] = new
    open("/repo/" + f, "w").write("\n".join(ls))
    what = "%s:%d  %s  =>  %s" % (f, i + 1, old.strip(), new.strip())
    b = sh("cargo build --workspace --offline", cwd="/repo", env=env)
    if b.returncode:
        continue
    try:
        t = sh("timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd="/repo", env=env)
    except Exception:
        continue
    if t.returncode:
        continue
    done += 1
    s, got = time.time(), []
    for p in CHECKS[k].split():
        x = sh("timeout 900 python3 check.py %s" % p, cwd="/verif")
        got.append("%s=%d" % (p, x.returncode))
        if x.returncode == 1:
            break
    print("%s %ds %s | %s" % ("killed  " if got and got[-1].endswith("=1") else "SURVIVED", time.time() - s, " ".join(got), what), flush=True)
sh("git -C /repo checkout -q -- .")
