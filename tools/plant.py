#!/usr/bin/env python3
"""plant.py BUGS.py [ID..]: makes and confirms planted bugs in a scratch copy of /repo (/tmp/plant).
BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)..], demo, needs, breaks, files={name: bytes})].
Each is kept as /verif/seeded/<id>/ only if it builds, passes the stable tests, and demo.sh passes without and
fails with the change."""
import json, os, re, shutil, subprocess, sys
COPY = "/tmp/plant"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=COPY + "/target")
env["PATH"] += ":/root/.cargo/bin:/usr/local/cargo/bin"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=COPY, env=env, capture_output=True, text=True, **k)


def sync():
    if not os.path.isdir(COPY):
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    head = subprocess.run("git -C /repo rev-parse HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    sh("git checkout -q -- .; git fetch -q /repo HEAD 2>/dev/null; git reset -q --hard %s" % head)


def build():
    p = sh("cargo build --workspace --offline")
    return p.returncode == 0, p.stderr[-3000:]


def tests():
    p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    ok = len(re.findall(r"^test .* \.\.\. ok$", p.stdout, re.M))
    return ok, re.findall(r"^test (.*) \.\.\. FAILED$", p.stdout, re.M), p.returncode


def demo(d):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    p = subprocess.run(["bash", d + "/demo.sh"], cwd=COPY, env=e, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def main():
    g = {"__file__": sys.argv[1]}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    sync()
    bugs = [b for b in g["BUGS"] if not want or b["id"] in want]
    if not want:
        bugs = [b for b in bugs if not os.path.exists(SEED + "/" + b["id"])]
    ok, out = build()
    assert ok, out
    for b in bugs:
        d = "/tmp/plant-" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(b["demo"])
        for n, c in b.get("files", {}).items():
            open(d + "/" + n, "wb").write(c if isinstance(c, bytes) else c.encode())
        b["clean"] = demo(d)
    for b in bugs:
        d = "/tmp/plant-" + b["id"]
        if b["clean"][0] != 0:
            print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE", b["clean"]); continue
        sh("git checkout -q -- .")
        bad = None
        for f, old, new in b["edits"]:
            p = COPY + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: old text found %d times" % (f, s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        sh("cargo fmt")
        if bad:
            print(b["id"], bad); continue
        ok, out = build()
        if not ok:
            print(b["id"], "DOES NOT BUILD", out); continue
        n, failed, rc = tests()
        if failed or n < 39:
            print(b["id"], "TESTS", n, failed[:5]); continue
        r = demo(d)
        if r[0] == 0:
            print(b["id"], "DEMO PASSES WITH THE CHANGE", r); continue
        t = SEED + "/" + b["id"]
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        open(t + "/patch.diff", "w").write(sh("git diff").stdout)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        print(b["id"], "kept; demo said:", r[1].strip()[-200:])
    sh("git checkout -q -- .")


main()
