"""Shared machinery: building, running the harness, running TLC, evidence, violations."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, glob, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = "/repo/target"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    bad = {}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=TARGET)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/bin:/usr/bin:/bin"
    for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(v, None)
    return e


def source_hash():
    """Hash of everything that is compiled: names and contents, not time stamps."""
    h = hashlib.sha256()
    files = []
    for base in (REPO + "/src", REPO + "/crates", VERIF + "/harness/src"):
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            if "target" in dirs:
                dirs.remove("target")
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml"))]
    files += [REPO + "/Cargo.toml", REPO + "/Cargo.lock", VERIF + "/harness/Cargo.toml"]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(args, cwd):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=build_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-4000:]))


def build(binary=False, harness=True):
    """Builds from /repo's working tree. Cargo decides by time stamps; if what is in the target
    directory was not built from exactly these contents, our crates are rebuilt from scratch."""
    t = time.time()
    stamp = TARGET + "/.verif-sources"
    h = source_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != h:
        if os.path.exists(stamp):
            os.remove(stamp)
        for d in glob.glob(TARGET + "/debug/.fingerprint/brack*"):
            shutil.rmtree(d, ignore_errors=True)
    if harness:
        hl = VERIF + "/harness/Cargo.lock"
        cargo(["build", "--offline", "--locked"], VERIF + "/harness")
        shutil.copy(TARGET + "/debug/brack-harness", scratch("brack-harness"))
    if binary:
        cargo(["build", "--offline", "--bin", "brack"], REPO)
        shutil.copy(TARGET + "/debug/brack", scratch("brack"))
    with open(stamp, "w") as f:
        f.write(h)
    log("build: %.1fs" % (time.time() - t))
    contained()


_scratch = None


def scratch(*parts):
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="brackverif.")
        os.chmod(_scratch, 0o777)
    return os.path.join(_scratch, *parts)


NOBODY = 65534
_user = None


def contained():
    """Arguments of Popen that make the code under test run as a user who owns nothing outside the
    scratch directory, so that whatever a change makes it write, move or remove, the sandbox is safe.
    Everything the check makes itself from here on can be written by that user."""
    global _user
    if _user is None:
        found = {}
        if os.geteuid() == 0:
            u = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
            try:
                subprocess.run(["/bin/true"], check=True, cwd=scratch(), **u)
                found = u
            except (OSError, subprocess.SubprocessError):
                log("cannot become an unprivileged user")
        os.umask(0)
        os.makedirs(scratch("home"), exist_ok=True)
        _user = found
    return _user


def cleanup():
    if _scratch and os.path.isdir(_scratch) and "brackverif." in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


# -------------------------------------------------------------------- hangs
HANGS = []      # what did not answer in time; after the first ones, patience is short


def patience(seconds=100):
    return seconds if len(HANGS) < 3 else min(seconds, 5)


# ------------------------------------------------------------------ harness
class Worker:
    def __init__(self):
        self.start()

    def start(self):
        user = contained()
        env = dict(os.environ, RUST_BACKTRACE="0", HOME=scratch("home"))
        self.p = subprocess.Popen([scratch("brack-harness")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=scratch("home"), **user)

    def do(self, job, timeout):
        """Result of one job, {'at': 'crash'|'hang'} if the process did not survive it."""
        if len(HANGS) > 24:
            return {"n": job["n"], "at": "process", "st": "hang"}
        timeout = patience(timeout)
        timer = threading.Timer(timeout, self.p.kill)
        timer.start()
        t = time.time()
        try:
            self.p.stdin.write(json.dumps(job, ensure_ascii=True).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        finally:
            timer.cancel()
        if line.endswith(b"\n"):
            return json.loads(line)
        self.p.kill()
        self.p.wait()
        self.start()
        hang = time.time() - t >= timeout
        if hang:
            HANGS.append(job["n"])
        return {"n": job["n"], "at": "process", "st": "hang" if hang else "crash"}

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()


def run_jobs(jobs, timeout=40):
    """Runs all jobs on NPROC harness processes; results in the order of the jobs."""
    t = time.time()
    results = [None] * len(jobs)
    q = queue.Queue()
    step = max(1, min(64, len(jobs) // (NPROC * 4) or 1))
    for i in range(0, len(jobs), step):
        q.put((i, min(i + step, len(jobs))))
    errors = []

    def work():
        w = Worker()
        try:
            while True:
                try:
                    a, b = q.get_nowait()
                except queue.Empty:
                    break
                for i in range(a, b):
                    results[i] = w.do(jobs[i], timeout)
        except Exception as e:
            errors.append(e)
        finally:
            w.stop()

    ts = [threading.Thread(target=work) for _ in range(NPROC)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    if errors:
        raise ToolError("harness: %r" % errors[0])
    log("harness: %d jobs, %.1fs" % (len(jobs), time.time() - t))
    return results


# ---------------------------------------------------------------------- TLC
class Tlc:
    """Accumulates the numbers of all TLC runs of a check."""
    states = 0
    transitions = 0
    runs = []


def tlc(module, cfg_text, env=None, name=None, workers=NPROC, extra=(), heap="6g", must_pass=True,
        spec_dir=SPEC, timeout=3000):
    name = name or module
    d = scratch("tlc-" + name + "-%d" % len(Tlc.runs))
    os.makedirs(d)
    cfg = os.path.join(d, name + ".cfg")
    open(cfg, "w").write(cfg_text)
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg] + list(extra) + \
          [os.path.join(spec_dir, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    out = p.communicate()[0].decode("utf-8", "replace")
    timer.cancel()
    wall = time.time() - t
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out
    if must_pass and not ok:
        e = out.find("Error:")
        error = ToolError("TLC %s did not pass:\n%s\n...\n%s" % (name, out[max(0, e):max(0, e) + 3000], out[-1500:]))
        error.bad = bad_of(out)
        raise error
    Tlc.states += dist
    Tlc.transitions += gen
    Tlc.runs.append({"module": module, "states": dist, "transitions": gen, "seconds": round(wall, 1)})
    log("tlc %s: %d states, %.1fs" % (name, dist, wall))
    shutil.rmtree(d, ignore_errors=True)
    return out, dist


def bad_of(out):
    """The lines printed by the conformance modules: <<"BAD", n, {reasons}>>."""
    bad = {}
    for m in re.finditer(r'<<\s*"BAD",\s*(-?\d+),\s*(\{.*?\}|".*?")\s*>>', out, re.S):
        bad[int(m.group(1))] = re.sub(r"\s+", " ", m.group(2))
    return bad


def conform(module, prop, records, extra_consts="", heap="8g", chunk=None, env=None):
    """Has TLC judge every record. Returns {n: reasons} for the records that do not conform."""
    bad, parts, size = {}, [], 0
    for r in records:
        line = json.dumps(r, ensure_ascii=True) + "\n"
        # TLC keeps what it judges in memory, in some forty times as many bytes
        if not parts or len(parts[-1]) >= (chunk or 4000) or size + len(line) > 24e6 * int(heap[:-1]) / 8:
            parts.append([])
            size = 0
        parts[-1].append(line)
        size += len(line)
    for a, part in enumerate(parts):
        path = scratch("recs-%s-%d.ndjson" % (prop, a))
        with open(path, "w", encoding="utf-8") as f:
            f.writelines(part)
        cfg = ('SPECIFICATION Spec\nCONSTANTS\n  Prop = "%s"\n%s\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n'
               % (prop, extra_consts))
        e = {"RECS": path}
        e.update(env or {})
        log("%d records, %.1f MB" % (len(part), sum(map(len, part)) / 1e6))
        try:
            out, dist = tlc(module, cfg, env=e, name=module + "-" + prop, heap=heap)
        except ToolError as error:
            # every record is judged by itself, so what has been found wrong is wrong whatever became of the others
            if not bad and not error.bad:
                raise
            log(str(error)[:600])
            bad.update(error.bad)
            return bad
        if dist != len(part) + 1:
            raise ToolError("TLC judged %d of %d records" % (dist - 1, len(part)))
        got = bad_of(out)
        if out.count('"BAD"') != len(got):
            raise ToolError("could not read TLC's output:\n" + out[-3000:])
        bad.update(got)
        os.remove(path)
    return bad


# ----------------------------------------------------------------- outcomes
def known_findings(prop):
    """Lines `known: {"property":.., "key":.., "what":..}` of known-findings.txt."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == prop:
                    out.append(d)
    return out


class Outcome:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []      # (key, what, case)
        self.coverage = {}
        self.samples = []
        self.traces = 0
        self.assumptions = []
        self.level = "model_checking"

    def violation(self, key, what, case):
        self.violations.append((key, what, case))

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x, ensure_ascii=False)
            self.samples.append(x if len(s) < 1500 else s[:1500] + "...")

    def finish(self):
        known = known_findings(self.prop)
        new = []
        hit = {}
        for key, what, case in self.violations:
            k = next((k for k in known if k["key"] == key), None)
            if k:
                hit[k["key"]] = k
            else:
                new.append((key, what, case))
        for k in known:
            # a listed finding is always mentioned; whether it was seen in this run goes to the evidence
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        replay = None
        if new:
            os.makedirs(VERIF + "/replays", exist_ok=True)
            replay = "%s/replays/%s.json" % (VERIF, self.prop)
            with open(replay, "w", encoding="utf-8") as f:
                json.dump([{"key": k, "what": w, "case": c} for k, w, c in new[:20]], f,
                          ensure_ascii=True, indent=1)
        cov = {"states": Tlc.states, "transitions": Tlc.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "tlc_runs": Tlc.runs}
        cov.update(self.coverage)
        if known:
            cov["known_findings_seen"] = sorted(hit)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=True, indent=1)
        if new:
            for k, w, _ in new[:5]:
                log("  ", ascii(k)[:2000], ascii(w)[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s traces=%d states=%d wall=%.1fs" %
              (self.prop, self.traces, Tlc.states, time.time() - self.t0))
        return 0


def parallel(f, xs, n=NPROC):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
