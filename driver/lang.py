"""C01-C08: tokenizer, parser and transformer against the specification."""
import random, json
import docs
from common import *

WANT = {"C01": ["gr", "tok"], "C02": ["tok", "w"], "C03": ["gr", "tok"], "C04": ["tok", "cst"],
        "C05": ["tok", "cst"], "C06": ["tok", "cst", "ast"], "C07": ["gr", "errs"], "C08": ["gr", "ast"]}
MC_INV = {"C01": "TokenizerInv", "C02": "TokenizerInv", "C03": "TokenizerInv ContextInv",
          "C04": "FramesInv GrammarInv TreeInv", "C05": "TreeInv GrammarInv", "C06": "TreeInv PlaceInv",
          "C07": "PlainInv PlaceInv CleanInv", "C08": "CleanInv"}
BLANK = [{"k": "-", "v": "", "id": 0, "l": [0, 0, 0, 0], "ch": []}]
ALL = '{"a", " ", "\\n", ".", ",", "\\\\", "<", ">", "[", "]", "{", "}"}'
ONE = '{"a", " ", ".", ",", "[", "]"}'


def mc(prop):
    def cfg(alphabet, n):
        return ("SPECIFICATION Spec\nCONSTANTS\n Alphabet = %s\n MaxLen = %d\nINVARIANTS %s\n"
                "CHECK_DEADLOCK FALSE\n" % (alphabet, n, MC_INV[prop]))
    tlc("MC_Front", cfg(ALL, 5 if THOROUGH else 4))
    tlc("MC_Front", cfg(ONE, 8 if THOROUGH else 5), name="MC_Front-one")


def documents(prop):
    r = random.Random("%s/%d" % (prop, SEED))
    if THOROUGH:
        ds = list(docs.exhaustive(4)) + docs.corpus(r, 12000, 8000, 12000)
    else:
        ds = list(docs.exhaustive(3)) + docs.corpus(r, 1500, 900, 1500)
        four = [docs.SYMBOLS[a] + docs.SYMBOLS[b] + docs.SYMBOLS[c] + docs.SYMBOLS[d]
                for a in range(12) for b in range(12) for c in range(12) for d in range(12)]
        ds += r.sample(four, 4000)
    if prop in ("C01", "C02", "C03"):
        ds += docs.deep()
    if prop in ("C01", "C02"):
        ds += docs.wide(r)
    seen, out = set(), []
    for d in ds:
        if d not in seen:
            seen.add(d)
            out.append(d)
    return out


def check(prop):
    o = Outcome(prop)
    build()
    mc(prop)
    ds = documents(prop)
    want = WANT[prop]
    res = run_jobs([dict({"n": i, "doc": d, "want": want}, **({"file": scratch("doc%d" % i)} if prop == "C01" else {})) for i, d in enumerate(ds)])
    recs, extra = [], []
    for i, (d, x) in enumerate(zip(ds, res)):
        rec = {"n": i, "at": x["at"], "st": x["st"]}
        if x["at"] == "file":
            extra.append(dict(rec, n=len(ds) + i, at="tok", gr=x["gr"], tok=[]))
            rec.update(at="end", st="ok")
        for k in want:
            if k == "w":
                continue
            rec[k] = x.get(k, BLANK if k in ("cst", "ast") else [])
        if "gr" in want and "gr" not in x:
            rec["gr"] = []
            rec["at"] = "process"
        if prop == "C02":
            rec["w"] = [t["w"] for t in rec["tok"]]
        recs.append(rec)
        if "ftok" in x and x["ftok"] != rec["tok"]:
            # read from a file, it has other tokens: they are judged as well
            extra.append(dict(rec, n=len(ds) + i, tok=x["ftok"]))
    bad = conform("Conform", prop, recs + extra, chunk=30000)
    o.traces = len(recs)
    for n, why in sorted(bad.items()):
        n %= len(ds)
        o.violation("doc:" + ds[n], why, {"doc": ds[n], "result": {k: res[n].get(k) for k in ("at", "st")},
                                          "record": recs[n] if len(json.dumps(recs[n])) < 20000 else "large"})
    stages = {}
    for x in res:
        stages[x["at"] + "/" + x["st"]] = stages.get(x["at"] + "/" + x["st"], 0) + 1
    o.coverage.update(documents=len(ds), outcomes=stages, longest_document=max(map(len, ds)),
                      exhaustive_to_length=4 if THOROUGH else 3)
    r = random.Random(SEED)
    for d in r.sample(ds, 4):
        o.sample({"doc": d[:300]})
    o.assumptions = ["graphemes and their widths are those of the unicode-segmentation crate"]
    return o.finish()
