#!/usr/bin/env python3
"""setup_cmd: warm the Go build cache and generate the behaviour corpus from
the specification (TLC).  Nothing here depends on /repo's code; the checks also
work without the corpus, with fewer behaviours."""
import gzip, json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

BUDGET = float(os.environ.get("VF_SETUP_BUDGET", "900"))
GENP = ["text", "cursor", "erase", "scroll", "sgr", "modes", "kb", "kbdeep", "query", "syntax", "resize", "all", "keys", "mouse"]
SETS_FULL = ["scroll", "text", "erase", "csi", "query", "ask", "marg", "sgr", "kb", "utf8", "chars", "modes", "esc", "osc"]


def plan():
    J = []   # (estimated cost, name, kind, kwargs)
    def enum(cost, st, shards, nshard, sample, buf="span", mode="rune"):
        for i in range(shards):
            J.append((cost, "%s.%s.enum.%s.%d" % (buf, mode, st, i), "enum", dict(st=st, shard=i, nshard=nshard, sample=sample, seed=i + 1, buf=buf, mode=mode)))
    def gen(cost, prof, num, reps=1, **kw):
        for i in range(reps):
            tag = "".join([".legal" if kw.get("legal") else "", ".nomid" if kw.get("nomid") else "", "." + kw["sizes"] if kw.get("sizes") else ""])
            J.append((cost, "%s.%s%s.gen.%s.%d" % (kw.get("buf", "span"), kw.get("mode", "rune"), tag, prof, i), "gen",
                      dict(profile=prof, seed=1000 + i, num=num, **kw)))
    # systematic, span buffer, one rune per character
    enum(60, "resize", 8, 80, 1)
    enum(60, "altwords", 4, 24, 1)
    enum(60, "cellwords", 6, 24, 1)
    enum(60, "cursor", 8, 16, 1)
    for s in ("csi", "scroll", "text"):
        enum(70, s, 2, 2, 1)
    enum(50, "query", 4, 4, 2)
    for s in ("erase", "marg", "sgr", "utf8", "kb", "chars", "modes", "esc", "osc", "ask"):
        enum(40, s, 1, 1, 1)
    # grid buffer
    for s in ("scroll", "text", "erase", "utf8", "chars", "marg", "sgr"):
        enum(25, s, 1, 2, 2 if s in ("scroll", "text") else 1, buf="grid")
    enum(30, "resize", 2, 160, 1, buf="grid")
    enum(30, "cellwords", 3, 24, 1, buf="grid")
    enum(20, "altwords", 1, 48, 1, buf="grid")
    enum(30, "cursor", 1, 32, 1, buf="grid")
    # clusters
    enum(50, "graph", 3, 6, 1, mode="graph")
    enum(40, "graph", 1, 6, 1, mode="graph", buf="grid")
    enum(20, "text", 1, 8, 1, mode="graph")
    enum(20, "resize", 1, 320, 1, mode="graph")
    enum(20, "cellwords", 1, 48, 1, mode="graph")
    # keys
    for i in range(8):
        for s, c in (("fn", 45), ("rune", 45), ("alt", 10)):
            J.append((c, "rows.keys.%s.%d" % (s, i), "rows", dict(module="KeyEnum", st=s, shard=i, nshard=8, sample=1, seed=0)))
    for i in range(8):
        J.append((20, "span.rune.pump.%d" % i, "str", dict(shard=i, nshard=8)))
        J.append((60, "span.rune.runs.%d" % i, "str", dict(shard=i, nshard=8, module="RunEnum")))
        J.append((20, "rows.chars.%d" % i, "rows", dict(module="CharEnum", shard=i, nshard=8, sample=1, seed=0)))
    # random behaviours
    for p in GENP:
        gen(12, p, 400)
        gen(8, p, 200, buf="grid")
        gen(8, p, 150, mode="graph")
        if p not in ("kb", "kbdeep", "query", "modes", "keys", "mouse"):
            gen(6, p, 60, mode="graph", buf="grid")
            gen(8, p, 150, mode="graph", legal=1)
            gen(8, p, 200, nomid=1)
            gen(8, p, 100, nomid=1, mode="graph")
        gen(20, p, 14, sizes="large")
    gen(30, "long", 40, reps=2)
    gen(20, "long", 20, mode="graph")
    gen(20, "long", 20, buf="grid")
    gen(30, "all", 400, reps=3)
    # beyond 80 columns, and beyond 24 rows
    for p in ("text", "cursor", "erase", "scroll", "sgr", "resize", "query", "all"):
        gen(15, p, 14, sizes="wide")
        gen(30, p, 8, sizes="tall")
    for p in ("text", "erase", "scroll", "all"):
        gen(15, p, 14, sizes="wide", buf="grid")
        gen(30, p, 8, sizes="tall", buf="grid")
    gen(15, "all", 14, sizes="wide", mode="graph")
    gen(30, "all", 14, sizes="wide", nomid=1)
    gen(30, "all", 8, sizes="tall", nomid=1)
    gen(30, "all", 14, sizes="large", mode="graph")
    gen(30, "all", 14, sizes="large", buf="grid")
    gen(30, "all", 30, sizes="large", nomid=1)
    J.sort(key=lambda j: -j[0])
    return J


def main():
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    h = spec_hash()
    idx = os.path.join(CORPUS, "index.json")
    for out, flags in (("warm", []), ("warmrace", ["-race"]), ("warmcov", [])):
        try:
            build_harness(os.path.join(BUILD, out), *flags, cov=out == "warmcov")
        except Exception as x:
            print("setup: %s" % str(x)[:2000])
        if os.path.exists(os.path.join(BUILD, out)):
            os.unlink(os.path.join(BUILD, out))
    if os.path.exists(idx) and json.load(open(idx)).get("hash") == h:
        print("setup: corpus is current")
        return 0
    if os.path.isdir(CORPUS):
        shutil.rmtree(CORPUS)
    work = CORPUS + ".tmp"
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    os.makedirs(CORPUS)
    files = {}

    def job(cost, name, kind, kw):
        if time.time() - t0 > BUDGET:
            return
        f = dict(gen=gen_job, enum=enum_job, rows=row_job, str=str_job)[kind]
        s0 = time.time()
        try:
            out, r = f(work, name, cfg="Fast" + dict(gen="Gen", enum="Enum", rows=kw.get("module"), str=kw.get("module", "StrEnum"))[kind] + ".cfg", secs=500, **kw)
        except CheckError as x:
            print("setup: %s" % x)
            return
        n = 0
        gzf = os.path.join(CORPUS, name + ".json.gz")
        with open(out, "rb") as a, gzip.open(gzf + ".tmp", "wb", compresslevel=6) as b:
            for line in a:
                n += 1
                b.write(line)
        os.unlink(out)
        os.rename(gzf + ".tmp", gzf)
        files[name] = dict(behaviours=n, states=r["states"], secs=round(time.time() - s0, 1))
    r = Runs("setup", "thorough", 1, work, None)
    r.deadline = t0 + BUDGET + 600
    pool(r, [lambda j=j: job(*j) for j in plan()])
    shutil.rmtree(work)
    json.dump(dict(hash=h, files=files, secs=round(time.time() - t0)), open(idx, "w"), indent=1)
    print("setup: %d files, %d behaviours, %d states, %.0f s%s" % (len(files), sum(f["behaviours"] for f in files.values()),
          sum(f["states"] for f in files.values()), time.time() - t0, "; " + "; ".join(r.errors) if r.errors else ""))
    return 0


sys.exit(main())
