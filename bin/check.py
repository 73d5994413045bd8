#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough"""
import os, random, sys, shutil, tempfile, time, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from vdrivers import DRIVERS

# property -> profiles whose fresh random behaviours concern it most, enumerated families, extra segmentations
ALLP = ["text", "cursor", "erase", "scroll", "sgr", "modes", "kb", "query", "syntax", "resize", "all"]
ALLS = ["cursor", "erase", "scroll", "marg", "text", "resize", "sgr", "modes", "csi", "esc", "osc", "utf8", "chars", "kb", "query", "ask", "altwords", "cellwords"]
CONF = {
    "C01": dict(runs=2, pump=1, profiles=["all", "resize", "syntax", "text", "long"], sets=["resize", "cellwords"], segs=["token", "all", "big"], graph=1),
    "C02": dict(profiles=["text", "erase", "resize", "all"], sets=["text", "erase", "cellwords"], segs=["token"], graph=1, grid=1),
    "C03": dict(runs=1, profiles=["text", "all", "text", "scroll"], sets=["text", "chars"], segs=["token"], graph=1, grid=1),
    "C04": dict(runs=1, profiles=["cursor", "all", "cursor", "query"], sets=["cursor"], segs=["token"], grid=1),
    "C05": dict(runs=1, profiles=["erase", "all", "erase", "text"], sets=["erase"], segs=["token"], graph=1, grid=1),
    "C06": dict(runs=1, profiles=["scroll", "all", "scroll", "cursor"], sets=["scroll", "marg"], segs=["token"], grid=1),
    "C07": dict(runs=1, profiles=["sgr", "all", "sgr", "scroll"], sets=["sgr", "erase"], segs=["token"], graph=1, grid=1),
    "C08": dict(pump=1, profiles=["all", "syntax", "text", "query", "long"], sets=["csi", "osc", "utf8"], segs=["byte", "rand", "all", "big"], legal=1),
    "C09": dict(runs=1, pump=1, profiles=["syntax", "all", "syntax", "query", "long"], sets=["csi", "esc", "osc", "ask"], segs=["token", "rand"]),
    "C10": dict(runs=2, profiles=["all", "scroll", "erase", "modes"], sets=["scroll", "modes", "altwords"], segs=["token"], graph=1, grid=1),
    "C11": dict(profiles=["sgr", "text", "all", "erase"], sets=["sgr", "text"], segs=["token"], graph=1, grid=1, ansi=1),
    "C12": dict(profiles=["keys", "all", "keys", "modes"], sets=["kb"], segs=["token"], only=("keys", "mouse", "all", "modes", "kb")),
    "C13": dict(profiles=["mouse", "all", "mouse", "modes"], sets=["modes"], segs=["token"], only=("keys", "mouse", "all", "modes")),
    "C14": dict(runs=1, pump=1, profiles=["query", "all", "modes", "cursor"], sets=["query", "ask"], segs=["token", "rand"]),
    "C15": dict(profiles=["all", "resize"], sets=["query"], segs=["token"], only=("all", "resize")),
    "C16": dict(profiles=["resize", "query", "all", "syntax", "long"], sets=["resize"], segs=["token", "all", "big"], only=("resize", "query", "all", "long")),
    "C17": dict(runs=1, profiles=["modes", "all", "modes", "resize"], sets=["modes", "altwords"], segs=["token"], grid=1),
    "C18": dict(profiles=["resize", "all", "resize", "scroll"], sets=["resize"], segs=["token"], graph=1, grid=1),
    "C19": dict(runs=2, profiles=["kb", "kbdeep", "modes", "query"], sets=["kb"], segs=["token"]),
    "C20": dict(profiles=["all", "text", "scroll", "erase", "resize", "sgr"], sets=["text", "erase", "scroll"], segs=["token", "rand"], graph=1, nomid=1, grid=1, twin=1),
}
LEVEL = "model_checking"
BASE_ASSUMPTIONS = [
    "TLC and its JSON writer; the comparison code in /verif/harness",
    "character widths are those of the uniseg library, for the code points in the specification's width table (cross-checked at start)",
    "behaviours are sampled (random and systematic families), at the sizes of the generator; not every input is covered",
]


def corpus_files():
    idx = os.path.join(CORPUS, "index.json")
    if not os.path.exists(idx):
        return []
    d = json.load(open(idx))
    return sorted((os.path.join(CORPUS, n + ".json.gz"), n, f) for n, f in d["files"].items() if not n.startswith("rows."))


def replay_jobs(runs, conf, path, name):
    graph, legal = ".graph" in name, ".legal" in name
    jobs = []
    if conf.get("twin") and not name.startswith("grid"):
        seg = conf["segs"][zlib.crc32(name.encode()) % len(conf["segs"])]
        return [lambda: runs.replay(path, test="TestVFTwin", VF_SEG=seg)]
    for seg in conf["segs"]:
        if graph and not legal and seg not in ("token",):
            continue
        env = dict(VF_SEG=seg)
        if conf.get("ansi"):
            env["VF_ANSI"] = 1
        if zlib.crc32((name + seg).encode()) % 6 == runs.seed % 6:
            env["VF_DEBUG"] = 1  # with the package's debugging flags on
        jobs.append(lambda env=env: runs.replay(path, **env))
    return jobs


def wanted(conf, name, tier):
    if conf.get("only") and tier == "quick" and not any("." + p + "." in name for p in conf["only"]):
        return False
    if ".nomid" in name:
        return conf.get("nomid")
    if ".pump." in name:
        return conf.get("pump")
    if ".runs." in name:
        return conf.get("runs")
    if name.startswith("grid"):
        return conf.get("grid") and (".graph" not in name or conf.get("graph"))
    if ".legal" in name:
        return conf.get("legal") or tier == "thorough"
    if ".graph" in name:
        return conf.get("graph")
    return True


def replay_check(runs):
    conf, tier, seed = CONF[runs.prop], runs.tier, runs.seed
    wd = runs.workdir
    jobs = []
    quick = tier == "quick"
    have = corpus_files()
    # fresh behaviours, with the declarative properties checked by TLC on every step
    num = 30 if quick else 400
    if not have:
        num *= 4
    variants = [dict()]
    if conf.get("grid"):
        variants.append(dict(buf="grid"))
    if conf.get("graph"):
        variants.append(dict(mode="graph"))
    if conf.get("legal"):
        variants.append(dict(mode="graph", legal=1))
    base = {}
    if conf.get("twin"):
        base = dict(nomid=1)
        variants = [dict(nomid=1), dict(nomid=1, mode="graph"), dict(buf="grid")]

    def gen(i, prof, var, n):
        name = "g%d" % i
        path, r = gen_job(wd, name, prof, seed * 100003 + i * 7919 + int(runs.prop[1:]), n, secs=300 if quick else 3000, **var)
        runs.add_tlc(r)
        tag = var.get("buf", "span") + "." + var.get("mode", "rune") + (".legal" if var.get("legal") else "")
        for j in replay_jobs(runs, conf, path, tag):
            j()
        os.unlink(path)

    def enum(st, shard, nshard, sample, var):
        name = "e%s%d%s%s" % (st, shard, var.get("buf", ""), var.get("mode", ""))
        path, r = enum_job(wd, name, st, shard, nshard, sample, seed, secs=280 if quick else 6000, **var)
        runs.add_tlc(r)
        for j in replay_jobs(runs, conf, path, var.get("buf", "span") + "." + var.get("mode", "rune")):
            j()
        os.unlink(path)

    # programs found by coverage-guided search in the implementation, followed by TLC
    def fuzz(i, var):
        mine = [pth for pth, n, f in have if ".%s.%s." % (var.get("buf", "span"), var.get("mode", "rune")) in "." + n and not any(z in n for z in (".large", ".wide", ".tall")) and f["behaviours"]
                and (any(".gen.%s." % p in n for p in conf["profiles"]) or any(".enum.%s." % s in n for s in conf["sets"])) and ".legal" not in n]
        rng = random.Random(seed * 1009 + i * 31 + int(runs.prop[1:]))
        rng.shuffle(mine)
        if not mine:
            return
        path = runs.fuzz("z%d" % i, mine[:6], 12 if quick else 240, 220 if quick else 4000, seed * 7919 + i * 101 + int(runs.prop[1:]),
                         buf=var.get("buf", "span"), mode=var.get("mode", "rune"), nomid=var.get("nomid", 0), cfg="FastFollow.cfg" if quick else "Follow.cfg")
        if path:
            for j in replay_jobs(runs, conf, path, var.get("buf", "span") + "." + var.get("mode", "rune")):
                j()
            os.unlink(path)
    fz = []
    fv = [v for v in variants if not v.get("legal")]
    for i in range(len(fv) + (1 if quick else 24)):
        fz.append(lambda i=i: fuzz(i, fv[i % len(fv)]))

    cyc = [q for q in conf["profiles"] if q != "long"]
    i = 0
    reps = 1 if quick else 24
    for rep in range(reps):
        for k, p in enumerate(conf["profiles"]):
            jobs.append(lambda i=i, p=p: gen(i, p, base, num if p != "long" else 2 if quick else 60))
            i += 1
        for v in variants[1:]:
            p = cyc[(rep + i) % len(cyc)]
            jobs.append(lambda i=i, p=p, v=v: gen(i, p, v, num))
            i += 1
        jobs.append(lambda i=i: gen(i, cyc[rep % len(cyc)], dict(base, sizes=("large", "wide", "tall")[(seed + rep) % 3]), 2 if quick else 30))
        i += 1
    def pump(k, n):
        path, r = str_job(wd, "p%d" % k, k, n, secs=280 if quick else 6000)
        runs.add_tlc(r)
        for j in replay_jobs(runs, conf, path, "span.rune.pump"):
            j()
        os.unlink(path)

    def cycles(k):
        b, m = [("grid", "rune"), ("span", "graph"), ("grid", "graph")][(seed + k) % 3]
        path, r = str_job(wd, "rl%d" % k, k, 8, buf=b, mode=m, secs=6000, module="RunEnum")
        runs.add_tlc(r)
        for j in replay_jobs(runs, conf, path, "%s.%s.runs" % (b, m)):
            j()
        os.unlink(path)

    if conf.get("runs") == 2 or conf.get("runs") and not quick:
        b, m = [("span", "rune"), ("grid", "rune"), ("span", "graph"), ("grid", "graph")][seed % 4]
        jobs.append(lambda: runs.add_tlc(str_job(wd, "rc", 0, 1, buf=b, mode=m, check=1, module="RunEnum")[1]))
    if not quick and conf.get("runs"):
        for k in range(8):
            jobs.append(lambda k=k: cycles(k))
    if conf.get("pump"):
        jobs.append(lambda: runs.add_tlc(str_job(wd, "pc", 0, 1, check=1)[1]))
        for k in range(1 if quick and have else 8):
            jobs.append(lambda k=k: pump((seed * 5 + k) % 24 if quick and have else k, 24 if quick and have else 8))
    if quick:
        for st in conf["sets"]:
            big = st in ("resize", "altwords", "cellwords", "cursor")
            ns = 960 if big else 24 if st in ("scroll", "text", "csi", "query", "erase") else 8
            jobs.append(lambda st=st, ns=ns: enum(st, (seed * 37) % ns, ns, 1, {}))
    else:
        for st in ALLS:
            n = {"resize": 48, "altwords": 48, "cellwords": 40, "cursor": 24, "scroll": 8, "text": 8, "query": 8, "erase": 6}.get(st, 2)
            for s in range(n):
                if st in conf["sets"] or s == seed % n:
                    jobs.append(lambda st=st, s=s, n=n: enum(st, s, n, 1, {}))
                    if st in conf["sets"] and conf.get("grid") and s % 2 == 0:
                        jobs.append(lambda st=st, s=s, n=n: enum(st, s, n, 1, dict(buf="grid")))
        if conf.get("graph"):
            for s in range(8):
                jobs.append(lambda s=s: enum("graph", s, 8, 1, dict(mode="graph")))
    # behaviours generated at setup
    cj = []
    for path, name, f in have:
        if wanted(conf, name, tier):
            cj += replay_jobs(runs, conf, path, name)
    # corpus first: it is cheap
    pool(runs, fz + cj + jobs)
    return dict(profiles=conf["profiles"], families=conf["sets"], segmentations=conf["segs"], corpus_files=len(have),
                checker="TLC: the per-step predicates of TermProps.tla hold on all TLC states counted here; replay: every step compared with the real terminal")


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="run.%s." % prop, dir=BUILD)
    try:
        runs = Runs(prop, tier, seed, wd, os.path.join(wd, "vt"))
        try:
            build_harness(runs.vt)
        except CheckError as x:
            print("ERROR: " + str(x)[:3000])
            return 2
        more = {}
        if prop in CONF:
            more.update(replay_check(runs))
        for d in DRIVERS.get(prop, []):
            if not runs.stop():
                more.update(d(runs) or {})
        return finish(runs, LEVEL, BASE_ASSUMPTIONS, t0, more)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


sys.exit(main())
