"""Drivers beyond replaying screen behaviours."""
import json, os
from vlib import *


def corpus_rows(prefix):
    idx = os.path.join(CORPUS, "index.json")
    if not os.path.exists(idx):
        return []
    return sorted(os.path.join(CORPUS, n + ".json.gz") for n in json.load(open(idx))["files"] if n.startswith("rows." + prefix))


def keys(runs):
    """every key x modifier mask x event type x configuration"""
    quick = runs.tier == "quick"
    jobs, have = [], corpus_rows("keys.")

    def fresh(st, shard, nshard, sample):
        path, r = row_job(runs.workdir, "k%s%d" % (st, shard), "KeyEnum", shard, nshard, sample, runs.seed, st=st, secs=280 if quick else 6000)
        runs.add_tlc(r)
        runs.replay(path, test="TestVFKeys")
        os.unlink(path)
    # corpus first, the expectation computed by TLC at setup
    for p in have:
        jobs.append(lambda p=p: runs.replay(p, test="TestVFKeys"))
    for st in ("fn", "rune", "alt"):
        if quick:
            n = 60 if have else 8
            jobs.append(lambda st=st, n=n: fresh(st, (runs.seed * 37) % n, n, 1))
        else:
            for s in range(8):
                jobs.append(lambda st=st, s=s: fresh(st, s, 8, 1))
    pool(runs, jobs)
    return dict(key_domain="all 37 keyboard configurations x (111 functional keys x 256 modifier masks x 3 event types; 30 of them with alternates and text; "
                "193 characters x 6 variants x 26 masks, 256 for some)" + ("" if not quick else "; of which TLC re-checks a slice in this run and generated the rest at setup"))


def mouse(runs):
    """every mode x encoding x event at 276 places"""
    quick = runs.tier == "quick"

    def fresh(shard, n, smp):
        path, r = row_job(runs.workdir, "m%d" % shard, "MouseEnum", shard, n, smp, runs.seed, secs=280 if quick else 6000)
        runs.add_tlc(r)
        runs.replay(path, test="TestVFMouse")
        os.unlink(path)
    pool(runs, [lambda s=s: fresh(s, 8, 1) for s in range(8)])
    return dict(mouse_domain="5 modes x 3 encodings x 282 places x 256 events (button, press, flags), all of them; faulty writers for a fifth")


def chars(runs):
    """every code point, printed"""
    quick = runs.tier == "quick"
    have = corpus_rows("chars.")

    def fresh(shard, n):
        path, r = row_job(runs.workdir, "ch%d" % shard, "CharEnum", shard, n, 1, runs.seed, secs=280 if quick else 6000)
        runs.add_tlc(r)
        runs.replay(path, test="TestVFChars")
        os.unlink(path)
    jobs = [lambda p=p: runs.replay(p, test="TestVFChars") for p in have]
    if quick and have:
        jobs.append(lambda: fresh(runs.seed * 37 % 64, 64))
    else:
        jobs += [lambda s=s: fresh(s, 8) for s in range(8)]
    pool(runs, jobs)
    return dict(char_domain="every Unicode scalar value except the C0 controls and DEL, in blocks of 64 on a row of 150 cells, both buffers")


def model_job(runs, name, module, cfg, env, secs=280, args=("-workers", "1")):
    out = os.path.join(runs.workdir, name + ".json")
    r = tlc(runs.workdir, name, module + ".tla", cfg, dict(OUT=out, **env), list(args), secs)
    tlc_ok(r, name)
    runs.add_tlc(r)
    return out


def some_behaviours(*stems):
    idx = os.path.join(CORPUS, "index.json")
    if not os.path.exists(idx):
        return []
    names = sorted(json.load(open(idx))["files"])
    return [os.path.join(CORPUS, n + ".json.gz") for n in names if any(n.startswith(s) for s in stems)]


def io(runs):
    """the read loop over scripted reads, Write over scripted writers, sizes at a PTY"""
    quick = runs.tier == "quick"
    stems = ["span.rune.gen." + p + "." for p in ("all", "text", "syntax", "query", "scroll")] + ["grid.rune.gen.all.", "grid.rune.gen.text."]
    beh = some_behaviours(*stems)
    if not beh:
        path, r = gen_job(runs.workdir, "iob", "all", runs.seed * 31 + 5, 100)
        runs.add_tlc(r)
        beh = [path]
    deep = "" if quick else "Deep"

    def check(mod):
        # invariants and termination on every state of the model
        r = tlc(runs.workdir, mod + ".check", mod + ".tla", deep + mod + ".cfg", {}, ["-workers", "2"], 280 if quick else 6000)
        tlc_ok(r, mod)
        runs.add_tlc(r)

    def reads(shard, n):
        out = model_job(runs, "rl%d" % shard, "ReadLoop", "Fast" + deep + "ReadLoop.cfg", dict(SHARD=shard, NSHARD=n))
        for k in range(1 if quick else 4):
            runs.replay(out, test="TestVFIO", VF_BEHAVIOURS=" ".join(beh[(shard + k) % len(beh)::4] or beh), VF_ROUND=k)

    def writes():
        out = model_job(runs, "wa", "WriteAll", "Fast" + deep + "WriteAll.cfg", {})
        runs.replay(out, test="TestVFWrites")
    jobs = [lambda: check("ReadLoop"), lambda: check("WriteAll"), writes, lambda: runs.replay("none", test="TestVFPty")]
    n = 2 if quick else 16
    jobs += [lambda s=s: reads(s, n) for s in range(n)]
    pool(runs, jobs)
    return dict(io_domain="read scripts: every sequence of at most %d offers from 10 sizes around the 4096-byte buffer and its multiples, ending in EOF or a failure alone or with data; "
                "every response of a writer to slices of at most %d units" % (3 if quick else 4, 6 if quick else 9))


def trace_check(runs, rec, name, secs=280, cfg="TraceCheck.cfg", module="TraceCheck", n=2):
    """TLC validates recorded executions; returns those it cannot explain: [(number, events explained, trace)]"""
    traces = [json.loads(l) for l in open(rec)]
    if not traces:
        return []
    best = {}

    def shard(k):
        out = rec + ".o%d" % k
        r = tlc(runs.workdir, "%s.%d" % (name, k), module + ".tla", cfg, dict(OUT=out, TRACES=rec, SHARD=k, NSHARD=n), ["-workers", "1"], secs)
        tlc_ok(r, name)
        runs.add_tlc(r)
        if os.path.exists(out):
            for l in open(out):
                a, b = map(int, l.split())
                best[a] = max(best.get(a, 0), b)
            os.unlink(out)
    ts = [threading.Thread(target=guard(runs, shard), args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if runs.errors:
        return []
    with runs.mu:
        runs.extra[name.rstrip("0123456789.") + "_validated_by_tlc"] = runs.extra.get(name.rstrip("0123456789.") + "_validated_by_tlc", 0) + sum(b < 10 ** 6 for b in best.values())
    return [(i, best.get(i + 1, 0), t) for i, t in enumerate(traces) if best.get(i + 1, 0) < len(t["ev"])]


def guard(runs, f):
    def g(*a):
        try:
            f(*a)
        except Exception as x:
            runs.errors.append(str(x))
    return g


def record(runs, name, beh, seed, seq=False, vt=None, only=None, mx=12, budget=160, test="TestVFConc", **env):
    rec = os.path.join(runs.workdir, name + ".rec")
    e = dict(VF_RECORD=rec, VF_MAX=mx, VF_BUDGET=budget, **env)
    if seq:
        e["VF_SEQ"] = 1
    if only is not None:
        e["VF_ONLY"] = only
    runs.replay(beh, test=test, vt=vt, secs=200, VF_RSEED=seed, **e)
    return rec


def conc(runs):
    """concurrent use of the API, recorded and validated by TLC; the same under the race detector"""
    quick = runs.tier == "quick"
    r = tlc(runs.workdir, "lock", "Lock.tla", "Lock.cfg" if quick else "DeepLock.cfg", {}, ["-workers", "4"], 280 if quick else 6000)
    tlc_ok(r, "Lock")
    runs.add_tlc(r)
    for v in () if quick else ("attach", "keywrite", "waitlock", "resize", "tee", "teewrite"):
        r = tlc(runs.workdir, "lock." + v, "Lock.tla", "LockBad_%s.cfg" % v, {}, ["-workers", "4"], 280)
        if r["rc"] == 0 or not ("violated" in r["text"] or "Deadlock reached" in r["text"]):
            raise CheckError("the lock model accepts the broken variant %s" % v)
    race = runs.vt + ".race"
    build_harness(race, "-race")
    beh = some_behaviours(*["%s.rune.gen.%s." % (b, p) for b in ("span", "grid") for p in ("all", "resize", "keys", "mouse", "modes", "text", "scroll", "syntax")])
    if not beh:
        beh = [gen_job(runs.workdir, "cb%d" % i, p, runs.seed * 31 + i, 60)[0] for i, p in enumerate(("all", "resize", "keys", "scroll"))]

    def one(k):
        name = "cc%d" % k
        seed = runs.seed * 1009 + k
        vt = race if k % 2 else None
        files = beh[k % len(beh)] if quick else " ".join(beh[k % len(beh)::len(beh) // 2 or 1])
        cores = (2, 8, 4, 1)[k % 4]
        rec = record(runs, name, files, seed, vt=vt, mx=14 if quick else 60, GOMAXPROCS=cores)
        if not os.path.exists(rec):
            return
        for i, n, t in trace_check(runs, rec, name, n=1):
            judge(files, seed, i, n, t, name)
        os.unlink(rec)

    def gap(k):
        # every state exposed between two lock sections, step by step
        name = "gp%d" % k
        files = beh[(runs.seed * 13 + k * 5) % len(beh)]
        rec = record(runs, name, files, runs.seed * 3011 + k, mx=10 if quick else 40, budget=40, VF_GAPS=1, GOMAXPROCS=4)
        if not os.path.exists(rec):
            return
        bad = trace_check(runs, rec, name, n=1)
        for i, n, t in bad:
            ctl = rec + ".ctl"
            with open(ctl, "w") as f:
                c = dict(t, ev=[dict(e, thr=[o for o in e["thr"] if o and o[0]["o"] != "snap"]) for e in t["ev"]])
                f.write(json.dumps(c) + "\n")
            if trace_check(runs, ctl, name + ".ctl", n=1) or runs.prop != "C15":
                runs.other["concurrent/unexplained"] = runs.other.get("concurrent/unexplained", 0) + 1
            else:
                runs.violation("a reader holding the lock saw a state between those of event %d (its end is explained)" % (n + 1),
                               dict(test="TestVFConc", gaps=1, trace=i, file=files, event=n + 1, execution=t))
            os.unlink(ctl)
        os.unlink(rec)

    def stir(k):
        # every call in every gap between two lock sections, under the race detector
        name = "st%d" % k
        files = " ".join(beh[(runs.seed + k) % 2::2])
        rec = record(runs, name, files, runs.seed * 5003 + k, vt=race, mx=6 if quick else 40, budget=3500 if quick else 20000, VF_STIR=1, GOMAXPROCS=(4, 8, 2)[k % 3])
        if os.path.exists(rec):
            os.unlink(rec)

    def judge(files, seed, i, n, t, name):
        # the same calls one after the other
        ctl = record(runs, name + ".ctl%d" % i, files, seed, seq=True, mx=14 if quick else 60)
        bad = trace_check(runs, ctl, name + ".ctl") if os.path.exists(ctl) else []
        if any(j == i for j, _, _ in bad) or runs.prop != "C15":
            runs.other["concurrent/unexplained"] = runs.other.get("concurrent/unexplained", 0) + 1
            return
        runs.violation("no interleaving of the calls with the bytes explains event %d of the execution (the same calls in sequence are explained)" % (n + 1),
                       dict(test="TestVFConc", trace=i, file=files, seed=seed, event=n + 1, execution=t))
    pool(runs, [lambda: runs.replay("none", test="TestVFWait"), lambda: runs.replay("none", test="TestVFWait", vt=race)] + [lambda k=k: stir(k) for k in range(2 if quick else 24)] + [lambda k=k: gap(k) for k in range(8 if quick else 200)] + [lambda k=k: one(k) for k in range(14 if quick else 600)])
    return dict(concurrency="executions of up to 3 goroutines making resizes, key and mouse events, writes, SetTee and locked reads while the loop consumes up to 6 steps of output, "
                "half of them under the race detector, with 1 to 8 processors; calls at read boundaries; every state exposed between two lock sections seen by observers; every call while the loop waits for input or its tee at 23 points of the input, and from within the tee's writer; writes that block until the input is consumed; all of it explained by TraceCheck.tla")


def mirror(runs):
    """a TTYFrontend's output interpreted by a real outer terminal, and by the specification's"""
    quick = runs.tier == "quick"
    beh = some_behaviours(*["%s.%s.gen." % (b, m) for b in ("span", "grid") for m in ("rune", "graph")])
    if not beh:
        beh = [gen_job(runs.workdir, "mb%d" % i, p, runs.seed * 31 + i, 60)[0] for i, p in enumerate(("all", "resize", "sgr", "text"))]

    def live(f, k):
        runs.replay(f, test="TestVFMirror", VF_RSEED=runs.seed * 1009 + k, VF_BUDGET=10 ** 9)

    def rec(k):
        f = beh[(runs.seed * 31 + k * 7) % len(beh)]
        if any(z in f for z in (".large", ".wide", ".tall")):
            return
        out = record(runs, "mr%d" % k, f, runs.seed * 2003 + k, mx=8 if quick else 40, budget=2500, test="TestVFMirror")
        if not os.path.exists(out):
            return
        for i, n, t in trace_check(runs, out, "mr%d" % k, cfg="Mirror.cfg", module="Mirror", n=1):
            runs.violation("what the TTYFrontend wrote in event %d does not reproduce the screen" % (n + 1), dict(test="TestVFMirror", trace=i, file=f, event=n + 1, execution=t))
        os.unlink(out)

    jobs = [lambda f=f, k=k: live(f, k) for k, f in enumerate(beh) if not quick or (k + runs.seed) % 2 == 0]
    jobs += [lambda k=k: rec(k) for k in range(10 if quick else 200)]
    if not quick:
        jobs += [lambda f=f, k=k, s=s: live(f, 100 * s + k) for s in range(1, 12) for k, f in enumerate(beh)]
    pool(runs, jobs)
    return dict(mirror="TTYFrontend attached to random regions (also off-screen), detached, focused and blurred at random, under behaviours of every profile; compared after every event in "
                "cells of the region, cells outside it, cursor and its visibility; ANSILine of every row read back, style values compared")


DRIVERS = {"C02": [chars], "C03": [chars], "C08": [chars], "C20": [chars], "C12": [keys], "C13": [mouse], "C11": [mirror, chars], "C15": [conc], "C16": [io]}
