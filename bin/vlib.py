"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC, replaying behaviours, collecting the outcome."""
import concurrent.futures as cf
import glob, gzip, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
BUILD = os.path.join(V, "build")
CORPUS = os.path.join(BUILD, "corpus")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar"] + sorted(glob.glob("/opt/veriftools/tla/*.jar")))
NCPU = min(8, os.cpu_count() or 4)


def spec_hash():
    h = hashlib.sha256()
    later = ("Follow", "ReadLoop", "WriteAll", "TraceCheck", "Lock", "Mirror")     # not used for the corpus
    for f in sorted(f for f in glob.glob(SPEC + "/*.tla") + glob.glob(SPEC + "/*.cfg") + [os.path.join(V, "bin", "setup.py")] if not any(x in f for x in later)):
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()[:16]


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(PATH="/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"), HOME=e.get("HOME", "/root"),
             GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.path.join(BUILD, "gocache"))
    return e


def widths():
    """the two-cell ranges of the specification's width table"""
    s = open(os.path.join(SPEC, "TermText.tla")).read()
    s = s[s.index("Wide2 == <<"):s.index("RECURSIVE InWide2")]
    return " ".join("%s-%s" % m for m in re.findall(r"<<(\d+), (\d+)>>", s))


def build_harness(out, *flags, cov=False):
    e = dict(os.environ)
    if cov:
        e["VF_COV"] = "1"
        flags += ("-gcflags=-d=libfuzzer", "-ldflags=-checklinkname=0")
    p = subprocess.run(["bash", os.path.join(V, "bin", "build_harness.sh"), out, *flags], capture_output=True, text=True, timeout=600, env=e)
    if p.returncode != 0:
        raise CheckError("the harness does not build against /repo:\n" + p.stdout + p.stderr)


def tlc(workdir, name, module, cfg, env, args, secs):
    """Run TLC; returns dict(states, generated, log).  Its own exit status 0 is required."""
    md = os.path.join(workdir, "md." + name)
    log = os.path.join(workdir, name + ".log")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    cmd = ["timeout", str(secs), "java", "-Xss400m", "-Xmx3g", "-XX:+UseSerialGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-config", cfg, "-metadir", md, *args, module]
    t0 = time.time()
    with open(log, "w") as f:
        rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e).returncode
    txt = open(log, errors="replace").read()
    shutil.rmtree(md, ignore_errors=True)
    states = gen = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    if m:
        gen, states = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"number of states generated: ([\d,]+)", txt) or re.findall(r"Progress: ([\d,]+) states checked", txt)
    if m and not gen:
        gen = states = int(m[-1].replace(",", ""))
    return dict(rc=rc, states=states, generated=gen, log=log, secs=time.time() - t0, text=txt)


def tlc_ok(r, what):
    if r["rc"] != 0:
        err = [l for l in r["text"].splitlines() if l.startswith("Error") or "violated" in l]
        raise CheckError("TLC (%s) ended with %d: %s (log %s)" % (what, r["rc"], "; ".join(err[:4])[:600], r["log"]))
    return r


def gen_job(workdir, name, profile, seed, num, buf="span", mode="rune", legal=0, sizes="small", nomid=0, cfg="Gen.cfg", secs=200):
    out = os.path.join(workdir, name + ".json")
    r = tlc(workdir, name, "Gen.tla", cfg, dict(PROFILE=profile, OUT=out, BUF=buf, MODE=mode, LEGAL=legal, SIZES=sizes, NOMID=nomid),
            ["-seed", str(seed), "-simulate", "num=%d" % num, "-depth", "62"], secs)
    tlc_ok(r, name)
    return out, r


def enum_job(workdir, name, st, shard, nshard, sample, seed, buf="span", mode="rune", cfg="Enum.cfg", secs=280):
    out = os.path.join(workdir, name + ".json")
    r = tlc(workdir, name, "Enum.tla", cfg, dict(SET=st, SHARD=shard, NSHARD=nshard, SAMPLE=sample, SEED=seed, OUT=out, BUF=buf, MODE=mode),
            ["-workers", "1"], secs)
    tlc_ok(r, name)
    if not os.path.exists(out):
        open(out, "w").close()
    return out, r


def row_job(workdir, name, module, shard, nshard, sample, seed, st="", cfg=None, secs=280):
    """KeyEnum.tla / MouseEnum.tla: one line per configuration and key, or place"""
    out = os.path.join(workdir, name + ".json")
    r = tlc(workdir, name, module + ".tla", cfg or module + ".cfg", dict(SET=st, SHARD=shard, NSHARD=nshard, SAMPLE=sample, SEED=seed, OUT=out),
            ["-workers", "1"], secs)
    tlc_ok(r, name)
    if not os.path.exists(out):
        open(out, "w").close()
    return out, r


def str_job(workdir, name, shard, nshard, buf="span", mode="rune", check=0, cfg=None, secs=280, module="StrEnum"):
    """StrEnum.tla, RunEnum.tla: very long sequences and runs; with check, the short ones against the byte-level specification"""
    out = os.path.join(workdir, name + ".json")
    r = tlc(workdir, name, module + ".tla", cfg or module + ".cfg", dict(OUT=out, BUF=buf, MODE=mode, SHARD=shard, NSHARD=nshard, CHECK=check), ["-workers", "1"], secs)
    tlc_ok(r, name)
    if not os.path.exists(out):
        open(out, "w").close()
    return out, r


def follow_job(workdir, name, progs, buf="span", mode="rune", nomid=0, cfg="Follow.cfg", secs=280):
    """Follow.tla: what the specification requires for given programs"""
    out = os.path.join(workdir, name + ".json")
    r = tlc(workdir, name, "Follow.tla", cfg, dict(PROGS=progs, OUT=out, BUF=buf, MODE=mode, NOMID=nomid), ["-workers", "1"], secs)
    tlc_ok(r, name)
    if not os.path.exists(out):
        open(out, "w").close()
    return out, r


class Runs:
    """Collects what the runs of one check did."""

    def __init__(self, prop, tier, seed, workdir, vt):
        self.prop, self.tier, self.seed, self.workdir, self.vt = prop, tier, seed, workdir, vt
        self.mu, self.covmu = threading.Lock(), threading.Lock()
        self.states = self.transitions = self.traces = self.steps = self.cells = self.compared = self.bytes = 0
        self.kinds, self.other, self.extra = {}, {}, {}
        self.samples, self.viol, self.errors, self.notes = [], [], [], []
        self.n = 0
        self.deadline = time.time() + (600 if tier == "quick" else 20 * 3600)

    def stop(self):
        return len(self.viol) >= 3

    def add_tlc(self, r):
        with self.mu:
            self.states += r["states"]
            self.transitions += r["generated"]

    def violation(self, what, artifact):
        d = os.path.join(BUILD, "violations")
        os.makedirs(d, exist_ok=True)
        with self.mu:
            path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
            json.dump(dict(property=self.prop, what=what, **artifact), open(path, "w"), indent=1)
            self.viol.append((what, path))

    def go(self, test, env, secs=300, vt=None):
        """Run one test function of the harness."""
        e = go_env()
        e.update({k: str(v) for k, v in env.items()})
        e["VF_PROP"] = self.prop
        e["VF_WIDTHS"] = widths()
        try:
            p = subprocess.run([vt or self.vt, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % (secs + 60), "-test.count=1"], cwd=self.workdir,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs, env=e)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as x:
            return -99, (x.stdout or b"").decode("utf-8", "replace")

    def merge(self, rep):
        with self.mu:
            self.traces += rep.get("traces", 0)
            self.steps += rep.get("steps", 0)
            self.cells += rep.get("cells", 0)
            self.compared += rep.get("compared", 0)
            self.bytes += rep.get("bytes", 0)
            for k, n in (rep.get("kinds") or {}).items():
                self.kinds[k] = self.kinds.get(k, 0) + n
            for k, n in (rep.get("other_kinds") or {}).items():
                self.other[k] = self.other.get(k, 0) + n
            for k, n in (rep.get("extra") or {}).items():
                self.extra[k] = self.extra.get(k, 0) + n
            if len(self.samples) < 6:
                self.samples += (rep.get("samples") or [])[:2]

    def replay(self, traces, test="TestVFReplay", vt=None, secs=300, **env):
        """Replay a file of behaviours; a process that dies is resumed behind the behaviour it died in."""
        skip = 0
        for attempt in range(4):
            if self.stop() or time.time() > self.deadline:
                return
            with self.mu:
                self.n += 1
                stem = os.path.join(self.workdir, "r%d" % self.n)
            mark, out = stem + ".mark", stem + ".rep"
            rc, txt = self.go(test, dict(VF_TRACES=traces, VF_OUT=out, VF_MARK=mark, VF_SKIP=skip, VF_SEED=self.seed, **env), secs, vt)
            rep = None
            if os.path.exists(out):
                rep = json.load(open(out))
                self.merge(rep)
                for d in rep.get("divergences") or []:
                    self.violation("%s/%s: %s" % (d["kind"], d["comp"], d["detail"]), dict(
                        test=test, env=env, behaviour=self.behaviour(traces, d["trace"]), **d))
            if rc == 0 and rep and rep.get("complete"):
                return
            m = open(mark).read().split() if os.path.exists(mark) else []
            race = "WARNING: DATA RACE" in txt
            died = rc == -99 or "panic:" in txt or "fatal error:" in txt or race
            if not died or len(m) < 4:
                self.errors.append("replay of %s ended with %d: %s" % (traces, rc, txt[-1500:]))
                return
            idx, step, kind, owners = int(m[0]), int(m[1]), m[2], (m[3] if len(m) > 3 else "").split(",")
            how = "data race" if race else "no progress" if rc == -99 else "process died"
            if race:
                owners = ["C15"]
            if self.prop in owners:
                self.violation("%s at step %d (%s)" % (how, step, kind), dict(
                    test=test, env=env, trace=idx, step=step, kind=kind, output=txt[-4000:], behaviour=self.behaviour(traces, idx)))
            else:
                with self.mu:
                    self.other[kind + "/" + how] = self.other.get(kind + "/" + how, 0) + 1
            if race and rep and rep.get("complete"):
                return
            skip = idx + 1

    def fuzz(self, name, seeds, budget, want, seed, buf="span", mode="rune", nomid=0, cfg="FastFollow.cfg"):
        """Coverage-guided search for programs in the implementation as it is now, followed by TLC; the behaviours' file."""
        with self.covmu:
            if not hasattr(self, "vtc"):
                vtc = os.path.join(self.workdir, "vtc")
                build_harness(vtc, cov=True)
                self.vtc = vtc
        progs, cur = os.path.join(self.workdir, name + ".progs"), os.path.join(self.workdir, name + ".cur")
        rc, txt = self.go("TestVFFuzz", dict(VF_SEEDS=" ".join(seeds), VF_OUT=progs, VF_CUR=cur, VF_BUDGET=budget, VF_MAX=want, VF_BUF=buf,
                                             VF_GRAPH=int(mode != "rune"), VF_SRC=os.environ.get("VF_REPO", "/repo"), VF_SEED=seed), budget + 60, self.vtc)
        if not os.path.exists(progs):
            raise CheckError("the search ended with %d: %s" % (rc, txt[-1000:]))
        if rc != 0:
            good = []
            for f in (cur, progs):
                for l in open(f, errors="replace"):
                    try:
                        good.append(json.dumps(json.loads(l)))
                    except ValueError:
                        pass
            open(progs, "w").write("".join(l + "\n" for l in good))
        if not os.path.getsize(progs):
            return None
        m = re.search(r"FUZZ seeds (\d+) execs (\d+) edges (\d+)\+(\d+) paths (\d+) new-edge programs (\d+) programs (\d+)", txt)
        if m:
            with self.mu:
                for k, v in zip(("seeds", "execs", "edges_of_seeds", "edges_found", "paths_found", "new_edge_programs", "programs"), m.groups()):
                    self.extra["search_" + k] = self.extra.get("search_" + k, 0) + int(v)
        out, r = follow_job(self.workdir, name + ".f", progs, buf=buf, mode=mode, nomid=nomid, cfg=cfg)
        self.add_tlc(r)
        os.unlink(progs)
        return out

    @staticmethod
    def behaviour(traces, i):
        op = gzip.open if traces.endswith(".gz") else open
        try:
            with op(traces, "rt") as f:
                for k, line in enumerate(f):
                    if k == i:
                        return json.loads(line)
        except Exception:
            pass
        return None


def pool(runs, jobs):
    """jobs: callables; run them on NCPU threads, in order."""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = []

        def wrap(j):
            if runs.stop() or time.time() > runs.deadline:
                return
            try:
                j()
            except CheckError as x:
                runs.errors.append(str(x))
            except Exception as x:  # noqa
                import traceback
                runs.errors.append(traceback.format_exc())
        for j in jobs:
            fs.append(ex.submit(wrap, j))
        for f in fs:
            f.result()


def split_gz(src, n):
    """indices of corpus parts"""
    return src


def finish(runs, level, assumptions, t0, more):
    cov = dict(states=runs.states, transitions=runs.transitions, traces_validated_against_impl=runs.traces,
               steps_replayed=runs.steps, steps_compared=runs.compared, cells_compared=runs.cells, input_bytes=runs.bytes,
               step_kinds=runs.kinds, samples=runs.samples[:6] or ["none"], exhaustive=False)
    if runs.extra:
        cov["extra"] = runs.extra
    if runs.other:
        cov["divergences_of_other_properties"] = runs.other
    cov.update(more)
    ev = dict(property=runs.prop, tier=runs.tier, seed=runs.seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(runs.viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", runs.prop + ".json"), "w"), indent=1)
    for what, path in runs.viol:
        print("%s: %s" % (runs.prop, what[:1500]))
        print("VIOLATION property=%s replay=%s" % (runs.prop, path))
    if runs.viol:
        return 1
    if runs.errors:
        print("ERROR: " + "\nERROR: ".join(runs.errors[:3]))
        return 2
    print("%s: held; %d TLC states, %d behaviours, %d steps replayed in %.1f s" % (runs.prop, runs.states, runs.traces, runs.steps, time.time() - t0))
    return 0
