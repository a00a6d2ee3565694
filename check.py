#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough].

A check is a list of steps (see checks.py):
  MC   a TLC run on a model of the specification
  Run  a harness profile against the real code in /repo; the disagreements are
       found by the harness from tables exported by TLC ("BAD" lines), or by
       TLC judging the recorded behaviour (module Judge)
Exit 0: held; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import sys
sys.dont_write_bytecode = True
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOT_BIN = "/opt/veriftools/go1.23.12/bin"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def goenv(extra=None):
    e = dict(os.environ)
    for k in ("GOROOT", "GOENV", "GOWORK"):
        e.pop(k, None)
    e.update(HOME="/root", PATH=GOROOT_BIN + ":" + e.get("PATH", "/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    if extra:
        e.update(extra)
    return e


def sh(cmd, env=None, cwd=None, timeout=None):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf8", "replace")


class Run:
    """a harness profile"""
    def __init__(self, prof, quick, thorough, judge=False, table=True, env=None, race=False, workers=None,
                 gen=None, hang=60, seeds=1, ckptr=False, tags=None):
        self.prof, self.quick, self.thorough, self.judge, self.table = prof, quick, thorough, judge, table
        self.env, self.race, self.workers, self.gen, self.hang, self.seeds = env, race, workers, gen, hang, seeds
        self.ckptr = ckptr
        self.tags = tags


class MC:
    """a TLC run on a model; must find no error, or, for a model with a planted flaw
    (fails=name of the invariant), must find that invariant violated"""
    def __init__(self, module, quick, thorough=None, workers=8, fails=None):
        self.module, self.quick, self.thorough, self.workers = module, quick, thorough or quick, workers
        self.fails = fails


class Gen:
    """behaviours generated by TLC from a module, to be replayed by a profile"""
    def __init__(self, module, quick, thorough=None, mode="bfs"):
        self.module, self.quick, self.thorough, self.mode = module, quick, thorough or quick, mode


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        self.states = self.trans = self.traces = 0
        self.samples, self.stats, self.viol, self.known = [], {}, [], []
        self.models = []
        self.bins = {}
        self.t0 = time.time()

    # ---- building
    def build(self, race=False, ckptr=False, tags=None):
        key = (race, ckptr, tags)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.work, "vh" + ("-race" if race else "") + ("-ck" if ckptr else "") + (tags or ""))
        cmd = ["go", "build", "-o", out]
        if race:
            cmd.append("-race")
        if ckptr:
            cmd.append("-gcflags=all=-d=checkptr")
        if tags:
            cmd += ["-tags", tags]
        rc, o = sh(cmd + ["."], env=goenv(), cwd=HARN)
        if rc != 0:
            raise CheckError("harness build failed:\n" + o[-4000:])
        self.bins[key] = out
        return out

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), xmx="6g", timeout=3000):
        meta = os.path.join(self.work, "meta-%d" % (len(os.listdir(self.work))))
        e = dict(os.environ)
        if env:
            e.update(env)
        tmp = os.path.join(self.work, "tmp")
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + tmp,
               "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", cfg, *extra, module + ".tla"]
        rc, o = sh(cmd, env=e, cwd=SPEC, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", o)
        gen = dist = 0
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        return rc, o, gen, dist

    def table(self):
        h = hashlib.sha256()
        for f in ("Bytes.tla", "JsonText.tla", "JsonTable.tla", "JsonTable.cfg"):
            h.update(open(os.path.join(SPEC, f), "rb").read())
        path = os.path.join(BUILD, "table-%s.json" % h.hexdigest()[:16])
        if not os.path.exists(path):
            tmp = os.path.join(self.work, "table.json")
            rc, o, g, d = self.tlc("JsonTable", "JsonTable.cfg", env={"TABLE_FILE": tmp}, workers=1)
            if rc != 0 or not os.path.exists(tmp):
                raise CheckError("table export failed:\n" + o[-3000:])
            os.rename(tmp, path)
        return path

    def mc(self, st):
        cfg = st.quick if self.tier == "quick" else st.thorough
        t = time.time()
        rc, o, gen, dist = self.tlc(st.module, cfg, workers=1 if st.fails else st.workers, xmx="12g")
        if st.fails:
            if "Invariant %s is violated" % st.fails not in o:
                raise CheckError("model %s/%s with a planted flaw: not found\n%s" % (st.module, cfg, o[-3000:]))
        elif rc != 0 or "No error has been found" not in o:
            raise CheckError("model %s/%s: TLC rc=%d\n%s" % (st.module, cfg, rc, o[-4000:]))
        self.states += dist
        self.trans += gen
        self.models.append({"model": st.module, "cfg": cfg, "distinct_states": dist, "states_generated": gen,
                            "seconds": round(time.time() - t, 1),
                            **({"planted_flaw_found": st.fails} if st.fails else {})})
        log("  model %s/%s: %d states, %d generated (%.1fs)" % (st.module, cfg, dist, gen, time.time() - t))

    def generate(self, g):
        """behaviours from TLC: printed as JSON after <<"TRACE", ...>>"""
        cfg = g.quick if self.tier == "quick" else g.thorough
        path = os.path.join(self.work, "gen-%s.ndjson" % g.module)
        if os.path.exists(path):
            os.remove(path)
        t = time.time()
        extra = []
        if g.mode != "bfs":
            extra = ["-simulate", g.mode, "-seed", str(self.seed)]
        rc, o, gen, dist = self.tlc(g.module, cfg, env={"GEN_FILE": path}, workers=1 if g.mode != "bfs" else 8,
                                    extra=extra, xmx="12g")
        if rc != 0:
            raise CheckError("generator %s: TLC rc=%d\n%s" % (g.module, rc, o[-4000:]))
        lines = set()
        for m in re.finditer(r'^<<"TRACE", "(.*)">>$', o, re.M):
            lines.add(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        if os.path.exists(path):
            n = sum(1 for _ in open(path))
        else:
            with open(path, "w") as f:
                for l in sorted(lines):
                    f.write(l + "\n")
            n = len(lines)
        if n == 0:
            raise CheckError("generator %s produced nothing\n%s" % (g.module, o[-2000:]))
        self.states += dist
        self.trans += gen
        self.models.append({"generator": g.module, "cfg": cfg, "behaviours": n, "distinct_states": dist,
                            "states_generated": gen, "seconds": round(time.time() - t, 1)})
        log("  generator %s/%s: %d behaviours, %d states (%.1fs)" % (g.module, cfg, n, dist, time.time() - t))
        return path, n

    # ---- harness
    def drive(self, st, seed, frm, n, out, extra_args=(), workers=None, timeout=None):
        b = self.build(st.race, st.ckptr, st.tags)
        cmd = [b, "-prof", st.prof, "-seed", str(seed), "-from", str(frm), "-n", str(n), "-tier", self.tier,
               "-hang", str(st.hang)]
        if st.table:
            cmd += ["-table", self.table()]
        if out:
            cmd += ["-out", out]
        if workers or st.workers:
            cmd += ["-workers", str(workers or st.workers)]
        if getattr(st, "extra", None):
            cmd += ["-extra", st.extra]
        cmd += list(extra_args)
        rc, o = sh(cmd, env=goenv(st.env), cwd=self.work, timeout=timeout)
        return rc, o, cmd

    def crash(self, st, seed, frm, n, rc, o, cmd):
        """the driver died: find the case"""
        if rc == 96:
            raise CheckError("harness error:\n" + o[-3000:])
        lf = os.path.join(self.work, "logcase")
        cand = []
        for m in re.finditer(r"^(HANG|MEM) (\d+)", o, re.M):
            cand.append(int(m.group(2)))
        if not cand:
            rc1, o1, _ = self.drive(st, seed, frm, n, None, ["-logcase", lf], workers=1, timeout=1500)
            if rc1 not in (0, 96) and os.path.exists(lf):
                try:
                    cand.append(int(open(lf).read().split()[0]))
                    o = o1
                except (ValueError, IndexError):
                    pass
                for m in re.finditer(r"^(HANG|MEM) (\d+)", o1, re.M):
                    cand.append(int(m.group(2)))
        for i in dict.fromkeys(cand):
            rc2, o2, cmd2 = self.drive(st, seed, i, 1, None, workers=1, timeout=600)
            if rc2 != 0:
                if rc2 == 96 or ("stack overflow" in o2 and "zerosnake0/jzon" not in o2):
                    raise CheckError("harness error:\n" + o2[-3000:])
                self.violation(st, seed, i, "the process died or did not return (exit %d): %s" % (rc2, crash_head(o2)), None, cmd2)
                return
        if "zerosnake0/jzon" in o or "fatal error" in o or "DATA RACE" in o:
            self.violation(st, seed, frm, "the process died (exit %d): %s" % (rc, crash_head(o)), None, cmd)
            return
        raise CheckError("driver died (exit %d) and did not again:\n%s" % (rc, o[-3000:]))

    def violation(self, st, seed, case, what, rec, cmd):
        for k in known_findings():
            if k["property"] == self.prop and k["match"] in what:
                if k["desc"] not in self.known:
                    self.known.append(k["desc"])
                return
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "profile": st.prof, "seed": seed, "tier": self.tier, "case": case,
                       "what": what, "record": rec,
                       "rerun": "python3 check.py %s --case %s:%d:%d" % (self.prop, st.prof, seed, case),
                       "command": cmd}, f, indent=1)
        self.viol.append(path)
        if len(self.viol) <= 5:
            log("  disagreement (profile %s seed %d case %d): %s" % (st.prof, seed, case, what[:600]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))

    def run(self, st, only=None):
        n = st.quick if self.tier == "quick" else st.thorough
        if st.gen:
            st.extra, cnt = self.generate(st.gen)
            if n is None:
                n = cnt
        seeds = [self.seed] if self.tier == "quick" else [self.seed + k for k in range(st.seeds)]
        frm = 0
        if only:
            seeds, frm, n = [only[0]], only[1], 1
        for seed in seeds:
            t = time.time()
            out = os.path.join(self.work, "rec-%s" % st.prof) if st.judge else None
            for f in glob.glob(os.path.join(self.work, "rec-*")):
                os.remove(f)
            rc, o, cmd = self.drive(st, seed, frm, n, out)
            bads = re.findall(r"^BAD (\d+) (.*)$", o, re.M)
            m = re.search(r"^STATS (.*)$", o, re.M)
            if "WARNING: DATA RACE" in o:
                self.violation(st, seed, 0, "data race: " + crash_head(o), None, cmd)
            elif rc != 0 or "\nDONE" not in "\n" + o or not m:
                for i, w in bads[:3]:
                    self.violation(st, seed, int(i), w, None, cmd)
                self.crash(st, seed, frm, n, rc, o, cmd)
                continue
            stats = json.loads(m.group(1)) if m else {}
            for k, v in stats.items():
                kk = st.prof + "." + k
                self.stats[kk] = self.stats.get(kk, 0) + v
            for i, w in bads:
                self.violation(st, seed, int(i), w, None, cmd)
            self.traces += stats.get("records", 0) + stats.get("texts", 0) + stats.get("decodes", 0) + stats.get("checks", 0)
            for mm in re.finditer(r"^SAMPLE (.*)$", o, re.M):
                if len(self.samples) < 12:
                    self.samples.append(mm.group(1)[:400])
            if st.judge:
                self.judge(st, seed, out, cmd)
            log("  run %s seed %d: %s (%.1fs)" % (st.prof, seed, json.dumps(stats), time.time() - t))

    def judge(self, st, seed, out, cmd):
        CH = 20000
        files, cur, k, size = [], None, 0, 0
        for f in sorted(glob.glob(out + ".[0-9]*")):
            with open(f, "rb") as g:
                for line in g:
                    if cur is None or k >= CH or size > 60e6:
                        if cur:
                            cur.close()
                        p = out + "-part%d" % len(files)
                        cur, k, size = open(p, "wb"), 0, 0
                        files.append([p, 0])
                    cur.write(line)
                    k += 1
                    size += len(line)
                    files[-1][1] = k
        if cur:
            cur.close()
        for p, cnt in files:
            rc, o, gen, dist = self.tlc("Judge", "Judge.cfg", env={"JUDGE_FILE": p}, xmx="12g")
            if rc != 0 or "No error has been found" not in o or dist != cnt:
                raise CheckError("judge: TLC rc=%d states %d of %d\n%s" % (rc, dist, cnt, o[-4000:]))
            self.states += dist
            self.trans += gen
            bad = [(int(a), int(b), c) for a, b, c in re.findall(r'^<<"BAD", (\d+), (\d+), (.*?)>>$', o, re.M | re.S)]
            # a long print is wrapped over several lines
            if not bad and re.search(r'<<\s*"BAD"', o):
                bad = [(int(a), int(b), "") for a, b in re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+)', o)]
            want = {a for a, _, _ in bad}
            recs = {}
            with open(p, "rb") as g:
                for i, line in enumerate(g, 1):
                    if i in want:
                        recs[i] = json.loads(line)
                    elif len(self.samples) < 6 and i % 37 == 5 and len(line) < 1500:
                        self.samples.append(describe(json.loads(line)))
            for a, b, c in bad:
                r = recs.get(a)
                self.violation(st, seed, b, "%s; the specification allows: %s" % (describe(r), c[:700]), r, cmd)

    def evidence(self, level):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["(none)"], "models": self.models, "harness": self.stats},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def crash_head(o):
    lines = [l for l in o.splitlines() if not l.startswith("BAD ")]
    keep = [l for l in lines if "jzon" in l or "fatal" in l or "panic" in l or "HANG" in l or "MEM" in l or "RACE" in l or "signal" in l]
    return " | ".join(keep[:12])[:1200]


def tobytes(l):
    try:
        return bytes(l)
    except (TypeError, ValueError):
        return l


def describe(r):
    if r is None:
        return "?"
    def sq(x):
        if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x):
            return repr(bytes(x))[1:]
        if isinstance(x, list):
            return [sq(y) for y in x]
        if isinstance(x, dict):
            return {k: sq(v) for k, v in x.items() if k not in ("fl",)}
        return x
    return json.dumps(sq(r))[:900]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=<<(.*?)>> (.*)", l)
            if m:
                out.append({"property": m.group(1), "match": m.group(2), "desc": m.group(3)})
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == "--setup":
        c = Check("setup", "quick")
        os.makedirs(c.work, exist_ok=True)
        try:
            c.build()
            c.build(race=True)
            c.table()
        finally:
            shutil.rmtree(c.work, ignore_errors=True)
        log("setup done")
        return 0
    from checks import PROPS
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = sys.argv[2:]
    if "--case" in args:
        only = args[args.index("--case") + 1].split(":")
    elif args:
        tier = args[0]
    c = Check(prop, tier)
    os.makedirs(c.work, exist_ok=True)
    level = "model_checking"
    try:
        log("check %s (%s, seed %d)" % (prop, tier, c.seed))
        for st in PROPS[prop]:
            if only:
                if isinstance(st, Run) and st.prof == only[0]:
                    c.run(st, (int(only[1]), int(only[2])))
                continue
            if isinstance(st, MC):
                c.mc(st)
            else:
                c.run(st)
        if not only:
            c.evidence(level)
    except CheckError as x:
        log("CHECK ERROR:", x)
        if c.viol:
            c.evidence(level)
            return 1
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    for k in c.known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if c.viol:
        log("%s: VIOLATED (%d disagreements, %.1fs)" % (prop, len(c.viol), time.time() - c.t0))
        return 1
    log("%s: held (%d states, %d transitions, %d behaviours of the code, %.1fs)" % (prop, c.states, c.trans, c.traces, time.time() - c.t0))
    return 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
