#!/usr/bin/env python3
"""check.py PROPERTY: decides a property on the code in /repo.

Builds the harness against /repo, checks the models of the property with TLC,
runs generated and model-derived calls and histories on the library, and has
TLC judge the recordings by the specification.  See DESIGN.md.

  check.py C11                 quick or thorough, by VERIF_TIER
  check.py --replay FILE       judges one recorded failure again
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plans  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check could not be carried out."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# where the processes that make the calls are: nothing may depend on it
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Marquesas", "UTC"]


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.calls = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.known = []
        self.kinds = {}
        self.ntlc = self.nrun = 0
        self.lock = threading.Lock()
        shutil.copytree(os.path.join(HERE, "spec"), os.path.join(self.dir, "spec"))
        # modules of the models are found next to the others
        for f in os.listdir(os.path.join(self.dir, "spec", "mc")):
            shutil.copy(os.path.join(self.dir, "spec", "mc", f), os.path.join(self.dir, "spec", f))
        self.spec = os.path.join(self.dir, "spec")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def build(self, *what):
        out = self.path("b")
        p = subprocess.run(["bash", os.path.join(HERE, "tools", "build.sh"), out] + list(what),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Infra("build failed:\n" + p.stdout[-3000:])
        self.bin = os.path.join(out, "bin")

    # --- TLC -----------------------------------------------------------------
    def tlc(self, module, config, env=None, workers=None, args=(), timeout=None, mem=None):
        with self.lock:
            self.ntlc += 1
            meta = self.path("meta%d" % self.ntlc)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss900m", "-Xmx%s" % (mem or "8g"), "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-config", config] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=self.spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout or (3000 if THOROUGH else 600))
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on %s %s" % (module, config))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        return tuple(int(x.replace(",", "")) for x in m[-1])

    def model(self, name, config=None, workers=None, timeout=None):
        """Exhaustive check of a model: spec/mc/NAME.tla."""
        t = time.time()
        out = self.tlc(name + ".tla", (config or name) + ".cfg", workers=workers, timeout=timeout)
        gen, distinct = self.counts(out)
        if "No error has been found" not in out:
            raise Infra("model %s: %s" % (config or name, out[-3000:]))
        self.states += distinct
        self.transitions += gen
        self.models.append({"model": config or name, "states": distinct, "transitions": gen, "wall_s": round(time.time() - t, 1)})

    def small(self, name):
        """Checks a model of small scope, and returns the calls it consists of."""
        t = time.time()
        out = self.path("small-%s.nd" % name)
        config = "SmallDeep" if THOROUGH else "Small"
        text = self.tlc(name + ".tla", config + ".cfg", env={"OUT": out})
        gen, distinct = self.counts(text)
        if "No error has been found" not in text:
            raise Infra("model %s: %s" % (name, text[-3000:]))
        self.states += distinct
        self.transitions += gen
        self.models.append({"model": name, "states": distinct, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        return self.generate([], infile=out)

    def refute(self, name, config):
        """A model of a wrong design: that its invariant fails is what shows that
        the invariant says something."""
        out = self.tlc(name + ".tla", config + ".cfg", workers=2)
        if "is violated" not in out:
            raise Infra("model %s: not refuted: %s" % (config, out[-3000:]))
        gen, distinct = self.counts(out)
        self.models.append({"model": config, "states": distinct, "transitions": gen, "refuted": True})

    def proof(self, name):
        """A proof, for parameters of any size: spec/NAME.tla, checked by tlapm."""
        t = time.time()
        d = self.path("proof-" + name)
        shutil.copytree(self.spec, d)
        p = subprocess.run(["tlapm", "--threads", "2", "--stretch", "10", "--cache-dir", d, name + ".tla"], cwd=d,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        m = re.search(r"All (\d+) obligations? proved", p.stdout)
        if p.returncode or not m:
            raise Infra("proof %s: %s" % (name, p.stdout[-3000:]))
        self.models.append({"model": name, "obligations": int(m.group(1)), "proved": True, "wall_s": round(time.time() - t, 1)})

    # --- recorded calls --------------------------------------------------------
    def conform(self, recs, module="Conform", workers=None):
        """Judges records; returns those that do not conform."""
        bad, part, size = [], [], 0
        for r in recs:
            part.append(r)
            size += len(str(r["r"])) + len(str(r["a"]))
            if len(part) == 40000 or size > 30 << 20:
                bad += self.judge(part, module, workers)
                part, size = [], 0
        return bad + (self.judge(part, module, workers) if part else [])

    def judge(self, recs, module, workers):
        recs = list(recs)
        bad, broken = [], []
        while recs:
            f = self.path("recs%d.nd" % self.ntlc)
            with open(f, "w") as h:
                for i, r in enumerate(recs):
                    r["i"] = i + 1
                    h.write(json.dumps(r, separators=(",", ":")))
                    h.write("\n")
            out = self.tlc(module + ".tla", module + ".cfg", env={"RECS": f}, workers=workers)
            gen, distinct = self.counts(out)
            os.unlink(f)
            if "No error has been found" in out and distinct == len(recs) + 8:
                self.states += distinct
                self.transitions += gen
                self.traces += len(recs)
                ids = {int(x) for x in re.findall(r'<<"NONCONFORMING", (\d+)>>', out)}
                bad += [recs[i - 1] for i in sorted(ids)]
                break
            m = re.findall(r"^/\\ i = (\d+)", out, re.M)
            if not m or len(broken) >= 3:
                raise Infra("TLC failed on records: " + out[-3000:])
            i = int(m[-1])
            # the result is not of a form the specification can judge; that of
            # the pinned library must be, else the fault is in the specification
            log("record cannot be judged:", json.dumps(recs[i - 1])[:2000], out[-1500:])
            broken.append(recs.pop(i - 1))
        for r in broken:
            p = self.one(r, pin=True)
            if module == "Conform" and r["x"] == "" and json.dumps(p["r"]) != json.dumps(r["r"]):
                bad.append(r)
            else:
                raise Infra("record cannot be judged: " + json.dumps(r)[:3000])
        return bad

    def one(self, r, pin=False, tool=None):
        """Makes one recorded call again, in a process of its own."""
        with self.lock:
            self.nrun += 1
            n = self.nrun
        f = self.path("one-in%d.json" % n)
        o = self.path("one-out%d.json" % n)
        with open(f, "w") as h:
            json.dump({"i": 0, "k": r["k"], "a": r["a"]}, h)
        tool = tool or ("vcol" if r["k"].startswith("col") else "vgen")
        p = subprocess.run([os.path.join(self.bin, tool), "-one", f, "-out", o, "-limit", "25s"] + (["-pin"] if pin else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300,
                           env=dict(os.environ, GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0", TZ=r.get("zone", "UTC")))
        if p.returncode not in (0, 4):
            return dict(r, x="crash", r={})
        return dict(json.loads(open(o).readline()), zone=r.get("zone", "UTC"))

    def generate(self, plan, infile=None):
        """Runs the calls of a plan; returns the records."""
        return self.execute("vgen", plan, infile=infile)

    def execute(self, tool, plan, infile=None, shards=CPUS):
        """Runs calls or histories, in some processes; returns the records. What
        ends a process is the record of the call it was making."""
        arg = ",".join(":".join(map(str, p)) for p in plan)
        race = tool.endswith("-race")
        alone = tool == "vgen"      # calls by themselves: a crash or hang happens again
        with self.lock:
            self.nrun += 1
            run = self.nrun

        def shard(i):
            o = self.path("gen%d-%d.nd" % (run, i))
            c = self.path("crumb%d-%d" % (run, i))
            cmd = [os.path.join(self.bin, tool), "-plan", arg, "-seed", str(SEED), "-shard", str(i), "-of", str(shards), "-out", o]
            if infile:
                cmd += ["-in", infile]
            if race:
                cmd += ["-limit", "60s"]
            zone = ZONES[i % len(ZONES)]
            env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0", TZ=zone)

            def go(more):
                try:
                    return subprocess.run(cmd + more, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1500, env=env)
                except subprocess.TimeoutExpired:
                    raise Infra("%s timed out" % tool)
            p = go([] if alone else ["-crumb", c])
            recs = []
            if p.returncode < 0:
                raise Infra("%s was ended by signal %d" % (tool, -p.returncode))
            if p.returncode not in (0, 4):
                log("%s ended with %d: %s" % (tool, p.returncode, p.stderr[:4000]))
                if alone:
                    p2 = go(["-crumb", c])
                    if p2.returncode in (0, 4):
                        raise Infra("%s crashed once: %s" % (tool, p.stderr[-2000:]))
                r = dict(json.loads(open(c).read()), zone=zone)
                if alone and self.one(r)["x"] != "crash":
                    # for what calls before left behind, or else not for the library
                    p2 = go(["-crumb", c])
                    if p2.returncode in (0, 4) or json.loads(open(c).read())["a"] != r["a"]:
                        raise Infra("%s crashed, but not for one call: %s" % (tool, p.stderr[-2000:]))
                x = "race" if p.returncode == 66 else "crash"
                recs.append(dict(r, x=x, r={}, log=(p.stderr + p.stdout)[:6000]))
                return recs, {"calls": 1, "differ": 0}
            with open(o) as h:
                for line in h:
                    recs.append(dict(json.loads(line), zone=zone))
            os.unlink(o)
            if p.returncode == 4:
                h = [r for r in recs if r["x"] == "hang"]
                recs = [r for r in recs if r["x"] != "hang"]
                x = "hang"
                if alone:
                    x = self.one(h[0])["x"]
                    if x == "" and go([]).returncode == 4:
                        # for what calls before left behind, if at the same call
                        with open(o) as f:
                            again = [r for r in map(json.loads, f) if r["x"] == "hang"]
                        os.unlink(o)
                        x = "hang" if again[0]["a"] == h[0]["a"] else ""
                    if x == "":
                        raise Infra("a call took long, once: " + json.dumps(h[0])[:500])
                recs.append(dict(h[0], x=x))
                return recs, {"calls": len(recs), "differ": 0}
            return recs, json.loads([l for l in p.stdout.split("\n") if l.startswith("{")][0])

        recs = []
        with ThreadPoolExecutor(shards) as ex:
            for r, st in ex.map(shard, range(shards)):
                recs += r
                self.calls += st["calls"]
        for r in recs:
            self.kinds[r["k"]] = self.kinds.get(r["k"], 0) + 1
        return recs

    # --- histories ------------------------------------------------------------------
    def histories(self, recs, module="CollectorTrace"):
        """Has TLC find a behaviour of the specification for each history; returns those without."""
        bad = [r for r in recs if r["x"]]
        recs = [r for r in recs if not r["x"]]
        for b in range(0, len(recs), 20000):
            part = recs[b:b + 20000]
            f = self.path("hist%d.nd" % self.ntlc)
            with open(f, "w") as h:
                for i, r in enumerate(part):
                    r["i"] = i + 1
                    h.write(json.dumps(r, separators=(",", ":")))
                    h.write("\n")
            out = self.tlc(module + ".tla", module + ".cfg", env={"RECS": f})
            os.unlink(f)
            if "No error has been found" not in out:
                raise Infra("TLC failed on histories: " + out[-3000:])
            gen, distinct = self.counts(out)
            self.states += distinct
            self.transitions += gen
            self.traces += len(part)
            ok = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out)}
            bad += [r for r in part if r["i"] not in ok]
        return bad

    def sample(self, recs, n=4):
        for k in sorted({r["k"] for r in recs}):
            rs = [r for r in recs if r["k"] == k]
            for r in rs[len(rs) // 2:len(rs) // 2 + 1]:
                s = json.dumps(r)
                self.samples.append(json.loads(s) if len(s) < 3000 else {"k": k, "text": s[:1500]})

    def report(self, bad, what=""):
        findings = known_inputs(self.prop)
        for r in bad:
            for f in findings:
                if f["kind"] == r.get("k") and f["input"] == r.get("a"):
                    if f not in self.known:
                        self.known.append(f)
                    break
            else:
                self.violations.append(dict(r, what=what) if what else r)

    def finish(self):
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        d = os.path.join(HERE, "replay")
        for i, r in enumerate(self.violations[:5]):
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%d.json" % (self.prop, i + 1))
            json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "record": r}, open(f, "w"))
            log("violation:", json.dumps(r)[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "calls_compared_with_pinned_copy": self.calls,
                "records_by_kind": self.kinds, "models": self.models,
                "samples": self.samples[:12] or ["none"],
            },
            "assumptions": plans.ASSUMPTIONS.get(self.prop, []),
            "violations": len(self.violations),
            "wall_s": round(time.time() - self.t0, 1),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        log("%s: %d states, %d records judged, %d calls, %.1f s" % (self.prop, self.states, self.traces, self.calls, time.time() - self.t0))
        return 1 if self.violations else 0


def known_inputs(prop):
    """The findings listed in known-findings.txt:
    finding: property=ID kind=K input=JSON what..."""
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) kind=(\S+) input=(\{.*\}) -- (.*)", line)
        if m and m.group(1) == prop:
            out.append({"kind": m.group(2), "input": json.loads(m.group(3)), "what": m.group(4)})
    return out


def run(prop):
    c = Ctx(prop)
    try:
        plan = plans.PLANS[prop]
        c.build(*plan.get("build", []))
        # the models and the calls together
        with ThreadPoolExecutor(4) as ex:
            models = [ex.submit(c.model, *m) for m in plan.get("models", [])]
            models += [ex.submit(c.refute, *m) for m in plan.get("wrong", [])]
            small = [ex.submit(c.small, m) for m in plan.get("small", [])]
            if THOROUGH:
                models += [ex.submit(c.model, *m) for m in plan.get("deep", [])]
                models += [ex.submit(c.proof, m) for m in plan.get("proofs", [])]
            calls = plan.get("calls", [])
            if calls:
                if THOROUGH:
                    calls = [(k, n * 20, s * plans.DEEPER.get(k, 10)) + tuple(x) for k, n, s, *x in calls]
                recs = c.generate(calls)
                for f in known_inputs(prop):
                    recs.append(c.one({"k": f["kind"], "a": f["input"]}))
                c.sample(recs)
                c.report(c.conform(recs))
            for m in small:
                c.report(c.conform(m.result()))
            for f in plan.get("more", []):
                f(c)
            for m in models:
                m.result()
        return c.finish()
    except Infra as e:
        log("ERROR:", e)
        if c.violations:
            return c.finish()
        return 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    r = d["record"]
    c = Ctx(d["property"])
    try:
        c.build(*plans.PLANS[d["property"]].get("build", []))
        if r.get("k") in plans.REPLAY:
            return plans.REPLAY[r["k"]](c, r)
        bad = c.conform([{k: v for k, v in r.items() if k in "ikxar"}])
        print("as recorded:", "does not conform" if bad else "conforms")
        again = c.one(r, tool="vgen-race" if r["x"] == "race" else None)
        bad = c.conform([again])
        print(json.dumps(again))
        print("VIOLATION property=%s replay=%s" % (d["property"], path) if bad else "conforms")
        return 1 if bad else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(run(sys.argv[1]))
