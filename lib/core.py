"""Common frame of every check: build, work directory, violations, evidence."""
import json, os, random, shutil, subprocess, sys, tempfile, time, multiprocessing, traceback
import vh, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.exe = None
        self.violations = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.states = self.transitions = 0
        self.traces = 0
        self.notes = []
        self.level = "model_checking"

    # ------------------------------------------------------------------ build
    def build(self):
        out = os.path.join(self.work, "h")
        r = subprocess.run([os.path.join(HERE, "harness", "build.sh"), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=REPO))
        if r.returncode:
            raise BuildError(r.stdout.decode("latin1")[-3000:])
        for f in os.listdir(out):
            if f.endswith(".o"):
                os.unlink(os.path.join(out, f))
        self.exe = os.path.join(out, "vh")
        return self.exe

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, count=True, **kw):
        r = tlc.run(module, cfg, self.work, **kw)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def model(self, module, cfg, name=None, **kw):
        """exhaustive check of a closed design model; a violation here is an error of the
        specification, not of the code"""
        r = self.tlc(module, cfg, name=name, **kw)
        if r.violated:
            raise tlc.TlcError("design model %s violates %s\n%s" % (name or module, r.violated, r.out[-4000:]))
        self.cov.setdefault("models", {})[name or module] = {"distinct": r.distinct, "generated": r.generated}
        return r

    def javacp(self):
        d = os.path.join(self.work, "cls")
        if not os.path.isdir(d):
            subprocess.run(["javac", "-d", d, "-cp", tlc.CP[0], os.path.join(tlc.SPEC, "java", "DigestOverride.java")],
                           check=True)
        return d

    def write_cases(self, name, cases):
        p = os.path.join(self.work, name)
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")))
                f.write("\n")
        return p

    # ------------------------------------------------------------------ result
    def violation(self, what, replay):
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=repr)
        self.violations.append((what, p))

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": dict(self.cov, states=max(1, self.states), transitions=max(1, self.transitions),
                             traces_validated_against_impl=self.traces, samples=self.samples[:5]),
            "assumptions": self.assumptions,
            "violations": [v[0] for v in self.violations if v],
            "wall_s": round(time.time() - self.t0, 2),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in known(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations:
            if v:
                print("VIOLATION property=%s replay=%s" % (self.prop, v[1]))
                print("   " + v[0][:600])
        n = len(self.violations)
        print("%s %s: %s, %d traces/cases against the code, %d states, %.1fs" % (
            self.prop, self.tier, "VIOLATED (%d)" % n if n else "held", self.traces, self.states,
            time.time() - self.t0))
        sys.stdout.flush()
        return 1 if n else 0


def known(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                r.append(l.split(" ", 2)[2])
    except OSError:
        pass
    return r


# ---------------------------------------------------------------- parallel map
_W = {}


def _init(exe):
    _W["exe"] = exe
    _W["vh"] = None


def worker_vh():
    if _W.get("vh") is None:
        _W["vh"] = vh.VH(_W["exe"])
    return _W["vh"]


DRIVER = "(no crash) what the library did makes no sense to the peer"


def guard(f):
    """a peer that cannot make sense of what the library does has seen a violation, too"""
    def g(h, x):
        try:
            return f(h, x)
        except vh.Died:
            raise
        except Exception:
            raise vh.Died(DRIVER, traceback.format_exc()[-1200:])
    return g


def _call(a):
    f, x = a
    if vh.hangs >= 5:               # the judgement is made by then
        return ("died", "not run", "after five hangs of this worker")
    try:
        return ("ok", guard(f)(worker_vh(), x))
    except vh.Died as d:
        if d.why == DRIVER:         # a scenario was left in its middle
            _W["vh"].close()
            _W["vh"] = None
        return ("died", d.why, d.detail)


def pmap(exe, f, items, nproc=8, chunk=None):
    """f(vh, item) in parallel; yields results in order, each ('ok',v)|('died',why,detail)"""
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(nproc, len(items)), _init, (exe,)) as pool:
        res = pool.map(_call, [(f, x) for x in items], chunksize=chunk or max(1, len(items) // (nproc * 8)))
    return res
