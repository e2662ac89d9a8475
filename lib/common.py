"""Shared machinery: running Quint and TLC, reading their traces, reporting."""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PADASIP_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
QUICK = TIER == "quick"
JOBS = max(1, min(8, os.cpu_count() or 1))

SCALE = 1 << 160
_SC = float(SCALE)


def fl(v):
    """specification real (integer scaled by 2^160) -> nearest double"""
    return float(Fraction(v, SCALE))


def real(x):
    """double -> specification real (exact for all but subnormally small values)"""
    f = Fraction(float(x)) * SCALE
    return int(f) if f.denominator == 1 else round(f)


class MachineryError(Exception):
    """the machinery itself failed: an error exit, never a verdict"""


def mix(*parts):
    """a 60 bit seed from VERIF_SEED and the given parts (Quint's generator is counter based: nearby
    seeds give overlapping streams)"""
    import hashlib
    h = hashlib.sha256(repr((SEED,) + parts).encode()).hexdigest()
    return int(h[:15], 16)


# ---------------------------------------------------------------- processes
def _run(cmd, cwd, timeout):
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = env.get("JAVA_TOOL_OPTIONS", "")
    env.setdefault("NODE_OPTIONS", "--max-old-space-size=3000")
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        raise MachineryError("timeout: " + " ".join(cmd)[:200])
    return p.returncode, out


def scratch():
    return tempfile.mkdtemp(prefix="padasip-verif-")


# ---------------------------------------------------------------- ITF
def itf(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(itf(x) for x in v["#tup"])
        if "#set" in v:
            return [itf(x) for x in v["#set"]]
        if "#map" in v:
            return {str(itf(k)): itf(x) for k, x in v["#map"]}
        return {k: itf(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [itf(x) for x in v]
    return v


def load_itf(path):
    with open(path) as f:
        t = json.load(f)
    return [{k if k.startswith("mbt") else k.split("::")[-1]: v for k, v in itf(s).items()} for s in t["states"]]


def quint_traces(spec, main, n, steps, seed, invariant=None, init=None, step=None, timeout=600, cwd=None):
    """n behaviours of the module, as lists of states; raises if a specification invariant fails"""
    d = scratch()
    try:
        cmd = ["quint", "run", spec, "--main", main, "--mbt", "--n-traces", str(n), "--max-samples", str(n),
               "--max-steps", str(steps), "--seed", hex(seed), "--out-itf", os.path.join(d, "t_{seq}.itf.json"),
               "--verbosity", "1"]
        if invariant:
            cmd += ["--invariant", invariant]
        if init:
            cmd += ["--init", init]
        if step:
            cmd += ["--step", step]
        rc, out = _run(cmd, cwd or SPEC, timeout)
        files = sorted(f for f in os.listdir(d) if f.endswith(".json"))
        if rc != 0 or not files:
            raise MachineryError("quint run %s %s: rc=%s\n%s" % (spec, main, rc, out[:1500]))
        return [load_itf(os.path.join(d, f)) for f in files]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quint_parallel(jobs):
    """jobs: list of dicts of arguments of quint_traces; returns the list of trace lists in order"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: quint_traces(**j), jobs))


# ---------------------------------------------------------------- code under test
_lib = None


def padasip():
    """the library, imported from the current working tree of the repository"""
    global _lib
    if _lib is None:
        import warnings
        warnings.simplefilter("ignore")
        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        import padasip as pa
        where = os.path.realpath(pa.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise MachineryError("padasip imported from " + where)
        import numpy
        numpy.seterr(all="ignore")
        _lib = pa
    return _lib


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("call did not return")


class limit:
    """with limit(s): a call of the library that does not return within s seconds raises Hang"""

    def __init__(self, s=20):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ---------------------------------------------------------------- verdicts
class Violation(Exception):
    """the code does something the specification does not allow"""

    def __init__(self, what, data=None):
        super().__init__(what)
        self.what = what
        self.data = data or {}


def jsonable(v):
    import numpy as np
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def known_findings():
    """(kind, property, key, text) of every line of KNOWN_FINDINGS.txt"""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in line.split()[1:3])
                res.append((parts["property"], parts["key"], line.split(None, 3)[3]))
    return res


class Report:
    """counts of one check run; writes the evidence file and the verdict"""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.known = {}
        self.devs = {}
        self.kf = {k: t for p, k, t in known_findings() if p == prop}

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def count(self, group, key, n=1):
        g = self.cov.setdefault(group, {})
        g[key] = g.get(key, 0) + n

    def sample(self, s, cap=4):
        if len(self.cov["samples"]) < cap:
            t = json.dumps(jsonable(s))
            self.cov["samples"].append(t if len(t) < 1500 else t[:1500] + " ...")

    def finding(self, key, text):
        """a deviation that is listed in KNOWN_FINDINGS.txt under this key, else a violation"""
        if key in self.kf:
            if key not in self.known:
                self.known[key] = text
            return
        raise Violation("deviation '%s': %s" % (key, text))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def evidence(self, verdict):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["verdict"] = verdict
        cov["known_findings_seen"] = sorted(self.known)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
                       "coverage": jsonable(cov), "wall_s": round(time.time() - self.t0, 2)}, f, indent=1)

    def ok(self):
        for k, t in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, t))
        self.evidence("held on everything explored")
        print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, TIER, SEED, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))

    def violation(self, v):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-%s-%d.json" % (self.prop, TIER, SEED))
        with open(path, "w") as f:
            json.dump(jsonable({"property": self.prop, "seed": SEED, "tier": TIER, "what": v.what,
                                "data": v.data}), f, indent=1)
        self.evidence("VIOLATION: " + v.what[:800])
        print("property %s: %s" % (self.prop, v.what[:2000]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))


# ---------------------------------------------------------------- comparison
def near(got, want, tol):
    """|got - want| <= tol with nan never near"""
    return abs(float(got) - want) <= tol


def vec(v):
    return [fl(a) for a in v]


def mat(m):
    return [vec(r) for r in m]


def scale_of(*vs):
    m = 1.0
    for v in vs:
        if isinstance(v, (list, tuple)):
            for a in v:
                m = max(m, scale_of(a))
        else:
            m = max(m, abs(v))
    return m


def same(what, got, want, tol, data=None, scale=None):
    """got (anything numpy understands) equals want (nested lists of doubles) up to tol * scale"""
    import numpy as np
    try:
        g = np.array(got, dtype="float64")
    except Exception as ex:
        raise Violation("%s is not numeric: %r (%s)" % (what, got, ex), data)
    w = np.array(want, dtype="float64")
    if g.shape != w.shape and not (g.size == 0 and w.size == 0):
        raise Violation("%s has shape %s, the specification requires %s" % (what, g.shape, w.shape), data)
    if w.size == 0:
        return
    s = scale if scale is not None else max(1.0, float(np.max(np.abs(w))))
    bad = ~(np.abs(g - w) <= tol * s)
    if bad.any():
        i = tuple(int(a) for a in np.argwhere(bad)[0])
        raise Violation("%s%s is %r, the specification requires %r (tolerance %.3g)" % (
            what, list(i) if i else "", float(g[i]), float(w[i]), tol * s), data)
