"""Properties of the filters: replay of spec/session.qnt and validation of logged traces."""
import numpy as np
from common import *
from registry import check
import sess
import tracefilter as tf
import lifecycle
from longlives import long_lives


# ---------------------------------------------------------------- specification -> code
def behaviours(prop, n, steps, tag="", spec="checks.qnt", main=None, invariant="inv", step=None, init=None):
    """n behaviours of the configuration of this property, generated by parallel Quint runs"""
    k = min(JOBS, max(1, n // 10))
    jobs = [dict(spec=spec, main=main or prop, n=(n + k - 1) // k, steps=steps, seed=mix(prop, tag, i),
                 invariant=invariant, step=step, init=init) for i in range(k)]
    return [t for b in quint_parallel(jobs) for t in b]


def sessions(r, prop, quick, thorough, steps=14, player=None, **kw):
    """replay behaviours of configuration `prop` on the real filters"""
    rounds = 1 if QUICK else 12
    for i in range(rounds):
        traces = behaviours(prop, quick if QUICK else thorough, steps, i)
        sess.play(r, traces, player=player, **kw)
        if r.left(600) < 0:
            break
    r.add(config="spec/checks.qnt module " + prop)


# ---------------------------------------------------------------- code -> specification
def par(kind, n, **kw):
    d = dict(kind=kind, n=n, mu=0.1, eps=0.001, ro=0.1, a=.95, lambd=.03, alpha=2., order=5, ifc=.001, mem=100)
    d.update(kw)
    return {k: (v if k in ("kind", "n", "order", "mem") else real(v)) for k, v in d.items()}


def good_par(kind, n, rng):
    """parameters for which the filter follows unit variance data without blowing up"""
    u = lambda a, b: float(rng.uniform(a, b))
    kw = dict(mu=u(0.005, 0.1 / n ** .5), eps=u(0.001, 1), ro=u(0, .01), a=u(0, 1), lambd=u(.02, 2), alpha=u(1, 4),
              order=int(rng.integers(1, 7)), ifc=u(.01, 1), mem=int(rng.integers(2, 40)))
    if kind in ("NLMS", "OCNLMS", "AP"):
        kw["mu"] = u(0.01, 1.9)
    if kind == "GNGD":
        kw.update(mu=u(.05, 1.2), eps=u(.5, 3), ro=u(0, .2))
    if kind == "RLS":
        kw["mu"] = u(.9, 1)
    if kind in ("LMF", "NLMF"):
        kw["mu"] = u(0.0005, 0.004)
    if kind == "VSLMS_Ang":
        kw["ro"] = u(0, .0002)
    if kind.startswith("VSLMS"):
        kw["mu"] = u(.005, .02)
        kw["a"] = u(0, .95)
        kw["ro"] = u(0, 1e-5 if kind == "VSLMS_Ang" else 2e-4)
    return par(kind, n, **kw)


def series(N, n, rng, style):
    """inputs and targets of a system identification or prediction task"""
    w = rng.normal(size=n)
    if style == "noise":
        x = rng.normal(size=(N, n))
    elif style == "history":
        s = np.sin(np.arange(N + n) * rng.uniform(.05, .6)) + .2 * rng.normal(size=N + n)
        x = np.array([s[i:i + n] for i in range(N)])
    elif style == "drift":
        x = rng.normal(size=(N, n)) + np.linspace(0, 1, N)[:, None]
    elif style == "sparse":
        x = rng.normal(size=(N, n)) * (rng.uniform(size=(N, n)) < .4)
    else:
        x = rng.integers(-2, 3, size=(N, n)).astype(float)
    d = x @ w + .1 * rng.normal(size=N)
    d[N // 2:] += (x[N // 2:] @ rng.normal(size=n)) * .3
    d[rng.integers(0, N, size=3)] += 2.0
    return d, x


STYLES = ("noise", "history", "drift", "sparse", "integers")


def logged(r, p, d, x, how, rng, w0=None):
    """history of a real filter: y, e, weights before every sample and after the last"""
    if w0 is None:
        w0 = rng.normal(size=p["n"]) * .5
    label = "%s n=%d N=%d via %s" % (p["kind"], p["n"], len(x), how)
    data = {"kwargs": sess.kwargs_of(p), "n": p["n"], "w": w0, "d": d, "x": x, "how": how}
    try:
        with limit(60):
            f = sess.build(p, w0.copy())
            if how == "run":
                y, e, W = f.run(d, x)
                W = np.vstack([W, f.w])
            elif how == "adapt":
                y, W = [], [np.array(f.w)]
                for k in range(len(x)):
                    y.append(float(f.predict(x[k])))
                    f.adapt(d[k], x[k])
                    W.append(np.array(f.w))
                y, W = np.array(y), np.array(W)
                e = d - y
            else:
                c = len(x) // 3
                y, e, W = [], [], []
                for a, b in ((0, c), (c, c + 1), (c + 1, len(x))):
                    yy, ee, ww = f.run(d[a:b], x[a:b])
                    y += list(yy)
                    e += list(ee)
                    W += [np.array(v) for v in ww]
                W.append(np.array(f.w))
                y, e, W = np.array(y), np.array(e), np.array(W)
            if y.shape != (len(x),) or e.shape != (len(x),) or W.shape != (len(x) + 1, p["n"]):
                raise Violation("results of %s have shapes %s %s %s" % (label, y.shape, e.shape, W.shape), data)
    except (Violation, MachineryError):
        raise
    except (Hang, Exception) as ex:
        raise Violation("%s raises %s: %s" % (label, type(ex).__name__, ex), data)
    return label, p, d, x, y, e, W


def valid_traces(r, kinds, per_kind, N, nmax=6):
    rng = np.random.default_rng(mix("traces", r.prop) % 2 ** 32)
    jobs = []
    for kind in kinds:
        for i in range(per_kind):
            n = int(rng.integers(1, (4 if kind in ("RLS", "AP") else nmax) + 1))
            p = good_par(kind, n, rng)
            d, x = series(N, n, rng, STYLES[(i + int(rng.integers(0, 5))) % len(STYLES)])
            if not QUICK or i % 3 != 2:
                how = ("run", "adapt", "pieces")[i % 3]
            else:
                how = "pieces"
            jobs.append(logged(r, p, d, x, how, rng))
    check_jobs(r, jobs)


def big_traces(r, kinds):
    """many weights, and many samples"""
    rng = np.random.default_rng(mix("big", r.prop) % 2 ** 32)
    jobs = []
    for i, kind in enumerate(kinds):
        for n, N in ((int(rng.integers(33, 100 if kind not in ("RLS", "AP") else 50)), 12 if QUICK else 60),
                     (2, (1150 if kind != "OCNLMS" else 400) if QUICK else 4000)):
            p = good_par(kind, n, rng)
            if kind == "AP":
                p["order"] = int(rng.integers(8, 14)) if n > 2 else 2
            d, x = series(N, n, rng, "noise" if n > 2 else ("noise", "drift")[i % 2])
            if n > 2:
                x = x / 4
            jobs.append(logged(r, p, d, x, ("run", "adapt", "pieces")[(i + n) % 3], rng))
            r.count("big", "%s n=%d N=%d" % (kind, n, N))
    check_jobs(r, jobs)


def windup(r):
    """RLS with strong forgetting while some inputs are silent: their inverse correlations grow without bound, and
    count when those inputs come back.  Powers of two keep the arithmetic of the doubles exact meanwhile."""
    rng = np.random.default_rng(mix("windup") % 2 ** 32)
    jobs = []
    for i in range(6 if QUICK else 60):
        n = int(rng.integers(2, 5))
        live = 1 + int(rng.integers(0, n - 1))
        mu = float(rng.choice([.5, .5, .75, .25, .625]))
        grow = int(rng.integers(12, 44))
        N = int(grow / -np.log2(mu)) + 1
        p = par("RLS", n, mu=mu, eps=2.0 ** -int(rng.integers(0, 5)))
        top = 2.0 ** -round(.5 * grow)
        x = np.zeros((N + 3, n))
        x[:N, :live] = rng.integers(1, 3, size=(N, live)) * rng.choice([-1., 1.], size=(N, live))
        x[N:, :live] = 1.0
        for k in range(3):
            x[N + k, live:] = rng.integers(-3, 4, size=n - live) * top * (k + 1)
        x[N, live:] = top
        d = rng.integers(-64, 65, size=N + 3) / 2.0 ** 10
        jobs.append(logged(r, p, d * min(1., top * 2 ** 14), x, ("run", "adapt", "pieces")[i % 3], rng, np.zeros(n)))
        r.count("windup", "2^%d" % (grow // 8 * 8))
    check_jobs(r, jobs)


def check_jobs(r, jobs):
    for (label, acc, n, clause), j in zip(tf.validate(jobs), jobs):
        if clause:
            raise Violation("trace of %s is not a behaviour of the specification: entry %d, clause %s" % (
                label, acc, clause), {"label": label, "entry": acc, "clause": clause, "kwargs": sess.kwargs_of(j[1]),
                                      "d": j[2], "x": j[3], "y": j[4], "e": j[5], "w": j[6]})
        r.add(states=n + 1, transitions=n, traces_validated_against_impl=1)
        r.add(events_validated=n)
        r.count("validated_kinds", label.split()[0])


GROUPS = {
    "C02": ["LMS", "LMF", "SSLMS", "Llncosh", "GMCC"],
    "C03": ["NLMS", "NLMF", "NSSLMS", "GNGD"],
    "C04": ["RLS"], "C05": ["AP"], "C07": ["OCNLMS"],
    "C06": ["VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"],
}


def group_check(prop):
    def f(r):
        kinds = GROUPS[prop]
        sessions(r, prop, 160, 300, steps=14)
        per = max(1, (8 if QUICK else 40) // len(kinds))
        valid_traces(r, kinds, per, 150 if QUICK else 500)
        big_traces(r, kinds)
        if prop == "C04":
            windup(r)
        design(r, "D" + prop[1:], 40 if QUICK else 400, 8 if QUICK else 14)
    return f


for _p in GROUPS:
    if _p != "C07":
        check(_p)(group_check(_p))


def oc_behaviour(r, t):
    """real filter against OCNLMS as documented and as built (known findings)"""
    ev0 = t[0]["ev"]
    log = [{"kwargs": sess.kwargs_of(ev0["par"]), "n": ev0["par"]["n"], "w": vec(ev0["w0"])}]
    data = {"history": log}
    on_ideal = True         # does the real filter follow the documentation so far?
    on_built = True
    with limit(60):
        f = sess.build(ev0["par"], np.array(vec(ev0["w0"])))
        for s in t[1:]:
            ev = s["ev"]
            if ev["op"] == "clear":
                f.clear_memory()
                log.append("clear_memory")
                continue
            d, x = fl(ev["d"]), np.array(vec(ev["x"]))
            y = float(f.predict(x))
            f.adapt(d, x)
            w = np.array(f.w)
            log.append({"d": d, "x": x, "y": y, "w": w})
            sc = scale_of(vec(ev["wBuilt"]), vec(ev["wIdeal"]), vec(ev["x"]), fl(ev["built"]), fl(ev["ideal"]), d)
            near_ = lambda a, b: abs(y - fl(a)) <= 1e-7 * sc and np.max(np.abs(w - np.array(vec(b)))) <= 1e-7 * sc
            on_ideal = on_ideal and near_(ev["ideal"], ev["wIdeal"])
            on_built = on_built and near_(ev["built"], ev["wBuilt"])
            if not on_ideal and not on_built:
                raise Violation("OCNLMS follows neither its documentation (output %r, weights %s) nor the known findings "
                                "(output %r, weights %s): output %r, weights %s" % (
                                    fl(ev["ideal"]), vec(ev["wIdeal"]), fl(ev["built"]), vec(ev["wBuilt"]), y, w.tolist()), data)
    if not on_ideal:
        r.finding("cursor", "the memory cursor advances two slots per learned sample; skipped slots count as zero samples")
        r.finding("target", "the stored target is the error plus the output recomputed after the input was stored")
    r.count("ocnlms", "as documented" if on_ideal else "as in the known findings")
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)


@check("C07")
def c07(r):
    group_check("C07")(r)
    for t in behaviours("C07", 64 if QUICK else 600, 16, "ideal", spec="ocideal.qnt", main="ocideal"):
        oc_behaviour(r, t)
    # the default memory of 100 wrapping more than once, and other long memories
    rng = np.random.default_rng(mix("oclong") % 2 ** 32)
    jobs = []
    for mem, n, N in ((100, 3, 330), (64, 2, 200), (33, 4, 150)) + (() if QUICK else ((100, 5, 900), (101, 2, 900), (257, 3, 900))):
        p = par("OCNLMS", n, mu=float(rng.uniform(.05, 1)), eps=float(rng.uniform(.1, 2)), mem=mem)
        d, x = series(N, n, rng, STYLES[mem % 5])
        jobs.append(logged(r, p, d + 3.0, x + 1.5, ("run", "adapt", "pieces")[mem % 3], rng))
    check_jobs(r, jobs)


@check("C01")
def c01(r):
    lifecycle.lives(r)
    sessions(r, "C01", 200, 300, steps=12)
    valid_traces(r, sess.KINDS, 1, 60 if QUICK else 300)
    # long data sets
    rng = np.random.default_rng(mix("long") % 2 ** 32)
    jobs = []
    for kind, N in (("LMS", 1300), ("AP", 1030), ("NLMS", 2100), ("OCNLMS", 520), ("RLS", 1030)) + (
            () if QUICK else tuple((k, 3000) for k in sess.KINDS if k != "OCNLMS")):
        p = good_par(kind, 2, rng)
        p["order"] = min(p["order"], 2)
        d, x = series(N, 2, rng, "noise")
        jobs.append(logged(r, p, d, x, "run", rng))
    check_jobs(r, jobs)


# ---------------------------------------------------------------- C08
class SplitPlayer(sess.Player):
    """every slot holds three filters that learn the same data cut differently"""

    def start(self, state):
        super().start(state)
        self.rng = np.random.default_rng(mix("split", len(self.log), repr(self.log[0])) % 2 ** 32)
        self.twins = [[sess.build(p, np.array(vec(f["st"]["w"]))) for _ in range(2)]
                      for p, f in zip(self.pars, state["flt"])]

    def step(self, state):
        ev = state["ev"]
        op, slot = ev["op"], ev["slot"]
        super().step(state)
        if op == "create":
            w = np.array(vec(ev["w0"]))
            self.twins[slot] = [sess.build(ev["par"], w.copy()) for _ in range(2)]
            return
        if op not in ("run", "adapt"):
            return
        d, x = self.args(ev)
        kind = self.pars[slot]["kind"]
        online, pieces = self.twins[slot]
        want_w = vec(ev["w"])
        want_y, want_e = (vec(ev["y"]), vec(ev["e"])) if op == "run" else (None, None)
        sc = self.scales(ev)
        # sample by sample
        y = []
        for k in range(len(x)):
            y.append(self.call("predict of " + kind, online.predict, x[k]))
            self.call("adapt of " + kind, online.adapt, d[k], x[k])
        self.compare(kind + " learning sample by sample", y, None, online.w, want_y, want_e, want_w, sc)
        # in pieces, some of them single adapt() calls
        y, e, k = [], [], 0
        cuts = []
        while k < len(x):
            m = int(self.rng.integers(0, len(x) - k + 1))
            if m == 0 and self.rng.integers(2):
                y.append(self.call("predict of " + kind, pieces.predict, x[k]))
                e.append(d[k] - y[-1])
                self.call("adapt of " + kind, pieces.adapt, d[k], x[k])
                k += 1
                cuts.append("adapt")
                continue
            yy, ee, _ = self.call("run of " + kind, pieces.run, d[k:k + m], x[k:k + m])
            y += list(yy)
            e += list(ee)
            k += m
            cuts.append(m)
        self.log[-1]["cuts"] = cuts
        self.compare(kind + " learning in pieces %s" % cuts, y, e, pieces.w, want_y, want_e, want_w, sc)
        self.r.count("cuts", "%d samples in %d pieces" % (len(x), len(cuts)))

    def compare(self, what, y, e, w, want_y, want_e, want_w, sc):
        if want_y is not None:
            self.eq(what + ": y", y, want_y, sc[1])
        if want_e is not None and e is not None:
            self.eq(what + ": e", e, want_e, sc[1])
        self.eq(what + ": weights", w, want_w, sc[0])


@check("C08")
def c08(r):
    lifecycle.lives(r)
    long_lives(r)
    sessions(r, "C08", 200, 300, steps=10, player=SplitPlayer)
    valid_traces(r, sess.KINDS, 1 if QUICK else 3, 45 if QUICK else 300)


@check("C09")
def c09(r):
    lifecycle.lives(r)
    long_lives(r)
    sessions(r, "C09", 200, 300, steps=24)


# ---------------------------------------------------------------- C10
class HostilePlayer(sess.Player):
    """overwrites every array that crossed the interface right after every call, or (every other
    behaviour) checks that none of them ever changes"""
    turn = 0

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        HostilePlayer.turn += 1
        self.always = HostilePlayer.turn % 2 == 0
        self.hostile = True

    def step(self, state):
        super().step(state)
        if self.always:
            self.scribble()


@check("C10")
def c10(r):
    lifecycle.lives(r)
    long_lives(r)
    import concur
    concur.filters_together(r)
    sessions(r, "C10", 200, 300, steps=18, player=HostilePlayer)


@check("C11")
def c11(r):
    lifecycle.lives(r)
    long_lives(r)
    sessions(r, "C11", 240, 300, steps=20)


@check("C12")
def c12(r):
    lifecycle.lives(r)
    long_lives(r)
    sessions(r, "C12", 240, 300, steps=10)


@check("C16")
def c16(r):
    sessions(r, "C16", 240, 300, steps=16)


# ---------------------------------------------------------------- C13
def letters(kind, how):
    return {"asis": kind, "upper": kind.upper(), "lower": kind.lower(), "swap": kind.swapcase(),
            "unknown": "perceptron", "empty": "", "prefix": kind[:-1], "suffix": kind + "X"}.get(how)


def registry_event(r, ev, tol):
    pa = padasip()
    kind, n = ev["par"]["kind"], ev["par"]["n"]
    name = letters(kind, ev["letter"])
    d, x = np.array(vec(ev["d"])), np.array(mat(ev["x"])).reshape(len(ev["d"]), n)
    data = {"factory": ev["factory"], "name": name, "given": ev["given"], "d": d, "x": x, "w": vec(ev["w0"])}
    r.count("actions", "%s/%s" % (ev["factory"], ev["letter"]))
    if ev["err"]:
        kw = {} if ev["letter"] == "nosize" else {"n": n}
        unfit = {"vector-x": (d, x[:, 0]), "scalar-x": (d, 1.0), "scalar-d": (1.0, x)}
        model = kind if ev["letter"] in ["nosize"] + list(unfit) else name
        dd, xx = unfit.get(ev["letter"], (d, x))
        calls = {"AdaptiveFilter": lambda: pa.filters.AdaptiveFilter(model=model, **kw),
                 "get_filter": lambda: pa.filters.get_filter(model),
                 "filter_data": lambda: pa.filters.filter_data(dd, xx, model=model)}
        try:
            with limit(20):
                got = calls[ev["factory"]]()
        except ValueError:
            return
        except Exception as ex:
            raise Violation("%s(%r) raises %s instead of ValueError" % (ev["factory"], model, type(ex).__name__), data)
        raise Violation("%s(%r) gives %r instead of raising ValueError" % (ev["factory"], model, got), data)
    full = sess.kwargs_of(ev["par"])
    kw = {k: v for k, v in full.items() if k in ev["given"]}
    kw["w"] = "zeros" if ev["zeros"] else np.array(vec(ev["w0"]))
    data["kwargs"] = dict(kw)
    what = "%s(%r, %s)" % (ev["factory"], name, sorted(kw))
    f = None
    try:
        with limit(20):
            if ev["letter"] == "omitted":
                if ev["factory"] == "AdaptiveFilter":
                    f = pa.filters.AdaptiveFilter(n=n, **kw)
                else:
                    res = pa.filters.filter_data(d, x, **kw)
            elif ev["factory"] == "AdaptiveFilter":
                f = pa.filters.AdaptiveFilter(model=name, n=n, **kw)
            elif ev["factory"] == "get_filter":
                f = pa.filters.get_filter(name)(n=n, **kw)
            elif ev["factory"] == "filter_data":
                res = pa.filters.filter_data(d, x, model=name, **kw)
            elif ev["factory"] == "positional":
                mu = [kw.pop("mu")] if "mu" in kw else []
                f = sess.filter_class(kind)(n, *mu, **kw)
            else:
                f = sess.filter_class(kind)(n=n, **kw)
            if f is not None:
                if type(f) is not sess.filter_class(kind):
                    raise Violation("%s gives a %s" % (what, type(f).__name__), data)
                res = f.run(d, x)
    except Violation:
        raise
    except (Hang, Exception) as ex:
        raise Violation("%s raises %s: %s" % (what, type(ex).__name__, ex), data)
    sc = scale_of(vec(ev["y"]), vec(ev["e"]), mat(ev["W"]), vec(ev["w"]), d.tolist(), x.tolist())
    every = [res]
    if ev["factory"] == "filter_data":
        # the same numbers in lists
        try:
            with limit(20):
                if ev["letter"] == "omitted":
                    every.append(pa.filters.filter_data(d.tolist(), x.tolist(), **kw))
                else:
                    every.append(pa.filters.filter_data(d.tolist(), x.tolist(), model=name, **kw))
        except (Hang, Exception) as ex:
            raise Violation("%s of lists raises %s: %s" % (what, type(ex).__name__, ex), data)
    for res in every:
        same(what + ": y", res[0], vec(ev["y"]), tol, data, sc)
        same(what + ": e", res[1], vec(ev["e"]), tol, data, sc)
        if ev["W"]:
            same(what + ": weight history", res[2], mat(ev["W"]), tol, data, sc)
    if f is not None:
        same(what + ": weights", f.w, vec(ev["w"]), tol, data, sc)
    r.count("kinds", kind)


@check("C13")
def c13(r):
    for i in range(1 if QUICK else 12):
        for t in behaviours("C13", 160 if QUICK else 300, 16, i, spec="registry.qnt", main="registry"):
            for s in t[1:]:
                registry_event(r, s["ev"], 1e-7)
                r.sample({k: s["ev"][k] for k in ("factory", "letter", "given", "err")})
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
    # the registry lists exactly the 15 documented names
    pa = padasip()
    got = sorted(str(k).upper() for k in pa.filters.FILTERS)
    if got != sorted(k.upper() for k in sess.KINDS):
        raise Violation("registered names are %s" % got)


# ---------------------------------------------------------------- C29, C30
def pair_behaviour(r, t, prop):
    ev0 = t[0]["ev"]
    pa_, pb_ = ev0["parA"], ev0["parB"]
    tol = 1e-7
    log = [{"rel": ev0["rel"], "A": pa_["kind"], "B": pb_["kind"], "kwA": sess.kwargs_of(pa_), "kwB": sess.kwargs_of(pb_),
            "wA": vec(ev0["wA0"]), "wB": vec(ev0["wB0"]), "perm": ev0["perm"], "flip": ev0["flip"], "neg": ev0["neg"]}]
    data = {"history": log}
    try:
        fa, fb = sess.build(pa_, np.array(vec(ev0["wA0"]))), sess.build(pb_, np.array(vec(ev0["wB0"])))
    except Exception as ex:
        raise Violation("constructing %s raises %s" % (pa_["kind"], ex), data)
    r.count("relations", "%s %s" % (ev0["rel"], pa_["kind"]))
    for s in t[1:]:
        ev = s["ev"]
        da, xa, db, xb = (np.array(v) for v in (vec(ev["dA"]), mat(ev["xA"]), vec(ev["dB"]), mat(ev["xB"])))
        log.append({"op": ev["op"], "dA": da, "xA": xa})
        try:
            with limit(20):
                if ev["op"] == "adapt":
                    ya, yb = [fa.predict(xa[0])], [fb.predict(xb[0])]
                    fa.adapt(da[0], xa[0])
                    fb.adapt(db[0], xb[0])
                    ea, eb = da - ya, db - yb
                else:
                    ya, ea, _ = fa.run(da, xa)
                    yb, eb, _ = fb.run(db, xb)
        except (Hang, Exception) as ex:
            raise Violation("%s in %s raises %s: %s" % (ev["op"], log[0]["rel"], type(ex).__name__, ex), data)
        g = ev["neg"]
        what = "%s (%s against %s)" % (ev["rel"], pa_["kind"], pb_["kind"])
        sc = scale_of(vec(ev["wA"]), vec(ev["wB"]), vec(ev["yA"]), da.tolist(), xa.tolist())
        wa = np.array(fa.w, dtype=float)
        want = [vec([ev["wB0"][j]])[0] if p < 0 else float(wa[p]) * fl_ * g
                for j, (p, fl_) in enumerate(zip(ev["perm"], ev["flip"]))]
        same(what + ": weights", fb.w, want, tol, data, sc)
        same(what + ": outputs", yb, [float(v) * g for v in ya], tol, data, sc)
        same(what + ": errors", eb, [float(v) * g for v in ea], tol, data, sc)
        if ev["rel"] == "ridge":
            same("RLS with mu = 1 against ridge regression", fa.w, vec(ev["wA"]), tol, data, sc)
        if ev["rel"] == "mu0":
            same(pa_["kind"] + " with mu = 0: weights", fa.w, vec(ev["wA0"]), 1e-12, data, 1.0)
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
    r.sample(log[:3])


def pairs_check(prop):
    def f(r):
        for i in range(1 if QUICK else 15):
            for t in behaviours(prop, 320, 7, i, spec="pairs.qnt", main=prop):
                pair_behaviour(r, t, prop)
    return f


check("C29")(pairs_check("C29"))
check("C30")(pairs_check("C30"))


# ---------------------------------------------------------------- design level theorems
def design(r, main, n, steps):
    """the theorems of spec/design.qnt on random behaviours of the specification"""
    t = behaviours(r.prop, n, steps, "design", spec="design.qnt", main=main)
    r.add(states=sum(len(b) for b in t), transitions=sum(len(b) - 1 for b in t), design_behaviours=len(t))
