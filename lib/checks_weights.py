"""C14 (initial weights) and C15 (stability)."""
import numpy as np
from common import *
from registry import check
from checks_filters import behaviours, sessions, par, good_par, logged
from checks_data import invoke, refused
import relog
import sess


def given(how, w):
    return {"zeros": lambda: "zeros", "array": lambda: w.copy(), "list": lambda: w.tolist(), "tuple": lambda: tuple(w.tolist()),
            "ints": lambda: [int(a) for a in w], "intarray": lambda: w.astype("int64"), "f32": lambda: w.astype("float32"),
            "i8": lambda: w.astype("int8"), "strided": lambda: sess._strided(w), "readonly": lambda: sess._readonly(w),
            "bigendian": lambda: w.astype(">f8"), "bigf32": lambda: w.astype(">f4"), "f16": lambda: w.astype("float16"),
            "longdouble": lambda: w.astype("longdouble"), "npscalars": lambda: sess._scalars(w), "bigi32": lambda: w.astype(">i4"), "reversed": lambda: sess._reversed(w)}[how]()


def refusal(how, n):
    return {"ones": "ones", "Zeros": "Zeros", "ZEROS": "ZEROS", "RANDOM": "RANDOM", "": "", "short": np.ones(n - 1),
            "long": np.ones(n + 1), "empty": [], "matrix": np.ones((n, n)), "text": ["abc"] * n, "none": None, "number": 1.0,
            "ragged": [[1.0]] + [[1.0, 2.0]] * (n - 1), "column": np.ones((n, 1))}[how]


class WeightPlayer:
    def __init__(self, r, memo):
        self.r, self.memo, self.log = r, memo, []

    def step(self, s, before):
        ev = s["ev"]
        self.log.append({k: ev[k] for k in ("op", "kind", "n", "how", "seed")})
        data = {"history": self.log[-20:]}
        self.r.count("actions", ev["op"] + " " + ev["how"])
        if ev["op"] == "seed":
            np.random.seed(77000 + ev["seed"])
            return
        if ev["op"] == "draw":
            np.random.normal(0, 1, ev["n"])
            return
        cls = sess.filter_class(ev["kind"])
        n = ev["n"]
        if ev["op"] == "refuse":
            refused("Filter%s(%d, w=%r)" % (ev["kind"], n, ev["how"]), data, lambda: cls(n, w=refusal(ev["how"], n)))
            return
        what = "weights of Filter%s(%d, w=%s)" % (ev["kind"], n, ev["how"])
        state = np.random.get_state()
        if ev["exact"]:
            w = np.array(vec(ev["w"]))
            f = invoke(what, data, cls, n, w=given(ev["how"], w))
            if ev["how"] in ("zeros", "array", "list"):
                after = np.random.get_state()
                if not all(np.array_equal(a, b) for a, b in zip(state, after)):
                    raise Violation("%s: numpy's random state changed although nothing is random" % what, data)
            got = self.take(what, f, n, data)
            if not np.array_equal(got, w):
                raise Violation("%s are %s instead of %s" % (what, got.tolist(), w.tolist()), data)
            return
        if ev["how"] == "random":
            f = invoke(what, data, cls, n, w="random")
        elif ev["how"] == "default":
            f = invoke(what, data, cls, n)
        elif ev["how"] == "factory":
            f = invoke(what, data, padasip().filters.AdaptiveFilter, model=ev["kind"], n=n)
        elif ev["how"] == "again":      # drawn anew by a filter that has learned
            f = invoke(what, data, cls, n, w="zeros")
            invoke("adapt of " + ev["kind"], data, f.adapt, .5, np.full(n, .25))
            f.w = invoke("init_weights of " + ev["kind"], data, f.init_weights, "random")
        else:
            f = invoke(what, data, cls, n, 0.05)
        got = self.take(what, f, n, data)
        key = (before["rng"]["seed"], tuple(before["rng"]["drawn"]), n)
        if key[0] >= 1000:
            return          # behind a refused construction the position is unspecified until the next seed
        known = self.memo.get(key)
        if (known is not None) and not np.array_equal(known, got):
            raise Violation("%s are %s; the same state of numpy's generator gave %s before" % (
                what, got.tolist(), known.tolist()), data)
        if ev["twin"] and known is None:
            raise MachineryError("twin unknown")
        for k, v in self.memo.items():
            if (k[0], sum(k[1])) != (key[0], sum(key[1])) and len(v) == n and np.array_equal(v, got):
                raise Violation("%s repeat those drawn at another position of the generator (%s)" % (what, k), data)
        self.r.count("draws", "repeated" if known is not None else "new")
        self.memo[key] = got

    def take(self, what, f, n, data):
        w = f.w
        if not isinstance(w, np.ndarray) or w.dtype != np.float64 or w.shape != (n,):
            raise Violation("%s are %r, not %d double precision numbers" % (what, w, n), data)
        if not np.all(np.isfinite(w)):
            raise Violation("%s are not finite" % what, data)
        return w.copy()


@check("C14")
def c14(r):
    for i in range(1 if QUICK else 15):
        memo = {}
        for t in behaviours("C14", 240 if QUICK else 400, 14, i, spec="weights.qnt", main="weights"):
            p = WeightPlayer(r, memo)
            for b, s in zip([None] + t, t):
                p.step(s, b)
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
            r.sample(p.log[:5])
    # initial weights in the middle of a life
    sessions(r, "C14", 160, 300, steps=14)
    # pooled draws: one sample per kind of filter
    recs, labels = [], []
    for j, kind in enumerate(sess.KINDS):
        np.random.seed(mix("pool", kind) % 2 ** 32)
        v = []
        size = (400, 7, 40, 1)[j % 4]
        while len(v) < 400:
            v += [float(a) for a in sess.filter_class(kind)(size).w]
        recs.append({"v": [real(a) for a in v[:400]]})
        labels.append((kind, size))
    # and all of them together
    recs.append({"v": [a for q in recs for a in q["v"][:80]]})
    labels.append(("all", 0))
    for v, (kind, size), rec in zip(relog.judge("weights", "drawlog", recs, batch=2), labels, recs):
        if v:
            raise Violation("random initial weights of %s (n=%d, %d draws) are not a sample of N(0, 0.5^2): %s" % (
                kind, size, len(rec["v"]), v), {"w": vec(rec["v"])})
        if v == "":
            r.add(relation_instances=1)
    r.add(config="spec/weights.qnt")


# ---------------------------------------------------------------- C15
def stability_behaviour(r, t):
    ev0 = t[0]["ev"]
    p = ev0["par"]
    kind = p["kind"]
    ws = np.array(vec(ev0["target"]))
    w0 = np.array(vec(ev0["w0"]))
    fixed = bool(np.array_equal(ws, w0))
    log = [{"kind": kind, "kwargs": sess.kwargs_of(p), "n": p["n"], "w": w0, "target": ws}]
    data = {"history": log}
    f = invoke("constructing " + kind, data, sess.build, p, w0.copy())
    noise = 1e-9
    for k, s in enumerate(t[1:]):
        ev = s["ev"]
        x, d = np.array(vec(ev["x"])), fl(ev["d"])
        log.append({"d": d, "x": x})
        before = np.array(f.w, dtype="float64")
        y0 = float(invoke("predict of " + kind, data, f.predict, x))
        if k % 2:
            invoke("adapt of " + kind, data, f.adapt, d, x)
        else:
            invoke("run of " + kind, data, f.run, [d], [x])
        after = np.array(f.w, dtype="float64")
        y1 = float(invoke("predict of " + kind, data, f.predict, x))
        if after.shape != before.shape or not np.all(np.isfinite(after)):
            raise Violation("%s: weights are %r after step %d" % (kind, after, k), data)
        sc = 1 + float(np.max(np.abs(np.concatenate([ws, before]))))
        r.count("kinds", kind + (" at w*" if fixed else " approaching"))
        if fixed and kind != "OCNLMS" and np.max(np.abs(after - ws)) > noise * sc:
            raise Violation("%s with the right weights moved by %g on a noise-free sample" % (
                kind, np.max(np.abs(after - ws))), data)
        if kind in ("NLMS", "AP") and 0 <= fl(p["mu"]) <= 2:
            b, a = float(np.linalg.norm(before - ws)), float(np.linalg.norm(after - ws))
            if a > b + noise * sc:
                raise Violation("%s (mu=%g) moved away from w*: distance %r -> %r" % (kind, fl(p["mu"]), b, a), data)
            if kind == "NLMS" and abs(d - y1) > abs(d - y0) + noise * (1 + abs(d)):
                raise Violation("NLMS (mu=%g): error on the same sample grew from %r to %r" % (
                    fl(p["mu"]), d - y0, d - y1), data)
        if not np.any(x) and kind not in ("AP", "OCNLMS") and not np.array_equal(after, before):
            raise Violation("%s: a zero input changed the weights by %g" % (kind, np.max(np.abs(after - before))), data)
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
    r.sample(log[:4])


def zero_input(r):
    """after any history a zero input leaves the weights of these filters alone, whatever the target"""
    rng = np.random.default_rng(mix("zero") % 2 ** 32)
    for kind in sess.KINDS:
        if kind in ("AP", "OCNLMS"):
            continue
        for _ in range(6 if QUICK else 60):
            n = int(rng.integers(1, 7))
            f = sess.filter_class(kind)(n, w=rng.normal(size=n))
            x = rng.normal(size=(8, n)) * .5
            d = rng.normal(size=8) * .5
            data = {"kind": kind, "d": d, "x": x}
            invoke("run of " + kind, data, f.run, d, x)
            w = np.array(f.w)
            target = float(rng.normal() * 10)
            invoke("adapt of " + kind, data, f.adapt, target, np.zeros(n))
            invoke("run of " + kind, data, f.run, [target, 0.0], np.zeros((2, n)))
            if not np.array_equal(np.array(f.w), w):
                raise Violation("%s: a zero input with target %g changed the weights by %s" % (
                    kind, target, np.array(f.w) - w), data)
            r.add(transitions=3)


@check("C15")
def c15(r):
    for i in range(1 if QUICK else 15):
        for t in behaviours("C15", 320 if QUICK else 400, 14, i, spec="stability.qnt", main="stability"):
            stability_behaviour(r, t)
        if r.left(500) < 0:
            break
    zero_input(r)
    recs, datas = [], []
    noise_free_logs(r, recs, datas)
    fixed_logs(r, recs, datas)
    for v, data in zip(relog.judge("stability", "stablelog", recs, batch=4), datas):
        if v:
            raise Violation("%s on noise-free data: %s" % (data["label"], v), data)
        if v == "":
            r.add(relation_instances=1, events_validated=len(data["x"]))
    r.add(config="spec/stability.qnt")


def fixed_logs(r, recs, datas):
    """long runs at the right weights; dyadic data, so that every error is exactly zero"""
    rng = np.random.default_rng(mix("fixed") % 2 ** 32)
    for kind in sess.KINDS:
        if kind == "OCNLMS":
            continue
        for j in range(2 if QUICK else 12):
            n = int(rng.integers(1, 6))
            p = good_par(kind, n, rng)
            N = (1500, 300)[j % 2]
            ws = rng.integers(-32, 33, n) / 16.
            x = rng.integers(-16, 17, (N, n)) / 8. * (rng.uniform(size=(N, n)) < .9)
            d = x @ ws
            label, _, _, _, y, e, W = logged(r, p, d, x, ("run", "adapt", "pieces", "pieces")[(j + (j % 2 and len(recs) % 2 * 2)) % 4], rng, w0=ws)
            # weights equal to those before them are logged once
            kept = [W[0]] + [b for a, b in zip(W, W[1:]) if not np.array_equal(a, b)]
            recs.append({"kind": kind, "target": [real(a) for a in ws], "x": [], "d": [],
                         "W": [[real(a) for a in q] for q in kept]})
            datas.append({"label": label, "kwargs": sess.kwargs_of(p), "x": x, "d": d, "W": W, "target": ws})


def noise_free_logs(r, recs, datas):
    """real numbers: logged runs judged by the relation of the specification"""
    rng = np.random.default_rng(mix("stable") % 2 ** 32)
    for j in range(24 if QUICK else 200):
        kind = ("NLMS", "AP")[j % 2]
        n = int(rng.integers(1, 9))
        p = par(kind, n, mu=float(rng.choice([0, .01, .5, 1, 1.5, 1.99, 2])), eps=float(rng.choice([1e-8, 1e-3, .1, 5])),
                ifc=float(rng.choice([1e-2, .1, 2])), order=int(rng.integers(1, 6)))
        ws = rng.normal(size=n) * 3
        x = rng.normal(size=(40, n)) * float(rng.choice([1e-3, 1, 30])) * (rng.uniform(size=(40, n)) < .8)
        d = x @ ws
        label, _, _, _, y, e, W = logged(r, p, d, x, ("run", "adapt", "pieces")[j % 3], rng)
        recs.append({"kind": kind, "target": [real(a) for a in ws], "x": [[real(a) for a in q] for q in x],
                     "d": [real(a) for a in d], "W": [[real(a) for a in q] for q in W]})
        datas.append({"label": label, "kwargs": sess.kwargs_of(p), "x": x, "d": d, "W": W, "target": ws})
