"""C32: online results do not depend on what comes later (spec/causal.qnt)."""
import warnings
import numpy as np
from common import *
from registry import check
from longlives import long_pasts
from checks_data import invoke, within, arr
from checks_filters import behaviours
import checks_mlp
import sess

FILTERS = ("run", "filter_data", "pretrained_run")


def rows(m, width):
    return arr(m).reshape(len(m), width)


def filter_call(ev, data, d, x):
    pa = padasip()
    par = ev["par"]
    w0 = np.array(vec(ev["w0"]))
    if ev["fn"] == "filter_data":
        kw = sess.kwargs_of(par)
        return invoke("filter_data", data, pa.filters.filter_data, d, x, par["kind"], w=w0, **kw)
    f = invoke("constructing " + par["kind"], data, sess.build, par, w0)
    if ev["fn"] == "run":
        return invoke("run", data, f.run, d, x)
    return invoke("pretrained_run", data, f.pretrained_run, d, x, ntrain=ev["eighth"] / 8, epochs=ev["epochs"])


def prefix(what, one, two, k, data, top):
    """first k rows of two results"""
    a, b = np.asarray(one, dtype="float64")[:k], np.asarray(two, dtype="float64")[:k]
    if a.shape != b.shape:
        raise Violation("%s has %s rows before the cut instead of %s" % (what, b.shape, a.shape), data)
    bad = ~((np.abs(a - b) <= 1e-9 * top) | (a == b) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation("%s%s is %r with one future and %r with another" % (what, list(i), float(a[i]), float(b[i])), data)


def case(r, ev):
    fn, cut = ev["fn"], ev["cut"]
    pa = padasip()
    data = {k: ev[k] for k in ("fn", "how", "cut", "m", "order", "method", "n", "bias", "sizes", "epochs", "eighth")}
    for k in ("x", "xB", "d", "dB"):
        data[k] = mat(ev[k])
    r.count("calls", fn + " " + ev["how"])
    if fn in FILTERS:
        data["kind"], data["kw"], data["w0"] = ev["par"]["kind"], sess.kwargs_of(ev["par"]), vec(ev["w0"])
        n = ev["par"]["n"]
        x, xB = rows(ev["x"], n), rows(ev["xB"], n)
        d, dB = rows(ev["d"], 1)[:, 0], rows(ev["dB"], 1)[:, 0]
        y, e, W = filter_call(ev, data, d.copy(), x.copy())
        yB, eB, WB = filter_call(ev, data, dB.copy(), xB.copy())
        k = cut - ev["nt"]
        what = "%s of %s" % (fn, ev["par"]["kind"])
        top = max(1.0, sess.big(vec(ev["w0"]), mat(ev["W"])), sess.big(vec(ev["y"]), data["d"][:cut]))
        more = k + 1 if ev["how"] != "end" else k
        prefix(what + ": outputs", y, yB, more, data, top)
        prefix(what + ": errors", e, eB, k, data, top)
        prefix(what + ": weights", W, WB, more, data, top)
        if ev["how"] == "end" and (len(yB), len(eB), len(WB)) != (k, k, k):
            raise Violation(what + ": wrong number of results", data)
        tol = sess.TOL.get(ev["par"]["kind"], 1e-7)
        for name, got, want in (("outputs", y, vec(ev["y"])), ("errors", e, vec(ev["e"])), ("weights", W, mat(ev["W"]))):
            if want:
                same(what + ": " + name, got, want, tol, data, top * max(1.0, sess.big(data["x"])))
        return
    if fn.startswith("learning_entropy") or fn in ("ELBND", "ESE"):
        w, wB = rows(ev["x"], ev["n"]), rows(ev["xB"], ev["n"])
        e, eB = rows(ev["d"], 1)[:, 0], rows(ev["dB"], 1)[:, 0]
        k = cut
        if fn == "ELBND":
            f = lambda w, e: invoke(fn, data, pa.detection.ELBND, w, e, function=ev["method"])
            k = cut - 1       # the increment of a row is known with the next row
        elif fn == "ESE":
            f = lambda w, e: invoke(fn, data, pa.detection.ESE, w, window=ev["m"], pot_method=ev["method"])
        else:
            kw = {"alpha": vec(ev["alphas"])} if fn.endswith("alpha") else {}
            data["alpha"] = kw
            f = lambda w, e: invoke(fn, data, pa.detection.learning_entropy, w, m=ev["m"], order=ev["order"], **kw)
        a, b = f(w.copy(), e.copy()), f(wB.copy(), eB.copy())
        if len(b) != len(wB):
            raise Violation("%s returns %d rows for %d" % (fn, len(b), len(wB)), data)
        top = 1.0 if fn in ("learning_entropy alpha", "ESE") else max(1.0, float(np.max(np.abs(np.asarray(a, dtype=float)[:k]), initial=0)))
        prefix(fn, a, b, k, data, top)
        return
    if fn == "input_from_history":
        a, b = (invoke(fn, data, pa.input_from_history, rows(ev[q], 1)[:, 0], ev["n"], bias=ev["bias"]) for q in ("x", "xB"))
        prefix(fn, a, b, cut - ev["n"] + 1, data, 0.0)
        return
    # networks
    got = []
    net0 = ev["net"]
    for x, d in ((ev["x"], ev["d"]), (ev["xB"], ev["dB"])):
        e2 = {"sizes": ev["sizes"], "nin": net0["nin"], "nout": ev["n"], "f": net0["f"], "auto": False, "mu": net0["muOut"],
              "hidden": net0["hidden"], "out": net0["out"]}
        net = checks_mlp.network(e2, data)
        checks_mlp.initial(net, e2, data)
        X, D = rows(x, net0["nin"]), rows(d, ev["n"])
        D = D[:, 0] if ev["n"] == 1 else D
        got.append(invoke("run", data, net.run, X) if fn == "MLP run" else invoke("train", data, net.train, X, D, epochs=1)[0])
    prefix(fn, got[0], got[1], cut, data, 1.0)
    want = arr(ev["W"])
    same(fn, got[0], (want[:, 0] if ev["n"] == 1 else want).tolist(), 1e-8, data)


@check("C32")
def c32(r):
    long_pasts(r)
    for i in range(1 if QUICK else 10):
        for t in behaviours("C32", 240 if QUICK else 1200, 10, i, spec="causal.qnt", main="causal", init="begin"):
            for s in t[1:]:
                case(r, s["ev"])
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
            r.sample({k: t[-1]["ev"][k] for k in ("fn", "how", "cut")})
        if r.left(600) < 0:
            break
    r.add(config="spec/causal.qnt")
