"""C33: units of the data do not matter (spec/units.qnt)."""
import numpy as np
from common import *
from registry import check
from checks_data import invoke, within, arr
from checks_filters import behaviours
from checks_projection import finite
import sess


def filters(r, t):
    ev0 = t[0]["ev"]
    pa, pb = ev0["parA"], ev0["parB"]
    kind = ev0["kind"]
    gx, gd = 2.0 ** ev0["cx"], 2.0 ** ev0["cd"]
    log = [{"kind": kind, "kwA": sess.kwargs_of(pa), "kwB": sess.kwargs_of(pb), "wA": vec(ev0["wA0"]), "wB": vec(ev0["wB0"]),
            "inputs": gx, "targets": gd}]
    data = {"history": log}
    fa = invoke("constructing " + kind, data, sess.build, pa, np.array(vec(ev0["wA0"])))
    fb = invoke("constructing " + kind, data, sess.build, pb, np.array(vec(ev0["wB0"])))
    r.count("filters", kind)
    tol = sess.TOL.get(kind, 1e-7)
    top = sess.FLOOR.get(kind, 0.0)
    for s in t[1:]:
        ev = s["ev"]
        da, xa, db, xb = (np.array(v) for v in (vec(ev["dA"]), mat(ev["xA"]), vec(ev["dB"]), mat(ev["xB"])))
        log.append({"op": ev["op"], "dA": da, "xA": xa, "dB": db, "xB": xb})
        what = "%s of %s" % (ev["op"], kind)
        if ev["op"] == "adapt":
            out = []
            for f, d, x in ((fa, da, xa), (fb, db, xb)):
                y = [float(invoke(what, data, f.predict, x[0]))]
                invoke(what, data, f.adapt, d[0], x[0])
                out.append((y, d - y, [f.w]))
        else:
            out = [invoke(what, data, f.run, d, x) for f, d, x in ((fa, da, xa), (fb, db, xb))]
        (ya, ea, Wa), (yb, eb, Wb) = out
        top = max(top, sess.big(vec(ev["wA"])), float(np.max(np.abs(np.array(Wa, dtype=float)))))
        big = max(np.max(np.abs(da)), np.max(np.abs(np.array(ya, dtype=float))), top * np.max(np.abs(xa)))
        what = "%s with inputs times %g and targets times %g: " % (kind, gx, gd)
        # a power of two does not round: both filters round alike
        same(what + "weights", np.array(fb.w, dtype=float) * (gx / gd), np.array(fa.w, dtype=float), tol, data, top)
        same(what + "weights against the specification", np.array(fa.w, dtype=float), vec(ev["wA"]), tol, data, top)
        same(what + "outputs", np.array(yb, dtype=float) / gd, np.array(ya, dtype=float), tol, data, big)
        same(what + "errors", np.array(eb, dtype=float) / gd, np.array(ea, dtype=float), tol, data, big)
        same(what + "history", np.array(Wb, dtype=float) * (gx / gd), np.array(Wa, dtype=float), tol, data, top)
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
    r.sample(log[:2])


def labels_of(ev):
    return [("b", "a")[q] for q in ev["labels"]]


def both(ev, data):
    """the function of the library on the data in the first and in the second unit"""
    pa = padasip()
    fn = ev["fn"]
    res = []
    for z in ("", "B"):
        g = lambda k: np.array(vec(ev[k + z]))
        if fn in ("MSE", "MAE", "RMSE", "logSE"):
            f = getattr(pa.misc, fn)
            one, two = invoke(fn, data, f, g("u"), g("v")), invoke(fn, data, f, g("u") - g("v"))
            res.append(np.stack([np.asarray(one, dtype=float), np.asarray(two, dtype=float)]))
        elif fn == "get_mean_error":
            res.append(invoke(fn, data, pa.misc.get_mean_error, g("u"), g("v"), function=ev["method"]))
        elif fn == "standardize":
            kw = {"offset": fl(ev["offset" + z]), "scale": fl(ev["sc" + z])} if ev["given"] else {}
            res.append(invoke(fn, data, pa.standardize, g("u"), **kw))
        elif fn == "standardize_back":
            res.append(invoke(fn, data, pa.standardize_back, g("u"), fl(ev["offset" + z]), fl(ev["sc" + z])))
        elif fn == "input_from_history":
            res.append(invoke(fn, data, pa.input_from_history, g("u"), ev["n"]))
        elif fn.startswith("learning_entropy"):
            kw = {"alpha": vec(ev["alphas"])} if fn.endswith("alpha") else {}
            res.append(invoke(fn, data, pa.detection.learning_entropy, arr(ev["x" + z]), m=ev["m"], order=ev["order"], **kw))
        elif fn == "ELBND":
            res.append(invoke(fn, data, pa.detection.ELBND, arr(ev["x" + z]), g("u"), function=ev["method"]))
        elif fn == "PCA_components":
            res.append(invoke(fn, data, pa.preprocess.PCA_components, arr(ev["x" + z])))
        elif fn == "PCA":
            res.append(invoke(fn, data, pa.preprocess.PCA, arr(ev["x" + z]), n=ev["n"]))
        else:
            res.append(invoke(fn, data, pa.preprocess.LDA_discriminants, arr(ev["x" + z]), labels_of(ev)))
    return [np.asarray(q) for q in res]


def scatter(X, labels):
    S = np.zeros((X.shape[1],) * 2)
    for c in set(labels):
        Q = X[[i for i, l in enumerate(labels) if l == c]]
        Q = Q - Q.mean(0)
        S += Q.T @ Q
    return S


def datafn(r, ev):
    fn = ev["fn"]
    data = {k: v for k, v in (("fn", fn), ("method", ev["method"]), ("u", vec(ev["u"])), ("uB", vec(ev["uB"])), ("v", vec(ev["v"])),
                              ("vB", vec(ev["vB"])), ("x", mat(ev["x"])), ("xB", mat(ev["xB"])), ("n", ev["n"]), ("m", ev["m"]),
                              ("order", ev["order"]), ("alphas", vec(ev["alphas"])), ("labels", ev["labels"]))}
    if ev["upto"]:
        lam = np.sort(np.linalg.eigvalsh(np.cov(arr(ev["x"]).T)))[::-1]
        if np.min(-np.diff(lam)) < 1e-2 * lam[0]:
            r.count("skipped", fn)
            return
    A, B = both(ev, data)
    what = "%s with data times %g" % (fn, ev["sign"] * 2.0 ** ev["k"])
    if fn == "logSE":       # an error of exactly zero has no logarithm, in no unit
        zero = np.array(vec(ev["u"])) == np.array(vec(ev["v"]))
        if not all(np.array_equal(np.isneginf(q), np.stack([zero, zero])) for q in (A, B)):
            raise Violation(what + ": infinities are not where the errors are zero", data)
        A, B = (np.where(np.isneginf(q), s, q) for q, s in ((A, 0.0), (B, fl(ev["addend"]))))
    A, B = finite(what, A, A.shape, data), finite(what, B, A.shape, data)
    F, C = fl(ev["factor"]), fl(ev["addend"])
    want = A * F + C
    top = max(float(np.max(np.abs(want))), abs(C)) + 1e-300
    tol = 1e-9 * top
    if fn == "standardize" and ev["given"]:
        tol = 1e-9 * (1 + top)
    elif fn == "logSE":
        tol = 1e-7
    elif fn == "learning_entropy":
        sp = arr(ev["spread"])
        g = 2.0 ** ev["k"]
        with np.errstate(all="ignore"):
            # 1e-10 is added to every spread; a window without spread says nothing
            tol = np.where(sp == 0, np.inf, 1e-9 * (1 + np.abs(A)) + 2.1e-10 * np.abs(A) * (1 / sp + 1 / (sp * g)))
        tol[:ev["m"]] = 0
    elif fn == "learning_entropy alpha":
        tol = 1e-9
    elif fn == "LDA_discriminants":
        cond = np.linalg.cond(scatter(arr(ev["x"]), ev["labels"]))
        if cond > 1e5:
            r.count("skipped", fn)
            return
        tol = 1e-6 * top
    elif fn == "PCA":
        tol = 1e-7 * top
        want = np.where(np.sum(want * B, 0) < 0, -want, want)
    elif fn == "PCA_components":
        tol = 1e-7 * top
    within(what, B, want, tol, data)
    r.count("functions", fn)


@check("C33")
def c33(r):
    for i in range(1 if QUICK else 10):
        for t in behaviours("C33", 320 if QUICK else 1200, 6, i, spec="units.qnt", main="units"):
            filters(r, t)
        for t in behaviours("C33d", 200 if QUICK else 1200, 8, i, spec="units.qnt", main="dataunits", init="begin", step="call"):
            for s in t[1:]:
                datafn(r, s["ev"])
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
        if r.left(600) < 0:
            break
    r.add(config="spec/units.qnt units and dataunits")
