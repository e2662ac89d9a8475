"""C34: no position is special (spec/symmetry.qnt)."""
import numpy as np
import scipy.stats as st
from common import *
from registry import check
from checks_data import invoke, within, arr, Fit
from checks_filters import behaviours
from checks_projection import finite
from checks_mlp import network, initial, weights
from checks_units import scatter

NAMES = ("b", "a", "10", "9")


def call(ev, z, data):
    """the function on the data (z = "") or on their image (z = "B")"""
    pa = padasip()
    fn = ev["fn"]
    v = lambda k: np.array(vec(ev[k + z]))
    x = arr(ev["x" + z])
    labels = [NAMES[q] for q in ev["labels" + z]]
    if fn in ("MSE", "MAE", "RMSE", "logSE"):
        return invoke(fn, data, getattr(pa.misc, fn), v("u"), v("v"))
    if fn == "get_mean_error":
        return invoke(fn, data, pa.misc.get_mean_error, v("u"), v("v"), function=ev["method"])
    if fn == "standardize":
        return invoke(fn, data, pa.standardize, v("u"))
    if fn == "input_from_history":
        return invoke(fn, data, pa.input_from_history, v("u"), ev["n"], bias=ev["bias"])
    if fn.startswith("learning_entropy"):
        kw = {"alpha": vec(ev["alphas"])} if fn.endswith("alpha") else {}
        return invoke(fn, data, pa.detection.learning_entropy, x, m=ev["m"], order=ev["order"], **kw)
    if fn == "ELBND":
        return invoke(fn, data, pa.detection.ELBND, x, v("u"), function=ev["method"])
    if fn == "ESE":
        # fits take long: mostly a fitter that always answers the same for the same sample stands in
        orig = st.genpareto.fit
        if ev["m"] != 7:
            st.genpareto.fit = Fit(orig)
        try:
            return invoke(fn, data, pa.detection.ESE, x, window=ev["m"], pot_method=ev["method"])
        finally:
            if ev["m"] != 7:
                del st.genpareto.fit
    if fn == "PCA":
        return invoke(fn, data, pa.preprocess.PCA, x, n=ev["n"])
    if fn == "PCA_components":
        return invoke(fn, data, pa.preprocess.PCA_components, x)
    if fn == "LDA":
        return invoke(fn, data, pa.preprocess.LDA, x, labels, n=ev["n"])
    return invoke(fn, data, pa.preprocess.LDA_discriminants, x, labels)


def apart(values):
    """how far apart the values are, relative to the largest"""
    v = np.sort(np.real(values))[::-1]
    return float(np.min(-np.diff(v))) / max(abs(v[0]), 1e-300) if len(v) > 1 else 1.0


def directions(X, labels=None):
    """eigenvalues that decide the columns of the projection, how many of them say something"""
    if labels is None:
        return np.linalg.eigvalsh(np.cov(X.T)), X.shape[1]
    Sw = scatter(X, labels)
    Q = X - X.mean(0)
    lam = np.sort(np.linalg.eigvals(np.linalg.solve(Sw, Q.T @ Q - Sw)).real)[::-1]
    k = min(len(set(labels)) - 1, X.shape[1])
    return np.append(lam[:k], 0.0) if k < X.shape[1] else lam[:k], k


def up_to_sign(A, B):
    return np.where(np.sum(A * B, 0) < 0, -A, A)


def datafn(r, ev):
    fn = ev["fn"]
    data = {"fn": fn, "how": ev["how"], "method": ev["method"], "u": vec(ev["u"]), "uB": vec(ev["uB"]), "v": vec(ev["v"]),
            "vB": vec(ev["vB"]), "x": mat(ev["x"]), "xB": mat(ev["xB"]), "n": ev["n"], "m": ev["m"], "order": ev["order"],
            "alphas": vec(ev["alphas"]), "labels": ev["labels"], "labelsB": ev["labelsB"], "bias": ev["bias"]}
    rows, cols = ev["rows"], ev["cols"]
    X = arr(ev["x"])
    tables = fn.startswith(("PCA", "LDA"))
    keep = None
    if tables:
        labels = ev["labels"] if fn.startswith("LDA") else None
        if labels and np.linalg.cond(scatter(X, labels)) > 1e4:
            r.count("skipped", fn)
            return
        lam, keep = directions(X, labels)
        if fn in ("PCA", "LDA") and apart(lam) < 1e-2:
            r.count("skipped", fn)
            return
    A, B = call(ev, "", data), call(ev, "B", data)
    what = "%s of data with other %s" % (fn, ev["how"])
    if fn == "logSE":
        A, B = np.asarray(A, dtype=float)[rows], np.asarray(B, dtype=float)
        zero = (np.array(vec(ev["u"])) == np.array(vec(ev["v"])))[rows]
        for q in (A, B):
            if not np.array_equal(np.isneginf(q), zero):
                raise Violation(what + ": infinities are not where the errors are zero", data)
        within(what, B[~zero], A[~zero], 1e-9, data)
    elif fn in ("MSE", "MAE", "RMSE", "get_mean_error"):
        within(what, B, A, 1e-12 * abs(float(A)) + 1e-300, data)
    elif fn == "standardize":
        if np.ptp(vec(ev["u"])) < 1e-3:
            return
        A = np.asarray(A, dtype=float)[rows] * (-1 if ev["how"] == "sign" else 1)
        within(what, B, A, 1e-9 * (1 + np.max(np.abs(A))), data)
    elif fn == "input_from_history":
        A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        N, n, b = len(ev["u"]), ev["n"], int(ev["bias"])
        for q, size in ((A, N), (B, N + (ev["m"] if ev["how"] != "reverse" else 0))):
            if q.shape != (size - n + 1, n + b):
                raise Violation("%s: shape %s" % (what, q.shape), data)
        if ev["how"] == "reverse":
            B = B[::-1].copy()
            B[:, :n] = B[:, :n][:, ::-1].copy()
        else:
            B = B[ev["m"]:] if ev["how"] == "delay" else B[:len(A)]
        within(what, B, A, 0, data)
    elif fn == "learning_entropy":
        m, k = ev["m"], ev["from"]
        A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        if A.shape != X.shape or B.shape != X.shape:
            raise Violation("%s: shapes %s and %s" % (what, A.shape, B.shape), data)
        dw = np.vstack([X[:ev["order"]], np.abs(np.diff(X, ev["order"], axis=0))])
        sp = np.array([dw[max(0, i - m):i + 1][:m].std(0) if i >= m else np.ones(X.shape[1]) for i in range(len(X))])
        tol = np.where(sp < 1e-6, np.inf, 1e-9 * (1 + np.abs(A)) * (1 + 1 / np.maximum(sp, 1e-300)))[:, cols]
        within(what, B[k:], A[:, cols][k:], tol[k:], data)
    elif fn in ("learning_entropy alpha", "ELBND", "ESE"):
        k = ev["from"]
        A, B = (finite(what, q, (len(X),), data) for q in (A, B))
        within(what, B[k:], A[k:], 1e-9 * (1 + np.max(np.abs(A))), data)
    elif fn in ("PCA_components", "LDA_discriminants"):
        A, B = (finite(what, q, (X.shape[1],), data) for q in (A, B))
        A, B = np.sort(A), np.sort(B)
        within(what, B, A, (1e-9 if fn[0] == "P" else 1e-7) * (1 + np.max(np.abs(A))), data)
    else:
        A, B = (finite(what, q, (len(X), ev["n"]), data) for q in (A, B))
        A, B = A[rows][:, :keep], B[:, :keep]
        A, B = A - A.mean(0), B - B.mean(0)
        within(what, B, up_to_sign(A, B), 1e-6 * (1 + np.max(np.abs(A))), data)
    r.count("functions", fn)
    r.count("images", ev["how"])


def networks(r, t):
    ev0 = t[0]["ev"]
    log = [{k: ev0[k] for k in ("sizes", "nin", "nout", "f", "auto", "perms", "flips", "operm")}]
    log[0].update(mu=fl(ev0["mu"]), hidden=[mat(W) for W in ev0["hidden"]], out=mat(ev0["out"]))
    data = {"history": log}
    nets = []
    for z in ("", "B"):
        net = network(ev0, data)
        initial(net, {**ev0, "hidden": ev0["hidden" + z], "out": ev0["out" + z]}, data)
        nets.append(net)
    one = ev0["nout"] == 1
    perms, flips, q = ev0["perms"], [np.array(f, dtype=float) for f in ev0["flips"]], ev0["operm"]

    def image(W, l):
        """the columns of a weight matrix in the other order"""
        return np.hstack([W[:, :1], W[:, 1:][:, perms[l]] * flips[l]])

    for s in t[1:]:
        ev = s["ev"]
        log.append({"op": ev["op"], "X": mat(ev["X"]), "D": mat(ev["D"]), "epochs": ev["epochs"]})
        got = []
        for net, z in zip(nets, ("", "B")):
            X, D = arr(ev["X" + z]), arr(ev["D" + z])
            if ev["op"] == "run":
                Y = np.asarray(invoke("run", data, net.run, X), dtype=float).reshape(len(X), -1)
                e, mse = invoke("test", data, net.test, X, D[:, 0] if one else D), np.zeros(1)
                e = np.asarray(e, dtype=float).reshape(len(X), -1)
                got.append((Y, e, mse))
            else:
                e, mse = invoke("train", data, net.train, X, D[:, 0] if one else D, epochs=ev["epochs"])
                e = np.asarray(e, dtype=float).reshape(len(X) * ev["epochs"], -1)
                got.append((np.zeros((1, len(q))), e, np.asarray(mse, dtype=float)))
        (ya, ea, ma), (yb, eb, mb) = got
        what = "%s of the %s network with nodes in another order: " % (ev["op"], ev["f"])
        top = 1 + max(float(np.max(np.abs(v), initial=0)) for v in (ya, ea))
        same(what + "outputs", yb, ya[:, q], 1e-8, data, top)
        same(what + "errors", eb, ea[:, q], 1e-8, data, top)
        same(what + "mean squared errors", mb, ma, 1e-8, data, top * top)
        wa, wb = (weights(n) for n in nets)
        big = 1 + max(float(np.max(np.abs(w))) for w in wa)
        L = len(perms) - 1
        for l in range(L):
            W = image(wa[l], l)[perms[l + 1]] * flips[l + 1][:, None]
            same(what + "weights of hidden layer %d" % l, wb[l], W, 1e-8, data, big)
        out = image(wa[L].reshape(len(q), -1), L)[q]
        same(what + "weights of the output layer", wb[L].reshape(len(q), -1), out, 1e-8, data, big)
    r.count("networks", ev0["f"])
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)


@check("C34")
def c34(r):
    for i in range(1 if QUICK else 12):
        for t in behaviours("C34", 400 if QUICK else 1600, 9, i, spec="symmetry.qnt", main="datasym", init="begin", step="call"):
            for s in t[1:]:
                datafn(r, s["ev"])
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
        for t in behaviours("C34n", 160 if QUICK else 700, 5, i, spec="symmetry.qnt", main="netsym", invariant="symmetric"):
            networks(r, t)
        if r.left(600) < 0:
            break
    r.add(config="spec/symmetry.qnt datasym and netsym")
