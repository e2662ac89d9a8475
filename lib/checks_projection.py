"""C23, C24: PCA and LDA, logged and judged by spec/projection.qnt."""
import numpy as np
from common import *
from registry import check
from checks_filters import behaviours
from checks_data import invoke, arr
from sess import rep
import relog

NAMINGS = [
    lambda c: c, lambda c: "class %d" % c, lambda c: ("z", "y", "a", "b")[c], lambda c: 1.5 * c - 1, lambda c: -7 * c,
    lambda c: ("setosa", "versicolor", "virginica", "b")[c], lambda c: ("", "a", "aa", "aaa")[c], lambda c: 10 ** (9 - c),
    lambda c: "one long name of a class, then its number: %d" % c, lambda c: ("a", "A", " a", "b")[c], lambda c: 2 ** 40 + c,
    lambda c: 1 + c * 2.0 ** -40]
CONTAINERS = [list, tuple, np.array]


def ints(a):
    return [[real(v) for v in r] for r in np.asarray(a, dtype="float64")]


def finite(what, a, shape, data):
    """the result as real double array of that shape"""
    b = np.asarray(a)
    if b.dtype.kind not in "fiu":
        raise Violation("%s has type %s instead of real numbers" % (what, b.dtype), data)
    b = b.astype("float64")
    if b.shape != shape:
        raise Violation("%s has shape %s, the specification requires %s" % (what, b.shape, shape), data)
    if not np.all(np.isfinite(b)):
        raise Violation("%s is not finite" % what, data)
    return b


def too_many(what, data, f):
    try:
        with limit(30):
            got = f()
    except Hang:
        raise Violation("%s does not return" % what, data)
    except Exception:
        return
    raise Violation("%s is accepted" % what, data)


def pca_case(r, ev):
    pa = padasip().preprocess
    U = 2.0 ** ev["unit"]
    X = arr(ev["X"]) * U
    N, p = X.shape
    n = ev["n"]
    xr, fx = rep(ev["form"], X)
    data = {"x": X, "n": None if ev["dflt"] else n, "form": fx, "unit": U}
    Y = invoke("PCA", data, pa.PCA, xr) if ev["dflt"] else (
        invoke("PCA", data, pa.PCA, xr, n=n) if n % 2 else invoke("PCA", data, pa.PCA, xr, n))
    lam = invoke("PCA_components", data, pa.PCA_components, xr)
    Y = finite("PCA", Y, (N, n), data) / U
    lam = finite("PCA_components", lam, (p,), data) / U / U
    too_many("PCA with n = number of columns", data, lambda: pa.PCA(xr, n=p))
    too_many("PCA with n above the number of columns", data, lambda: pa.PCA(xr, n=p + 2))
    r.count("forms", fx)
    return dict(kind="PCA", X=ev["X"], labels=[], n=n, Y=ints(Y), lam=[real(v) for v in lam], Z=[], perm=[]), data


def lda_case(r, ev):
    pa = padasip().preprocess
    U = 2.0 ** ev["unit"]
    X = arr(ev["X"]) * U
    N, p = X.shape
    n = ev["n"]
    xr, fx = rep(ev["form"], X)
    k = ev["naming"]
    labels = CONTAINERS[k % 3]([NAMINGS[k](c) for c in ev["labels"]])
    data = {"x": X, "labels": labels, "n": None if ev["dflt"] else n, "form": fx}
    Y = invoke("LDA", data, pa.LDA, xr, labels) if ev["dflt"] else invoke("LDA", data, pa.LDA, xr, labels, n=n)
    lam = invoke("LDA_discriminants", data, pa.LDA_discriminants, xr, labels)
    Y = finite("LDA", Y, (N, n), data) / U
    lam = finite("LDA_discriminants", lam, (p,), data)
    too_many("LDA with n = number of columns", data, lambda: pa.LDA(xr, labels, n=p))
    too_many("LDA with n above the number of columns", data, lambda: pa.LDA(xr, labels, n=p + 1))
    # other names, other row order
    perm = ev["perm"]
    other = NAMINGS[(k + 1 + len(X) % 6) % len(NAMINGS)]
    swap = sorted(set(ev["labels"]))
    ren = {c: swap[-1 - i] for i, c in enumerate(swap)}
    labels2 = CONTAINERS[(k + 1) % 3]([other(ren[ev["labels"][q]]) for q in perm])
    Z = invoke("LDA", {**data, "perm": perm, "labels2": labels2}, pa.LDA, X[perm].copy(), labels2, n)
    Z = finite("LDA", Z, (N, n), data) / U
    r.count("forms", fx)
    r.count("naming", str(k))
    r.count("units", "2^%d" % ev["unit"])
    return dict(kind="LDA", X=ev["X"], labels=ev["labels"], n=n, Y=ints(Y), lam=[real(v) for v in lam], Z=ints(Z),
                perm=perm), data


def projection(prop, kind, case):
    def f(r):
        for i in range(1 if QUICK else 12):
            recs, datas = [], []
            for t in behaviours(prop, 24 if QUICK else 80, 12, i, spec="projection.qnt", main="projection", step="step" + kind):
                n = 0
                for s in t:
                    if s["ev"]["kind"] == "none":
                        continue
                    rec, data = case(r, s["ev"])
                    recs.append(rec)
                    datas.append(data)
                    n += 1
                r.add(states=n + 1, transitions=n, traces_validated_against_impl=1)
                if datas:
                    r.sample(datas[-1])
            for v, rec, data in zip(relog.judge("projection", "projlog", recs), recs, datas):
                if v:
                    raise Violation("%s (n=%d, %d rows, %d columns): %s" % (kind, rec["n"], len(rec["X"]), len(rec["X"][0]), v),
                                    {**data, "Y": [[fl(a) for a in q] for q in rec["Y"]], "lam": vec(rec["lam"]),
                                     "Z": [[fl(a) for a in q] for q in rec["Z"]]})
                if v == "":
                    r.add(relation_instances=1)
            if r.left(600) < 0:
                break
        r.add(config="spec/projection.qnt step%s, judged by projlog" % kind)
    return f


check("C23")(projection("C23", "PCA", pca_case))
check("C24")(projection("C24", "LDA", lda_case))
