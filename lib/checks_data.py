"""Properties of the data functions: replay of spec/data.qnt."""
import math
import numpy as np
from common import *
from registry import check
import sess
from sess import rep
from checks_filters import behaviours


def invoke(what, data, f, *a, **k):
    try:
        with limit(30):
            return f(*a, **k)
    except Hang:
        raise Violation("%s does not return" % what, data)
    except Exception as ex:
        raise Violation("%s raises %s: %s; the specification requires a result" % (what, type(ex).__name__, ex), data)


def refused(what, data, f):
    try:
        with limit(30):
            got = f()
    except ValueError:
        return
    except Hang:
        raise Violation("%s does not return" % what, data)
    except Exception as ex:
        raise Violation("%s raises %s (%s) instead of ValueError" % (what, type(ex).__name__, ex), data)
    raise Violation("%s is accepted (gives %r); the specification requires ValueError" % (what, got), data)


def within(what, got, want, tol, data):
    """elementwise |got - want| <= tol, shapes equal"""
    try:
        g = np.array(got, dtype="float64")
    except Exception as ex:
        raise Violation("%s is not numeric: %r (%s)" % (what, got, ex), data)
    w = np.array(want, dtype="float64")
    t = np.broadcast_to(np.array(tol, dtype="float64"), w.shape)
    if g.shape != w.shape and not (g.size == 0 and w.size == 0):
        raise Violation("%s has shape %s, the specification requires %s" % (what, g.shape, w.shape), data)
    bad = ~((np.abs(g - w) <= t) | (g == w))
    if bad.any():
        i = tuple(int(a) for a in np.argwhere(bad)[0])
        raise Violation("%s%s is %r, the specification requires %r (tolerance %.3g)" % (
            what, list(i) if i else "", float(g[i]), float(w[i]), float(t[i])), data)


def arr(m, n=None):
    return np.array(mat(m), dtype="float64")


# ---------------------------------------------------------------- one event -> one call
def ev_errors(r, ev):
    em = padasip().misc
    u, v = np.array(vec(ev["u"])), np.array(vec(ev["v"]))
    ur, fu = rep(ev["form"], u)
    vr, fv = rep(ev["form"], v)
    r.count("forms", fu)
    data = {"fn": ev["fn"], "x1": u, "x2": v if ev["flag"] else None, "form": (fu, fv), "function": ev["method"]}
    f = getattr(em, ev["fn"])
    kw = {"function": ev["method"]} if ev["fn"] == "get_mean_error" and ev["method"] != "default" else {}
    args = [[ur, vr], [vr, ur]] if ev["flag"] else [[ur]]
    want = vec(ev["outV"])
    e = ev["outM"][0]
    for a in args:
        what = "%s(%s)" % (ev["fn"], ", ".join([fu, fv][:len(a)]))
        got = invoke(what, data, f, *a, **kw)
        if ev["fn"] == "logSE":
            w = [(-math.inf if z == 0 else q) for z, q in zip(e, want)]
            within(what, got, w, [1e-9 + 1e-12 * (0 if math.isinf(q) else abs(q)) for q in w], data)
        else:
            within(what, got, want[0], 1e-10 * abs(want[0]) + 1e-300, data)
    # keyword form
    if ev["flag"]:
        got = invoke(ev["fn"] + "(x1=, x2=)", data, f, x1=ur, x2=vr, **kw)
        if ev["fn"] != "logSE":
            within(ev["fn"] + "(x1=, x2=)", got, want[0], 1e-10 * abs(want[0]) + 1e-300, data)
    return data


def ev_errors_bad(r, ev):
    em = padasip().misc
    u, v = np.array(vec(ev["u"])), np.array(vec(ev["v"]))
    f = getattr(em, ev["fn"])
    kw = {"function": ev["method"]} if ev["fn"] == "get_mean_error" else {}
    N = len(u)
    text = ["abc"] * N
    calls = {"longer": lambda: f(u, np.append(v, 1.), **kw), "shorter": lambda: f(u, v[:-1], **kw),
             "single": lambda: f(u, v[:1], **kw), "empty": lambda: f(u, [], **kw),
             "text1": lambda: f(text, **kw), "text2": lambda: f(u, text, **kw),
             "name": lambda: f(u, v, function="MAPE"), "case": lambda: f(u, v, function=ev["method"].lower()),
             "logSE": lambda: f(u, v, function="logSE")}
    data = {"fn": ev["fn"], "bad": ev["bad"], "x1": u, "x2": v}
    refused("%s with %s" % (ev["fn"], ev["bad"]), data, calls[ev["bad"]])
    return data


def ev_windows(r, ev):
    pa = padasip()
    u = np.array(vec(ev["u"]))
    ur, fu = rep(ev["form"], u)
    r.count("forms", fu)
    data = {"a": u, "n": ev["n"], "bias": ev["flag"], "form": fu}
    f = pa.input_from_history if len(u) % 2 else pa.preprocess.input_from_history
    kw = {"bias": ev["flag"]} if ev["flag"] or ev["n"] % 2 else {}
    got = invoke("input_from_history", data, f, ur, ev["n"], **kw)
    within("input_from_history(%s, %d, %s)" % (fu, ev["n"], kw), got, mat(ev["outM"]), 0.0, data)
    return data


def ev_windows_bad(r, ev):
    pa = padasip()
    u = vec(ev["u"])
    bad = {"zero": 0, "negative": -2, "float": 1.5, "wholefloat": 2.0, "string": "2", "none": None, "list": [2]}
    data = {"bad": ev["bad"], "a": u}
    if ev["bad"] == "series":
        f = lambda: pa.input_from_history(["a"] * len(u), 2, bias=ev["flag"])
    else:
        f = lambda: pa.input_from_history(u, bad[ev["bad"]], bias=ev["flag"])
    refused("input_from_history with n or series '%s'" % ev["bad"], data, f)
    return data


def number(v, i):
    """the same number as int, float or numpy scalar"""
    forms = [float, np.float64] + ([int, np.int64] if v == int(v) else [])
    return forms[i % len(forms)](v)


def ev_standardize(r, ev):
    pa = padasip()
    x = arr(ev["x"])
    if ev["n"] == 0:
        x = x[0]
    xr, fx = rep(ev["form"], x)
    r.count("forms", fx)
    off, sc = fl(ev["offset"]), fl(ev["sc"])
    k = int(ev["outV"][0]) if ev["outV"] else 0
    kw = {}
    if "offset" in ev["given"]:
        kw["offset"] = number(off, k)
    if "scale" in ev["given"]:
        kw["scale"] = number(sc, k // 3)
    data = {"fn": ev["fn"], "x": x, "form": fx, "kw": kw}
    what = "%s(%s, %s)" % (ev["fn"], fx, kw)
    want = np.array(vec(ev["outV"])).reshape(x.shape)
    mx = float(np.max(np.abs(x)))
    if ev["fn"] == "standardize":
        tol = 1e-10 * (1 + (mx + abs(off)) / abs(sc))
        got = invoke(what, data, pa.standardize, xr, **kw)
        within(what, got, want, tol, data)
        back = invoke("standardize_back", data, pa.standardize_back, got, off, sc)
        within("standardize_back(standardize(x))", back, x, 1e-10 * (mx + abs(off)) + 1e-9 * abs(sc), data)
        if not kw:
            g = np.asarray(got)
            within("mean of the standardised series", g.mean(), 0.0, 1e-9 * (1 + mx / abs(sc)), data)
            within("deviation of the standardised series", g.std(), 1.0, 1e-9 * (1 + mx / abs(sc)), data)
    else:
        got = invoke(what, data, pa.standardize_back, xr, **kw)
        within(what, got, want, 1e-10 * (mx * abs(sc) + abs(off)), data)
    return data


def ev_standardize_bad(r, ev):
    pa = padasip()
    x = arr(ev["x"])[0]
    off, sc = fl(ev["offset"]), fl(ev["sc"])
    f = getattr(pa, ev["fn"])
    bad = {"x-text": (["abc"] * 3, off, sc), "x-ragged": ([[1., 2.], [3.]], off, sc), "offset-text": (x, "abc", sc),
           "offset-list": (x, [1., 2.], sc), "scale-text": (x, off, "abc"), "scale-list": (x, off, [1., 2.])}
    a = bad[ev["bad"]]
    data = {"fn": ev["fn"], "bad": ev["bad"], "x": x, "args": a}
    refused("%s with %s" % (ev["fn"], ev["bad"]), data, lambda: f(a[0], offset=a[1], scale=a[2]))
    return data


def ev_le(r, ev):
    le = padasip().detection.learning_entropy
    w = arr(ev["x"])
    wr, fw = rep(ev["form"], w)
    r.count("forms", fw)
    m, order = ev["m"], ev["order"]
    kw = {}
    if ev["given"] or order != 1:
        kw = {"m": m, "order": order}
    data = {"w": w, "form": fw, "kw": kw, "alpha": ev["method"], "alphas": vec(ev["alphas"])}
    if ev["method"] == "alpha":
        al = vec(ev["alphas"])
        form = [list, tuple, np.array][len(al) % 3](al)
        got = invoke("learning_entropy", data, le, wr, alpha=form, **kw)
        what = "learning_entropy(m=%d, order=%d, alpha=%s)" % (m, order, al)
        total = len(al) * w.shape[1]
        try:
            g = np.array(got, dtype="float64")
        except Exception as ex:
            raise Violation("%s is not numeric" % what, data)
        if g.shape != (len(w),):
            raise Violation("%s has shape %s instead of %s" % (what, g.shape, (len(w),)), data)
        for k in range(len(w)):
            lo, hi = ev["cnt"][k]
            c = g[k] * total
            if not (lo - 1e-6 <= c <= hi + 1e-6) or abs(c - round(c)) > 1e-6:
                raise Violation("%s[%d] is %r (%s of %d pairs exceed); the specification requires %d..%d pairs" % (
                    what, k, float(g[k]), c, total, lo, hi), data)
        r.count("ambiguous_comparisons", "cells", sum(hi - lo for lo, hi in ev["cnt"]))
        return data
    al = {"omitted": {}, "None": {"alpha": None}, "False": {"alpha": False}, "empty": {"alpha": []}}[ev["method"]]
    if "kw" not in ev["given"] and ev["given"]:
        got = invoke("learning_entropy", data, le, wr, m, order, **al)
    else:
        got = invoke("learning_entropy", data, le, wr, **kw, **al)
    want = arr(ev["outM"])
    tol = arr(ev["slack"]) * 4 + 1e-10
    within("learning_entropy(m=%d, order=%d)" % (m, order), got, want, tol, data)
    return data


def ev_elbnd(r, ev):
    f = padasip().detection.ELBND
    w, e = arr(ev["x"]), np.array(vec(ev["u"]))
    wr, fw = rep(ev["form"], w)
    er, fe = rep(ev["form"], e)
    r.count("forms", fw)
    kw = {} if ev["method"] == "default" else {"function": ev["method"]}
    data = {"w": w, "e": e, "form": fw, "kw": kw}
    got = invoke("ELBND", data, f, wr, er, **kw)
    want = np.array(vec(ev["outV"]))
    # w[k+1] - w[k] is rounded relative to the weights
    tol = 1e-11 * (np.abs(e) * np.max(np.abs(w)) * w.shape[1] + want) + 1e-300
    within("ELBND(%s)" % kw, got, want, tol, data)
    return data


def ev_elbnd_bad(r, ev):
    f = padasip().detection.ELBND
    w, e = arr(ev["x"]), np.array(vec(ev["u"]))
    data = {"function": ev["bad"]}
    refused("ELBND(function=%r)" % ev["bad"], data, lambda: f(w, e, function=ev["bad"]))
    return data


# ---------------------------------------------------------------- ESE
class Fit:
    """stands for scipy's fit of the generalised Pareto law: answers shape 0, location as fixed and
    scale = mean excess + 1/4, and remembers what it was asked"""

    def __init__(self, real):
        self.real = real
        self.asked = 0
        self.unfixed = 0

    def __call__(self, data, *a, **k):
        self.asked += 1
        loc = k.get("floc")
        if loc is None:
            self.unfixed += 1
            return self.real(data, *a, **k)
        return (0.0, float(loc), float(np.mean(np.asarray(data, dtype="float64"))) - float(loc) + 0.25)


def tails(peaks, dw, real):
    """interval of tail probabilities that honest fits of the peaks give; None where fitting is ill-posed"""
    from scipy.stats import genpareto
    thr = peaks[-1]
    ps = []
    for order in (peaks, peaks[::-1], sorted(peaks[1:]) + [peaks[0]]):
        c, loc, s = real(np.array(order), floc=thr)
        ps += [1 - genpareto.cdf(dw, c, loc, s), genpareto.sf(dw, c, loc, s)]
    ps = [float(p) for p in ps]
    if not all(math.isfinite(p) for p in ps):
        return None
    lo, hi = min(ps), max(ps)
    return max(0.0, lo * .98 - 3e-16), hi * 1.02 + 3e-16


def ev_ese(r, ev, real_fits=True):
    import scipy.stats as st
    f = padasip().detection.ESE
    w = arr(ev["x"])
    win = ev["m"]
    kw = {}
    if "window" in ev["given"]:
        kw["window"] = win
    if "method" in ev["given"]:
        kw["pot_method"] = ev["method"]
    data = {"w": w, "kw": kw}
    what = "ESE(%s)" % kw
    over = sum(c["over"] for row in ev["cells"] for c in row)
    orig = st.genpareto.fit
    stub = Fit(orig)
    st.genpareto.fit = stub
    try:
        got = invoke(what, data, f, w.copy(), **kw)
    finally:
        del st.genpareto.fit
    r.count("fits", "asked", stub.asked)
    r.count("fits", "cells over threshold", over)
    lo = np.array(vec(ev["outM"][0]))
    hi = np.array(vec(ev["outM"][1]))
    mid = np.array(vec(ev["outV"]))
    g = np.array(got, dtype="float64")
    if g.shape != mid.shape:
        raise Violation("%s has shape %s instead of %s" % (what, g.shape, mid.shape), data)
    if stub.unfixed == 0 and stub.asked == over:
        bad = ~((g >= lo - 1e-8 * (1 + np.abs(lo))) & (g <= hi + 1e-8 * (1 + np.abs(hi))))
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            raise Violation("%s[%d] is %r, the specification requires %r (with a fitter answering shape 0, scale mean "
                            "excess + 1/4)" % (what, i, float(g[i]), float(mid[i])), data)
    else:
        r.count("fits", "behaviours where the fitter was not consulted once per cell")
    zero = [k for k in range(len(w)) if k < win or not any(c["over"] for c in ev["cells"][k - win])]
    if not real_fits or w.shape[1] > 3:
        return data
    got = np.array(invoke(what, data, f, w.copy(), **kw), dtype="float64")
    if got.shape != mid.shape:
        raise Violation("%s has shape %s instead of %s" % (what, got.shape, mid.shape), data)
    for k in zero:
        if abs(got[k]) > 1e-12:
            raise Violation("%s[%d] is %r although no weight change exceeds its threshold" % (what, k, float(got[k])), data)
    for i, row in enumerate(ev["cells"]):
        a = b = 0.0
        for c in row:
            if not c["over"]:
                continue
            t = tails(vec(c["peaks"]), fl(c["dw"]), orig)
            if t is None:
                a = None
                break
            a -= math.log10(t[1] + 1e-20)
            b -= math.log10(t[0] + 1e-20)
        if a is None:
            r.count("fits", "rows with ill-posed fits skipped")
            continue
        r.count("fits", "rows compared with real fits")
        if not (a - 1e-6 <= got[win + i] <= b + 1e-6):
            raise Violation("%s[%d] is %r; generalised Pareto fits of the peaks the specification selects give %r..%r" % (
                what, win + i, float(got[win + i]), a, b), data)
    return data


HANDLERS = {"MSE": ev_errors, "MAE": ev_errors, "RMSE": ev_errors, "logSE": ev_errors, "get_mean_error": ev_errors,
            "input_from_history": ev_windows, "standardize": ev_standardize, "standardize_back": ev_standardize,
            "learning_entropy": ev_le, "ELBND": ev_elbnd, "ESE": ev_ese}
BAD = {"MSE": ev_errors_bad, "MAE": ev_errors_bad, "RMSE": ev_errors_bad, "logSE": ev_errors_bad,
       "get_mean_error": ev_errors_bad, "input_from_history": ev_windows_bad, "standardize": ev_standardize_bad,
       "standardize_back": ev_standardize_bad, "ELBND": ev_elbnd_bad}


def data_check(prop, quick, thorough, steps, after=None):
    def f(r):
        for i in range(1 if QUICK else 20):
            ts = behaviours(prop, quick if QUICK else thorough, steps, i)
            ts += behaviours(prop, 40, 3, (i, "big"), step="stepBig")
            for t in ts:
                n = 0
                for s in t:
                    ev = s["ev"]
                    if ev["op"] == "none":
                        continue
                    d = (BAD if ev["op"] == "reject" else HANDLERS)[ev["fn"]](r, ev)
                    r.count("actions", ev["op"] + " " + ev["fn"] + (" " + ev["bad"] if ev["bad"] else ""))
                    r.sample({"op": ev["op"], **d})
                    n += 1
                r.add(states=n + 1, transitions=n, traces_validated_against_impl=1)
            if r.left(600) < 0:
                break
        r.add(config="spec/checks.qnt module " + prop)
        if after:
            after(r)
    return f


# ---------------------------------------------------------------- findings
def le_first_rows(r, alpha):
    """Adding a constant to all weights of a history leaves every difference as it is, so the entropy must
    not change.  The first `order` rows of |D w| hold the raw weights instead."""
    le = padasip().detection.learning_entropy
    rng = np.random.default_rng(7)
    for order in (1, 2, 3):
        w = np.cumsum(rng.integers(-8, 9, size=(14, 2)), axis=0) / 8.0
        m = 4
        a = np.array(invoke("learning_entropy", {"w": w}, le, w, m=m, order=order, alpha=alpha))
        b = np.array(invoke("learning_entropy", {"w": w}, le, w + 64.0, m=m, order=order, alpha=alpha))
        if a.shape != b.shape or len(a) != len(w):
            raise Violation("learning_entropy has shapes %s and %s" % (a.shape, b.shape), {"w": w})
        dif = np.abs(a - b).reshape(len(w), -1).max(axis=1) > 1e-6
        if dif[m + order:].any() or dif[:m].any():
            raise Violation("learning_entropy(m=%d, order=%d, alpha=%s) changes at rows %s when a constant is added to all "
                            "weights" % (m, order, alpha, np.argwhere(dif).ravel().tolist()), {"w": w, "shift": 64.0})
        if dif.any():
            r.finding("first-rows", "rows m..m+order-1 (order %d: rows %s) use raw weights in place of the missing first "
                      "differences" % (order, np.argwhere(dif).ravel().tolist()))
        r.add(transitions=2)


def ese_first_row(r):
    f = padasip().detection.ESE
    rng = np.random.default_rng(8)
    w = np.cumsum(rng.integers(-8, 9, size=(34, 1)), axis=0) / 8.0
    w[26:] += np.arange(8)[:, None] * 3.0
    a = np.array(invoke("ESE", {"w": w}, f, w.copy(), window=25, pot_method="30%"))
    b = np.array(invoke("ESE", {"w": w}, f, w + 64.0, window=25, pot_method="30%"))
    dif = np.abs(a - b) > 1e-3
    if dif[:25].any() or dif[26:].any():
        raise Violation("ESE changes at rows %s when a constant is added to all weights" % np.argwhere(dif).ravel().tolist(),
                        {"w": w, "shift": 64.0})
    if dif.any():
        r.finding("first-row", "row `window` counts the raw weights of sample 0 as a weight change")
    # documented defaults: window 1000, 10 %
    w = np.cumsum(rng.normal(size=(1004, 1)), axis=0)
    w[1000:] += 5
    w[1002:] += 9
    a = np.array(invoke("ESE", {}, f, w.copy()))
    b = np.array(invoke("ESE", {}, f, w.copy(), window=1000, pot_method="10%"))
    c = np.array(invoke("ESE", {}, f, w.copy(), 1000, "10%"))
    within("ESE with default arguments", a, b, 1e-9, {"w": w})
    within("ESE with positional arguments", c, b, 1e-9, {"w": w})
    if np.any(b[:1000] != 0) or not (b[1000] > 0.5 and b[1002] > 0.5):
        raise Violation("ESE of jumps after 1000 and 1002 quiet samples is %s" % b[1000:], {"w": w})
    r.add(transitions=5)


check("C17")(data_check("C17", 240, 400, 8, lambda r: le_first_rows(r, None)))
check("C18")(data_check("C18", 240, 400, 8, lambda r: le_first_rows(r, [0.5, 1.0, 2.0])))
check("C19")(data_check("C19", 240, 400, 8))
check("C20")(data_check("C20", 64, 200, 5, ese_first_row))
check("C21")(data_check("C21", 240, 400, 10))
check("C22")(data_check("C22", 240, 400, 10))
check("C25")(data_check("C25", 320, 400, 10))
