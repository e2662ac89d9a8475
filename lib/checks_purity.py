"""C28: histories of data function calls; nothing but the arguments decides the results."""
import copy
import numpy as np
import pristine
import concur
from common import *
from registry import check
from checks_filters import behaviours
from checks_data import invoke, arr, number
from sess import _strided, _readonly, KINDS

NAMES = ["one", "two", "three"]
LISTS = {"MSE", "MAE", "RMSE", "logSE", "get_mean_error", "input_from_history", "standardize", "standardize_back",
         "learning_entropy"}
UPTOSIGN = {"PCA", "LDA"}


def arguments(ev):
    """(positional arguments, keywords) of a call event; arrays are fresh"""
    fn = ev["fn"]
    u, v = np.array(vec(ev["u"])), np.array(vec(ev["v"]))
    x = arr(ev["x"]) if ev["x"] else None
    if fn in ("MSE", "MAE", "RMSE", "logSE"):
        return ([u, v] if ev["flag"] else [u]), {}
    if fn == "get_mean_error":
        kw = {} if ev["method"] == "default" else {"function": ev["method"]}
        return ([u, v] if ev["flag"] else [u]), kw
    if fn == "input_from_history":
        return [u, ev["n"]], {"bias": ev["flag"]}
    if fn in ("standardize", "standardize_back"):
        kw = {}
        if "offset" in ev["given"]:
            kw["offset"] = fl(ev["offset"])
        if "scale" in ev["given"]:
            kw["scale"] = fl(ev["sc"])
        return [x[0] if ev["n"] == 0 else x], kw
    if fn == "learning_entropy":
        kw = {"m": ev["m"], "order": ev["order"]}
        if ev["method"] == "alpha":
            kw["alpha"] = np.array(vec(ev["alphas"]))
        return [x], kw
    if fn == "ELBND":
        return [x, u], ({} if ev["method"] == "default" else {"function": ev["method"]})
    if fn == "ESE":
        return [x], {"window": ev["m"], "pot_method": ev["method"]}
    if fn == "PCA":
        return [x, ev["n"]], {}
    if fn == "PCA_components":
        return [x], {}
    if fn == "LDA":
        return [x, [NAMES[i] for i in ev["labels"]], ev["n"]], {}
    if fn == "LDA_discriminants":
        return [x, np.array(ev["labels"])], {}
    if fn == "filter_data":
        kind = KINDS[(ev["m"] * 5 + ev["n"] * 3 + len(u)) % len(KINDS)]
        return [u, x], {"model": kind, "w": v, "mu": 0.01}
    raise MachineryError("no such function " + fn)


def function(fn):
    pa = padasip()
    for m in (pa.misc, pa.preprocess, pa.detection, pa.filters):
        if hasattr(m, fn):
            return getattr(m, fn)
    raise Violation("padasip has no function " + fn)


def flatten(res):
    return [np.array(a, dtype="float64") for a in (res if isinstance(res, tuple) else (res,))]


def arrays(res):
    return [a for a in (res if isinstance(res, tuple) else (res,)) if isinstance(a, np.ndarray)]


def expect_same(what, got, want, exact, upto, data):
    g, w = flatten(got), flatten(want)
    if len(g) != len(w) or any(a.shape != b.shape for a, b in zip(g, w)):
        raise Violation("%s: shapes differ from the first call" % what, data)
    for a, b in zip(g, w):
        if exact and not upto:
            tol = 1e-12 * (1 + np.max(np.abs(b[np.isfinite(b)]), initial=0.0))
        else:
            tol = 1e-6 * (1 + np.max(np.abs(b[np.isfinite(b)]), initial=0.0))
        if upto and not exact and a.ndim == 2:
            a, b = a * np.sign(a[np.argmax(np.abs(a), 0), range(a.shape[1])]), b * np.sign(
                b[np.argmax(np.abs(b), 0), range(b.shape[1])])
        if not np.all((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))):
            raise Violation("%s: result differs: %r instead of %r" % (what, a.tolist(), b.tolist()), data)


def layout(a, how):
    if not isinstance(a, np.ndarray):
        return a
    if how == "copies":
        return a.copy()
    if how == "readonly":
        return _readonly(a)
    if how == "strided":
        return _strided(a)
    if how == "fortran":
        return np.array(a, order="F", copy=True)
    if how == "lists":
        return a.tolist()
    return a


class Pristine(pristine.Zygote):
    """answers calls in a process in which the library has never been called before"""

    def __init__(self):
        padasip()
        super().__init__(lambda fn, args, kw: function(fn)(*args, **kw))

    def call(self, fn, args, kw, data):
        how, res = self.ask(fn, args, kw)
        if how != "ok":
            raise Violation("%s raises %s in a fresh process" % (fn, res), data)
        return res


class Purity:
    def __init__(self, r, pristine):
        self.r = r
        self.pristine = pristine
        self.calls = []        # (fn, args, kwargs, result as first obtained (copy), live result, ill)
        self.log = []

    def data(self):
        return {"history": self.log[-30:]}

    def call(self, fn, args, kw):
        """one call, with the frame conditions of C28"""
        f = function(fn)
        given = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray)]
        before = copy.deepcopy((args, kw))
        state = np.random.get_state()
        res = invoke(fn, self.data(), f, *args, **kw)
        after = np.random.get_state()
        if not all(np.array_equal(a, b) for a, b in zip(state, after)):
            raise Violation("%s touches numpy's global random state" % fn, self.data())
        for a, b in zip(list(args) + list(kw.values()), list(before[0]) + list(before[1].values())):
            same_ = np.array_equal(a, b) if isinstance(a, (np.ndarray, list)) else a == b
            if not same_ or type(a) is not type(b):
                raise Violation("%s modified its argument: %r became %r" % (fn, b, a), self.data())
        for x in arrays(res):
            for a in given:
                if np.shares_memory(x, a):
                    raise Violation("a result of %s shares memory with its argument" % fn, self.data())
            for c in self.calls:
                for y in arrays(c[4]):
                    if np.shares_memory(x, y):
                        raise Violation("a result of %s shares memory with an earlier result of %s" % (fn, c[0]), self.data())
        rs = arrays(res)
        for i in range(len(rs)):
            for j in range(i):
                if np.shares_memory(rs[i], rs[j]):
                    raise Violation("two results of %s share memory" % fn, self.data())
        self.unchanged()
        return res

    def unchanged(self):
        for fn, args, kw, first, live, _ in self.calls:
            if live is None:
                continue
            for a, b in zip(flatten(first), flatten(live)):
                if not np.array_equal(a, b, equal_nan=True):
                    raise Violation("a result of %s obtained earlier was changed by a later call" % fn, self.data())

    def step(self, ev):
        self.r.count("actions", ev["op"] + " " + ev["fn"] + " " + (ev["form"] if ev["op"] == "repeat" else ev["bad"]))
        if ev["op"] == "reject":
            return
        if ev["op"] == "call":
            args, kw = arguments(ev)
            args = [layout(a, ev["form"]) for a in args]
            self.log.append({"op": "call", "fn": ev["fn"], "args": args, "kw": kw, "form": ev["form"]})
            res = self.call(ev["fn"], args, kw)
            if len(self.calls) % 2:
                expect_same("%s called in a fresh process" % ev["fn"], res, self.pristine.call(ev["fn"], args, kw, self.data()),
                            True, ev["fn"] in UPTOSIGN, self.data())
                self.r.add(fresh_process_comparisons=1)
            self.calls.append([ev["fn"], args, kw, copy.deepcopy(res), res, None])
            return
        fn, args, kw, first, live, _ = self.calls[ev["idx"]]
        self.log.append({"op": ev["op"], "fn": fn, "call": ev["idx"], "how": ev["form"] if ev["op"] == "repeat" else ev["bad"]})
        if ev["op"] == "repeat":
            how = ev["form"]
            if how == "lists" and fn not in LISTS:
                how = "copies"
            a2 = [layout(a, how) for a in args]
            k2 = {k: (layout(v, how) if how != "lists" else v) for k, v in kw.items()}
            res = self.call(fn, a2, k2)
            expect_same("%s called again with %s arrays" % (fn, how), res, first, how in ("same", "copies", "readonly"),
                        fn in UPTOSIGN, self.data())
            self.calls.append([fn, a2, k2, copy.deepcopy(res), res, None])
            return
        # overwrite
        if ev["bad"] == "results":
            for x in arrays(live) if live is not None else []:
                if x.flags.writeable:
                    x[...] = -77.0
            self.calls[ev["idx"]][4] = None
            res = self.call(fn, args, kw)
            expect_same("%s called again after its result was overwritten" % fn, res, first, True, fn in UPTOSIGN, self.data())
        else:
            rng = np.random.default_rng(ev["n"] % 2 ** 32)
            changed = False
            mine = [a for a in args if isinstance(a, np.ndarray)]
            for a in mine:
                if a.flags.writeable and a.size and a.dtype.kind == 'f':
                    change = rng.integers(1, 5, size=a.shape) / 4.0
                    if rng.integers(3):         # one element only, anywhere
                        change = change * (np.arange(a.size) == rng.integers(a.size)).reshape(a.shape)
                    a += change
                    changed = True
            # calls that were given the same arrays can no longer be repeated: forget their results
            for c in self.calls:
                if any(isinstance(b, np.ndarray) and any(b is a for a in mine) for b in c[1]):
                    c[3] = None
            fresh = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
            for c in self.calls:
                if c[3] is None:
                    c[3] = c[4] = None
            res = self.call(fn, args, kw)
            want = self.call(fn, fresh, copy.deepcopy(kw))
            expect_same("%s called with the same arrays holding new numbers" % fn, res, want, True, fn in UPTOSIGN, self.data())
            expect_same("%s called in a process that has not seen the old numbers" % fn, self.pristine.call(fn, fresh, kw, self.data()),
                        want, True, fn in UPTOSIGN, self.data())
            self.r.add(fresh_process_comparisons=1)
            for c in self.calls:
                if c[3] is None:
                    c[3], c[4] = copy.deepcopy(want), None
            if changed:
                self.r.count("overwritten", fn)
        self.calls.append([fn, args, kw, copy.deepcopy(res), res, None])


@check("C28")
def c28(r):
    np.random.seed(mix("c28") % 2 ** 32)
    pristine = Pristine()
    try:
        purity(r, pristine)
        concur.data_together(r)
    finally:
        pristine.close()


def purity(r, pristine):
    for i in range(1 if QUICK else 20):
        for t in behaviours("C28", 320 if QUICK else 400, 13, i, step="stepPure"):
            p = Purity(r, pristine)
            n = 0
            for s in t:
                if s["ev"]["op"] == "none":
                    continue
                p.step(s["ev"])
                n += 1
            r.sample(p.log[:4])
            r.add(states=n + 1, transitions=n, traces_validated_against_impl=1)
        if r.left(600) < 0:
            break
    r.add(config="spec/checks.qnt module C28")
