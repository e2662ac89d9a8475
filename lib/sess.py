"""Replay of the behaviours of spec/session.qnt on the real filters."""
import copy
import numpy as np
from common import *

EXTRA = {"GMCC": ("lambd", "alpha"), "GNGD": ("eps", "ro"), "Llncosh": ("lambd",), "NLMF": ("eps",),
         "NLMS": ("eps",), "NSSLMS": ("eps",), "RLS": ("eps",), "OCNLMS": ("eps", "mem"),
         "VSLMS_Ang": ("ro", "a"), "VSLMS_Benveniste": ("ro",), "VSLMS_Mathews": ("ro",),
         "AP": ("order", "ifc")}
KINDS = ["AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS", "OCNLMS", "RLS", "SSLMS",
         "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]


def kwargs_of(par):
    kw = {"mu": fl(par["mu"])}
    for k in EXTRA.get(par["kind"], ()):
        kw[k] = par[k] if k in ("order", "mem") else fl(par[k])
    return kw


def filter_class(kind):
    return getattr(padasip().filters, "Filter" + kind)


def build(par, w):
    return filter_class(par["kind"])(par["n"], w=w, **kwargs_of(par))


# ---------------------------------------------------------------- representations of the same numbers
def _strided(a):
    big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
    big += 77
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def _readonly(a):
    b = a.copy()
    b.setflags(write=False)
    return b


def _reversed(a):
    return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]


def _exact(dtype):
    def f(a):
        if np.issubdtype(dtype, np.integer):
            i = np.iinfo(dtype)
            if a.size and (np.any(a != np.round(a)) or a.min() < i.min or a.max() > i.max):
                return None
        b = a.astype(dtype)
        return b if np.array_equal(b.astype("float64"), a) else None
    return f


def _intlist(a):
    if a.size and np.any(a != np.round(a)):
        return None
    return a.astype("int64").tolist()


def _deeptuple(l):
    return tuple(_deeptuple(x) for x in l) if isinstance(l, list) else l


def _scalars(a):
    """lists of numpy numbers, of single precision where that is exact"""
    b = a.astype("float32")
    b = b if np.array_equal(b.astype("float64"), a) else a
    return [[v for v in r] if isinstance(r, np.ndarray) else r for r in b]


REP = {
    "f64": lambda a: a.copy(),
    "list": lambda a: a.tolist(),
    "tuple": lambda a: _deeptuple(a.tolist()),
    "intlist": _intlist,
    "listofarrays": lambda a: [r.copy() if isinstance(r, np.ndarray) else float(r) for r in a],
    "strided": _strided,
    "readonly": _readonly,
    "reversed": _reversed,
    "fortran": lambda a: np.asfortranarray(a),
    "transposed": lambda a: a.T.copy().T,
    "bigendian": lambda a: a.astype(">f8"),
    "bigf32": _exact(np.dtype(">f4")), "bigi32": _exact(np.dtype(">i4")), "npscalars": _scalars,
    "f32": _exact(np.float32), "f16": _exact(np.float16), "longdouble": _exact(np.longdouble),
    "i8": _exact(np.int8), "u8": _exact(np.uint8), "i16": _exact(np.int16), "u16": _exact(np.uint16),
    "i32": _exact(np.int32), "i64": _exact(np.int64), "u64": _exact(np.uint64),
}


def rep(form, a):
    """the numbers of array a in the representation `form` (float64 where they do not fit)"""
    r = REP[form](a)
    return (r, form) if r is not None else (a.copy(), "f64")


# doubles against reals: what rounding may do, relative to the largest weights in the life of a filter
# (worst seen: 2e-9 for RLS, 3e-12 for AP, 2e-7 below 1e-30 and 2e-11 above for the others)
TOL = {"RLS": 1e-6, "AP": 1e-6}
FLOOR = {"RLS": 1e-2, "AP": 1e-2, "OCNLMS": 1e-2, "Llncosh": 1e-6}


def big(*vs):
    """largest magnitude in nested lists"""
    m = 0.0
    for v in vs:
        if isinstance(v, (list, tuple)):
            m = max(m, big(*v))
        else:
            m = max(m, abs(float(v)))
    return m


def bad_calls(f, d, x, build_w):
    """calls that cannot be accepted, by name"""
    n = x.shape[1]
    N = len(x)
    ragged = [list(r) for r in x.tolist()]
    ragged[N - 1] = ragged[N - 1] + [1.0]
    text = [[str(a) for a in r] for r in x.tolist()]
    text[N - 1][n - 1] = "abc"
    wide = np.hstack([x, x[:, :1]])
    narrow = x[:, :-1]
    return {
        "adapt-short": lambda: f.adapt(d[0], x[0][:-1]),
        "adapt-long": lambda: f.adapt(d[0], wide[0]),
        "adapt-scalar": lambda: f.adapt(d[0], 1.0),
        "adapt-matrix": lambda: f.adapt(d[0], np.vstack([x[:1], x[:1]])),
        "adapt-text": lambda: f.adapt(d[0], text[N - 1]),
        "run-short-d": lambda: f.run(d[:-1], x),
        "run-long-d": lambda: f.run(np.append(d, 1.0), x),
        "run-empty-d": lambda: f.run([], x),
        "run-one-d": lambda: f.run(d[:1], x),
        "run-empty-x": lambda: f.run(d, np.zeros((0, n))),
        "pre-empty-d": lambda: f.pretrained_run(np.zeros(0), x, ntrain=0.5, epochs=2),
        "pre-empty-x": lambda: f.pretrained_run(d, [], ntrain=0.5),
        "adapt-empty": lambda: f.adapt(d[0], []),
        "run-narrow": lambda: f.run(d, narrow),
        "run-wide": lambda: f.run(d, wide),
        "run-ragged": lambda: f.run(d, ragged),
        "run-text": lambda: f.run(d, text),
        "run-flat": lambda: f.run(d, np.vstack([x, x])),
        "pre-short-d": lambda: f.pretrained_run(d[:-1], x, ntrain=0.5),
        "pre-long-d": lambda: f.pretrained_run(np.append(d, [1.0] * N), x, ntrain=0.25, epochs=2),
        "pre-narrow": lambda: f.pretrained_run(d, narrow, ntrain=0.5, epochs=2),
        "pre-wide": lambda: f.pretrained_run(d, wide, ntrain=0.5, epochs=2),
        "pre-ragged": lambda: f.pretrained_run(d, ragged, ntrain=0.5, epochs=2),
        "pre-text": lambda: f.pretrained_run(d, text, ntrain=0.5, epochs=2),
        "adapt-target-text": lambda: f.adapt("abc", x[0]),
        "adapt-target-blank": lambda: f.adapt("", x[0]),
        "adapt-target-object": lambda: f.adapt(object(), x[0]),
        "adapt-target-pair": lambda: f.adapt(d[:2], x[0]),
        "adapt-target-vector": lambda: f.adapt(np.ones(n + 1), x[0]),
        "adapt-target-empty": lambda: f.adapt([], x[0]),
        "run-target-text": lambda: f.run([str(a) for a in d[:-1]] + ["abc"], x),
        "run-target-object": lambda: f.run([float(a) for a in d[:-1]] + [object()], x),
        "run-target-ragged": lambda: f.run([float(a) for a in d[:-1]] + [[1.0, 2.0]], x),
        "run-target-column": lambda: f.run(d[:, None], x),
        "run-target-matrix": lambda: f.run(np.stack([d, d], 1), x),
        "run-target-rows": lambda: f.run(x if n > 1 else np.hstack([x, x]), x),
        "run-deep": lambda: f.run(d, x[:, :, None]),
        "run-object": lambda: f.run(d, x.tolist()[:-1] + [[1.0] * (n - 1) + [object()]]),
        "pre-target-text": lambda: f.pretrained_run([str(a) for a in d[:-1]] + ["abc"], x, ntrain=0.5, epochs=2),
        "pre-target-object": lambda: f.pretrained_run([float(a) for a in d[:-1]] + [object()], x, ntrain=0.5, epochs=2),
        "pre-target-matrix": lambda: f.pretrained_run(np.stack([d, d], 1), x, ntrain=0.5, epochs=2),
        "pre-target-ragged": lambda: f.pretrained_run([float(a) for a in d[:-1]] + [[1.0, 2.0]], x, ntrain=0.5),
        "run-vector-x": lambda: f.run(d, x[:, 0]),
        "run-scalar-d": lambda: f.run(1.0, x),
        "run-scalar-x": lambda: f.run(d, 1.0),
        "run-none-d": lambda: f.run(None, x),
        "pre-vector-x": lambda: f.pretrained_run(d, x[:, 0], ntrain=0.5, epochs=2),
        "pre-scalar-d": lambda: f.pretrained_run(1.0, x, ntrain=0.5),
        "init-short": lambda: build_w(np.ones(n - 1) if n > 1 else []),
        "init-long": lambda: build_w(np.ones(n + 1)),
        "init-word": lambda: build_w("ones"),
        "init-text": lambda: build_w(["abc"] * n),
        "reinit-short": lambda: f.init_weights(np.ones(n - 1) if n > 1 else []),
        "reinit-long": lambda: f.init_weights(np.ones(n + 1)),
        "reinit-word": lambda: f.init_weights("ones"),
        "reinit-text": lambda: f.init_weights(["abc"] * n),
        "reinit-matrix": lambda: f.init_weights(np.ones((n, 2))),
        "reinit-none": lambda: f.init_weights(None),
    }


class Player:
    """two slots holding real filters, driven by the events of one behaviour"""

    def __init__(self, report, tol=1e-7, hostile=False, check=("y", "e", "W", "w")):
        self.r = report
        self.tol = tol
        self.check = check
        self.hostile = hostile
        self.slots = [None, None]
        self.kind = ""
        self.log = []
        self.held = []        # arrays passed in or returned, with a copy of their content
        self.maxdev = 0.0

    # -- helpers
    def call(self, what, f, *a, **k):
        try:
            with limit(20):
                return f(*a, **k)
        except Violation:
            raise
        except Hang:
            raise Violation("%s does not return" % what, self.data())
        except Exception as ex:
            raise Violation("%s raises %s: %s; the specification requires a result" % (
                what, type(ex).__name__, ex), self.data())

    def data(self):
        return {"history": self.log[-40:]}

    def eq(self, what, got, want, scale):
        same(what, got, want, max(self.tol, TOL.get(self.kind, 0)), self.data(), scale)
        try:
            g, w = np.array(got, dtype=float), np.array(want, dtype=float)
            if w.size:
                dev = float(np.max(np.abs(g - w)) / scale)
                self.maxdev = max(self.maxdev, dev)
                self.r.devs[self.kind] = max(self.r.devs.get(self.kind, 0.0), dev)
        except Exception:
            pass

    def args(self, ev):
        x = np.array(mat(ev["x"]), dtype="float64") if ev["x"] else np.zeros((0, self.n(ev)))
        d = np.array(vec(ev["d"]), dtype="float64")
        return d, x

    def scales(self, ev):
        """what deviations of weights, and of outputs and errors, are measured against"""
        s = ev["slot"]
        floor = FLOOR.get(self.pars[s]["kind"], 1e-20)
        self.life[s] = max(self.life[s], big(vec(ev["w"]), mat(ev["W"])))
        sw = max(self.life[s], floor)
        return sw, max(sw * big(mat(ev["x"])), big(vec(ev["d"]), vec(ev["y"]), vec(ev["e"])), floor)

    def n(self, ev):
        return self.pars[ev["slot"]]["n"]

    # -- events
    def start(self, state):
        self.pars = [f["par"] for f in state["flt"]]
        for i, f in enumerate(state["flt"]):
            w = np.array(vec(f["st"]["w"]))
            self.log.append({"op": "create", "slot": i, "kind": f["par"]["kind"], "n": f["par"]["n"],
                             "kwargs": kwargs_of(f["par"]), "w": w.tolist()})
            self.slots[i] = self.call("constructing " + f["par"]["kind"], build, f["par"], w)
            self.eq("initial weights", self.slots[i].w, vec(f["st"]["w"]), scale_of(vec(f["st"]["w"])))
        self.life = [big(vec(f["st"]["w"])) for f in state["flt"]]

    def step(self, state):
        ev = state["ev"]
        op, slot = ev["op"], ev["slot"]
        self.r.count("actions", op)
        f = self.slots[slot]
        kind = self.pars[slot]["kind"]
        form = ev["form"]
        what = "%s of %s" % (op, kind)
        self.kind = kind
        entry = {"op": op, "slot": slot, "form": form}
        self.log.append(entry)
        if op in ("adapt", "run", "predict", "pretrained"):
            d, x = self.args(ev)
            entry.update(d=d.tolist(), x=x.tolist())
            wafter = vec(ev["w"])
            sw, sc = self.scales(ev)
            self.r.count("kinds", kind + "." + op)
            if op == "adapt":
                xr, fx = rep(form, x[0])
                dr, _ = rep(form, d)
                self.call(what, f.adapt, dr[0], xr)
                self.hold(xr)
            elif op == "predict":
                xr, fx = rep(form, x[0])
                got = self.call(what, f.predict, xr)
                self.hold(xr)
                if "y" in self.check:
                    self.eq(what + ": output", got, fl(ev["y"][0]), sc)
            else:
                xr, fx = rep(form, x)
                dr, _ = rep(form, d)
                if op == "run":
                    got = self.call(what, f.run, dr, xr)
                else:
                    nt, ep, how = ev["nt"] / 8.0, ev["epochs"], ev["variant"]
                    entry.update(ntrain=nt, epochs=ep, how=how)
                    if how == "positional":
                        got = self.call(what, f.pretrained_run, dr, xr, nt, ep)
                    elif how == "no-epochs":
                        got = self.call(what, f.pretrained_run, dr, xr, ntrain=nt)
                    elif how == "no-ntrain":
                        got = self.call(what, f.pretrained_run, dr, xr, epochs=ep)
                    elif how == "bare":
                        got = self.call(what, f.pretrained_run, dr, xr)
                    elif how == "swapped":
                        got = self.call(what, f.pretrained_run, epochs=ep, ntrain=nt, x=xr, d=dr)
                    else:
                        got = self.call(what, f.pretrained_run, dr, xr, ntrain=nt, epochs=ep)
                    self.r.count("pretrained", how)
                self.hold(xr, dr)
                try:
                    y, e, W = got
                except Exception:
                    raise Violation(what + " does not return (y, e, w)", self.data())
                self.hold(y, e, W)
                if "y" in self.check:
                    self.eq(what + ": y", y, vec(ev["y"]), sc)
                if "e" in self.check:
                    self.eq(what + ": e", e, vec(ev["e"]), sc)
                if "W" in self.check:
                    if len(ev["W"]) or len(W):
                        self.eq(what + ": weight history", W, mat(ev["W"]), sw)
            self.r.count("forms", fx)
            if "w" in self.check:
                self.eq(what + ": weights after the call", self.slots[slot].w, wafter, sw)
        elif op == "clear":
            self.call(what, f.clear_memory)
            self.eq(what + ": weights", f.w, vec(ev["w"]), scale_of(vec(ev["w"])))
        elif op == "create":
            par = ev["par"]
            w = np.array(vec(ev["w0"]))
            self.life[slot] = big(vec(ev["w"]))
            entry.update(kind=par["kind"], n=par["n"], kwargs=kwargs_of(par), w=w.tolist())
            self.pars[slot] = par
            if ev["variant"] == "zeros":
                self.slots[slot] = self.call(what, build, par, "zeros")
            else:
                wr, _ = rep(form, w)
                self.slots[slot] = self.call(what, build, par, wr)
                self.hold(wr)
            self.eq("weights of a new " + par["kind"], self.slots[slot].w, vec(ev["w"]), scale_of(vec(ev["w"])))
            if np.asarray(self.slots[slot].w).dtype != np.float64:
                raise Violation("weights of a new %s are %s, not double precision" % (
                    par["kind"], np.asarray(self.slots[slot].w).dtype), self.data())
        elif op == "reinit":
            w, how = np.array(vec(ev["w0"])), ev["variant"]
            entry.update(how=how, w=w.tolist())
            wr, fx = ("zeros", form) if how.startswith("zeros") else rep(form, w)
            if how.endswith("sized"):
                f.w = self.call("init_weights of " + kind, f.init_weights, wr, n=self.pars[slot]["n"])
            else:
                f.w = self.call("init_weights of " + kind, f.init_weights, wr)
            self.life[slot] = max(self.life[slot], big(vec(ev["w"])))
            self.r.count("reinit", how + " " + fx)
            if not np.array_equal(np.asarray(f.w), w) or np.asarray(f.w).dtype != np.float64:
                raise Violation("weights of %s after init_weights(%s) are %r instead of %s" % (
                    kind, how, f.w, w.tolist()), self.data())
        elif op == "clone":
            self.slots[1 - slot] = self.call("deepcopy of " + kind, copy.deepcopy, f)
            self.pars[1 - slot] = self.pars[slot]
            self.life[1 - slot] = self.life[slot]
            self.eq("weights of the copy", self.slots[1 - slot].w, vec(ev["w"]), scale_of(vec(ev["w"])))
        elif op == "scribble":
            self.scribble()
        elif op == "reject":
            entry["variant"] = ev["variant"]
            self.reject(ev, f, kind, entry)
        else:
            raise MachineryError("unknown event " + op)
        if self.hostile:
            self.untouched()

    # -- C10: arrays that cross the interface
    def hold(self, *arrays):
        if not self.hostile:
            return
        for a in arrays:
            for b in (a if isinstance(a, (list, tuple)) else [a]):
                if isinstance(b, np.ndarray):
                    # the content is compared from now on: arguments must come back unmodified, see untouched()
                    self.held.append((b, b.copy()))

    def untouched(self):
        for a, c in self.held:
            if not np.array_equal(a, c, equal_nan=True):
                raise Violation("an array that was returned or passed in earlier changed afterwards: %r -> %r" % (
                    c.tolist(), a.tolist()), self.data())

    def scribble(self):
        for a, _ in self.held:
            if a.flags.writeable:
                a[...] = 113
        self.held = []

    # -- C11
    def reject(self, ev, f, kind, entry):
        v = ev["variant"]
        d, x = self.args(ev)
        par = self.pars[ev["slot"]]
        calls = bad_calls(f, d, x, lambda w: build(par, w))
        if v not in calls:
            raise MachineryError("unknown rejection " + v)
        entry.update(d=d.tolist(), x=x.tolist(), kind=kind)
        before = np.array(f.w, dtype=float).copy()
        try:
            with limit(20):
                got = calls[v]()
        except ValueError:
            pass
        except Hang:
            raise Violation("rejected call %s of %s does not return" % (v, kind), self.data())
        except Exception as ex:
            raise Violation("call %s of %s raises %s (%s) instead of ValueError" % (
                v, kind, type(ex).__name__, ex), self.data())
        else:
            raise Violation("call %s of %s is accepted; the specification requires ValueError" % (v, kind), self.data())
        self.r.count("rejections", v)
        after = np.array(f.w, dtype=float)
        if before.shape != after.shape or not np.array_equal(before, after):
            raise Violation("rejected call %s of %s changed the weights" % (v, kind), self.data())


def play(report, traces, player=None, **kw):
    worst = 0.0
    for t in traces:
        p = (player or Player)(report, **kw)
        p.start(t[0])
        if "sampled" not in report.__dict__ or report.sampled < 2:
            report.sampled = getattr(report, "sampled", 0) + 1
        n = 0
        for s in t[1:]:
            if s["ev"]["op"] in ("none", "init"):
                continue
            p.step(s)
            n += 1
        report.add(states=len(t), transitions=n, traces_validated_against_impl=1)
        report.sample(p.log[:6])
        worst = max(worst, p.maxdev)
    report.cov["worst_relative_deviation"] = max(report.cov.get("worst_relative_deviation", 0.0), worst)
