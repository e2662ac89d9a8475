"""Complete enumeration of short filter lives: TLC enumerates the transitions of spec/tla/Lifecycle.tla,
and walks that take every one of them are executed on the real filters.

A filter that was driven through a walk is compared with a reference: a fresh filter of the same kind that
learned the history the specification assigns to it, one adapt() per sample and nothing else."""
import collections
import copy
import json
import multiprocessing
import os
import pickle
import random
import shutil
import numpy as np
import pristine
from common import *
from common import _run
import sess

BAD = ["adapt-short", "adapt-long", "adapt-matrix", "adapt-text", "run-short-d", "run-narrow", "run-wide", "run-ragged",
       "run-text", "pre-long-d", "pre-ragged", "init-long", "adapt-target-text", "adapt-target-pair", "adapt-target-vector",
       "run-target-object", "run-target-matrix", "run-deep", "pre-target-object", "run-empty-d", "run-one-d",
       "pre-empty-x"]


def tla_set(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def edges(spec, consts, invariants=("TypeOK",), properties=("Silent", "Separate", "Grows", "Causal"), timeout=500):
    """every transition of the specification with these constants; raises if a design property fails"""
    d = scratch()
    try:
        shutil.copy(os.path.join(SPEC, "tla", spec + ".tla"), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nVIEW view\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            for k, v in consts.items():
                f.write(" %s = %s\n" % (k, v))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for p in properties:
                f.write("PROPERTY %s\n" % p)
        out = os.path.join(d, "edges")
        rc, text = _run(["env", "EDGES=" + out, "tlc", "-workers", "1", "-noGenerateSpecTE", "-config", "M.cfg", spec + ".tla"], d, timeout)
        if rc != 0 or "No error has been found" not in text:
            raise MachineryError("TLC %s: rc=%s\n%s" % (spec, rc, text[-1500:]))
        states = int(text.split(" distinct states found")[0].split()[-1].replace(",", ""))
        with open(out) as f:
            return [json.loads(json.loads(line)) for line in f], states
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(s):
    return json.dumps(s)


def walks(es, seed, length=40, extra=0):
    """walks from the initial state that together take every transition, and `extra` random ones"""
    rng = random.Random(seed)
    adj = collections.defaultdict(list)
    for i, e in enumerate(es):
        adj[key(e["s"])].append(i)
    dst = [key(e["t"]) for e in es]
    init = key(es[0]["s"])
    left = {s: set(a) for s, a in adj.items()}
    todo = len(es)
    res = []

    def nearest(s):
        """shortest path to a state with a transition not taken yet"""
        seen = {s: None}
        q = collections.deque([s])
        while q:
            u = q.popleft()
            if left.get(u):
                path = []
                while seen[u] is not None:
                    i, v = seen[u]
                    path.append(i)
                    u = v
                return path[::-1]
            out = adj[u][:]
            rng.shuffle(out)
            for i in out:
                if dst[i] not in seen:
                    seen[dst[i]] = (i, u)
                    q.append(dst[i])
        return None

    def take(w, i):
        nonlocal todo
        s = key(es[i]["s"])
        if i in left[s]:
            left[s].discard(i)
            todo -= 1
        w.append(i)
        return dst[i]

    while todo:
        s, w = init, []
        while len(w) < length and todo:
            if left.get(s):
                s = take(w, rng.choice(sorted(left[s])))
                continue
            p = nearest(s)
            if p is None or len(w) + len(p) >= length:
                if w:
                    break
                if p is None:
                    raise MachineryError("unreachable transitions")
            for i in p:
                s = take(w, i)
        res.append(w)
    for _ in range(extra):
        s, w = init, []
        for _ in range(length):
            if not adj[s]:
                break
            w.append(rng.choice(adj[s]))
            s = dst[w[-1]]
        res.append(w)
    return res


class World:
    """one kind of filter, concrete samples for the letters, references for histories"""

    def __init__(self, kind, variant, k):
        import checks_filters
        rng = np.random.default_rng(mix("world", kind, variant) % 2 ** 32)
        n = (2, 3, 1, 2, 4)[variant % 5]
        self.kind = kind
        self.pars = [checks_filters.good_par(kind, n, rng) for _ in range(2)]
        for p in self.pars:
            p["mem"] = int(rng.integers(2, 6))
            p["order"] = int(rng.integers(1, 4))
        self.w0 = [rng.normal(size=n) * .6 for _ in range(2)]
        style = variant % 4
        if style == 1:      # whole numbers, a zero input and a zero target
            x = rng.integers(-3, 4, size=(k, n)).astype(float)
            d = rng.integers(-3, 4, size=k).astype(float)
            x[0] = 0
            d[1] = 0
        elif style == 2:    # the same input with different targets, and its negative
            x = np.tile(rng.normal(size=(1, n)), (k, 1))
            x[1:] *= np.where(np.arange(k - 1) % 2, -1, 1)[:, None]
            d = rng.normal(size=k)
        elif style == 3:    # different sizes
            x = rng.normal(size=(k, n)) * (10.0 ** np.array([-3, 0, .5, 0])[:k])[:, None]
            d = rng.normal(size=k) * 2
        else:
            x = rng.normal(size=(k, n))
            d = rng.normal(size=k)
        self.x, self.d, self.n = x, d, n
        self.tol = max(1e-8, sess.TOL.get(kind, 0))
        self.objs, self.weights, self.preds = {}, {}, {}

    def fresh(self, o):
        return sess.build(self.pars[o - 1], self.w0[o - 1].copy())

    zygote = None

    def isolate(self):
        """from now on references are computed where nothing else has happened"""
        self.zygote = pristine.Zygote(lambda name, *a: getattr(self, name)(*a))

    def elsewhere(self, name, *a):
        how, res = self.zygote.ask(name, *a)
        if how != "ok":
            raise RuntimeError("in a process of its own: " + res)
        return res

    def ref(self, o, h):
        """weights of a fresh filter that learned h"""
        k = (o, tuple(h))
        if k not in self.weights and self.zygote:
            self.weights[k] = self.elsewhere("ref", o, h)
        if k not in self.weights:
            f = self.fresh(o)
            scale = float(np.max(np.abs(self.w0[o - 1])))
            for s in h:
                f.adapt(float(self.d[s - 1]), self.x[s - 1].copy())
                scale = max(scale, float(np.max(np.abs(f.w))))
            self.weights[k] = np.array(f.w, dtype=float), max(scale, sess.FLOOR.get(self.kind, 1e-20))
        return self.weights[k]

    def pred(self, o, h, s):
        k = (o, tuple(h), s)
        if k not in self.preds and self.zygote:
            self.preds[k] = self.elsewhere("pred", o, h, s)
        if k not in self.preds:
            f = self.fresh(o)
            for t in h:
                f.adapt(float(self.d[t - 1]), self.x[t - 1].copy())
            self.preds[k] = float(f.predict(self.x[s - 1].copy()))
        return self.preds[k]


def pickled(f):
    try:
        b = pickle.dumps(f)
    except Exception:       # that filters can be pickled is not part of the property
        return copy.deepcopy(f)
    return pickle.loads(b)


class Walker:
    def __init__(self, world):
        self.w = world
        self.log = []
        self.slots = [world.fresh(1), world.fresh(2)]
        self.buf = world.x[0].copy()
        self.held = []

    def data(self):
        w = self.w
        return {"kind": w.kind, "kwargs": [sess.kwargs_of(p) for p in w.pars], "w": w.w0, "samples x": w.x, "samples d": w.d,
                "calls": self.log}

    def near(self, what, got, want, scale):
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            raise Violation("%s is not numeric: %r" % (what, got), self.data())
        want = np.asarray(want, dtype=float)
        if g.shape != want.shape and (g.size or want.size):
            raise Violation("%s has shape %s, the specification requires %s" % (what, g.shape, want.shape), self.data())
        if g.size and not np.all((np.abs(g - want) <= self.w.tol * scale) | ~np.isfinite(want)):
            raise Violation("%s is %s, a filter that learned the same history has %s" % (what, g.tolist(), want.tolist()), self.data())

    def sure(self, what, f, *a, **k):
        try:
            return f(*a, **k)
        except Hang:
            raise Violation("%s does not return" % what, self.data())
        except Exception as ex:
            raise Violation("%s raises %s: %s" % (what, type(ex).__name__, ex), self.data())

    def step(self, e):
        ev, t, w = e["ev"], e["t"], self.w
        op, i, q = ev["op"], ev["slot"] - 1, ev["q"]
        f = self.slots[i]
        o, h = e["s"][2 * i], e["s"][2 * i + 1]
        what = "%s of %s" % (op, w.kind)
        self.log.append([op, i, q] + [ev[k] for k in ("nt", "epochs", "how") if ev[k]])
        if op == "adapt":
            self.sure(what, f.adapt, float(w.d[q[0] - 1]), w.x[q[0] - 1].copy())
        elif op == "fill":
            self.buf[:] = w.x[q[0] - 1]
        elif op == "adaptbuf":
            self.sure(what, f.adapt, float(w.d[q[0] - 1]), self.buf)
        elif op == "again":
            self.slots[i] = self.sure(what, w.fresh, i + 1)
        elif op == "predict":
            y = self.sure(what, f.predict, w.x[q[0] - 1].copy())
            sc = self.osc(o, ev["pre"][0], q[0])
            self.near(what, y, w.pred(o, ev["pre"][0], q[0]), sc)
        elif op in ("run", "pretrained"):
            idx = [s - 1 for s in q]
            x = w.x[idx] if idx else np.zeros((0, w.n))
            d = w.d[idx]
            x, d = x.copy(), d.copy()
            if op == "run":
                got = self.sure(what, f.run, d, x)
            else:
                got = self.sure(what, f.pretrained_run, d, x, ntrain=ev["nt"] / 2.0, epochs=ev["epochs"])
            try:
                y, er, W = got
            except Exception:
                raise Violation(what + " does not return (y, e, w)", self.data())
            rest = q[ev["nt"]:]
            pre = ev["pre"]
            sc = max([self.osc(o, p, s) for p, s in zip(pre, rest)] + [0])
            want = [w.pred(o, p, s) for p, s in zip(pre, rest)]
            self.near(what + ": y", y, want, sc)
            self.near(what + ": e", er, [w.d[s - 1] - v for s, v in zip(rest, want)], sc)
            if rest:
                self.near(what + ": weight history", W, [w.ref(o, p)[0] for p in pre], w.ref(o, t[2 * i + 1])[1])
            elif len(W):
                raise Violation(what + ": weight history has rows without samples", self.data())
            self.held += [a for a in (d, x, y, er, W) if isinstance(a, np.ndarray)]
        elif op == "reject":
            calls = sess.bad_calls(f, w.d[[0, 1, 0]].copy(), w.x[[0, 1, 0]].copy(), lambda v: sess.build(w.pars[i], v))
            try:
                calls[ev["how"]]()
            except ValueError:
                pass
            except Exception as ex:
                raise Violation("%s %s raises %s instead of ValueError" % (what, ev["how"], type(ex).__name__), self.data())
            else:
                raise Violation("%s %s is accepted" % (what, ev["how"]), self.data())
        elif op == "clone":
            g = self.slots[0]
            make = {"deepcopy": copy.deepcopy, "pickle": pickled,
                    "copy of copy": lambda a: copy.deepcopy(copy.deepcopy(a))}[ev["how"]]
            self.slots[1] = self.sure(ev["how"] + " of " + w.kind, make, g)
        elif op == "scribble":
            for a in self.held:
                if a.flags.writeable:
                    a[...] = 113
            self.held = []
            self.buf[:] = 99
            self.buf = w.x[e["t"][4] - 1].copy()
        else:
            raise MachineryError("unknown event " + op)
        for j in (0, 1):
            want, scale = w.ref(t[2 * j], t[2 * j + 1])
            self.near("weights of filter %d after %s" % (j, what), self.slots[j].w, want, scale)

    def osc(self, o, h, s):
        w = self.w
        return max(w.ref(o, h)[1] * float(np.max(np.abs(w.x))), abs(float(w.d[s - 1])), 1e-20)


_job = None
_apart = False      # references in processes of their own


def _one(a):
    kind, variant = a
    es, ws, k = _job
    n = 0
    try:
        with limit(600):
            world = World(kind, variant, k)
            if _apart:
                world.isolate()
            for walk in ws:
                r = Walker(world)
                for i in walk:
                    r.step(es[i])
                    n += 1
        return n, None
    except Violation as v:
        return n, (v.what, jsonable(v.data))
    except Hang:
        return n, ("calls of %s do not return" % kind, {})
    except Exception as ex:
        import traceback
        return n, ("%s: %s raises %s: %s" % (kind, "a short life", type(ex).__name__, ex), {"traceback": traceback.format_exc()})


def exhaustive(r, consts, variants, extra=0, length=40):
    """every transition of Lifecycle with these constants on every kind of filter"""
    global _job, _apart
    _apart = r.prop == "C10"
    c = dict(consts, Ops=tla_set(consts["Ops"]), Bad=tla_set(consts.get("Bad", [])))
    es, states = edges("Lifecycle", c)
    ws = walks(es, mix("walks", r.prop), length, extra)
    padasip()
    _job = (es, ws, consts["K"])
    jobs = [(k, v) for v in variants for k in sess.KINDS]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(JOBS, maxtasksperchild=1) as pool:
        res = pool.map(_one, jobs, chunksize=1)
    for (n, bad), (kind, v) in zip(res, jobs):
        if bad:
            raise Violation("%s" % bad[0], bad[1])
    r.add(states=states, transitions=len(es), tlc_states=states, tlc_transitions=len(es), walks=len(ws),
          transitions_executed=sum(n for n, _ in res), traces_validated_against_impl=len(ws) * len(jobs))
    for e in es:
        r.count("lifecycle_actions", e["ev"]["op"])
    r.add(lifecycle="TLC, spec/tla/Lifecycle.tla, %s: every transition executed on %d filters" % (
        ", ".join("%s=%s" % kv for kv in sorted(consts.items())), len(jobs)))


QUICKC = {
    "C01": dict(Ops=["run"], K=2, L1=4, L2=2, R=4),
    "C08": dict(Ops=["adapt", "run", "fill"], K=3, L1=4, L2=0, R=4),
    "C09": dict(Ops=["adapt", "run", "predict"], K=3, L1=3, L2=1, R=1),
    "C10": dict(Ops=["adapt", "run", "fill", "scribble", "clone", "again"], K=2, L1=3, L2=3, R=2),
    "C11": dict(Ops=["adapt", "run", "reject"], K=2, L1=3, L2=1, R=2, Bad=BAD),
    "C12": dict(Ops=["adapt", "run", "pretrained"], K=2, L1=5, L2=0, R=1),
}
THOROUGHC = {
    "C01": dict(Ops=["run"], K=3, L1=5, L2=2, R=5),
    "C08": dict(Ops=["adapt", "run", "fill"], K=3, L1=5, L2=0, R=5),
    "C09": dict(Ops=["adapt", "run", "predict", "clone"], K=3, L1=4, L2=1, R=2),
    "C10": dict(Ops=["adapt", "run", "fill", "scribble", "clone", "again", "predict"], K=2, L1=4, L2=3, R=2),
    "C11": dict(Ops=["adapt", "run", "reject", "predict"], K=2, L1=5, L2=1, R=2, Bad=BAD + [
        "adapt-scalar", "run-long-d", "run-flat", "pre-short-d", "pre-narrow", "pre-wide", "pre-text", "init-short",
        "init-word", "init-text", "adapt-target-blank", "adapt-target-object", "adapt-target-empty", "run-target-text",
        "run-target-ragged", "run-target-column", "run-target-rows", "run-object", "pre-target-text", "pre-target-matrix",
        "pre-target-ragged", "run-empty-d", "run-one-d", "run-empty-x", "pre-empty-d", "pre-empty-x", "adapt-empty"]),
    "C12": dict(Ops=["adapt", "run", "pretrained"], K=3, L1=5, L2=0, R=2),
}


def lives(r):
    """the part of spec/tla/Lifecycle.tla that concerns this property"""
    if QUICK:
        exhaustive(r, QUICKC[r.prop], range(4), extra=40)
    else:
        exhaustive(r, THOROUGHC[r.prop], range(12), extra=2000)


# ---------------------------------------------------------------- multi-layer perceptrons
NETBAD = ["short-d", "long-d", "narrow", "wide", "flat-d", "wide-d", "ragged", "text", "object-d", "predict-narrow",
          "predict-wide", "predict-empty", "predict-single", "predict-text", "update-wide", "update-text", "update-layer",
          "run-narrow", "run-wide", "run-ragged", "run-text"]
NETBAD2 = ["object", "text-d", "predict-object", "update-object", "run-object"]
NETS = [([3], 2, 1, "sigmoid", "auto"), ([2, 3], 3, 2, "tanh", .2), ([2], 1, 3, "sigmoid", .5), ([3, 1], 2, 1, "tanh", "auto"),
        ([1, 2, 2], 2, 2, "sigmoid", .3), ([4], 3, 1, "tanh", .1)]


class NetWorld(World):
    def __init__(self, variant, k):
        rng = np.random.default_rng(mix("networld", variant) % 2 ** 32)
        self.sizes, self.nin, self.nout, self.f, self.mu = NETS[variant % len(NETS)]
        self.kind = "NetworkMLP(%s, %d, outputs=%d, activation=%r, mu=%r)" % (self.sizes, self.nin, self.nout, self.f, self.mu)
        self.seeds = [int(s) for s in rng.integers(0, 2 ** 31, size=2)]
        self.x = rng.normal(size=(k, self.nin))
        self.d = rng.normal(size=k) if self.nout == 1 else rng.normal(size=(k, self.nout))
        # now and then the last sample is far from the others
        if variant % 3 == 1 or variant % 4 == 3:
            self.d[-1] = self.d[-1] * 2.0 ** 14
        if variant % 4 == 2:
            self.x[-1] = self.x[-1] * 2.0 ** 8
        self.tol = 1e-9
        self.memo, self.outs = {}, {}

    def fresh(self, o):
        import warnings
        keep = np.random.get_state()
        np.random.seed(self.seeds[o - 1])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            net = padasip().ann.NetworkMLP(list(self.sizes), self.nin, outputs=self.nout, activation=self.f, mu=self.mu)
        np.random.set_state(keep)
        return net

    @staticmethod
    def weights(net):
        return np.concatenate([np.ravel(l.w) for l in net.layers] + [np.ravel(net.w)])

    def trained(self, o, h, nudge=0.0):
        net = self.fresh(o)
        for m in net.layers + [net]:
            m.w *= 1 + nudge
        for a, b in h:
            net.predict(self.x[a - 1].copy())
            net.update(np.copy(self.d[b - 1]))
        return net

    def sound(self, a, b):
        """numbers that rounding in another order could change visibly are not compared (not a number here)"""
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if np.max(np.abs(a - b), initial=0) <= 1e-10 * max(1.0, float(np.max(np.abs(a), initial=0))):
            return a
        return np.full(a.shape, np.nan)

    def ref(self, o, h):
        k = (o, str(h))
        if k not in self.memo and self.zygote:
            self.memo[k] = self.elsewhere("ref", o, h)
        if k not in self.memo:
            a, b = (self.weights(self.trained(o, h, q)) for q in (0.0, 1e-13))
            self.memo[k] = self.sound(a, b)
        return self.memo[k]

    def out(self, o, h, s):
        k = (o, str(h), s)
        if k not in self.outs and self.zygote:
            self.outs[k] = self.elsewhere("out", o, h, s)
        if k not in self.outs:
            a, b = (np.copy(self.trained(o, h, q).predict(self.x[s - 1].copy())) for q in (0.0, 1e-13))
            self.outs[k] = self.sound(a, b)
        return self.outs[k]


class NetWalker(Walker):
    def __init__(self, world):
        super().__init__(world)
        self.big = max(1.0, float(np.max(np.abs(world.d))))

    def near(self, what, got, want, scale):
        """deviations are measured against the largest numbers in the life of the network"""
        v = np.asarray(want, dtype=float)
        v = np.abs(v[np.isfinite(v)])
        top = float(np.max(v, initial=1.0))
        if "MSE" in what:
            super().near(what, got, want, max(top, self.big * top ** .5))
        else:
            self.big = max(self.big, top)
            super().near(what, got, want, self.big)

    def data(self):
        w = self.w
        return {"network": w.kind, "numpy seeds": w.seeds, "samples x": w.x, "samples d": w.d, "calls": self.log}

    def step(self, e):
        ev, t, w = e["ev"], e["t"], self.w
        op, i, q, pre = ev["op"], ev["slot"] - 1, ev["q"], ev["pre"]
        f, o = self.slots[i], e["s"][3 * i]
        what = "%s of %s" % (op, w.kind)
        self.log.append([op, i, q] + [ev[k] for k in ("epochs", "how") if ev[k]])
        if op == "predict":
            x = w.x[q[0] - 1].copy()
            y = self.sure(what, f.predict, x)
            self.near(what, y, w.out(o, pre[0], q[0]), 1.0)
            self.held += [x] + [a for a in [y] if isinstance(a, np.ndarray)]
        elif op == "predictbuf":
            y = self.sure(what, f.predict, self.buf)
            self.near(what, y, w.out(o, pre[0], q[0]), 1.0)
            self.held += [a for a in [y] if isinstance(a, np.ndarray)]
        elif op == "fill":
            self.buf[:] = w.x[q[0] - 1]
        elif op == "update":
            d = np.copy(w.d[q[1] - 1])
            er = self.sure(what, f.update, d if w.nout > 1 else float(d))
            self.near(what + ": error", er, d - w.out(o, pre[0], q[0]), 1.0)
            self.held += [a for a in (d, er) if isinstance(a, np.ndarray)]
        elif op in ("run", "test", "train"):
            idx = [s - 1 for s in q]
            x, d = w.x[idx].copy(), w.d[idx].copy()
            want = [w.out(o, p, q[k % len(q)]) for k, p in enumerate(pre)]
            if op == "run":
                got = self.sure(what, f.run, x)
                self.near(what, got, want, 1.0)
            elif op == "test":
                got = self.sure(what, f.test, x, d)
                self.near(what, got, d - np.array(want), 1.0)
            else:
                got = self.sure(what, f.train, x, d, epochs=ev["epochs"])
                er = np.array([w.d[q[k % len(q)] - 1] - v for k, v in enumerate(want)])
                self.near(what + ": errors", got[0], er, 1.0)
                N = len(q)
                self.near(what + ": MSE", got[1], [np.sum(er[k * N:k * N + N] ** 2) / N for k in range(ev["epochs"])], 1.0)
            self.held += [a for a in (x, d) + (got if isinstance(got, tuple) else (got,)) if isinstance(a, np.ndarray)]
        elif op == "reject":
            for g in net_rejected(f, ev["how"], w.x[[0, 1, 0]].copy(), w.d[[0, 1, 0]].copy()):
                try:
                    g()
                except ValueError:
                    continue
                except Exception as ex:
                    raise Violation("%s %s raises %s instead of ValueError" % (what, ev["how"], type(ex).__name__), self.data())
                raise Violation("%s %s is accepted" % (what, ev["how"]), self.data())
        elif op == "clone":
            self.slots[1] = self.sure(what, copy.deepcopy if ev["how"] == "deepcopy" else pickled, self.slots[0])
        elif op == "scribble":
            for a in self.held:
                if a.flags.writeable:
                    a[...] = 113
            self.held = []
            self.buf[:] = 99
            self.buf = w.x[t[6] - 1].copy()
        elif op == "again":
            self.slots[i] = self.sure(what, w.fresh, i + 1)
        else:
            raise MachineryError("unknown event " + op)
        for j in (0, 1):
            self.near("weights of network %d after %s" % (j, what), w.weights(self.slots[j]), w.ref(t[3 * j], t[3 * j + 1]), 1.0)


def net_rejected(net, how, X, D):
    """calls of a network that cannot be accepted"""
    one, nin = D.ndim == 1, X.shape[1]
    if how.startswith("predict-"):
        x = {"narrow": X[0][:-1], "wide": np.append(X[0], 0.5), "empty": [], "single": X[0][:1] if nin > 1 else np.ones(2),
             "text": ["abc"] * nin, "object": [object()] * nin}[how[8:]]
        return [lambda: net.predict(x)]
    if how.startswith("update-"):
        nout = 1 if one else D.shape[1]
        nhid = net.layers[-1].w.shape[0]
        ds = {"wide": [np.ones(nout + 1)], "text": ["abc", ["abc"] * nout], "object": [[object()] * nout],
              "layer": [np.ones(nhid + 1)] if nhid + 1 != nout else [np.ones(nout + 2)]}[how[7:]]
        return [lambda d=d: net.update(d) for d in ds]
    if how.startswith("run-"):
        rows = X.tolist()
        x = {"narrow": X[:, :-1], "wide": np.hstack([X, X[:, :1]]), "ragged": rows[:-1] + [rows[-1] + [0.5]],
             "text": [[str(a) for a in q] for q in rows[:-1]] + [["abc"] * nin], "object": rows[:-1] + [[object()] * nin]}[how[4:]]
        return [lambda: net.run(x)]
    return [lambda g=g: g(*bad_data(how, X, D)) for g in (net.train, net.test)]


def bad_data(how, X, D):
    one = D.ndim == 1
    if how in ("text-d", "object-d"):
        q = D.astype(object)
        q[-1] = "abc" if how == "text-d" else object()
        return X, q
    if how in ("text", "object"):
        q = X.astype(object)
        q[-1] = "abc" if how == "text" else object()
        return q, D
    if how == "short-d":
        D = D[:-1]
    elif how == "long-d":
        D = np.concatenate([D, D[:1]])
    elif how == "narrow":
        X = X[:, :-1]
    elif how == "wide":
        X = np.hstack([X, X[:, :1]])
    elif how == "flat-d":
        D = D[:, None] if one else D[:, 0].copy()
    elif how == "wide-d":
        D = np.stack([D, D], 1) if one else np.hstack([D, D[:, :1]])
    elif how == "ragged":
        X = [q.tolist() for q in X]
        X[-1] = X[-1] + [0.5]
    return X, D


def _net(variant):
    es, ws, k = _job
    n = 0
    try:
        with limit(600):
            world = NetWorld(variant, k)
            if _apart:
                world.isolate()
            for walk in ws:
                r = NetWalker(world)
                for i in walk:
                    r.step(es[i])
                    n += 1
        return n, None
    except Violation as v:
        return n, (v.what, jsonable(v.data))
    except Hang:
        return n, ("calls of a network do not return", {})
    except Exception as ex:
        import traceback
        return n, ("networks: a short life raises %s: %s" % (type(ex).__name__, ex), {"traceback": traceback.format_exc()})


def net_lives(r, consts, variants, extra=40, length=40):
    """every transition of Network with these constants on every network"""
    global _job, _apart
    _apart = True
    c = dict(consts, Ops=tla_set(consts["Ops"]), Bad=tla_set(consts.get("Bad", [])))
    es, states = edges("Network", c)
    ws = walks(es, mix("walks", r.prop), length, extra)
    padasip()
    _job = (es, ws, consts["K"])
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(JOBS, maxtasksperchild=1) as pool:
        res = pool.map(_net, list(variants), chunksize=1)
    for n, bad in res:
        if bad:
            raise Violation(*bad)
    r.add(states=states, transitions=len(es), tlc_states=states, tlc_transitions=len(es), walks=len(ws),
          transitions_executed=sum(n for n, _ in res), traces_validated_against_impl=len(ws) * len(res))
    for e in es:
        r.count("lifecycle_actions", e["ev"]["op"])
    r.add(lifecycle="TLC, spec/tla/Network.tla, %s: every transition executed on %d networks" % (
        ", ".join("%s=%s" % kv for kv in sorted(consts.items())), len(res)))
