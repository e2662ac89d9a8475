"""Overlapping calls: two threads inside the library, switched by the schedules of spec/concur.qnt.

Only one thread runs at a time; it hands over after a number of steps (bytecode instructions or lines of the
library).  A thread that waits for a second goes on by itself, so code that takes a lock is not held up for ever."""
import os
import sys
import threading
import warnings
import numpy as np
from common import *
from checks_filters import behaviours
from checks_data import invoke
import sess

INF = 10 ** 9


class Thread:
    """runs `jobs` (two functions without arguments) in two threads; schedule: list of (thread, number of steps),
    then both to the end, thread `schedule[-1]` last"""

    late = 0

    def __init__(self, jobs, schedule, opcodes):
        self.root = os.path.join(REPO, "padasip") + os.sep
        self.jobs, self.opcodes = jobs, opcodes
        self.todo = list(schedule)
        self.turn = [threading.Semaphore(0), threading.Semaphore(0)]
        self.out = [None, None]
        self.over = [False, False]
        self.steps = [0, 0]
        self.who, self.left = self.next(0)

    def next(self, me):
        while self.todo:
            p, n = self.todo.pop(0)
            if not self.over[p] and n > 0:
                return p, n
        return (me if not self.over[me] else 1 - me), INF

    def wait(self, me):
        if not self.turn[me].acquire(timeout=1.0):
            Thread.late += 1

    def tracer(self, me):
        kind = "opcode" if self.opcodes else "line"
        free = [0]         # frames of module bodies under way: the import lock is held

        def local(frame, event, arg):
            if event == kind:
                self.steps[me] += 1
                if self.who == me and not free[0]:
                    self.left -= 1
                    if self.left <= 0:
                        self.who, self.left = self.next(me)
                        if self.who != me:
                            self.turn[self.who].release()
                            self.wait(me)
            return local

        def module(frame, event, arg):
            if event == "return":
                free[0] -= 1
            return module

        def top(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.root):
                return None
            if frame.f_code.co_name == "<module>":
                free[0] += 1
                return module
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return top

    def body(self, me):
        if self.who != me:
            self.wait(me)
        sys.settrace(self.tracer(me))
        try:
            res = ("ok", self.jobs[me]())
        except BaseException as ex:
            res = ("raised", ex)
        finally:
            sys.settrace(None)
        self.out[me] = res
        self.over[me] = True
        if self.who == me:
            self.who, self.left = self.next(1 - me)
            self.turn[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(30)
            if t.is_alive():
                raise Hang()
        return self.out


def together(what, jobs, schedule, data, opcodes=True):
    data = dict(data, schedule=[list(s) for s in schedule[:60]], step="instruction" if opcodes else "line")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = Thread(jobs, schedule, opcodes)
            res = t.run()
    except Hang:
        raise Violation("%s: overlapping calls do not return" % what, data)
    for i, (how, v) in enumerate(res):
        if how != "ok":
            raise Violation("%s: overlapping with the other call, call %d raises %s: %s" % (
                what, i, type(v).__name__, v), data)
    return [v for _, v in res], t.steps, data


# ---------------------------------------------------------------- filters
def job(f, q, d, x):
    if q["how"] == "run":
        return lambda: f.run(d, x)
    if q["how"] == "pretrained":
        return lambda: f.pretrained_run(d, x, ntrain=0.0, epochs=1)

    def online():
        y, W = [], []
        for k in range(len(d)):
            W.append(f.w.copy())
            y.append(f.predict(x[k]))
            f.adapt(d[k], x[k])
        return np.array(y), d - np.array(y), np.array(W)
    return online


def duo(r, procs, schedule, opcodes):
    fs, jobs, ds = [], [], []
    desc = []
    for q in procs:
        d, x = np.array(vec(q["d"])), np.array(mat(q["x"]))
        w = np.array(vec(q["w0"]))
        f = invoke("constructing " + q["par"]["kind"], {}, sess.build, q["par"], w)
        fs.append(f)
        jobs.append(job(f, q, d, x))
        desc.append({"kind": q["par"]["kind"], "n": q["par"]["n"], "kwargs": sess.kwargs_of(q["par"]), "w": w, "d": d, "x": x,
                     "how": q["how"]})
    name = " and ".join("%s of %s" % (q["how"], q["par"]["kind"]) for q in procs)
    res, steps, data = together(name, jobs, schedule, {"filters": desc}, opcodes)
    for q, f, (y, e, W) in zip(procs, fs, res):
        kind, a = q["par"]["kind"], q["alone"]
        tol = max(1e-7, sess.TOL.get(kind, 0))
        sw = max(sess.big(vec(a["w"]), mat(a["W"])), sess.FLOOR.get(kind, 1e-20))
        sc = max(sw * sess.big(mat(q["x"])), sess.big(vec(q["d"]), vec(a["y"]), vec(a["e"])), sess.FLOOR.get(kind, 1e-20))
        what = "%s of %s with another call of the library under way: " % (q["how"], kind)
        same(what + "y", y, vec(a["y"]), tol, data, sc)
        same(what + "e", e, vec(a["e"]), tol, data, sc)
        same(what + "weight history", W, mat(a["W"]), tol, data, sw)
        same(what + "weights after it", f.w, vec(a["w"]), tol, data, sw)
    return steps


def filters_together(r):
    first = {}
    for t in behaviours("C10", 240 if QUICK else 2000, 24, "concur", spec="concur.qnt", main="C10"):
        procs = t[0]["procs"]
        sched = [(s["ev"]["p"], s["ev"]["burst"]) for s in t[1:]]
        duo(r, procs, sched, True)
        r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
        kind = procs[0]["par"]["kind"]
        r.count("overlapping", kind)
        if procs[1]["par"]["kind"] == kind:
            # one of every kind; equal sizes first
            eq = procs[0]["par"] == procs[1]["par"] and min(len(q["d"]) for q in procs) > 1 and procs[0]["par"]["n"] > 1
            if kind not in first or (eq and not first[kind][0]):
                first[kind] = (eq, procs)
        if Thread.late > 30:
            break
    # one of the threads is interrupted once, at every line
    for kind in sorted(first):
        procs = [dict(q, d=q["d"][:3], x=q["x"][:3], alone=dict(
            y=q["alone"]["y"][:3], e=q["alone"]["e"][:3], W=q["alone"]["W"][:3],
            w=(q["alone"]["W"] + [q["alone"]["w"]])[min(3, len(q["d"]))])) for q in first[kind][1]]
        for hows in (("run", "run"), ("online", "online"), ("run", "online")):
            k = 1
            while k < 2000 and Thread.late <= 30:
                steps = duo(r, [dict(q, how=h) for q, h in zip(procs, hows)], [(0, k), (1, INF)], False)
                r.add(transitions=1)
                if steps[0] < k:
                    break
                k += 1
        r.count("interrupted_at_every_line", kind, k)


# ---------------------------------------------------------------- data functions, networks
def data_call(name, q):
    """(function, arguments, keywords) of a call with sizes and data named by seeds"""
    s = q["shape"]
    pa = padasip()
    g = np.random.default_rng(q["s"])
    N = 20 + s % 7
    u, v = g.normal(size=N), g.normal(size=N)
    x = g.normal(size=(N, 2 + s % 3))
    lab = ["one" if k % 3 else "two" for k in range(N)]
    return {
        "MSE": (pa.misc.MSE, (u, v), {}), "MAE": (pa.misc.MAE, (u, v), {}), "RMSE": (pa.misc.RMSE, (u,), {}),
        "logSE": (pa.misc.logSE, (u, v), {}), "get_mean_error": (pa.misc.get_mean_error, (u, v), {"function": "RMSE"}),
        "input_from_history": (pa.preprocess.input_from_history, (u, 3 + s % 2), {"bias": s % 2 == 0}),
        "standardize": (pa.preprocess.standardize, (u,), {}),
        "standardize_back": (pa.preprocess.standardize_back, (u,), {"offset": 2.0, "scale": 3.0 + s % 2}),
        "learning_entropy": (pa.detection.learning_entropy, (x,), {"m": 5 + s % 2, "order": 1 + s % 2}),
        "multiscale": (pa.detection.learning_entropy, (x,), {"m": 5 + s % 2, "order": 1 + s % 2, "alpha": [.5, 1., 2. + s % 2]}),
        "ELBND": (pa.detection.ELBND, (x, u), {"function": ("max", "sum")[s % 2]}),
        "ESE": (pa.detection.ESE, (x,), {"window": 15, "pot_method": ("10%", "sqrt")[s % 2]}),
        "PCA": (pa.preprocess.PCA, (x, 1), {}), "PCA_components": (pa.preprocess.PCA_components, (x,), {}),
        "LDA": (pa.preprocess.LDA, (x, lab, 1), {}), "LDA_discriminants": (pa.preprocess.LDA_discriminants, (x, lab), {}),
        "filter_data": (pa.filters.filter_data, (u, x), {
            "model": sess.KINDS[s % 15], "w": g.normal(size=x.shape[1]), "mu": 0.01}),
    }[name]


def flat(v):
    return np.concatenate([np.ravel(np.array(a, dtype="float64")) for a in (v if isinstance(v, tuple) else (v,))])


def close(what, got, want, data):
    if got.shape != want.shape or not np.all((np.abs(got - want) <= 1e-9 * (1 + np.abs(want))) | (got == want) |
                                             (np.isnan(got) & np.isnan(want))):
        raise Violation("%s with another call of the library under way gives %s; alone it gives %s" % (
            what, got.tolist()[:40], want.tolist()[:40]), data)


def data_together(r):
    done = set()
    for t in behaviours("C28", 160 if QUICK else 1600, 24, "concur", spec="concur.qnt", main="C28"):
        calls, alone = [], []
        data = {"calls": []}
        for q in t[0]["procs"]:
            fn, a, k = data_call(q["name"], q)
            data["calls"].append({"function": q["name"], "arguments": list(a), "keywords": dict(k)})
            calls.append(lambda fn=fn, a=a, k=k: fn(*a, **k))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                alone.append(flat(invoke(q["name"], data, calls[-1])))
        names = [q["name"] for q in t[0]["procs"]]
        scheds = [([(s["ev"]["p"], s["ev"]["burst"]) for s in t[1:]], True)]
        if names[0] == names[1] and t[0]["procs"][0]["shape"] == t[0]["procs"][1]["shape"] and names[0] not in done:
            done.add(names[0])
            scheds += [([(0, k), (1, INF)], False) for k in list(range(1, 30)) + [37, 53, 71, 97, 131]]
        for sched, opcodes in scheds:
            res, steps, d2 = together(" and ".join(names), calls, sched, data, opcodes)
            for n, got, want in zip(names, res, alone):
                close(n, flat(got), want, d2)
            r.add(transitions=len(sched))
            if steps[0] < sched[0][1] and not opcodes:
                break
        r.add(states=len(t), traces_validated_against_impl=1)
        r.count("overlapping", names[0])
        if Thread.late > 30:
            break


def net_call(name, s, base):
    """a network in the middle of its life, and what it is asked to do; `base` is copied"""
    import copy
    g = np.random.default_rng(s)
    net = copy.deepcopy(base)
    for m in net.layers + [net]:
        m.w[...] = g.normal(size=m.w.shape)
    x, d = g.normal(size=(3, 3)), g.normal(size=(3, 2))
    net.predict(x[0].copy())

    def weights():
        return [np.array(l.w) for l in net.layers] + [np.array(net.w)]
    if name == "predict":
        f = lambda: [net.predict(q) for q in x]
    elif name == "update":
        f = lambda: [(net.predict(q), net.update(p)) for q, p in zip(x, d)]
    elif name == "train":
        f = lambda: net.train(x, d, epochs=2)
    elif name == "run":
        f = lambda: net.run(x)
    else:
        f = lambda: net.test(x, d)

    def call():
        v = f()
        out = [v] if not isinstance(v, (list, tuple)) else [a for b in v for a in (b if isinstance(b, (list, tuple)) else [b])]
        return np.concatenate([np.ravel(np.array(a, dtype="float64")) for a in out] + [w.ravel() for w in weights()])
    return call


def nets_together(r):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = {s: invoke("NetworkMLP", {}, padasip().ann.NetworkMLP, list(s), 3, outputs=2, activation=a, mu=.1)
                for s, a in (((3, 4), "sigmoid"), ((2,), "tanh"), ((3, 4, 3), "tanh"))}
    shapes, done = sorted(base), set()
    for i, t in enumerate(behaviours("C31", 80 if QUICK else 1600, 24, "concur", spec="concur.qnt", main="C31")):
        ps = t[0]["procs"]
        names = [q["name"] for q in ps]
        bs = [base[shapes[i % 3]], base[shapes[(i if ps[0]["shape"] == ps[1]["shape"] else i + 1) % 3]]]
        make = lambda: [net_call(q["name"], q["s"], b) for q, b in zip(ps, bs)]
        data = {"calls": names, "seeds": [q["s"] for q in ps]}
        alone = [invoke(n, data, c) for n, c in zip(names, make())]
        scheds = [([(s["ev"]["p"], s["ev"]["burst"]) for s in t[1:]], True)]
        if names[0] == names[1] and bs[0] is bs[1] and (names[0], i % 3) not in done:
            done.add((names[0], i % 3))
            scheds += [([(0, k), (1, INF)], False) for k in list(range(1, 30)) + [37, 53, 71, 97, 131]]
        for sched, opcodes in scheds:
            res, steps, d2 = together(" and ".join(n + "()" for n in names) + " of two networks", make(), sched, data, opcodes)
            for n, got, want in zip(names, res, alone):
                close(n + "() of a network", got, want, d2)
            r.add(transitions=len(sched))
            if steps[0] < sched[0][1] and not opcodes:
                break
        r.add(states=len(t), traces_validated_against_impl=1)
        r.count("overlapping", names[0])
        if Thread.late > 30:
            break
