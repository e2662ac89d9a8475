"""C26, C27: the multi-layer perceptron, behaviours of spec/mlp.qnt replayed, shuffled training logged."""
import warnings
import numpy as np
from common import *
from registry import check
from checks_filters import behaviours
from checks_data import invoke, arr
from sess import rep
import relog
import lifecycle
import concur
from longlives import long_networks

TOL = 1e-8


def refused(what, data, f):
    try:
        with limit(30):
            got = f()
    except Hang:
        raise Violation("%s does not return" % what, data)
    except ValueError:
        return
    except Exception as ex:
        raise Violation("%s raises %s (%s) instead of ValueError" % (what, type(ex).__name__, ex), data)
    raise Violation("%s is accepted and returns %r" % (what, got), data)


def network(ev, data):
    kw = {"outputs": ev["nout"], "activation": ev["f"], "mu": "auto" if ev["auto"] else fl(ev["mu"])}
    # what the documentation gives as defaults may as well be left out
    if len(ev["sizes"]) % 2:
        for k, v in (("outputs", 1), ("activation", "sigmoid"), ("mu", "auto")):
            if kw[k] == v:
                del kw[k]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        net = invoke("NetworkMLP", data, padasip().ann.NetworkMLP, list(ev["sizes"]), ev["nin"], **kw)
    return net


def weights(net):
    return [np.array(l.w, dtype="float64") for l in net.layers] + [np.array(net.w, dtype="float64")]


def initial(net, ev, data):
    """shapes of the random initial weights, then the weights of the behaviour"""
    ins = [ev["nin"]] + ev["sizes"]
    for k, l in enumerate(net.layers):
        if np.shape(l.w) != (ev["sizes"][k], ins[k] + 1):
            raise Violation("weights of hidden layer %d have shape %s" % (k, np.shape(l.w)), data)
        l.w[...] = arr(ev["hidden"][k])
    one = ev["nout"] == 1
    want = (ins[-1] + 1,) if one else (ev["nout"], ins[-1] + 1)
    if np.shape(net.w) != want:
        raise Violation("weights of the output layer have shape %s" % (np.shape(net.w),), data)
    net.w[...] = arr(ev["out"])[0] if one else arr(ev["out"])


class Network:
    def __init__(self, r):
        self.r, self.log, self.held = r, [], []

    def data(self):
        return {"history": self.log}

    def hold(self, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.held.append((a, a.copy()))

    def unchanged(self):
        for a, b in self.held:
            if not np.array_equal(a, b):
                raise Violation("an array passed in or returned earlier was changed: %s became %s" % (b, a), self.data())

    def compare(self, what, got, want):
        same(what, got, want, TOL, self.data())

    def check_weights(self, ev, what):
        for k, l in enumerate(self.net.layers):
            self.compare("weights of hidden layer %d after %s" % (k, what), l.w, mat(ev["hidden"][k]))
        w = mat(ev["out"])
        self.compare("weights of the output layer after %s" % what, self.net.w, w[0] if self.one else w)

    def out(self, M):
        m = mat(M)
        return [q[0] for q in m] if self.one else m

    def target(self, D, form="f64"):
        D = arr(D)
        d, _ = rep(form if form in ("f64", "strided", "readonly", "i64", "f32", "fortran") else "f64", D[:, 0] if self.one else D)
        return d

    def step(self, ev):
        op = ev["op"]
        self.r.count("actions", op + (" " + ev["bad"] if ev["bad"] else ""))
        self.r.count("forms", ev["form"])
        if op == "none":
            return
        if op == "create":
            self.log.append({k: ev[k] for k in ("op", "nin", "sizes", "nout", "f", "auto")} | {"mu": fl(ev["mu"])})
            self.one = ev["nout"] == 1
            self.nout = ev["nout"]
            self.net = network(ev, self.data())
            initial(self.net, ev, self.data())
            self.log[-1]["weights"] = weights(self.net)
            return
        net = self.net
        X = arr(ev["X"])
        before = weights(net)
        if op == "predict":
            x, form = rep(ev["form"], X[0])
            self.log.append({"op": op, "x": x, "form": form})
            self.hold(x)
            y = invoke("predict", self.data(), net.predict, x)
            self.compare("output", y, self.out(ev["Y"])[0])
            self.hold(y)
        elif op in ("run", "test"):
            x, form = rep(ev["form"], X)
            d = self.target(ev["D"], form)
            self.log.append({"op": op, "x": x, "d": d, "form": form})
            self.hold(x, d)
            if op == "run":
                got = invoke("run", self.data(), net.run, x)
                self.compare("outputs of run", got, self.out(ev["Y"]))
                for k in range(len(X)):
                    self.compare("output of predict for a row of run", invoke("predict", self.data(), net.predict, X[k]), got[k])
            else:
                got = invoke("test", self.data(), net.test, x, d)
                self.compare("errors of test", got, self.out(ev["E"]))
            self.hold(got)
        elif op == "train":
            x, form = rep(ev["form"], X)
            d = self.target(ev["D"], form)
            n = ev["epochs"]
            self.log.append({"op": op, "x": x, "d": d, "epochs": n, "form": form})
            self.hold(x, d)
            # ten epochs are the documented default
            e, mse = invoke("train", self.data(), net.train, x, d, **({} if n == 10 else {"epochs": n}))
            self.compare("errors of training", e, self.out(ev["E"]))
            self.compare("MSE of the epochs", mse, vec(ev["mse"]))
            self.hold(e, mse)
        elif op == "one":
            d = self.target(ev["D"])[0]
            self.log.append({"op": "predict, update", "x": X[0], "d": d})
            y = invoke("predict", self.data(), net.predict, X[0])
            self.compare("output", y, self.out(ev["Y"])[0])
            if any(ev["hit"]):
                # targets met exactly: to the last bit of the output
                d = np.where(ev["hit"], y, d) if not self.one else float(y)
                self.log[-1]["d"] = d
            e = invoke("update", self.data(), net.update, d)
            self.compare("error of update", e, self.out(ev["E"])[0])
            self.hold(e)
        elif op == "reject":
            self.reject(ev, X)
        self.unchanged()
        if op in ("predict", "run", "test", "reject"):
            for k, (a, b) in enumerate(zip(before, weights(net))):
                if not np.array_equal(a, b):
                    raise Violation("%s changed the weights of layer %d" % (op, k), self.data())
        self.check_weights(ev, op)

    def reject(self, ev, X):
        bad, what, net = ev["bad"], ev["f"], self.net
        D = self.target(ev["D"])
        N = len(X)
        if bad == "narrow-d":
            calls = [lambda: getattr(net, what)(X, np.zeros((N, 1)) if self.one else D[:, :-1])]
        else:
            calls = lifecycle.net_rejected(net, bad, X, D)
        self.log.append({"op": "reject", "bad": bad, "x": X, "d": D})
        for c in calls:
            refused("a call with unusable data (%s)" % bad, self.data(), c)


def networks(r, prop, quick, thorough, step):
    for i in range(1 if QUICK else thorough[1]):
        for t in behaviours(prop, quick if QUICK else thorough[0], 8, i, spec="mlp.qnt", main="mlp", step=step):
            p = Network(r)
            for s in t:
                p.step(s["ev"])
            r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)
            r.sample(p.log[:2])
        if r.left(450) < 0:
            break


@check("C26")
def c26(r):
    networks(r, "C26", 300, (400, 15), "stepInfer")
    r.add(config="spec/mlp.qnt stepInfer")


def rows(m):
    return [[real(v) for v in q] for q in np.atleast_2d(np.asarray(m, dtype="float64"))]


def spec_net(net, nin, f, mus, muo):
    return {"nin": nin, "hidden": [rows(l.w) for l in net.layers], "out": rows(net.w), "f": f, "mus": mus, "muOut": muo}


def shuffled(r):
    """training with shuffle=True: logged, the order found and judged by the specification"""
    rng = np.random.default_rng(mix("mlp shuffle") % 2 ** 32)
    np.random.seed(mix("mlp shuffle np") % 2 ** 32)
    recs, datas = [], []
    for j in range(16 if QUICK else 160):
        nin = int(rng.integers(1, 4))
        sizes = [int(a) for a in rng.integers(1, 4, size=1 + j % 2)]
        nout = 1 + (j // 2) % 2
        f = ("sigmoid", "tanh")[(j // 4) % 2]
        auto = bool(j % 3)
        N, epochs = int(rng.integers(2, 6)), int(rng.integers(1, 4))
        kw = {"outputs": nout, "activation": f, "mu": "auto" if auto else 0.2}
        x = rng.normal(size=(N, nin))
        d = rng.normal(size=N) if nout == 1 else rng.normal(size=(N, nout))
        data = {"sizes": sizes, "nin": nin, "kwargs": kw, "x": x, "d": d, "epochs": epochs}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            net = invoke("NetworkMLP", data, padasip().ann.NetworkMLP, sizes, nin, **kw)
        ins = [nin] + sizes
        mus = [real(m ** -.5 if auto else .2) for m in ins]
        first = spec_net(net, nin, f, mus[:-1], mus[-1])
        data["weights"] = weights(net)
        x0, d0 = x.copy(), d.copy()
        e, mse = invoke("train", data, net.train, x, d, epochs=epochs, shuffle=True)
        if not (np.array_equal(x, x0) and np.array_equal(d, d0)):
            raise Violation("train changed its data", data)
        e = np.asarray(e, dtype="float64")
        want = (N * epochs,) if nout == 1 else (N * epochs, nout)
        if e.shape != want or np.shape(mse) != (epochs,) or not np.all(np.isfinite(e)):
            raise Violation("train returns errors of shape %s and MSE of shape %s" % (e.shape, np.shape(mse)), data)
        recs.append({"net": first, "X": rows(x), "D": rows(d if nout > 1 else d[:, None]), "epochs": epochs,
                     "E": rows(e if nout > 1 else e[:, None]), "mse": [real(v) for v in mse],
                     "net2": spec_net(net, nin, f, mus[:-1], mus[-1])})
        datas.append({**data, "e": e, "mse": mse})
    for v, data in zip(relog.judge("mlp", "mlplog", recs, batch=4), datas):
        if v:
            raise Violation("shuffled training: %s" % v, data)
        if v == "":
            r.add(relation_instances=1)


def orders(r):
    """the order of every epoch is fresh: 8 samples, told apart by their errors with learning rate 0"""
    rng = np.random.default_rng(mix("mlp orders") % 2 ** 32)
    np.random.seed(mix("mlp orders np") % 2 ** 32)
    N, epochs = 8, 40
    seen = []
    for nout in (1, 2):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            net = padasip().ann.NetworkMLP([2], 3, outputs=nout, mu=0.0)
        x = rng.normal(size=(N, 3))
        d = 100. * np.arange(1, N + 1)
        dd = d if nout == 1 else np.stack([d, -d], 1)
        data = {"x": x, "d": dd, "epochs": epochs, "shuffle": True, "mu": 0.0}
        for what, kw in (("first", {"shuffle": True}), ("second", {"shuffle": True}), ("unshuffled", {})):
            e, _ = invoke("train", data, net.train, x, dd, epochs=epochs, **kw)
            e = np.asarray(e).reshape(epochs, N, -1)[:, :, 0]
            got = [tuple(int(v) for v in np.argmin(abs(q[:, None] - (d - net_out(net, x, nout))[None, :]), 1)) for q in e]
            for q in got:
                if sorted(q) != list(range(N)):
                    raise Violation("an epoch of training used the samples %s" % (q,), data)
            if what == "unshuffled":
                if any(q != tuple(range(N)) for q in got):
                    raise Violation("training without shuffling used the order %s" % (got[0],), data)
                continue
            seen.append(got)
            # 40 fresh orders out of 40320: two equal neighbours or fewer than 38 different ones do not happen
            if len(set(got)) < 36:
                raise Violation("shuffled training used only %d different orders in %d epochs" % (len(set(got)), epochs), data)
            pos = np.array([[q.index(i) for i in range(N)] for q in got])
            m = pos.mean(0)
            if np.any(abs(m - 3.5) > 6 * 2.3 / np.sqrt(epochs)):
                raise Violation("shuffled training puts samples at positions %s on average" % (m,), data)
            # a fresh order has no memory of the order of the epoch before
            same_ = np.mean([[a == b for a, b in zip(q, p)] for q, p in zip(got, got[1:])])
            if same_ > 0.4:
                raise Violation("shuffled training repeats the order of the epoch before (%g)" % same_, data)
    for a in range(len(seen)):
        for b in range(a):
            if seen[a] == seen[b]:
                raise Violation("two calls of train(shuffle=True) use the same orders", {})
    r.add(shuffled_epochs=len(seen) * epochs)


def net_out(net, x, nout):
    y = np.asarray(net.run(x))
    return y if nout == 1 else y[:, 0]


@check("C27")
def c27(r):
    long_networks(r)
    networks(r, "C27", 300, (400, 12), "stepTrain")
    # theorem of the specification: the step is the negative gradient
    for i in range(1 if QUICK else 4):
        ts = behaviours("C27d", 48 if QUICK else 400, 1, i, spec="mlp.qnt", main="mlpdesign", invariant="gradientDescent",
                        init="begin", step="begin")
        r.add(gradient_instances=len(ts))
    for bad in ("fast", None, [0.1, 0.2]):
        refused("NetworkMLP with mu=%r" % (bad,), {"mu": bad}, lambda: padasip().ann.NetworkMLP([2], 2, mu=bad))
    shuffled(r)
    orders(r)
    r.add(config="spec/mlp.qnt stepTrain, mlpdesign, mlplog")


# ---------------------------------------------------------------- C31
def drawn_network(shape, data, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sizes = list(shape["sizes"])
        net = invoke("NetworkMLP", data, padasip().ann.NetworkMLP, sizes, shape["nin"], outputs=shape["nout"], **kw)
    if sizes != list(shape["sizes"]):
        raise Violation("NetworkMLP changed the list of layers it was given", data)
    for w in weights(net):
        if not np.all(np.isfinite(w)):
            raise Violation("initial weights of a network are not finite", data)
    return net


def drawn_numbers(entry):
    """how many numbers an entry of rng.drawn stands for"""
    if len(entry) == 1:
        return entry[0]
    nin, nout, sizes = entry[0], entry[1], entry[2:]
    return sum((a + 1) * b for a, b in zip([nin] + sizes, sizes + [nout]))


def netweights(r, t, memo):
    log = []
    for b, s in zip([None] + t, t):
        ev = s["ev"]
        log.append({k: ev[k] for k in ("op", "shape", "n", "seed", "auto", "f")})
        data = {"history": log}
        if ev["op"] == "seed":
            np.random.seed(88000 + ev["seed"])
        elif ev["op"] == "draw":
            np.random.normal(0, 1, ev["n"])
        else:
            net = drawn_network(ev["shape"], data, activation=ev["f"], mu="auto" if ev["auto"] else 0.3)
            got = np.concatenate([w.ravel() for w in weights(net)])
            if len(set(got.tolist())) < got.size:
                raise Violation("initial weights of a network repeat a number", data)
            key = (b["rng"]["seed"], sum(drawn_numbers(list(q)) for q in b["rng"]["drawn"]), str(ev["shape"]),
                   str(b["rng"]["drawn"]))
            known = memo.get(key)
            if known is not None and not np.array_equal(known, got):
                raise Violation("initial weights of a network are %s; the same state of numpy's generator gave %s before" % (
                    got.tolist(), known.tolist()), data)
            if ev["twin"] and known is None:
                raise MachineryError("twin unknown")
            for k, v in memo.items():
                if k[:2] != key[:2] and k[2] == key[2] and np.array_equal(v, got):
                    raise Violation("initial weights of a network repeat those drawn at another position of the generator", data)
            memo[key] = got
            r.count("draws", "repeated" if known is not None else "new")
    r.add(states=len(t), transitions=len(t) - 1, traces_validated_against_impl=1)


@check("C31")
def c31(r):
    q = QUICK
    long_networks(r)
    concur.nets_together(r)
    for c in (dict(Ops=["predict", "update", "train", "run"], K=2, L1=3 if q else 4, L2=0, R=2),
              dict(Ops=["predict", "update", "fill", "clone", "scribble", "again"], K=2, L1=1 if q else 2, L2=1, R=1),
              dict(Ops=["predict", "update", "train", "run", "reject"], K=2, L1=2, L2=1, R=1, Bad=lifecycle.NETBAD + ([] if q else lifecycle.NETBAD2))):
        lifecycle.net_lives(r, c, range(6 if q else 12), extra=40 if q else 1000)
    memo = {}
    for t in behaviours("C31", 160 if q else 1600, 14, 0, spec="weights.qnt", main="netweights"):
        netweights(r, t, memo)
    # pooled draws of every layer, scaled to deviation 1/2
    recs, labels = [], []
    for j, (nin, sizes, nout) in enumerate(((9, [20, 40], 1), (400, [1], 1), (4, [80, 25], 16), (1, [200, 4], 80), (3, [2, 90, 3], 100))):
        np.random.seed(mix("netpool", j) % 2 ** 32)
        ins = [nin] + sizes
        pools = [[] for _ in ins]
        while min(len(p) for p in pools) < 400:
            net = drawn_network({"sizes": sizes, "nin": nin, "nout": nout}, {"sizes": sizes, "nin": nin, "nout": nout})
            for p, w, m in zip(pools, weights(net), ins):
                p += [float(a) * m ** .5 / 2 for a in np.ravel(w)]
        for k, p in enumerate(pools):
            recs.append({"v": [real(a) for a in p[:400]]})
            labels.append((sizes, nin, nout, k))
    for v, l, rec in zip(relog.judge("weights", "drawlog", recs, batch=2), labels, recs):
        if v:
            raise Violation("random initial weights of layer %d of a network (%s, %d inputs, %d outputs) are not a sample of "
                            "N(0, 1/inputs): %s (scaled to deviation 0.5)" % (l[3], l[0], l[1], l[2], v), {"w": vec(rec["v"])})
        if v == "":
            r.add(relation_instances=1)
    r.add(config="spec/tla/Network.tla, spec/weights.qnt netweights and drawlog")
