"""Lives of the machine Lifecycle far beyond what TLC enumerates: thousands of calls on one object.  The object
must have learned its word and nothing else, so it is compared with one that learned the same word by run()."""
import copy
import warnings
import numpy as np
from common import *
import sess


def apart(what, got, want, data, scale, kind):
    # the same operations in the same order: rounding may differ a little, and decisions on signs amplify nothing here
    same(what, got, want, max(1e-7, sess.TOL.get(kind, 0)), data, scale)


def live(r, kind, rng, N):
    from checks_filters import good_par, series, STYLES
    prop = r.prop
    n = int(rng.integers(2, 5))
    p = good_par(kind, n, rng)
    style = STYLES[int(rng.integers(0, 4))]
    d, x = series(N, n, rng, style)
    w0 = rng.normal(size=n) * .5
    data = {"kwargs": sess.kwargs_of(p), "n": n, "w": w0, "style": style, "samples": N, "d": d, "x": x}
    f = sess.build(p, w0.copy())
    y, e, W = f.run(d, x)
    end = np.array(f.w)
    scale = max(1e-20, float(np.max(np.abs(W))), float(np.max(np.abs(end))))
    if not (scale < 1e6 and np.max(np.abs(y)) < 1e8):
        return False
    big = max(float(np.max(np.abs(d))), scale * float(np.max(np.abs(x))))
    what = "%s, %d samples: " % (kind, N)
    calls = N
    if prop == "C08":
        g, ys = sess.build(p, w0.copy()), []
        for k in range(N):
            ys.append(float(g.predict(x[k])))
            g.adapt(d[k], x[k])
        apart(what + "outputs sample by sample", ys, y, data, big, kind)
        apart(what + "weights learned sample by sample", g.w, end, data, scale, kind)
        g, ys, es, k = sess.build(p, w0.copy()), [], [], 0
        while k < N:
            m = int(rng.integers(1, 12)) if rng.integers(3) else int(rng.integers(1, 500))
            a = g.run(d[k:k + m], x[k:k + m])
            ys += list(a[0])
            es += list(a[1])
            k += m
        apart(what + "outputs in pieces", ys, y, data, big, kind)
        apart(what + "errors in pieces", es, e, data, big, kind)
        apart(what + "weights learned in pieces", g.w, end, data, scale, kind)
    elif prop == "C09":
        g = sess.build(p, w0.copy())
        z = rng.normal(size=(7, n)) * np.array([1, 1e-6, 1e6, 1, 1, 1, 0])[:, None]
        for k in range(N):
            for j in range(int(rng.integers(0, 4))):
                g.predict(z[(k + j) % 7])
            g.adapt(d[k], x[k])
        for j in range(2 * N):
            g.predict(z[j % 7])
        apart(what + "weights with predictions between", g.w, end, data, scale, kind)
    elif prop == "C10":
        d2, x2 = series(N, n, rng, "noise")
        g, h, c = sess.build(p, w0.copy()), sess.build(p, w0.copy()), None
        for k in range(N):
            if k == N // 2:
                c = copy.deepcopy(g)
            g.adapt(d[k], x[k])
            h.adapt(d2[k], x2[k])
            if c is not None:
                c.adapt(d2[k], x[k] * .5)
        apart(what + "weights with other filters learning between", g.w, end, data, scale, kind)
        h2 = sess.build(p, w0.copy())
        W2 = h2.run(d2, x2)[2]
        scale2 = float(np.max(np.abs(W2)))
        if scale2 < 1e6:
            apart(what + "weights of the other filter", h.w, h2.w, data, scale2, kind)
    elif prop == "C11":
        g = sess.build(p, w0.copy())
        for k in range(N):
            if rng.integers(3) == 0:
                bad = sess.bad_calls(g, d[:5], x[:5], None)
                names = sorted(q for q in bad if not q.startswith("init"))
                name = names[int(rng.integers(len(names)))]
                try:
                    bad[name]()
                except ValueError:
                    pass
                else:
                    raise Violation(what + name + " is accepted", data)
                calls += 1
            g.adapt(d[k], x[k])
        apart(what + "weights with rejected calls between", g.w, end, data, scale, kind)
    elif prop == "C12":
        M, epochs = 30, N // 20
        cut = int(rng.integers(1, 30))
        ratio = (cut + .5) / M
        g, h = sess.build(p, w0.copy()), sess.build(p, w0.copy())
        a = g.pretrained_run(d[:M], x[:M], ntrain=ratio, epochs=epochs)
        for _ in range(epochs):
            h.run(d[:cut], x[:cut])
        b = h.run(d[cut:M], x[cut:M])
        s2 = max(1e-20, float(np.max(np.abs(h.w))), float(np.max(np.abs(b[2]))))
        if not (s2 < 1e6 and np.max(np.abs(b[0])) < 1e8):
            return False
        data.update(samples=M, ntrain=ratio, epochs=epochs)
        for name, u, v in zip(("outputs", "errors"), a, b):
            apart(what + name + " after many epochs", u, v, data, max(big, s2 * float(np.max(np.abs(x)))), kind)
        apart(what + "weights after many epochs", g.w, h.w, data, s2, kind)
    r.add(long_calls=calls)
    return True


def long_lives(r):
    rng = np.random.default_rng(mix("long", r.prop) % 2 ** 32)
    for i in range(3 if QUICK else 16):
        for kind in sess.KINDS:
            N = int(rng.integers(1100, 2600 if QUICK else 6000))
            try:
                with limit(120), np.errstate(all="ignore"):
                    ok = live(r, kind, rng, N)
            except (Violation, MachineryError):
                raise
            except Hang:
                raise Violation("%s does not return within %d calls" % (kind, N), {})
            except Exception as ex:
                raise Violation("%s, a life of %d samples, raises %s: %s" % (kind, N, type(ex).__name__, ex), {})
            r.count("long lives", kind if ok else "left out (grew)")


def shape(rng):
    sizes = [int(v) for v in rng.integers(1, 7, size=int(rng.integers(1, 4)))]
    return sizes, int(rng.integers(1, 5)), int(rng.integers(1, 4)), ("sigmoid", "tanh")[int(rng.integers(2))]


def weights(net):
    return [np.array(l.w, dtype="float64") for l in net.layers] + [np.array(net.w, dtype="float64")]


def copy_into(net, ws):
    for l, w in zip(net.layers, ws):
        l.w[...] = w
    net.w[...] = ws[-1]


def network(r, rng, N):
    """train() of many epochs is predict() and update() sample by sample; another network, inference and rejected
    calls between change nothing"""
    sizes, nin, nout, f = shape(rng)
    make = lambda: padasip().ann.NetworkMLP(list(sizes), nin, outputs=nout, activation=f, mu=.05)
    M = int(rng.integers(3, 12))
    epochs = N // M
    x = rng.normal(size=(M, nin))
    d = np.tanh(rng.normal(size=(M, nout)))
    d = d[:, 0] if nout == 1 else d
    a, b, c = make(), make(), make()
    w0 = [rng.normal(size=w.shape) * .4 for w in weights(a)]
    for net in (a, b):
        copy_into(net, w0)
    data = {"sizes": sizes, "inputs": nin, "outputs": nout, "activation": f, "mu": .05, "w": w0, "x": x, "d": d, "epochs": epochs}
    what = "network %s, %d epochs of %d samples: " % (sizes, epochs, M)
    e, mse = a.train(x, d, epochs=epochs)
    es = []
    for k in range(epochs):
        for i in range(M):
            if r.prop == "C31":
                q = int(rng.integers(0, 5))
                if q == 0:
                    c.predict(rng.normal(size=nin))
                    c.update(d[i] * 2)
                elif q == 1:
                    b.predict(rng.normal(size=nin))
                    b.run(x)
                elif q == 2:
                    b.test(x, d)
                elif q == 3:
                    for bad in (lambda: b.predict(np.ones(nin + 1)), lambda: b.train(x, d[:-1]), lambda: b.run([["a"] * nin])):
                        try:
                            bad()
                        except ValueError:
                            pass
                        else:
                            raise Violation(what + "an unacceptable call is accepted", data)
            y = b.predict(x[i])
            if r.prop == "C31" and rng.integers(4) == 0:
                c.predict(x[i] * 2)
            es.append(np.array(b.update(d[i])))
            es[-1] = es[-1] + 0 * y
    top = 1 + max(float(np.max(np.abs(w))) for w in weights(a))
    same(what + "errors", np.array(es).reshape(np.shape(e)), e, 1e-7, data, top)
    for l, (u, v) in enumerate(zip(weights(b), weights(a))):
        same(what + "weights of layer %d" % l, u, v, 1e-7, data, top)
    m = np.sum(np.asarray(e).reshape(epochs, M, -1) ** 2, axis=(1, 2)) / M
    same(what + "mean squared errors", mse, m, 1e-7, data, top * top)
    r.add(long_calls=2 * epochs * M)


def long_networks(r):
    rng = np.random.default_rng(mix("longnet", r.prop) % 2 ** 32)
    for i in range(10 if QUICK else 60):
        N = int(rng.integers(600, 2000 if QUICK else 6000))
        try:
            with limit(120), np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                network(r, rng, N)
        except (Violation, MachineryError):
            raise
        except Hang:
            raise Violation("a network does not return within %d calls" % N, {})
        except Exception as ex:
            raise Violation("the life of a network of %d samples raises %s: %s" % (N, type(ex).__name__, ex), {})
        r.count("long lives", "network")


# ---------------------------------------------------------------- one long past, two futures
def pasts(r, rng, N):
    from checks_filters import good_par, series, STYLES
    from checks_data import Fit
    import scipy.stats as st
    pa = padasip()
    cut = int(rng.integers(N // 3, N - 5))
    outlier = (1.0, 30.0, 1e3)[int(rng.integers(3))]
    for kind in sess.KINDS:
        n = int(rng.integers(1, 5))
        p = good_par(kind, n, rng)
        d, x = series(N, n, rng, STYLES[int(rng.integers(0, 5))])
        w0 = rng.normal(size=n) * .5
        d2, x2 = d.copy(), x.copy()
        if rng.integers(2):
            d2, x2 = d2[:cut + 1], x2[:cut + 1]
        else:
            d2[cut + 1:] = rng.normal(size=N - cut - 1) * outlier
            x2[cut + 1:] = rng.normal(size=(N - cut - 1, n)) * outlier ** .5
        data = {"kwargs": sess.kwargs_of(p), "w": w0, "cut": cut, "d": d, "x": x, "d2": d2, "x2": x2}
        ya, ea, Wa = sess.build(p, w0.copy()).run(d, x)
        yb, eb, Wb = sess.build(p, w0.copy()).run(d2, x2)
        k = cut + 1
        top = max(1e-20, float(np.max(np.abs(Wa[:k]))))
        if not (top < 1e6 and np.max(np.abs(ya[:k])) < 1e8 and np.max(np.abs(ea[:k])) < 1e8):
            continue
        what = "run() of %s with %d samples up to sample %d: " % (kind, N, cut)
        tol = sess.TOL.get(kind, 1e-7)
        same(what + "outputs", yb[:k], ya[:k], tol, data, 1 + float(np.max(np.abs(ya[:k]))))
        same(what + "errors", eb[:k], ea[:k], tol, data, 1 + float(np.max(np.abs(ea[:k]))))
        same(what + "weights", Wb[:k], Wa[:k], tol, data, top)
        r.add(long_calls=2)
    n = int(rng.integers(1, 5))
    w = np.cumsum(rng.normal(size=(N, n)), 0)
    e = rng.normal(size=N)
    m, win = int(rng.integers(2, min(300, cut))), int(rng.integers(2, N // 3))
    orig = st.genpareto.fit
    # the future of the first two data sets: outliers of that size, then enormous ones
    for large in (outlier, 1e12):
        w2, e2 = w.copy(), e.copy()
        w2[cut + 1:] += rng.normal(size=(N - cut - 1, n)) * large
        e2[cut:] *= large * -.5
        for name, f, k in (("learning_entropy", lambda w, e: pa.detection.learning_entropy(w, m=m, order=2), cut + 1),
                           ("learning_entropy alpha", lambda w, e: pa.detection.learning_entropy(w, m=m, alpha=[1., 3.]), cut + 1),
                           ("ELBND", lambda w, e: pa.detection.ELBND(w, e), cut),
                           ("ELBND sum", lambda w, e: pa.detection.ELBND(w, e, function="sum"), cut),
                           ("ESE", lambda w, e: pa.detection.ESE(w, window=win), cut + 1),
                           ("input_from_history", lambda w, e: pa.input_from_history(e, 7), cut - 6)):
            data = {"fn": name, "m": m, "window": win, "cut": cut, "w": w, "w2": w2, "e": e, "e2": e2}
            if name == "ESE":
                st.genpareto.fit = Fit(orig)
            try:
                a, b = f(w, e), f(w2, e2)
            finally:
                if name == "ESE":
                    del st.genpareto.fit
            a, b = np.asarray(a)[:k], np.asarray(b)[:k]
            same("%s of %d rows up to row %d" % (name, N, cut), b, a, 1e-9, data, 1 + float(np.max(np.abs(a))))
            r.add(long_calls=2)
    sizes, nin, nout, act = shape(rng)
    x = rng.normal(size=(N, nin))
    d = np.tanh(rng.normal(size=(N, nout)))
    x2, d2 = x.copy(), d.copy()
    x2[cut + 1:] *= -outlier
    d2[cut + 1:] *= outlier ** .5
    if nout == 1:
        d, d2 = d[:, 0], d2[:, 0]
    res = []
    nets = [pa.ann.NetworkMLP(list(sizes), nin, outputs=nout, activation=act, mu=.05) for _ in range(2)]
    copy_into(nets[1], weights(nets[0]))
    data = {"sizes": sizes, "cut": cut, "x": x, "d": d, "x2": x2, "d2": d2, "w": weights(nets[0])}
    for net, u, v in zip(nets, (x, x2), (d, d2)):
        y = net.run(u)
        e, _ = net.train(u, v, epochs=1)
        res.append((y[:cut + 1], e[:cut + 1]))
    for name, a, b in zip(("outputs", "training errors"), *res):
        same("network %s, %s up to sample %d of %d" % (sizes, name, cut, N), b, a, 1e-7, data, 1 + float(np.max(np.abs(a))))
    r.add(long_calls=4)


def long_pasts(r):
    rng = np.random.default_rng(mix("longpast", r.prop) % 2 ** 32)
    for i in range(3 if QUICK else 30):
        N = int(rng.integers(40, 300)) if i == 0 else int(rng.integers(1100, 1800 if QUICK else 4000))
        try:
            with limit(240), np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pasts(r, rng, N)
        except (Violation, MachineryError):
            raise
        except Hang:
            raise Violation("calls on %d samples do not return" % N, {})
        except Exception as ex:
            raise Violation("a call on %d samples raises %s: %s" % (N, type(ex).__name__, ex), {})
