"""Code to specification: histories logged from the real filters, validated by spec/tracefilter.qnt."""
import numpy as np
from common import *
import sess

B, RES = 112, 72


def pack(values):
    t = 0
    for k, v in enumerate(values):
        if not np.isfinite(v) or abs(v) > 2.0 ** 37:
            return None
        t |= (round(Fraction(float(v)) * (1 << RES)) + (1 << (B - 1))) << (B * k)
    return t


def qpar(par):
    return "{ " + ", ".join('%s: "%s"' % (k, v) if isinstance(v, str) else "%s: %d" % (k, v)
                            for k, v in par.items()) + " }"


def module(par, d, x, y, e, W):
    """W has one row more than x: the final weights"""
    n = par["n"]
    toks = []
    over = False
    # the log ends where the weights leave the range the specification can follow
    for k in range(len(W)):
        ok = bool(np.all(np.isfinite(W[k]))) and float(np.max(np.abs(W[k]), initial=0)) < 2.0 ** 36
        if not ok:
            over = True
            W = np.vstack([W[:k], np.zeros((1, n))])
        if not ok or np.max(np.abs(W[k]), initial=0) > 2.0 ** 12:
            W, x, d = W[:k + 1], x[:k], d[:k]
            y, e = (None, None) if y is None else (y[:k], e[:k])
            break
    for k in range(len(W)):
        if k < len(x):
            t = pack([d[k], 0 if y is None else y[k], 0 if e is None else e[k]] + list(x[k]) + list(W[k]))
        else:
            t = pack([0, 0, 0] + [0] * n + list(W[k]))
        if t is None:
            raise Violation("entry %d of the history is not finite" % k,
                            {"par": par, "sample": k, "y": None if y is None else y[k], "w": W[k]})
        toks.append("0x%x" % t)
    out = ["module T {", ' import fx.* from "./fx"', ' import filters.* from "./filters"']
    names = []
    for c in range(0, len(toks), 50):
        names.append("L%d" % c)
        out.append(" pure val L%d: List[int] = [%s]" % (c, ",".join(toks[c:c + 50])))
    out.append(" pure def entry(i: int): int = " + "".join(
        "if (i < %d) %s[i - %d] else " % (50 * c + 50, nm, 50 * c) for c, nm in enumerate(names)) + "0")
    out.append(" pure val P: Par = %s" % qpar(par))
    out.append(' import tracefilter(PAR = P, SIZE = %d, Y = %s, OVER = %s).* from "./tracefilter"' % (
        len(toks), "false" if y is None else "true", "true" if over else "false"))
    out += [" action init = begin", " action step = consume(entry(i))", "}"]
    return "\n".join(out), len(toks)


def last_state(text, steps, timeout=600, invariant=None):
    """run a deterministic generated module for `steps` steps and return its last state"""
    d = scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".qnt"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "T.qnt"), "w") as f:
            f.write(text)
        cmd = ["quint", "run", "T.qnt", "--main", "T", "--max-samples", "1", "--n-traces", "1", "--max-steps",
               str(steps), "--seed", "0x1", "--out-itf", "o.itf.json", "--verbosity", "1"]
        if invariant:
            cmd += ["--invariant", invariant]
        rc, out = _call(cmd, d, timeout)
        p = os.path.join(d, "o.itf.json")
        if not os.path.exists(p):
            raise MachineryError("trace validation failed to run: " + out[:1500])
        return load_itf(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _call(cmd, d, timeout):
    import common
    return common._run(cmd, d, timeout)


def validate(jobs):
    """jobs: (label, par, d, x, y, e, W); returns (label, accepted entries, failed clause) per job"""
    def one(j):
        label, par, d, x, y, e, W = j
        try:
            text, n = module(par, d, x, y, e, W)
        except Violation as v:
            return label, 0, 1, v.what
        s = last_state(text, n, invariant="accepted")[-1]
        if s["bad"]:
            return label, s["i"] - 1, n, s["bad"]
        if s["i"] != n:
            raise MachineryError("trace %s stopped at %d of %d" % (label, s["i"], n))
        return label, n, n, ""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))
