"""Code to specification: logged calls judged by the relation `verdict` of a specification module."""
from common import *
from tracefilter import last_state


def lit(v):
    """Quint literal of nested lists of integers, strings, booleans and records"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, int):
        return str(v) if -1000 < v < 1000 else (hex(v) if v >= 0 else "-" + hex(-v))
    if isinstance(v, dict):
        return "{ " + ", ".join("%s: %s" % (k, lit(x)) for k, x in v.items()) + " }"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    raise MachineryError("no literal for %r" % (v,))


def text(file, module, recs):
    out = ["module T {", ' import fx.* from "./fx"', ' import %s.* from "./%s"' % (module, file)]
    for k, r in enumerate(recs):
        out.append(" pure def r%d: Logged = %s" % (k, lit(r)))
    out += [" var i: int", " var bad: str", ' action init = all { i\' = 0, bad\' = "" }', " action step = all {",
            '  i < %d, bad == "",' % len(recs), "  i' = i + 1,", "  bad' = " + "".join(
                "if (i == %d) verdict(r%d) else " % (k, k) for k in range(len(recs))) + '"",', " }",
            ' val accepted = bad == ""', "}"]
    return "\n".join(out)


def judge(file, module, recs, batch=16):
    """verdict of every record, "" when the relation holds"""
    def one(part):
        s = last_state(text(file, module, part), len(part), invariant="accepted")[-1]
        if s["bad"]:
            return [""] * (s["i"] - 1) + [s["bad"]]
        if s["i"] != len(part):
            raise MachineryError("log stopped at %d of %d" % (s["i"], len(part)))
        return [""] * len(part)
    size = max(1, min(batch, (len(recs) + JOBS - 1) // JOBS))
    parts = [recs[k:k + size] for k in range(0, len(recs), size)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, parts))
    out = []
    for part, v in zip(parts, res):
        out += v + [None] * (len(part) - len(v))        # records behind a violation are not judged
    return out
