// -*- mode: Bluespec; -*-
/// Names, factories and defaults: every way to obtain a filter gives the filter of that name with the
/// parameters that were passed and the documented defaults for the rest.
module registry {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  type Ev = { factory: str, letter: str, par: Par, given: Set[str], zeros: bool, w0: Vec,
              d: Vec, x: Mat, y: Vec, e: Vec, W: Mat, w: Vec, err: bool }
  var ev: Ev
  /// what was already created; nothing of it influences what comes next
  var made: Set[str]

  pure val ALL: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  pure val FIELDS: List[str] = ["mu", "eps", "ro", "a", "lambd", "alpha", "order", "ifc", "mem"]
  pure val NONE: Ev = { factory: "none", letter: "", par: defaults("LMS", 1), given: Set(), zeros: true, w0: [],
    d: [], x: [], y: [], e: [], W: [], w: [], err: false }

  /// the parameters in `given` as passed, all others as documented
  pure def merge(p: Par, q: Par, given: Set[str]): Par = {
    kind: p.kind, n: p.n,
    mu: if (given.contains("mu")) p.mu else q.mu,
    eps: if (given.contains("eps")) p.eps else q.eps,
    ro: if (given.contains("ro")) p.ro else q.ro,
    a: if (given.contains("a")) p.a else q.a,
    lambd: if (given.contains("lambd")) p.lambd else q.lambd,
    alpha: if (given.contains("alpha")) p.alpha else q.alpha,
    order: if (given.contains("order")) p.order else q.order,
    ifc: if (given.contains("ifc")) p.ifc else q.ifc,
    mem: if (given.contains("mem")) p.mem else q.mem
  }
  pure def subset(s: int): Set[str] =
    range(0, 9).foldl(Set(), (g, i) => if (draw(s, 900 + i, 2) == 0) g.union(Set(FIELDS[i])) else g)

  action init = all { ev' = NONE, made' = Set() }
  action make = {
    nondet factory = Set("AdaptiveFilter", "get_filter", "filter_data", "class", "positional").oneOf()
    nondet letter = Set("asis", "upper", "lower", "swap").oneOf()
    nondet kind = ALL.oneOf()
    nondet n = 1.to(4).oneOf()
    nondet N = 0.to(7).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet c = Set(0, 1, 2, 5, 6, 9).oneOf()
    nondet none = Set(true, false, false).oneOf()
    val given = if (none) Set() else if (factory == "positional") Set("mu") else subset(s)
    val p = merge(params(kind, n, s), defaults(kind, n), given)
    val z = draw(s, 950, 2) == 0
    val w0 = if (z) zeros(n) else range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 1, 6)))
    val st = newFilter(p, w0)
    val M = if (factory == "filter_data") N + 1 else N
    val x = samples(c, s, M, n)
    val d = targets(c, s, M)
    val r = runF(p, st, d, x)
    all {
      okRun(p, st, d, x),
      made' = made.union(Set(kind)),
      ev' = { factory: factory, letter: letter, par: p, given: given, zeros: z, w0: w0, d: d, x: x,
              y: r.y, e: r.e, W: r.W, w: r.st.w, err: false }
    }
  }
  /// LMS is what one gets without naming a model
  action makeDefault = {
    nondet factory = Set("AdaptiveFilter", "filter_data").oneOf()
    nondet n = 1.to(4).oneOf()
    nondet s = 0.to(2^30).oneOf()
    val p = defaults("LMS", n)
    val w0 = range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 1, 6)))
    val x = samples(1, s, 5, n)
    val d = targets(1, s, 5)
    val r = runF(p, newFilter(p, w0), d, x)
    all {
      made' = made.union(Set("LMS")),
      ev' = { factory: factory, letter: "omitted", par: p, given: Set(), zeros: false, w0: w0, d: d, x: x,
              y: r.y, e: r.e, W: r.W, w: r.st.w, err: false }
    }
  }
  /// names, sizes and data that select nothing
  action refuse = {
    nondet factory = Set("AdaptiveFilter", "get_filter", "filter_data").oneOf()
    nondet letter = Set("unknown", "empty", "prefix", "suffix", "nosize", "vector-x", "scalar-x", "scalar-d").oneOf()
    nondet kind = ALL.oneOf()
    all {
      letter == "nosize" implies factory == "AdaptiveFilter",
      Set("vector-x", "scalar-x", "scalar-d").contains(letter) implies factory == "filter_data",
      made' = made,
      ev' = { ...NONE, factory: factory, letter: letter, par: defaults(kind, 2), err: true,
              d: targets(1, 7, 3), x: samples(1, 7, 3, 2) }
    }
  }
  action step = any { make, make, make, make, makeDefault, refuse }
  val inv = ev.y.length() == ev.d.length() or ev.err
}
