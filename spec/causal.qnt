// -*- mode: Bluespec; -*-
/// C32: online results are causal.  Two series agree up to a cut and differ afterwards (or the second one
/// ends there); whatever is computed for samples before the cut is the same.
module causal {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"
  import datafn.* from "./datafn"
  import mlpfn.* from "./mlp"

  /// x: inputs, weight history or series (one column); d: targets or errors
  type Ev = { fn: str, how: str, cut: int, x: Mat, xB: Mat, d: Mat, dB: Mat, par: Par, w0: Vec, net: Net, sizes: List[int],
              eighth: int, nt: int, epochs: int, m: int, order: int, alphas: Vec, method: str, n: int, bias: bool,
              y: Vec, e: Vec, W: Mat, yB: Vec, eB: Vec, WB: Mat }
  var ev: Ev
  pure val NONET: Net = { nin: 1, hidden: [], out: [], f: "sigmoid", mus: [], muOut: 0 }
  pure val NOEV: Ev = { fn: "none", how: "", cut: 0, x: [], xB: [], d: [], dB: [], par: defaults("LMS", 1), w0: [], net: NONET,
    sizes: [], eighth: 0, nt: 0, epochs: 1, m: 0, order: 0, alphas: [], method: "", n: 0, bias: false,
    y: [], e: [], W: [], yB: [], eB: [], WB: [] }
  pure val ALL: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  pure val HOW: Set[str] = Set("end", "other", "other", "zero", "huge", "permuted")

  /// the series that agrees with m in the first `cut` rows
  pure def later(m: Mat, cut: int, how: str, s: int): Mat =
    if (how == "end") m.slice(0, cut)
    else range(0, m.length()).foldl([], (l, k) => l.append(
      if (k < cut) m[k]
      else if (how == "zero") zeros(m[k].length())
      else if (how == "permuted") m[cut + m.length() - 1 - k]
      else range(0, m[k].length()).foldl([], (r, j) => r.append(
        if (how == "huge") dyadic(s, 40 * k + j, 2, 5) * 2^[6, 6, 20, 44][draw(s, 39, 4)]
        else dyadic(s, 40 * k + j, 3, 5)))))
  pure def col(v: Vec): Mat = v.foldl([], (l, a) => l.append([a]))
  pure def flat(m: Mat): Vec = m.foldl([], (l, r) => l.concat(r))
  pure def first(v: Vec, k: int): Vec = if (k >= v.length()) v else if (k <= 0) [] else v.slice(0, k)
  pure def firstM(v: Mat, k: int): Mat = if (k >= v.length()) v else if (k <= 0) [] else v.slice(0, k)

  /// output k and weights k know the inputs up to k and the targets before k; error k also target k
  action filters_ = {
    nondet fn = Set("run", "run", "filter_data", "pretrained_run").oneOf()
    nondet kind = ALL.oneOf()
    nondet n = 1.to(4).oneOf()
    nondet N = 2.to(16).oneOf()
    nondet c = Set(0, 1, 2, 3, 5, 6, 7, 8, 9, 11).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet h = HOW.oneOf()
    nondet z = Set(true, false).oneOf()
    nondet eighth = 0.to(7).oneOf()
    nondet epochs = 1.to(3).oneOf()
    val how = if (fn == "pretrained_run" and h == "end") "other" else h
    val f = born(kind, n, s, z)
    val nt = if (fn == "pretrained_run") N * eighth / 8 else 0
    val cut = max2(nt, draw(s, 9001, N))
    val x = samples(c, s, N, n)
    val d = targets(c, s, N)
    val xB = later(x, cut + 1, how, s + 1)
    val dB = flat(later(col(d), cut, how, s + 2))
    val t = if (nt == 0) (true, f.st) else range(0, epochs).foldl((true, f.st), (a, k) =>
      if (a._1 and okRun(f.par, a._2, first(d, nt), firstM(x, nt))) (true, runF(f.par, a._2, first(d, nt), firstM(x, nt)).st)
      else (false, a._2))
    val r = runF(f.par, t._2, d.slice(nt, N), x.slice(nt, N))
    // a series that ends at the cut has no target for the row of the cut
    val M = if (how == "end") cut else N
    val okB = not(how == "huge") and okRun(f.par, t._2, dB.slice(nt, M), xB.slice(nt, M))
    val q = if (okB) runF(f.par, t._2, dB.slice(nt, M), xB.slice(nt, M)) else { y: [], e: [], W: [], st: t._2 }
    all {
      t._1, okRun(f.par, t._2, d.slice(nt, N), x.slice(nt, N)),
      (kind == "AP" and how == "huge") implies (draw(s + 1, 39, 4) < 2 and draw(s + 2, 39, 4) < 2),
      ev' = { ...NOEV, fn: fn, how: how, cut: cut, x: x, d: col(d), xB: firstM(xB, M), dB: col(first(dB, M)), par: f.par, w0: f.st.w,
              eighth: eighth, nt: nt, epochs: epochs, n: n, y: r.y, e: r.e, W: r.W, yB: q.y, eB: q.e, WB: q.W }
    }
  }
  action detection = {
    nondet fn = Set("learning_entropy", "learning_entropy alpha", "ELBND", "ESE").oneOf()
    nondet N = 5.to(18).oneOf()
    nondet n = 1.to(3).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet how = HOW.oneOf()
    nondet c = Set(0, 1, 2, 5).oneOf()
    nondet method = Set("10%", "30%", "35%", "sqrt", "log10").oneOf()
    nondet fnc = Set("max", "sum").oneOf()
    val m = min2(1 + draw(s, 9002, 6), N - 1)
    val cut = 1 + draw(s, 9003, N - 1)
    val inc = samples(c, s, N, n)
    val x = range(1, N).foldl([inc[0]], (l, k) => l.append(
      if (draw(s, 9100 + k, 6) == 0) l[k - 1] else if (draw(s, 9200 + k, 5) == 0) axpy(l[k - 1], 9 * ONE, inc[k]) else add(l[k - 1], inc[k])))
    val d = targets(c, s, N)
    val b = { ...NOEV, fn: fn, how: how, cut: cut, x: x, xB: later(x, cut, how, s + 1), d: col(d),
              dB: later(col(d), cut, how, s + 2), m: m, order: 1 + draw(s, 9004, 3), n: n,
              alphas: [rat(3, 2), ONE, 2 * ONE, HALF, 5 * ONE].slice(0, 1 + draw(s, 9005, 5)),
              method: if (fn == "ELBND") fnc else method }
    ev' = b
  }
  action windows_ = {
    nondet N = 2.to(14).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet how = HOW.oneOf()
    nondet bias = Set(true, false).oneOf()
    val cut = 1 + draw(s, 9003, N - 1)
    val x = col(dyadicV(s, 10, N, 4, 5))
    ev' = { ...NOEV, fn: "input_from_history", how: how, cut: cut, x: x, xB: later(x, cut, how, s + 1), n: 1 + draw(s, 9006, cut), bias: bias }
  }
  action network = {
    nondet nin = 1.to(3).oneOf()
    nondet depth = 1.to(2).oneOf()
    nondet nout = 1.to(2).oneOf()
    nondet N = 2.to(7).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet f = Set("sigmoid", "tanh").oneOf()
    nondet how = Set("end", "other", "zero", "permuted").oneOf()
    nondet fn = Set("MLP train", "MLP train", "MLP run").oneOf()
    val sizes = range(0, depth).foldl([], (l, k) => l.append(1 + draw(s, 50 + k, 3)))
    val ins = [nin].concat(sizes)
    val mu = [rat(1, 10), rat(1, 2), rat(1, 100)][draw(s, 60, 3)]
    val net = { nin: nin, f: f,
      hidden: range(0, depth).foldl([], (l, k) => l.append(dyadicM(s, 100 * k, sizes[k], ins[k] + 1, 2, 5))),
      out: dyadicM(s, 700, nout, sizes[depth - 1] + 1, 2, 5),
      mus: range(0, depth).foldl([], (l, k) => l.append(mu)), muOut: mu }
    val cut = 1 + draw(s, 9003, N - 1)
    val x = dyadicM(s, 2000, N, nin, 2, 5)
    val d = dyadicM(s, 3000, N, nout, 2, 5)
    val xB = later(x, cut, how, s + 1)
    val dB = later(d, cut, how, s + 2)
    all {
      okTrain(net, x, d, 1), okTrain(net, xB, dB, 1),
      ev' = { ...NOEV, fn: fn, how: how, cut: cut, x: x, xB: xB, d: d, dB: dB, net: net, sizes: sizes, n: nout,
              W: if (fn == "MLP train") train(net, x, d, 1).e else x.foldl([], (l, q) => l.append(forward(net, q))),
              WB: if (fn == "MLP train") train(net, xB, dB, 1).e else xB.foldl([], (l, q) => l.append(forward(net, q))) }
    }
  }
  action begin = all { ev' = NOEV }
  action step = any { filters_, filters_, detection, windows_, network }

  /// theorem: the specification is causal
  pure def isFilter(f: str): bool = Set("run", "filter_data", "pretrained_run").contains(f)
  val online = (isFilter(ev.fn) and ev.yB != []) implies {
    val k = ev.cut - ev.nt
    first(ev.y, k + 1).slice(0, min2(k + 1, ev.yB.length())) == first(ev.yB, k + 1) and first(ev.e, k) == first(ev.eB, k)
      and firstM(ev.W, min2(k + 1, ev.yB.length())) == firstM(ev.WB, k + 1)
  }
  val entropies = and {
    ev.fn == "learning_entropy" implies
      firstM(leDirect(ev.x, ev.m, ev.order), ev.cut) == firstM(leDirect(ev.xB, ev.m, ev.order), ev.cut),
    ev.fn == "ELBND" implies first(elbnd(ev.x, flat(ev.d), ev.method), ev.cut - 1)
      == first(elbnd(ev.xB, flat(ev.dB), ev.method), ev.cut - 1),
    ev.fn == "ESE" implies eseCells(ev.x, ev.m, ev.method).slice(0, max2(0, ev.cut - ev.m))
      == eseCells(ev.xB, ev.m, ev.method).slice(0, max2(0, ev.cut - ev.m))
  }
  val rows = ev.fn == "input_from_history" implies
    firstM(windows(flat(ev.x), ev.n, ev.bias), ev.cut - ev.n + 1) == firstM(windows(flat(ev.xB), ev.n, ev.bias), ev.cut - ev.n + 1)
  val nets = Set("MLP train", "MLP run").contains(ev.fn) implies firstM(ev.W, ev.cut) == firstM(ev.WB, ev.cut)
  val inv = online and entropies and rows and nets
}
