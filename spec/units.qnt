// -*- mode: Bluespec; -*-
/// changes of unit
module unitscale {
  import fx.* from "./fx"
  pure def shift(v: int, k: int): int = if (k >= 0) v * 2^k else v / 2^(-k)
  pure def shiftV(v: Vec, k: int): Vec = v.foldl([], (l, q) => l.append(shift(q, k)))
  pure def shiftM(m: Mat, k: int): Mat = m.foldl([], (l, r) => l.append(shiftV(r, k)))
}

/// C33: units do not matter.  A and B are the same filter in different units: inputs of B are those of
/// A times 2^cx, targets those of A times 2^cd, and the parameters that have a unit are converted.
module units {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"
  import unitscale.* from "./units"

  type Ev = { op: str, kind: str, parA: Par, parB: Par, wA0: Vec, wB0: Vec, cx: int, cd: int,
              dA: Vec, xA: Mat, dB: Vec, xB: Mat, yA: Vec, yB: Vec, wA: Vec, wB: Vec }
  var a: St
  var b: St
  var ev: Ev

  pure val ALL: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  /// the parameters of p in units 2^cx of the input and 2^cd of the target
  pure def convert(p: Par, cx: int, cd: int): Par = {
    val q = { ...p, eps: shift(p.eps, 2 * cx), ifc: shift(p.ifc, 2 * cx) }
    if (p.kind == "LMS") { ...q, mu: shift(p.mu, -2 * cx) }
    else if (p.kind == "LMF") { ...q, mu: shift(p.mu, -2 * cx - 2 * cd) }
    else if (p.kind == "SSLMS") { ...q, mu: shift(p.mu, cd - cx) }
    else if (p.kind == "Llncosh") { ...q, mu: shift(p.mu, cd - 2 * cx), lambd: shift(p.lambd, -cd) }
    else if (p.kind == "GMCC") { ...q, mu: shift(p.mu, 2 * cd - 2 * cx), lambd: shift(p.lambd, -2 * cd) }
    else if (p.kind == "NLMF") { ...q, mu: shift(p.mu, -2 * cd) }
    else if (p.kind == "NSSLMS") { ...q, mu: shift(p.mu, cx + cd) }
    else if (p.kind == "GNGD") { ...q, ro: shift(p.ro, 4 * cx - 2 * cd) }
    else if (usesLast(p.kind)) { ...q, mu: shift(p.mu, -2 * cx), ro: shift(p.ro, -4 * cx - 2 * cd) }
    else q
  }
  action init = {
    nondet k = ALL.oneOf()
    nondet n = 1.to(5).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet z = Set(true, false, false).oneOf()
    nondet rx = (-20).to(20).oneOf()
    nondet rd = (-20).to(20).oneOf()
    // changes of unit that the reals of the specification can represent
    val span = if (usesLast(k)) 6 else 20
    val kx = if (abs(rx) > span) rx / 4 else rx
    val kd = rd
    val pa = { ...params(k, n, s), alpha: TWO }
    val w = if (z) zeros(n) else range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 1, 6)))
    val pb = convert(pa, kx, kd)
    val wb = shiftV(w, kd - kx)
    all {
      a' = newFilter(pa, w), b' = newFilter(pb, wb),
      ev' = { op: "init", kind: k, parA: pa, parB: pb, wA0: w, wB0: wb, cx: kx, cd: kd, dA: [], xA: [], dB: [], xB: [],
              yA: [], yB: [], wA: w, wB: wb }
    }
  }
  action learnBoth = {
    nondet op = Set("adapt", "run").oneOf()
    nondet N = 1.to(5).oneOf()
    nondet c = Set(0, 1, 2, 5, 6, 7, 9).oneOf()
    nondet s = 0.to(2^30).oneOf()
    val M = if (op == "adapt") 1 else N
    val xa = samples(c, s, M, ev.parA.n)
    val da = targets(c, s, M)
    val ra = runF(ev.parA, a, da, xa)
    val rb = runF(ev.parB, b, shiftV(da, ev.cd), shiftM(xa, ev.cx))
    all {
      okRun(ev.parA, a, da, xa),
      a' = ra.st, b' = rb.st,
      ev' = { ...ev, op: op, dA: da, xA: xa, dB: shiftV(da, ev.cd), xB: shiftM(xa, ev.cx), wA: ra.st.w, wB: rb.st.w,
              yA: ra.y, yB: rb.y }
    }
  }
  action step = learnBoth
  pure val SLACK: int = 2^104      // rounding of the specification's own arithmetic
  val weights = nearV(ev.wB, shiftV(ev.wA, ev.cd - ev.cx), SLACK)
  val outputs = nearV(ev.yB, shiftV(ev.yA, ev.cd), SLACK)
  val inv = weights and outputs
}

/// C33, the same for the data functions: every call is made with data in two units, the result in the second
/// unit is factor * first result + addend
module dataunits {
  import fx.* from "./fx"
  import gen.* from "./gen"
  import datafn.* from "./datafn"
  import unitscale.* from "./units"
  type Ev = { fn: str, x: Mat, xB: Mat, u: Vec, uB: Vec, v: Vec, vB: Vec, n: int, m: int, order: int, alphas: Vec, method: str,
              given: bool, offset: int, offsetB: int, sc: int, scB: int, labels: List[int], k: int, kb: int, sign: int,
              factor: int, addend: int, upto: bool, spread: Mat }
  var ev: Ev
  pure val NOEV: Ev = { fn: "none", x: [], xB: [], u: [], uB: [], v: [], vB: [], n: 0, m: 0, order: 0, alphas: [], method: "",
    given: false, offset: 0, offsetB: 0, sc: 0, scB: 0, labels: [], k: 0, kb: 0, sign: 1, factor: ONE, addend: 0, upto: false, spread: [] }
  pure val FNS: Set[str] = Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error", "standardize", "standardize_back",
    "input_from_history", "learning_entropy", "learning_entropy alpha", "ELBND", "PCA", "PCA_components", "LDA_discriminants")

  /// times sign * 2^k, plus a constant
  pure def affine(v: Vec, sign: int, k: int, c: int): Vec = v.foldl([], (l, q) => l.append(sign * shift(q, k) + c))
  pure def affineM(m: Mat, sign: int, k: int, c: int): Mat = m.foldl([], (l, r) => l.append(affine(r, sign, k, c)))
  pure def rows(s: int, i: int, N: int, n: int): Mat = dyadicM(s, i, N, n, 4, 6)

  /// spread of every window of |D w| before row k
  pure def spreads(w: Mat, m: int, order: int): Mat = {
    val dw = absDiff(w, order)
    range(0, w.length()).foldl([], (r, k) => r.append(
      if (k < m) zeros(w[0].length())
      else range(0, w[0].length()).foldl([], (l, j) => l.append(std(before(dw, k, m, j))))))
  }
  action call = {
    nondet fn = FNS.oneOf()
    nondet N = 6.to(16).oneOf()
    nondet n = 2.to(4).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet k = (-30).to(30).oneOf()
    nondet kb = (-12).to(12).oneOf()
    nondet sign = Set(1, 1, -1).oneOf()
    nondet given = Set(true, false).oneOf()
    nondet function = Set("MSE", "MAE", "RMSE").oneOf()
    nondet sum_ = Set("max", "sum").oneOf()
    val u = dyadicV(s, 10, N, 4, 6)
    val v = dyadicV(s, 200, N, 4, 6)
    val x = rows(s, 400, N, n)
    val c = shift(dyadic(s, 1, 4, 3), k)                   // a constant in the second unit
    val factor = shift(ONE, k)                               // |factor| of the data
    val f = if (fn == "get_mean_error") function else fn
    val offset = dyadic(s, 2, 3, 4)
    val sc = [ONE / 2, ONE, 3 * ONE, -2 * ONE][draw(s, 3, 4)]
    val base = { ...NOEV, fn: fn, k: k, kb: kb, sign: sign, n: 1 + draw(s, 4, n - 1), m: 2 + draw(s, 5, 4), order: 1 + draw(s, 6, 3) }
    all {
      ev' =
        if (Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error").contains(fn))
          { ...base, method: function, u: u, v: v, uB: affine(u, sign, k, c), vB: affine(v, sign, k, c),
            factor: if (f == "MSE") shift(ONE, 2 * k) else if (f == "logSE") ONE else factor,
            addend: if (f == "logSE") 20 * k * div(LN2, LN10) else 0 }
        else if (fn == "standardize")
          { ...base, u: u, uB: affine(u, sign, k, c), given: given, offset: offset, offsetB: sign * shift(offset, k) + c,
            sc: sc, scB: sign * shift(sc, k), factor: if (given) ONE else sign * ONE }
        else if (fn == "standardize_back")
          { ...base, u: u, uB: u, given: true, offset: offset, offsetB: sign * shift(offset, k) + c, sc: sc, scB: sign * shift(sc, k),
            factor: sign * factor, addend: c }
        else if (fn == "input_from_history")
          { ...base, u: u, uB: affine(u, sign, k, c), n: 1 + draw(s, 7, N), factor: sign * factor, addend: c }
        else if (fn == "learning_entropy")
          { ...base, spread: spreads(x, base.m, base.order), x: x, xB: affineM(x, 1, k, 0) }
        else if (fn == "learning_entropy alpha")
          { ...base, x: x, xB: affineM(x, 1, k, 0), alphas: [ONE, 3 * ONE / 2, 2 * ONE, ONE / 2].slice(0, 1 + draw(s, 8, 4)) }
        else if (fn == "ELBND")
          { ...base, x: x, xB: affineM(x, sign, k, c), u: u, uB: affine(u, 1, kb, 0), method: sum_, factor: shift(ONE, k + kb) }
        else if (fn == "PCA_components")
          { ...base, x: x, xB: affineM(x, sign, k, c), factor: shift(ONE, 2 * k) }
        else if (fn == "PCA")
          { ...base, x: x, xB: affineM(x, sign, k, 0), factor: sign * factor, upto: true }
        else
          { ...base, x: x, xB: affineM(x, sign, k, c), labels: range(0, N).foldl([], (l, i) => l.append(i % 2)) }
    }
  }
  action begin = all { ev' = NOEV }
  /// theorem: the specification of the data functions has no unit
  pure def flat(m: Mat): Vec = m.foldl([], (l, r) => l.concat(r))
  pure def result(v: Ev, x: Mat, p: Vec, q: Vec, offset: int, sc: int): Vec =
    if (v.fn == "MSE" or (v.fn == "get_mean_error" and v.method == "MSE")) [MSE(sub(p, q))]
    else if (v.fn == "MAE" or (v.fn == "get_mean_error" and v.method == "MAE")) [MAE(sub(p, q))]
    else if (v.fn == "RMSE" or v.fn == "get_mean_error") [RMSE(sub(p, q))]
    else if (v.fn == "logSE") logSE(sub(p, q))
    else if (v.fn == "standardize") standardize(p, if (v.given) offset else mean(p), if (v.given) sc else std(p))
    else if (v.fn == "standardize_back") standardizeBack(p, offset, sc)
    else if (v.fn == "input_from_history") flat(windows(p, v.n, false))
    else if (v.fn == "ELBND") elbnd(x, p, v.method)
    else if (v.fn == "learning_entropy") flat(leDirect(x, v.m, v.order))
    else if (v.fn == "learning_entropy alpha") flat(leCount(x, v.m, v.order, v.alphas).foldl([], (l, c) => l.append([c._1, c._2])))
    else []
  val ra = result(ev, ev.x, ev.u, ev.v, ev.offset, ev.sc)
  val rb = result(ev, ev.xB, ev.uB, ev.vB, ev.offsetB, ev.scB)
  /// counted comparisons are the same ones
  val counts = ev.fn == "learning_entropy alpha" implies ra == rb
  val scaled = not(Set("learning_entropy", "learning_entropy alpha", "logSE").contains(ev.fn)) implies
    range(0, ra.length()).foldl(true, (ok, i) => ok and near(rb[i], mul(ra[i], ev.factor) + ev.addend, 2^100 + 2^100 * shift(ONE, if (ev.k > 0) 2 * ev.k else 0) / ONE))
  /// an error of exactly zero has no logarithm in either unit
  val decibels = ev.fn == "logSE" implies
    range(0, ra.length()).foldl(true, (ok, i) => ok and
      near(rb[i], if (ev.u[i] == ev.v[i]) 0 else ra[i] + ev.addend, 2^60))
  val inv = counts and scaled and decibels
}
