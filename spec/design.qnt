// -*- mode: Bluespec; -*-
/// Design level theorems about the learning rules, checked on the specification itself: what the
/// recursions are for, stated over the whole history (kept in ghost variables).
module design {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  const KSET: Set[str]

  var par: Par
  var st: St
  var w0: Vec
  var hist: List[{ d: int, x: Vec }]   // everything learned, oldest first
  var last: { e: int, w: Vec }         // error and weights before the last learned sample

  action init = {
    nondet k = KSET.oneOf()
    nondet n = 1.to(4).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet z = Set(true, false).oneOf()
    val b = born(k, n, s, z)
    all { par' = b.par, st' = b.st, w0' = b.st.w, hist' = [], last' = { e: 0, w: b.st.w } }
  }
  action step = {
    nondet c = Set(0, 1, 2, 5, 6, 7, 9).oneOf()
    nondet s = 0.to(2^30).oneOf()
    val x = samples(c, s, 1, par.n)[0]
    val d = targets(c, s, 1)[0]
    all {
      okLearn(par, st, d, x),
      par' = par, w0' = w0,
      hist' = hist.append({ d: d, x: x }),
      last' = { e: d - predict(par, st, x), w: st.w },
      st' = learn(par, st, d, x)
    }
  }

  pure def SLACK(a: int): int = 2^90 + a / 2^60
  /// mu^k
  pure def power(mu: int, k: int): int = range(0, k).foldl(ONE, (p, i) => mul(p, mu))

  // ------------------------------------------------------------ C04
  pure def corr(p: Par, h: List[{ d: int, x: Vec }]): Mat =
    h.foldl(diag(p.n, p.eps), (m, s) => addM(scaleM(p.mu, m), outer(s.x, s.x)))
  pure def rhs(p: Par, w: Vec, h: List[{ d: int, x: Vec }]): Vec =
    h.foldl(scale(p.eps, w), (v, s) => axpy(scale(p.mu, v), s.d, s.x))
  /// the weights solve the exponentially weighted, regularised normal equations
  val normalEquations = par.kind == "RLS" implies {
    val A = corr(par, hist)
    nearV(matVec(A, st.w), rhs(par, w0, hist), SLACK(maxAbsM(A)))
  }
  /// R is the inverse of the weighted correlation matrix
  val inverse = par.kind == "RLS" implies
    nearM(matMul(st.R, corr(par, hist)), diag(par.n, ONE), SLACK(maxAbsM(st.R)))

  // ------------------------------------------------------------ C05
  /// the memory holds exactly the last `order` samples, newest first, padded with zeros
  val apMemory = par.kind == "AP" implies
    range(0, par.order).foldl(true, (b, i) => b and (
      if (i < hist.length()) st.xm[i] == hist[hist.length() - 1 - i].x and st.dm[i] == hist[hist.length() - 1 - i].d
      else isZero(st.xm[i]) and st.dm[i] == 0))

  // ------------------------------------------------------------ C03
  /// with step size one and no regularisation to speak of NLMS reproduces the sample it learned:
  /// the error after learning is (1 - mu x.x/(eps + x.x)) times the error before
  val nlmsPosterior = (par.kind == "NLMS" and hist.length() > 0) implies {
    val s = hist[hist.length() - 1]
    val p = norm2(s.x)
    near(s.d - dot(st.w, s.x), mul(last.e, ONE - div(mul(par.mu, p), par.eps + p)), 2^60)
  }
  /// the step of every gradient filter is along the input, in the direction of the error
  val alongInput = (Set("LMS", "NLMS", "LMF", "NLMF", "Llncosh", "GMCC").contains(par.kind) and hist.length() > 0) implies {
    val s = hist[hist.length() - 1]
    val g = dot(sub(st.w, last.w), s.x)
    (last.e > 0 implies g >= -(2^40)) and (last.e < 0 implies g <= 2^40) and (last.e == 0 implies st.w == last.w)
  }
  /// the regularisation of GNGD stays finite and its update never divides by zero
  val gngdRegular = par.kind == "GNGD" implies (par.ro == 0 implies st.reg == par.eps)

  // ------------------------------------------------------------ C06
  /// without step size adaptation the step size is the one given
  val vslFrozen = (usesLast(par.kind) and par.kind != "GNGD" and par.ro == 0) implies st.lastMu == par.mu
  /// the recursion starts with the step size given: the first two samples are learned with mu alone
  val vslStart = (usesLast(par.kind) and par.kind != "GNGD" and hist.length() <= 1) implies st.lastMu == par.mu

  // ------------------------------------------------------------ C07
  /// the memory never holds anything but inputs that were learned (or the initial zeros)
  val ocMemory = par.kind == "OCNLMS" implies and {
    st.ox.length() == par.mem, st.od.length() == par.mem, 0 <= st.oi, st.oi < par.mem,
    st.ox.foldl(true, (b, r) => b and (isZero(r) or hist.foldl(false, (q, s) => q or s.x == r))),
    // newest input still there
    hist.length() > 0 implies st.ox.foldl(false, (q, r) => q or r == hist[hist.length() - 1].x)
  }
  val inv = normalEquations and inverse and apMemory and nlmsPosterior and alongInput and gngdRegular and
    vslFrozen and vslStart and ocMemory
}
module D02 { import design(KSET = Set("LMS", "LMF", "SSLMS", "Llncosh", "GMCC")).* from "./design" }
module D03 { import design(KSET = Set("NLMS", "NLMF", "NSSLMS", "GNGD")).* from "./design" }
module D04 { import design(KSET = Set("RLS")).* from "./design" }
module D05 { import design(KSET = Set("AP")).* from "./design" }
module D06 { import design(KSET = Set("VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")).* from "./design" }
module D07 { import design(KSET = Set("OCNLMS")).* from "./design" }
