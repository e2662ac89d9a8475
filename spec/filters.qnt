// -*- mode: Bluespec; -*-
/// The adaptive filters of padasip: state, prediction and learning of the 15 kinds.
module filters {
  import fx.* from "./fx"

  /// What a filter is constructed with.  Fields a kind does not use are ignored.
  type Par = {
    kind: str, n: int, mu: int, eps: int, ro: int, a: int, lambd: int, alpha: int,
    order: int, ifc: int, mem: int
  }

  /// Everything a filter remembers between calls.
  type St = {
    w: Vec,             // weights in force
    lastE: int,         // error of the previous learned sample     (GNGD, VSLMS)
    lastX: Vec,         // input of the previous learned sample     (GNGD, VSLMS)
    lastFi: Vec,        // gradient average                         (VSLMS Ang, Benveniste)
    lastMu: int,        // step size                                (VSLMS)
    reg: int,           // current regularisation                   (GNGD)
    R: Mat,             // inverse correlation matrix               (RLS)
    xm: Mat, dm: Vec,   // last `order` inputs and targets, newest first (AP)
    ox: Mat, od: Vec, oi: int, fresh: bool,  // sample memory, cursor, not yet wrapped (OCNLMS)
    exact: bool         // no arithmetic so far that doubles round: an error of zero is zero there, too
  }

  pure val KINDS: List[str] = ["AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]

  pure def usesLast(k: str): bool =
    Set("GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews").contains(k)

  /// documented defaults
  pure def defaults(kind: str, n: int): Par = {
    kind: kind, n: n,
    mu: if (Set("GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews").contains(kind)) ONE
        else if (Set("NLMS", "NLMF", "NSSLMS", "OCNLMS", "RLS").contains(kind)) rat(1, 10)
        else rat(1, 100),
    eps: if (Set("GNGD", "OCNLMS").contains(kind)) ONE else rat(1, 1000),
    ro: if (kind == "VSLMS_Ang") rat(2, 10000) else rat(1, 10),
    a: rat(95, 100),
    lambd: if (kind == "Llncosh") 3 * ONE else rat(3, 100),
    alpha: 2 * ONE, order: 5, ifc: rat(1, 1000), mem: 100
  }

  pure def newFilter(p: Par, w: Vec): St = {
    w: w, lastE: 0,
    lastX: if (usesLast(p.kind)) zeros(p.n) else [],
    lastFi: if (usesLast(p.kind)) zeros(p.n) else [],
    lastMu: p.mu, reg: p.eps,
    R: if (p.kind == "RLS") diag(p.n, div(ONE, p.eps)) else [],
    xm: if (p.kind == "AP") zerosM(p.order, p.n) else [],
    dm: if (p.kind == "AP") zeros(p.order) else [],
    ox: if (p.kind == "OCNLMS") zerosM(p.mem, p.n) else [],
    od: if (p.kind == "OCNLMS") zeros(p.mem) else [],
    oi: 0, fresh: true, exact: true
  }

  /// memory of OCNLMS forgotten, weights kept
  pure def clearMemory(p: Par, s: St): St =
    { ...s, ox: zerosM(p.mem, p.n), od: zeros(p.mem), oi: 0, fresh: true }

  // ------------------------------------------------------------ OCNLMS memory
  /// mean of the inputs in the part of the memory filled so far (cursor slot included)
  pure def meanX(p: Par, s: St): Vec =
    if (s.fresh and s.oi == 0) zeros(p.n)
    else if (s.fresh) meanRows(s.ox.slice(0, s.oi + 1), p.n)
    else meanRows(s.ox, p.n)
  /// mean of the targets in the part of the memory filled so far (cursor slot excluded)
  pure def meanD(p: Par, s: St): int =
    if (s.fresh and s.oi == 0) 0
    else if (s.fresh) mean(s.od.slice(0, s.oi))
    else (sum(s.od) - s.od[s.oi]) / (p.mem - 1)
  pure def advance(p: Par, s: St): St =
    if (s.oi + 1 == p.mem) { ...s, oi: 0, fresh: false } else { ...s, oi: s.oi + 1 }

  // ------------------------------------------------------------ prediction
  pure def predict(p: Par, s: St, x: Vec): int =
    if (p.kind == "OCNLMS") dot(s.w, sub(x, meanX(p, s))) + meanD(p, s)
    else dot(s.w, x)

  // ------------------------------------------------------------ learning rules
  pure def gain(e: int, x: Vec, c: int): Vec = { val g = mul(c, e)  x.foldl([], (l, a) => l.append(mul(g, a))) }
  pure def signs(e: int, x: Vec, c: int): Vec =
    x.foldl([], (l, a) => l.append(c * sgn(e) * sgn(a)))
  pure def cube(e: int): int = mul(sq(e), e)

  /// GMCC gain  lambda alpha exp(-lambda |e|^alpha) |e|^(alpha-1) sign(e)
  pure def gmccGain(p: Par, e: int): int = {
    val m = abs(e)
    val ea = if (p.alpha == TWO) sq(m) else if (p.alpha == ONE) m else pow(m, p.alpha)
    val eb = if (p.alpha == TWO) m else pow(m, p.alpha - ONE)
    val ar = mul(p.lambd, ea)
    if (ar > 180 * ONE) 0
    else mul(mul(mul(p.lambd, p.alpha), exp(-ar)), eb) * sgn(e)
  }

  pure def learnVsl(p: Par, s: St, e: int, x: Vec): St = {
    val fi =
      if (p.kind == "VSLMS_Ang") axpy(scale(p.a, s.lastFi), s.lastE, s.lastX)
      else if (p.kind == "VSLMS_Benveniste")
        axpy(axpy(s.lastFi, -mul(s.lastMu, dot(s.lastX, s.lastFi)), s.lastX), s.lastE, s.lastX)
      else s.lastFi
    val g = if (p.kind == "VSLMS_Mathews") mul(s.lastE, dot(s.lastX, x)) else dot(s.lastX, fi)
    val mu = s.lastMu + mul(p.ro, mul(e, g))
    { ...s, w: add(s.w, gain(e, x, mu)), lastMu: mu, lastE: e, lastX: x, lastFi: fi }
  }

  pure def learnGngd(p: Par, s: St, e: int, x: Vec): St = {
    val den = sq(norm2(s.lastX) + s.reg)
    val reg = s.reg - div(mul(mul(p.ro, p.mu), mul(mul(e, s.lastE), dot(x, s.lastX))), den)
    { ...s, w: add(s.w, gain(e, x, div(p.mu, reg + norm2(x)))), reg: reg, lastE: e, lastX: x }
  }

  pure def learnRls(p: Par, s: St, e: int, x: Vec): St = {
    val g = matVec(s.R, x)
    val c = div(ONE, p.mu + dot(x, g))
    val R = range(0, p.n).foldl([], (m, i) =>
      m.append(range(0, p.n).foldl([], (l, j) =>
        l.append(div(s.R[i][j] - mul(c, mul(g[i], g[j])), p.mu)))))
    { ...s, R: R, w: add(s.w, scale(e, matVec(R, x))) }
  }

  pure def learnAp(p: Par, s: St, d: int, x: Vec): St = {
    val xm = [x].concat(s.xm.slice(0, p.order - 1))
    val dm = [d].concat(s.dm.slice(0, p.order - 1))
    val em = sub(dm, matVec(xm, s.w))
    val G = range(0, p.order).foldl([], (m, i) =>
      m.append(range(0, p.order).foldl([], (l, j) =>
        l.append(dot(xm[i], xm[j]) + (if (i == j) p.ifc else 0)))))
    val c = solve(G, em)
    val w = range(0, p.order).foldl(s.w, (acc, k) => axpy(acc, mul(p.mu, c[k]), xm[k]))
    { ...s, w: w, xm: xm, dm: dm }
  }

  /// As built: the cursor moves before the input is stored and again before the target is
  /// stored (known finding C07-cursor), and the stored target is e + (output recomputed after the
  /// input was stored) (known finding C07-target).
  pure def learnOc(p: Par, s: St, e: int, x: Vec): St = {
    val a = advance(p, s)
    val b = { ...a, ox: a.ox.replaceAt(a.oi, x) }
    val mx = meanX(p, b)
    val md = meanD(p, b)
    val c = advance(p, b)
    val z = sub(x, mx)
    val y = dot(s.w, z) + md
    { ...c, od: c.od.replaceAt(a.oi, e + y),
      w: add(s.w, gain(e, z, div(p.mu, p.eps + norm2(z)))) }
  }

  /// a sample learned with error e
  pure def update(p: Par, s: St, e: int, d: int, x: Vec): St =
    if (p.kind == "LMS") { ...s, w: add(s.w, gain(e, x, p.mu)) }
    else if (p.kind == "NLMS") { ...s, w: add(s.w, gain(e, x, div(p.mu, p.eps + norm2(x)))) }
    else if (p.kind == "LMF") { ...s, w: add(s.w, gain(cube(e), x, p.mu)) }
    else if (p.kind == "NLMF") { ...s, w: add(s.w, gain(cube(e), x, div(p.mu, p.eps + norm2(x)))) }
    else if (p.kind == "SSLMS") { ...s, w: add(s.w, signs(e, x, p.mu)) }
    else if (p.kind == "NSSLMS") { ...s, w: add(s.w, signs(e, x, div(p.mu, p.eps + norm2(x)))) }
    else if (p.kind == "Llncosh") { ...s, w: add(s.w, gain(tanh(mul(p.lambd, e)), x, p.mu)) }
    else if (p.kind == "GMCC") { ...s, w: add(s.w, gain(gmccGain(p, e), x, p.mu)) }
    else if (p.kind == "GNGD") learnGngd(p, s, e, x)
    else if (p.kind == "RLS") learnRls(p, s, e, x)
    else if (p.kind == "AP") learnAp(p, s, d, x)
    else if (p.kind == "OCNLMS") learnOc(p, s, e, x)
    else learnVsl(p, s, e, x)

  /// sums of dyadic numbers are exact; so is leaving the weights alone
  pure def staysExact(p: Par, s: St, e: int, x: Vec): bool =
    s.exact and (e == 0 or p.mu == 0 or isZero(x) or (p.kind == "SSLMS" and grid([p.mu], 26)))
  pure def learnE(p: Par, s: St, e: int, d: int, x: Vec): St =
    { ...update(p, s, e, d, x), exact: staysExact(p, s, e, x) }
  pure def learn(p: Par, s: St, d: int, x: Vec): St = learnE(p, s, d - predict(p, s, x), d, x)

  // ------------------------------------------------------------ whole calls
  /// result of run(): outputs, errors, weight history, filter after the call
  type Run = { y: Vec, e: Vec, W: Mat, st: St }
  pure def runF(p: Par, s: St, d: Vec, x: Mat): Run =
    range(0, d.length()).foldl({ y: [], e: [], W: [], st: s }, (r, k) => {
      val y = predict(p, r.st, x[k])
      { y: r.y.append(y), e: r.e.append(d[k] - y), W: r.W.append(r.st.w),
        st: learnE(p, r.st, d[k] - y, d[k], x[k]) }
    })
  pure def pretrainedRun(p: Par, s: St, d: Vec, x: Mat, nt: int, epochs: int): Run = {
    val t = range(0, epochs).foldl(s, (q, k) => runF(p, q, d.slice(0, nt), x.slice(0, nt)).st)
    runF(p, t, d.slice(nt, d.length()), x.slice(nt, d.length()))
  }

  // ------------------------------------------------------------ conditioning
  /// Doubles follow the reals only where the update is a continuous function: the sign of an error
  /// must not hang on rounding, denominators stay away from zero, values stay bounded.
  pure val EDGE: int = 2^136          // 2^-24
  pure val LIMIT: int = 2^180         // 2^20
  /// every number of v is a multiple of 2^-q, hence exact in double arithmetic
  pure def grid(v: Vec, q: int): bool = v.foldl(true, (b, a) => b and a % 2^(160 - q) == 0)

  pure def okLearn(p: Par, s: St, d: int, x: Vec): bool = {
    val e = d - predict(p, s, x)
    val s2 = learnE(p, s, e, d, x)
    and {
      abs(e) < LIMIT,
      Set("SSLMS", "NSSLMS", "GMCC").contains(p.kind) implies
        (abs(e) > (if (p.kind == "GMCC" and p.alpha < ONE) 2^158 else EDGE) or (e == 0 and s.exact and grid(s.w, 26) and grid(x, 12) and maxAbs(s.w) < 2^170 and maxAbs(x) < 2^170)),
      p.kind == "GNGD" implies ((p.ro == 0 or abs(s.reg + norm2(s.lastX)) > 2^152)
        and abs(s2.reg + norm2(x)) > (if (p.ro == 0) 2^138 else 2^152) and abs(s2.reg) < 2^172),
      // rounding of R is relative to its largest entry so far and is multiplied by x and e
      p.kind == "RLS" implies (maxAbsM(s2.R) < 2^176 and
        mul(mul(max2(maxAbsM(s.R), div(ONE, p.eps)), maxAbs(x)), max2(abs(e), ONE)) < 2^178),
      // condition of the regularised Gram matrix of AP
      (p.kind == "AP" and p.order > 1) implies mul(s2.xm.foldl(0, (t, r) => t + norm2(r)), max2(abs(e), ONE)) < p.ifc * 2^18,
      maxAbs(s2.w) < LIMIT,
      abs(s2.lastMu) < 2^172
    }
  }
  pure def okRun(p: Par, s: St, d: Vec, x: Mat): bool =
    range(0, d.length()).foldl((true, s), (a, k) =>
      if (not(a._1)) a
      else if (okLearn(p, a._2, d[k], x[k])) (true, learn(p, a._2, d[k], x[k])) else (false, a._2))._1
}
