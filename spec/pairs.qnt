// -*- mode: Bluespec; -*-
/// C29, C30: two filters in lockstep.  Filter B sees the image of what filter A sees; everything B
/// shows must be the image of what A shows.
module pairs {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  const RELS: Set[str]

  type Ev = { op: str, rel: str, parA: Par, parB: Par, wA0: Vec, wB0: Vec,
              dA: Vec, xA: Mat, dB: Vec, xB: Mat, perm: List[int], flip: List[int], neg: int, wA: Vec, wB: Vec,
              yA: Vec, yB: Vec }
  var rel: str
  var pA: Par
  var pB: Par
  var a: St
  var b: St
  /// position j of B is position perm[j] of A (or a constant zero column: -1), times flip[j]
  var perm: List[int]
  var flip: List[int]
  /// -1 if B sees negated targets
  var neg: int
  var ev: Ev
  /// ridge regression accumulators of filter A (rel "ridge")
  var acc: { A: Mat, b: Vec }

  pure val ALL: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  pure val VSL: Set[str] = Set("VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  pure def kindsOf(r: str): Set[str] =
    if (r == "gngd0") Set("GNGD") else if (r == "ap1") Set("AP") else if (r == "vsl0") VSL
    else if (r == "mu0") ALL.exclude(VSL).exclude(Set("RLS")) else if (r == "ridge") Set("RLS") else ALL

  pure def image(v: Vec, perm: List[int], flip: List[int]): Vec =
    range(0, perm.length()).foldl([], (l, j) => l.append(if (perm[j] < 0) 0 else v[perm[j]] * flip[j]))
  /// initial weights: the zero column may start anywhere
  pure def imageW(v: Vec, perm: List[int], flip: List[int], g: int, zc: int): Vec =
    range(0, perm.length()).foldl([], (l, j) => l.append(if (perm[j] < 0) zc else v[perm[j]] * flip[j] * g))
  pure def shuffle(n: int, s: int): List[int] =
    range(0, n).foldl(range(0, n), (l, i) => {
      val j = draw(s, 600 + i, n)
      l.replaceAt(i, l[j]).replaceAt(j, l[i])
    })

  action init = {
    nondet r = RELS.oneOf()
    nondet k = kindsOf(r).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet z = Set(true, false).oneOf()
    val q = params(k, n, s)
    val pa =
      if (r == "gngd0") { ...q, ro: 0, eps: pick(s, 800, [q.eps, rat(1, 1000), rat(1, 100), rat(1, 100000)], q.eps) }
      else if (r == "vsl0") { ...q, ro: 0, mu: pick(s, 801, [q.mu], rat(draw(s, 802, 3000), 1000)) } else if (r == "ap1") { ...q, order: 1 }
      else if (r == "mu0") { ...q, mu: 0 } else if (r == "ridge") { ...q, mu: ONE } else q
    val pb =
      if (r == "gngd0") { ...pa, kind: "NLMS" } else if (r == "ap1") { ...pa, kind: "NLMS", eps: pa.ifc }
      else if (r == "vsl0") { ...pa, kind: "LMS" }
      else if (r == "zerocol") { ...pa, n: n + 1 } else pa
    val w = if (z) zeros(n) else range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 1, 6)))
    val pm = if (r == "perm") shuffle(n, s)
             else if (r == "zerocol") range(0, n).slice(0, draw(s, 650, n + 1)).concat([-1])
               .concat(range(0, n).slice(draw(s, 650, n + 1), n))
             else range(0, n)
    val fp = range(0, pm.length()).foldl([], (l, j) =>
      l.append(if (r == "sign" and draw(s, 700 + j, 2) == 0) -1 else 1))
    val g = if (r == "negate") -1 else 1
    val wb = imageW(w, pm, fp, g, dyadic(s, 660, 1, 6))
    all {
      rel' = r, pA' = pa, pB' = pb, perm' = pm, flip' = fp, neg' = g,
      a' = newFilter(pa, w), b' = newFilter(pb, wb),
      acc' = { A: diag(n, pa.eps), b: scale(pa.eps, w) },
      ev' = { op: "init", rel: r, parA: pa, parB: pb, wA0: w, wB0: wb, dA: [], xA: [], dB: [], xB: [],
              perm: pm, flip: fp, neg: g, wA: w, wB: wb, yA: [], yB: [] }
    }
  }
  action learnBoth = {
    nondet op = Set("adapt", "run").oneOf()
    nondet N = 1.to(5).oneOf()
    nondet c = Set(0, 1, 2, 3, 5, 6, 7, 9, 11).oneOf()
    nondet s = 0.to(2^30).oneOf()
    val M = if (op == "adapt") 1 else N
    val xa = samples(c, s, M, pA.n)
    val da = targets(c, s, M)
    val xb = xa.foldl([], (m, v) => m.append(image(v, perm, flip)))
    val db = da.foldl([], (l, v) => l.append(v * neg))
    val ra = runF(pA, a, da, xa)
    val rb = runF(pB, b, db, xb)
    all {
      okRun(pA, a, da, xa), okRun(pB, b, db, xb),
      rel' = rel, pA' = pA, pB' = pB, perm' = perm, flip' = flip, neg' = neg,
      a' = ra.st, b' = rb.st,
      acc' = if (rel == "ridge")
        { A: range(0, M).foldl(acc.A, (m, i) => addM(m, outer(xa[i], xa[i]))),
          b: range(0, M).foldl(acc.b, (v, i) => axpy(v, da[i], xa[i])) } else acc,
      ev' = { ...ev, op: op, dA: da, xA: xa, dB: db, xB: xb,
              wA: if (rel == "ridge") solve(range(0, M).foldl(acc.A, (m, i) => addM(m, outer(xa[i], xa[i]))),
                                            range(0, M).foldl(acc.b, (v, i) => axpy(v, da[i], xa[i])))
                  else ra.st.w,
              wB: rb.st.w, yA: ra.y, yB: rb.y }
    }
  }
  action step = learnBoth

  pure val SLACK: int = 2^80      // 2^-80: rounding of the specification's own arithmetic
  val related = range(0, perm.length()).foldl(true, (ok, j) => ok and (
    if (perm[j] < 0) b.w[j] == ev.wB0[j]
    else abs(b.w[j] - a.w[perm[j]] * flip[j] * neg) <= SLACK))
  val outputs = range(0, ev.yA.length()).foldl(true, (ok, k) => ok and abs(ev.yB[k] - ev.yA[k] * neg) <= SLACK)
  val ridge = rel == "ridge" implies maxAbs(sub(a.w, ev.wA)) <= SLACK
  val still = rel == "mu0" implies a.w == ev.wA0
  val inv = related and outputs and ridge and still
}

/// special cases of one algorithm coincide with another one
module C29 { import pairs(RELS = Set("gngd0", "ap1", "vsl0", "mu0", "ridge")).* from "./pairs" }
/// all input positions are alike
module C30 { import pairs(RELS = Set("perm", "sign", "negate", "zerocol")).* from "./pairs" }
