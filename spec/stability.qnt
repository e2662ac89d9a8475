// -*- mode: Bluespec; -*-
/// C15: learning from a noise-free target d = w* . x.
module stability {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  type Ev = { op: str, d: int, x: Vec, w0: Vec, w: Vec, par: Par, target: Vec, y: int }
  var par: Par
  var st: St
  var target: Vec       // w*
  var ev: Ev
  /// squared distance to w*, and error on the same sample, before and after the last step
  var dist: (int, int)
  var err: (int, int)

  pure val ALL: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")

  /// fixed point runs start at w*; approach runs start elsewhere (NLMS and AP only)
  action init = {
    nondet fix = Set(true, false).oneOf()
    nondet k = (if (fix) ALL.exclude(Set("OCNLMS")) else Set("NLMS", "AP")).oneOf()
    nondet n = 1.to(6).oneOf()
    nondet s = 0.to(2^30).oneOf()
    val p = params(k, n, s)
    // dyadic w* and samples: the products are exact, so the error at w* is exactly zero
    val ws = range(0, n).foldl([], (l, i) => l.append(dyadic(s, 40 + i, 2, 5)))
    val w0 = if (fix) ws else range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 4, 6)))
    all {
      par' = p, target' = ws, st' = newFilter(p, w0),
      ev' = { op: "init", d: 0, x: [], w0: w0, w: w0, par: p, target: ws, y: 0 },
      dist' = (0, 0), err' = (0, 0)
    }
  }
  action learnX = {
    nondet c = Set(0, 1, 2, 5, 6, 7, 9).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet z = Set(true, false, false, false).oneOf()
    val x = if (z and draw(s, 77, 4) == 0) zeros(par.n) else samples(c, s, 1, par.n)[0]
    val d = dot(target, x)
    val s2 = learn(par, st, d, x)
    all {
      okLearn(par, st, d, x),
      par' = par, target' = target, st' = s2,
      ev' = { op: "learn", d: d, x: x, w0: st.w, w: s2.w, par: par, target: target, y: predict(par, st, x) },
      dist' = (norm2(sub(st.w, target)), norm2(sub(s2.w, target))),
      err' = (abs(d - dot(st.w, x)), abs(d - dot(s2.w, x)))
    }
  }
  action step = learnX

  // -------------------------------------------------- the property, as a relation on one step
  /// slack for doubles (logged steps); the specification's own steps meet it with slack 2^-100
  pure def nonExpanding(before: int, after: int, slack: int): bool = after <= before + slack
  pure def staysAt(w0: Vec, w: Vec, slack: int): bool = maxAbs(sub(w, w0)) <= slack
  pure def within(mu: int): bool = mu >= 0 and mu <= TWO

  val converged = ev.op == "learn" and ev.w0 == target and par.kind != "OCNLMS"
  val fixpoint = converged implies staysAt(ev.w0, ev.w, 2^60)
  val expansion = (ev.op == "learn" and Set("NLMS", "AP").contains(par.kind) and within(par.mu))
    implies nonExpanding(dist._1, dist._2, 2^60)
  val posterior = (ev.op == "learn" and par.kind == "NLMS" and within(par.mu))
    implies nonExpanding(err._1, err._2, 2^60)
  val zeroInput = (ev.op == "learn" and isZero(ev.x) and par.kind != "AP" and par.kind != "OCNLMS")
    implies ev.w == ev.w0
  val inv = fixpoint and expansion and posterior and zeroInput
}

/// noise-free runs logged from real filters: weights before every sample and after the last
module stablelog {
  import fx.* from "./fx"
  import stability.nonExpanding
  import stability.staysAt
  type Logged = { kind: str, target: Vec, x: Mat, d: Vec, W: Mat }
  /// a run of any length that started at w* is at w* after every sample
  pure def verdict(r: Logged): str =
    if (staysAt(r.W[0], r.target, 0) and r.kind != "OCNLMS")
      (if (r.W.foldl(true, (ok, w) => ok and staysAt(r.target, w, (maxAbs(r.target) + ONE) / 2^34))) "" else "the right weights were left")
    else if (Set("NLMS", "AP").contains(r.kind)) approach(r) else ""
  pure def approach(r: Logged): str = {
    val n2 = r.W.foldl([], (l, w) => l.append(norm2(sub(w, r.target))))
    range(0, r.x.length()).foldl("", (bad, k) =>
      if (bad != "") bad
      else if (not(nonExpanding(n2[k], n2[k + 1], max2(n2[k], norm2(r.target)) / 2^28)))
        "the distance to w* grew"
      else if (r.kind == "NLMS" and
               abs(r.d[k] - dot(r.W[k + 1], r.x[k])) > abs(r.d[k] - dot(r.W[k], r.x[k])) + (abs(r.d[k]) + mul(maxAbs(r.W[k]), maxAbs(r.x[k]))) / 2^32)
        "the error on the same sample grew"
      else "")
  }
}
