// -*- mode: Bluespec; -*-
/// OCNLMS as documented (memory = the last `mem` learned samples) next to OCNLMS as built.
/// The two differ by the known findings C07 cursor (the code moves its cursor by two slots per learned
/// sample, so that every other slot stays empty and counts as a sample of zeros) and C07 target (the code
/// stores e + the output recomputed after the input was stored, not the target).
module ocideal {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  /// documented memory: newest last
  type Ideal = { w: Vec, xs: Mat, ds: Vec }
  type Ev = { op: str, d: int, x: Vec, built: int, ideal: int, par: Par, w0: Vec, wBuilt: Vec, wIdeal: Vec }
  var par: Par
  var built: St
  var ideal: Ideal
  var ev: Ev

  pure def keep(m: Mat, k: int): Mat = if (m.length() > k) m.slice(m.length() - k, m.length()) else m
  pure def keepV(v: Vec, k: int): Vec = if (v.length() > k) v.slice(v.length() - k, v.length()) else v
  pure def mx(i: Ideal, n: int): Vec = if (i.xs.length() == 0) zeros(n) else meanRows(i.xs, n)
  pure def md(i: Ideal): int = if (i.ds.length() == 0) 0 else mean(i.ds)
  pure def predictIdeal(i: Ideal, x: Vec): int = dot(i.w, sub(x, mx(i, x.length()))) + md(i)
  pure def learnIdeal(p: Par, i: Ideal, d: int, x: Vec): Ideal = {
    val e = d - predictIdeal(i, x)
    val xs = keep(i.xs.append(x), p.mem)
    val z = sub(x, meanRows(xs, x.length()))
    { w: add(i.w, gain(e, z, div(p.mu, p.eps + norm2(z)))), xs: xs, ds: keepV(i.ds.append(d), p.mem) }
  }

  action init = {
    nondet n = 1.to(3).oneOf()
    nondet s = 0.to(2^40).oneOf()
    val b = born("OCNLMS", n, s, false)
    all {
      par' = b.par, built' = b.st, ideal' = { w: b.st.w, xs: [], ds: [] },
      ev' = { op: "init", d: 0, x: [], built: 0, ideal: 0, par: b.par, w0: b.st.w, wBuilt: b.st.w, wIdeal: b.st.w }
    }
  }
  action learnX = {
    nondet c = Set(0, 1, 2, 9).oneOf()
    nondet s = 0.to(2^40).oneOf()
    val x = samples(c, s, 1, par.n)[0]
    val d = targets(c, s, 1)[0]
    val b2 = learn(par, built, d, x)
    val i2 = learnIdeal(par, ideal, d, x)
    all {
      okLearn(par, built, d, x), maxAbs(i2.w) < LIMIT,
      par' = par, built' = b2, ideal' = i2,
      ev' = { op: "learn", d: d, x: x, built: predict(par, built, x), ideal: predictIdeal(ideal, x), par: par, w0: [],
              wBuilt: b2.w, wIdeal: i2.w }
    }
  }
  action clearX = all {
    par' = par, built' = clearMemory(par, built), ideal' = { ...ideal, xs: [], ds: [] },
    ev' = { op: "clear", d: 0, x: [], built: 0, ideal: 0, par: par, w0: [], wBuilt: built.w, wIdeal: ideal.w }
  }
  action step = any { learnX, learnX, learnX, learnX, learnX, learnX, clearX }

  /// never more than mem entries, inputs and targets in step, prediction of a constant series exact
  val bounded = ideal.xs.length() <= par.mem and ideal.xs.length() == ideal.ds.length()
  val fresh = ideal.xs.length() == 0 implies (isZero(mx(ideal, par.n)) and md(ideal) == 0)
  val inv = bounded and fresh
}
