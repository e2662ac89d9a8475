// -*- mode: Bluespec; -*-
/// Calls that overlap in time.  Two threads are inside the library at once, each with a filter (or network,
/// or data function) of its own; the scheduler decides who goes on, after any number of atomic steps.
module concur {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  const KSET: Set[str]

  /// a filter at work on a data set: what it has produced so far, and what it would produce alone
  type Proc = { par: Par, w0: Vec, st: St, how: str, d: Vec, x: Mat, y: Vec, e: Vec, W: Mat,
                alone: { y: Vec, e: Vec, W: Mat, w: Vec } }
  var procs: List[Proc]
  /// who went on, and for how long (in the steps of the implementation, which are finer than ours)
  var ev: { p: int, burst: int }
  pure val BURSTS: Set[int] = Set(1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144)

  pure def proc(k: str, n: int, s: int, data: int, N: int, c: int, how: str): Proc = {
    val b = born(k, n, s, false)
    val x = samples(c, data, N, n)
    val d = targets(c, data, N)
    val r = if (okRun(b.par, b.st, d, x)) runF(b.par, b.st, d, x) else { y: [], e: [], W: [], st: b.st }
    { par: b.par, w0: b.st.w, st: b.st, how: how, d: d, x: x, y: [], e: [], W: [],
      alone: { y: r.y, e: r.e, W: r.W, w: r.st.w } }
  }
  action init = {
    nondet k0 = KSET.oneOf()
    nondet other = KSET.oneOf()
    nondet alike = Set(true, true, false).oneOf()
    nondet n0 = 1.to(4).oneOf()
    nondet n1 = 1.to(4).oneOf()
    nondet same = Set(true, false).oneOf()
    nondet N0 = 1.to(5).oneOf()
    nondet N1 = 1.to(5).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet c0 = Set(0, 1, 2, 5, 6, 9).oneOf()
    nondet c1 = Set(0, 1, 2, 5, 6, 9).oneOf()
    nondet h0 = Set("run", "run", "online", "pretrained").oneOf()
    nondet h1 = Set("run", "online").oneOf()
    // often two filters that differ in nothing but what they learn
    val a = proc(k0, n0, s, s, N0, c0, h0)
    val b = proc(if (alike) k0 else other, if (same) n0 else n1, if (same) s else s + 1, s + 1, N1, c1, h1)
    all {
      a.alone.y.length() == N0, b.alone.y.length() == N1,
      procs' = [a, b],
      ev' = { p: -1, burst: 0 }
    }
  }
  /// thread p learns its next sample
  action tick = {
    nondet p = 0.to(1).oneOf()
    nondet burst = BURSTS.oneOf()
    val q = procs[p]
    val k = q.y.length()
    if (k == q.d.length()) all { procs' = procs, ev' = { p: p, burst: burst } }
    else {
      val y = predict(q.par, q.st, q.x[k])
      all {
        procs' = procs.replaceAt(p, { ...q, st: learn(q.par, q.st, q.d[k], q.x[k]), y: q.y.append(y),
                                      e: q.e.append(q.d[k] - y), W: q.W.append(q.st.w) }),
        ev' = { p: p, burst: burst }
      }
    }
  }
  action step = tick
  /// whatever the schedule, each thread produces what it would produce alone
  val inv = procs.foldl(true, (ok, q) => {
    val k = q.y.length()
    ok and q.y == q.alone.y.slice(0, k) and q.e == q.alone.e.slice(0, k) and q.W == q.alone.W.slice(0, k)
      and q.st.w == (if (k < q.d.length()) q.alone.W[k] else q.alone.w)
  })
}

module C10 {
  import concur(KSET = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")).* from "./concur"
}

/// The same for calls whose inside is not modelled: a call is a number of steps that work on memory of its own,
/// so its result is the one it has alone.
module duet {
  const NAMES: Set[str]
  /// `shape` names the sizes and options of the call, `s` its numbers
  type Proc = { name: str, s: int, shape: int, left: int, own: List[int], alone: List[int] }
  var procs: List[Proc]
  var ev: { p: int, burst: int }
  pure val BURSTS: Set[int] = Set(1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233)
  pure def work(s: int, own: List[int]): List[int] = own.append((own.foldl(s, (a, b) => (a * 31 + b) % 65521)))
  pure def proc(name: str, s: int, shape: int, steps: int): Proc =
    { name: name, s: s, shape: shape, left: steps, own: [], alone: range(0, steps).foldl([], (l, i) => work(s, l)) }
  action init = {
    nondet a = NAMES.oneOf()
    nondet b = NAMES.oneOf()
    nondet alike = Set(true, false).oneOf()
    nondet same = Set(true, true, false).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet k = 1.to(8).oneOf()
    nondet m = 1.to(8).oneOf()
    all { procs' = [proc(a, s, s, k), proc(if (alike) a else b, s + 1, if (same) s else s + 1, m)], ev' = { p: -1, burst: 0 } }
  }
  action step = {
    nondet p = 0.to(1).oneOf()
    nondet burst = BURSTS.oneOf()
    val q = procs[p]
    all {
      procs' = if (q.left == 0) procs else procs.replaceAt(p, { ...q, left: q.left - 1, own: work(q.s, q.own) }),
      ev' = { p: p, burst: burst }
    }
  }
  val inv = procs.foldl(true, (ok, q) => ok and q.own == q.alone.slice(0, q.own.length()))
}
module C28 {
  import duet(NAMES = Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error", "input_from_history", "standardize",
    "standardize_back", "learning_entropy", "multiscale", "ELBND", "ESE", "PCA", "PCA_components", "LDA",
    "LDA_discriminants", "filter_data")).* from "./concur"
}
module C31 {
  import duet(NAMES = Set("predict", "update", "train", "run", "test")).* from "./concur"
}
