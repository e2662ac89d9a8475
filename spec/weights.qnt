// -*- mode: Bluespec; -*-
/// C14: where the initial weights come from.  numpy's global generator is an abstract stream: its
/// state is the seed and what was drawn since; equal positions give equal weights, different positions
/// different ones, and building a filter moves the position by its own draws only.
module weights {
  import fx.* from "./fx"
  import filters.* from "./filters"

  type Ev = { op: str, kind: str, n: int, how: str, seed: int, w: Vec, exact: bool, err: bool, twin: bool }
  /// position in the stream: the seed and the sizes drawn since
  type Pos = { seed: int, drawn: List[int] }
  var rng: Pos
  var ev: Ev
  /// every position from which weights of a size were drawn so far
  var seen: Set[(Pos, int)]

  pure val NAMES: Set[str] = Set("AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
    "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews")
  pure val NOEV: Ev = { op: "none", kind: "", n: 0, how: "", seed: 0, w: [], exact: true, err: false, twin: false }
  action init = { nondet s = 0.to(3).oneOf()
    all { rng' = { seed: s, drawn: [] }, ev' = { ...NOEV, op: "seed", seed: s }, seen' = Set() } }

  /// the caller seeds the generator
  action seedX = {
    nondet s = 0.to(3).oneOf()
    all { rng' = { seed: s, drawn: [] }, ev' = { ...NOEV, op: "seed", seed: s }, seen' = seen }
  }
  /// the caller draws m numbers of its own
  action userX = {
    nondet m = Set(1, 2, 3).oneOf()
    all { rng' = { ...rng, drawn: rng.drawn.append(m) }, ev' = { ...NOEV, op: "draw", n: m }, seen' = seen }
  }
  action randomX = {
    nondet k = NAMES.oneOf()
    nondet n = Set(1, 2, 3, 4, 8, 30, 65, 200, 300, 1025).oneOf()
    nondet how = Set("random", "default", "factory", "positional", "again").oneOf()
    all {
      rng' = { ...rng, drawn: rng.drawn.append(n) },
      ev' = { ...NOEV, op: "build", kind: k, n: n, how: how, exact: false, twin: seen.contains((rng, n)) },
      seen' = seen.union(Set((rng, n)))
    }
  }
  /// weights given in full, or zeros: nothing is drawn
  action givenX = {
    nondet k = NAMES.oneOf()
    nondet n = Set(1, 2, 3, 4, 5, 66, 130).oneOf()
    nondet how = Set("zeros", "array", "list", "tuple", "ints", "intarray", "f32", "i8", "strided", "readonly", "bigendian", "reversed",
      "bigf32", "f16", "longdouble", "npscalars", "bigi32").oneOf()
    nondet s = 0.to(2^40).oneOf()
    val q = if (Set("ints", "intarray", "i8", "bigi32").contains(how)) 0 else if (how == "f16") 3 else if (how == "f32" or how == "bigf32") 6 else 12
    all {
      rng' = rng,
      ev' = { ...NOEV, op: "build", kind: k, n: n, how: how, w: if (how == "zeros") zeros(n) else dyadicV(s, 1, n, 100, q) },
      seen' = seen
    }
  }
  action refuseX = {
    nondet k = NAMES.oneOf()
    nondet n = 2.to(5).oneOf()
    nondet how = Set("ones", "Zeros", "ZEROS", "RANDOM", "", "short", "long", "empty", "matrix", "text", "none", "number", "ragged", "column").oneOf()
    all {
      rng' = { ...rng, seed: rng.seed + 1000 },      // unspecified from here on, see seedX
      ev' = { ...NOEV, op: "refuse", kind: k, n: n, how: how, err: true },
      seen' = seen
    }
  }
  action step = any { seedX, seedX, userX, randomX, randomX, randomX, randomX, givenX, givenX, refuseX }
  val inv = ev.op == "build" implies (ev.exact implies ev.w.length() == ev.n)
}

/// a logged sample of random initial weights
module drawlog {
  import fx.* from "./fx"
  type Logged = { v: Vec }
  pure def within(k: int, N: int, p: int, q: int): bool = abs(k * q - N * p) * abs(k * q - N * p) <= 36 * N * p * (q - p)
  /// v is a plausible sample of the normal law with mean 0 and deviation 1/2: moments, quantiles and
  /// lag 1 correlation, each within six standard errors
  pure def verdict(r: Logged): str = {
    val N = r.v.length()
    val m = sum(r.v) / N
    val s2 = r.v.foldl(0, (s, a) => s + sq(a)) / N
    val m4 = r.v.foldl(0, (s, a) => s + sq(sq(a))) / N
    val rt = isqrt(N * 2^80)            // sqrt(N) * 2^40
    val lag = range(1, N).foldl(0, (s, k) => s + mul(r.v[k], r.v[k - 1])) / N
    val lag2 = range(2, N).foldl(0, (s, k) => s + mul(r.v[k], r.v[k - 2])) / N
    if (abs(m) > 6 * (HALF * 2^40 / rt)) "mean 0"
    else if (abs(s2 - ONE / 4) > 9 * (ONE / 4 * 2^40 / rt)) "deviation 0.5"
    else if (abs(m4 - 3 * ONE / 16) > 60 * (ONE / 16 * 2^40 / rt)) "fourth moment of the normal law"
    else if (abs(lag) > 6 * (ONE / 4 * 2^40 / rt) or abs(lag2) > 6 * (ONE / 4 * 2^40 / rt)) "independence"
    else if (not(within(r.v.foldl(0, (c, a) => if (a > 0) c + 1 else c), N, 1, 2))) "symmetry"
    else if (not(within(r.v.foldl(0, (c, a) => if (abs(a) < HALF) c + 1 else c), N, 682689, 1000000))) "share within one deviation"
    else if (not(within(r.v.foldl(0, (c, a) => if (abs(a) < ONE) c + 1 else c), N, 954500, 1000000))) "share within two deviations"
    else if (r.v.foldl(Set(), (s, a) => s.union(Set(a))).size() < N) "no number twice"
    else ""
  }
}

/// C31: where the initial weights of networks come from; the same stream as for filters
module netweights {
  import fx.* from "./fx"
  type Shape = { nin: int, sizes: List[int], nout: int }
  type Pos = { seed: int, drawn: List[List[int]] }
  type Ev = { op: str, shape: Shape, n: int, seed: int, auto: bool, f: str, twin: bool }
  var rng: Pos
  var ev: Ev
  var seen: Set[(Pos, Shape)]
  pure val NOEV: Ev = { op: "none", shape: { nin: 0, sizes: [], nout: 0 }, n: 0, seed: 0, auto: true, f: "sigmoid", twin: false }
  /// what is drawn for a network of this shape: one number per weight
  pure def flat(s: Shape): List[int] = [s.nin, s.nout].concat(s.sizes)
  action init = { nondet s = 0.to(2).oneOf()
    all { rng' = { seed: s, drawn: [] }, ev' = { ...NOEV, op: "seed", seed: s }, seen' = Set() } }
  action seedX = {
    nondet s = 0.to(2).oneOf()
    all { rng' = { seed: s, drawn: [] }, ev' = { ...NOEV, op: "seed", seed: s }, seen' = seen }
  }
  action userX = {
    nondet m = Set(1, 2).oneOf()
    all { rng' = { ...rng, drawn: rng.drawn.append([m]) }, ev' = { ...NOEV, op: "draw", n: m }, seen' = seen }
  }
  /// learning rate and activation have no say in the weights
  action buildX = {
    nondet nin = Set(1, 3, 7).oneOf()
    nondet sizes = Set([1], [4], [3, 2], [2, 5, 3], [2, 1, 3, 2], [1, 2, 1, 1, 3]).oneOf()
    nondet nout = Set(1, 2).oneOf()
    nondet auto = Set(true, false).oneOf()
    nondet f = Set("sigmoid", "tanh").oneOf()
    val shape = { nin: nin, sizes: sizes, nout: nout }
    all {
      rng' = { ...rng, drawn: rng.drawn.append(flat(shape)) },
      ev' = { ...NOEV, op: "build", shape: shape, auto: auto, f: f, twin: seen.contains((rng, shape)) },
      seen' = seen.union(Set((rng, shape)))
    }
  }
  action step = any { seedX, seedX, userX, buildX, buildX, buildX, buildX }
  val inv = ev.op == "build" implies rng.drawn.length() > 0
}
