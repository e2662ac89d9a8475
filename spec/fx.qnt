// -*- mode: Bluespec; -*-
/// Real arithmetic for the padasip specification.
///
/// A real number r is represented by the integer  r * 2^160  (fixed point, unbounded
/// integers).  Every double whose exponent is in a sane range is representable exactly, sums are
/// exact, and a product or quotient is off by at most 2^-160, i.e. about 1e-48: forty orders of
/// magnitude below the rounding of the implementation, so this is "the real numbers" for every
/// comparison made here.
module fx {
  type Vec = List[int]
  type Mat = List[List[int]]

  pure val ONE: int = 1461501637330902918203684832716283019655932542976   // 2^160
  pure val HALF: int = 730750818665451459101842416358141509827966271488
  pure val TWO: int = 2923003274661805836407369665432566039311865085952

  /// the rational p/q as a real
  pure def rat(p: int, q: int): int = p * ONE / q

  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = a * ONE / b
  pure def sq(a: int): int = a * a / ONE
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max2(a: int, b: int): int = if (a < b) b else a
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def sgn(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0

  // NOTE on style.  The Quint simulator keeps one register per operator parameter, so an operator
  // that takes an operator argument goes wrong when it is re-entered from that argument
  // (tab(n, i => tab(m, j => ..))).  No operator of this specification therefore takes an operator
  // argument: every iteration is a fold with a literal lambda (lib/lint_spec.py enforces it).
  //     range(0, n).foldl([], (l, i) => l.append(E(i)))      is   < E(0), .., E(n-1) >

  pure def sum(v: Vec): int = v.foldl(0, (s, a) => s + a)
  pure def maxAbs(v: Vec): int = v.foldl(0, (s, a) => if (abs(a) > s) abs(a) else s)
  pure def maxAbsM(m: Mat): int = m.foldl(0, (s, r) => { val q = maxAbs(r)  if (q > s) q else s })

  pure def zeros(n: int): Vec = range(0, n).foldl([], (l, i) => l.append(0))
  pure def zerosM(n: int, m: int): Mat = range(0, n).foldl([], (l, i) => l.append(zeros(m)))
  pure def scale(c: int, v: Vec): Vec = v.foldl([], (l, a) => l.append(mul(c, a)))
  pure def add(u: Vec, v: Vec): Vec = range(0, u.length()).foldl([], (l, i) => l.append(u[i] + v[i]))
  pure def sub(u: Vec, v: Vec): Vec = range(0, u.length()).foldl([], (l, i) => l.append(u[i] - v[i]))
  /// u + c*v
  pure def axpy(u: Vec, c: int, v: Vec): Vec =
    range(0, u.length()).foldl([], (l, i) => l.append(u[i] + mul(c, v[i])))
  pure def dot(u: Vec, v: Vec): int = range(0, u.length()).foldl(0, (s, i) => s + u[i] * v[i]) / ONE
  pure def norm2(u: Vec): int = dot(u, u)
  pure def isZero(u: Vec): bool = u.foldl(true, (s, a) => s and a == 0)
  pure def matVec(m: Mat, v: Vec): Vec = m.foldl([], (l, r) => l.append(dot(r, v)))
  pure def column(m: Mat, j: int): Vec = m.foldl([], (l, r) => l.append(r[j]))
  pure def transpose(m: Mat): Mat =
    if (m.length() == 0) [] else range(0, m[0].length()).foldl([], (l, j) => l.append(column(m, j)))
  pure def matMul(a: Mat, b: Mat): Mat = {
    val bt = transpose(b)
    a.foldl([], (l, r) => l.append(matVec(bt, r)))
  }
  pure def diag(n: int, c: int): Mat =
    range(0, n).foldl([], (l, i) => l.append(zeros(n).replaceAt(i, c)))
  pure def addM(a: Mat, b: Mat): Mat =
    range(0, a.length()).foldl([], (l, i) => l.append(add(a[i], b[i])))
  pure def scaleM(c: int, a: Mat): Mat = a.foldl([], (l, r) => l.append(scale(c, r)))
  pure def outer(u: Vec, v: Vec): Mat = u.foldl([], (l, a) => l.append(scale(a, v)))
  pure def trace(a: Mat): int = range(0, a.length()).foldl(0, (s, i) => s + a[i][i])

  /// sum / count, rounded once
  pure def mean(v: Vec): int = sum(v) / v.length()
  /// mean of the rows of a matrix with n columns
  pure def meanRows(m: Mat, n: int): Vec =
    range(0, n).foldl([], (l, j) => l.append(m.foldl(0, (s, r) => s + r[j]) / m.length()))

  /// one elimination step of Gauss-Jordan on row p
  pure def pivot(m: Mat, p: int): Mat = {
    val prow = m[p].foldl([], (l, v) => l.append(div(v, m[p][p])))
    range(0, m.length()).foldl([], (l, i) =>
      l.append(if (i == p) prow else axpy(m[i], -m[i][p], prow)))
  }
  /// x such that a*x = b, for symmetric positive definite a (no pivoting needed)
  pure def solve(a: Mat, b: Vec): Vec = {
    val n = a.length()
    val aug = range(0, n).foldl([], (l, i) => l.append(a[i].append(b[i])))
    val red = range(0, n).foldl(aug, (m, p) => pivot(m, p))
    red.foldl([], (l, r) => l.append(r[n]))
  }

  /// number of binary digits of a (a < 2^600)
  pure def bitLen(a: int): int =
    range(0, 10).foldl((a, 0), (st, i) => {
      val h = 2^(9 - i)
      if (st._1 >= 2^h) (st._1 / 2^h, st._2 + h) else st
    })._2 + (if (a > 0) 1 else 0)

  /// floor of the square root of an integer
  pure def isqrt(a: int): int =
    if (a <= 0) 0 else {
      val x0 = 2^((bitLen(a) + 1) / 2)
      range(0, 12).foldl(x0, (x, i) => { val y = (x + a / x) / 2  if (y < x) y else x })
    }
  pure def sqrt(a: int): int = isqrt(a * ONE)

  /// exp for |a| <= 200
  pure def exp(a: int): int = {
    val r = a / 2^12
    val t = range(1, 32).foldl((ONE, ONE), (p, k) => {
      val term = mul(p._1, r) / k
      (term, p._2 + term)
    })._2
    range(0, 12).foldl(t, (v, i) => sq(v))
  }
  /// 2 * artanh(t), |t| <= 1/3
  pure def atanh2(t: int): int = {
    val t2 = sq(t)
    2 * range(0, 52).foldl((t, 0), (p, k) => (mul(p._1, t2), p._2 + p._1 / (2 * k + 1)))._2
  }
  // = atanh2(ONE / 3)  and  3 * LN2 + atanh2(ONE / 9), see fxtest.qnt
  pure val LN2: int = 1013035739299659071135698605846798551586536899366
  pure val LN10: int = 3365231883504527125129111981421568120141379515367
  /// natural logarithm of a positive real
  pure def ln(a: int): int = {
    val k = bitLen(a) - 161
    val m = if (k >= 0) a / 2^k else a * 2^(-k)
    k * LN2 + atanh2(div(m - ONE, m + ONE))
  }
  pure def log10(a: int): int = div(ln(a), LN10)
  pure def tanh(a: int): int = {
    val m = abs(a)
    val v = if (m > 60 * ONE) ONE else { val q = exp(-2 * m)  div(ONE - q, ONE + q) }
    if (a < 0) -v else v
  }
  pure def sigmoid(a: int): int = div(ONE, ONE + exp(-a))
  /// a^p for a >= 0 and real p (0^0 = 1)
  pure def pow(a: int, p: int): int =
    if (p == 0) ONE else if (a == 0) 0 else exp(mul(p, ln(a)))

  /// equality up to an absolute tolerance
  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  pure def nearV(u: Vec, v: Vec, tol: int): bool =
    u.length() == v.length() and range(0, u.length()).foldl(true, (s, i) => s and near(u[i], v[i], tol))
  pure def nearM(u: Mat, v: Mat, tol: int): bool =
    u.length() == v.length() and range(0, u.length()).foldl(true, (s, i) => s and nearV(u[i], v[i], tol))

  // ------------------------------------------------------------------ data choices
  /// The i-th pseudo-random draw below `m` named by `seed`: one nondeterministic choice of a
  /// seed in an action stands for the choice of a whole data set.
  pure def draw(seed: int, i: int, m: int): int = {
    val a = (seed + 1) * 6364136223846793005 + (i + 1) * 1442695040888963407
    val b = (a % 2^64) * ((a % 2^64) / 2^29 + 2862933555777941757)
    val c = (b % 2^64) * 3202034522624059733 + b / 2^70
    ((c % 2^64) / 2^17) % m
  }
  /// dyadic rational in (-r, r) with q fractional bits; exactly representable as a double
  pure def dyadic(seed: int, i: int, r: int, q: int): int =
    (draw(seed, i, 2 * r * 2^q - 1) - r * 2^q + 1) * 2^(160 - q)
  /// n draws, from position i on
  pure def dyadicV(seed: int, i: int, n: int, r: int, q: int): Vec =
    range(0, n).foldl([], (l, k) => l.append(dyadic(seed, i + k, r, q)))
  pure def dyadicM(seed: int, i: int, n: int, m: int, r: int, q: int): Mat =
    range(0, n).foldl([], (l, k) => l.append(dyadicV(seed, i + k * m, m, r, q)))
}
