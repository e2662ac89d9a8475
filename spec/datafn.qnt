// -*- mode: Bluespec; -*-
/// The data functions of padasip (preprocess, detection, misc) as functions on reals, and the machine
/// that calls them.
module datafn {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  // ================================================================ misc
  /// error of a pair of series; with one series the series is the error
  pure def errorOf(x1: Vec, x2: Vec, pair: bool): Vec = if (pair) sub(x1, x2) else x1
  pure def MSE(e: Vec): int = norm2(e) / e.length()
  pure def MAE(e: Vec): int = e.foldl(0, (s, a) => s + abs(a)) / e.length()
  pure def RMSE(e: Vec): int = sqrt(MSE(e))
  /// 10 log10(e^2), for e other than 0
  pure def logSE(e: Vec): Vec = e.foldl([], (l, a) => l.append(if (a == 0) 0 else 20 * log10(abs(a))))

  // ================================================================ preprocess
  pure def windows(a: Vec, n: int, bias: bool): Mat =
    range(0, a.length() - n + 1).foldl([], (m, i) =>
      m.append(if (bias) a.slice(i, i + n).append(ONE) else a.slice(i, i + n)))
  pure def std(v: Vec): int = {
    val mu = mean(v)
    sqrt(v.foldl(0, (s, a) => s + sq(a - mu)) / v.length())
  }
  pure def standardize(v: Vec, offset: int, sc: int): Vec = v.foldl([], (l, a) => l.append(div(a - offset, sc)))
  pure def standardizeBack(v: Vec, offset: int, sc: int): Vec = v.foldl([], (l, a) => l.append(mul(a, sc) + offset))

  // ================================================================ detection
  /// difference along time; row k of the result belongs to sample k, the first row is kept as it is
  pure def diff1(w: Mat, from: int): Mat =
    range(0, w.length()).foldl([], (m, k) => m.append(if (k < from) w[k] else sub(w[k], w[k - 1])))
  /// |D w| of the given order.  As built: the first `order` rows, which have no difference, hold the weights
  /// themselves (known finding C17-first-rows / C18-first-rows).
  pure def absDiff(w: Mat, order: int): Mat = {
    val dn = range(1, order + 1).foldl(w, (m, o) => diff1(m, o))
    range(0, w.length()).foldl([], (m, k) => m.append(
      if (k < order) w[k] else dn[k].foldl([], (l, a) => l.append(abs(a)))))
  }
  /// the m values of column j before row k
  pure def before(dw: Mat, k: int, m: int, j: int): Vec =
    range(k - m, k).foldl([], (l, i) => l.append(dw[i][j]))
  pure val EPS10: int = ONE / 10000000000
  pure def leCell(dw: Mat, k: int, m: int, j: int): int = {
    val b = before(dw, k, m, j)
    div(dw[k][j] - mean(b), std(b) + EPS10)
  }
  pure def leDirect(w: Mat, m: int, order: int): Mat = {
    val dw = absDiff(w, order)
    range(0, w.length()).foldl([], (r, k) => r.append(
      range(0, w[0].length()).foldl([], (l, j) => l.append(if (k < m) 0 else leCell(dw, k, m, j)))))
  }
  /// how far doubles may be from leDirect: rounding of |D w| is relative to the largest value in the
  /// window and is divided by std + 1e-10
  pure def leSlack(w: Mat, m: int, order: int): Mat = {
    val dw = absDiff(w, order)
    val big = maxAbsM(w) * 2
    range(0, w.length()).foldl([], (r, k) => r.append(
      range(0, w[0].length()).foldl([], (l, j) => l.append(
        if (k < m) 0 else {
          val s = std(before(dw, k, m, j)) + EPS10
          val v = abs(leCell(dw, k, m, j))
          mul(div(big / 2^44, s), ONE + v) + v / 2^36
        }))))
  }
  /// smallest and largest number of exceeded (weight, sensitivity) pairs at row k that double
  /// arithmetic may count: comparisons closer than rounding count either way, exact zeros do not
  pure def leCount(w: Mat, m: int, order: int, alphas: Vec): List[(int, int)] = {
    val dw = absDiff(w, order)
    val big = maxAbsM(w) * 2
    range(0, w.length()).foldl([], (r, k) => r.append(
      if (k < m) (0, 0)
      else range(0, w[0].length()).foldl((0, 0), (c, j) => {
        val a = mean(before(dw, k, m, j))
        alphas.foldl(c, (q, al) => {
          val gap = dw[k][j] - mul(a, al)
          val t = mul(big / 2^44, ONE + abs(al))
          if (dw[k][j] == 0 and a == 0) q
          else if (abs(gap) <= t) (q._1, q._2 + 1)
          else if (gap > 0) (q._1 + 1, q._2 + 1) else q
        })
      })))
  }
  pure def elbnd(w: Mat, e: Vec, fn: str): Vec =
    range(0, w.length()).foldl([], (l, k) => l.append(
      if (k == w.length() - 1) 0
      else range(0, w[0].length()).foldl(0, (s, j) => {
        val v = abs(mul(e[k], w[k + 1][j] - w[k][j]))
        if (fn == "sum") s + v else max2(s, v)
      })))

  // ---------------------------------------------------------------- ESE
  pure val METHODS: List[str] = ["10%", "30%", "35%", "sqrt", "log10", "log10log10"]
  /// floor of a positive real
  pure def floor(a: int): int = a / ONE
  /// number of peaks over threshold taken from n values
  pure def peaks(n: int, method: str): int = {
    val r = n * ONE
    max2(1,
      if (method == "10%") n / 10 else if (method == "30%") 3 * n / 10 else if (method == "35%") 35 * n / 100
      else if (method == "sqrt") isqrt(n)
      else if (method == "log10") floor(log10(r) + 2^40)
      else floor(div(pow(r, rat(2, 3)), log10(log10(r)))))
  }
  /// largest first
  pure def insert(l: Vec, a: int): Vec = {
    val k = l.foldl(0, (c, b) => if (b >= a) c + 1 else c)
    l.slice(0, k).append(a).concat(l.slice(k, l.length()))
  }
  pure def descending(v: Vec): Vec = v.foldl([], (l, a) => insert(l, a))
  pure def pot(v: Vec, method: str): Vec = {
    val k = peaks(v.length(), method)
    val d = descending(v)
    if (k >= d.length()) d else d.slice(0, k)
  }
  /// As built: row 0 of the increments holds the weights themselves (known finding C20-first-row).
  pure def increments(w: Mat): Mat = range(0, w.length()).foldl([], (m, k) =>
    m.append(if (k == 0) w[0] else range(0, w[0].length()).foldl([], (l, j) => l.append(abs(w[k][j] - w[k - 1][j])))))
  /// for every row after the window and every weight: the peaks, the current change, and whether
  /// it exceeds the threshold
  pure def eseCells(w: Mat, window: int, method: str): List[List[{ peaks: Vec, dw: int, over: bool }]] = {
    val dw = increments(w)
    range(min2(window, w.length()), w.length()).foldl([], (r, i) => r.append(
      range(0, w[0].length()).foldl([], (l, j) => {
        val p = pot(before(dw, i, window, j), method)
        l.append({ peaks: if (dw[i][j] > p[p.length() - 1]) p else [p[p.length() - 1]], dw: dw[i][j],
                   over: dw[i][j] > p[p.length() - 1] })
      })))
  }
  /// tail probability of the exponential law with the mean excess of the peaks: what a fitting
  /// environment that always answers (shape 0, location threshold, scale mean excess + 1/4) gives
  pure def expTail(c: { peaks: Vec, dw: int, over: bool }): int = {
    val thr = c.peaks[c.peaks.length() - 1]
    val s = mean(c.peaks) - thr + ONE / 4
    exp(-div(c.dw - thr, s))
  }
  pure val E20: int = ONE / 100000000000000000000
  /// the score with that environment; doubles compute 1 - cdf with an absolute error of about 2^-53,
  /// `err` shifts every tail probability by so much
  pure def eseExp(cells: List[List[{ peaks: Vec, dw: int, over: bool }]], window: int, err: int): Vec =
    zeros(window).concat(cells.foldl([], (l, row) => l.append(
      -row.foldl(0, (s, c) => if (c.over) s + log10(max2(0, expTail(c) + err) + E20) else s))))
}
