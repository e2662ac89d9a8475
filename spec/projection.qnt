// -*- mode: Bluespec; -*-
/// PCA and LDA as relations between data and what the functions return, and the data they are
/// called with.
module projection {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  // ================================================================ statistics
  pure def meanRow(X: Mat): Vec = meanRows(X, X[0].length())
  pure def centred(X: Mat): Mat = { val mu = meanRow(X)  X.foldl([], (m, r) => m.append(sub(r, mu))) }
  /// sum of outer products of the rows
  pure def scatter(X: Mat): Mat = {
    val t = transpose(X)
    t.foldl([], (m, a) => m.append(t.foldl([], (l, b) => l.append(dot(a, b)))))
  }
  /// sample covariance (divisor N - 1)
  pure def cov(X: Mat): Mat = scatter(centred(X)).foldl([], (m, r) => m.append(r.foldl([], (l, a) => l.append(a / (X.length() - 1)))))
  pure def rowsOf(X: Mat, labels: List[int], c: int): Mat =
    range(0, X.length()).foldl([], (m, k) => if (labels[k] == c) m.append(X[k]) else m)
  pure def classes(labels: List[int]): Set[int] = labels.foldl(Set(), (s, c) => s.union(Set(c)))
  pure def withinScatter(X: Mat, labels: List[int]): Mat =
    classes(labels).fold(zerosM(X[0].length(), X[0].length()), (m, c) => addM(m, scatter(centred(rowsOf(X, labels, c)))))
  pure def betweenScatter(X: Mat, labels: List[int]): Mat =
    classes(labels).fold(zerosM(X[0].length(), X[0].length()), (m, c) => {
      val r = rowsOf(X, labels, c)
      val q = sub(meanRow(r), meanRow(X))
      addM(m, scaleM(r.length() * ONE, outer(q, q)))
    })
  /// smallest pivot of the elimination of a symmetric positive matrix (zero when singular)
  pure def minPivot(a: Mat): int = {
    val n = a.length()
    range(0, n).foldl((a, trace(a)), (st, p) =>
      if (st._2 <= 2^100 or st._1[p][p] <= 2^100) (st._1, 0)
      else (range(0, n).foldl([], (m, i) => m.append(
              if (i <= p) st._1[i] else axpy(st._1[i], -div(st._1[i][p], st._1[p][p]), st._1[p]))),
            min2(st._2, st._1[p][p])))._2
  }
  /// columns of inverse(a) * b
  pure def solveM(a: Mat, b: Mat): Mat = transpose(transpose(b).foldl([], (m, c) => m.append(solve(a, c))))
  /// trace(a^k), k = 1 .. n
  pure def powerSums(a: Mat): Vec =
    range(0, a.length()).foldl((diag(a.length(), ONE), []), (st, k) => {
      val m = matMul(st._1, a)
      (m, st._2.append(trace(m)))
    })._2
  pure def powerSumsOf(l: Vec): Vec =
    range(0, l.length()).foldl((l.foldl([], (q, a) => q.append(ONE)), []), (st, k) => {
      val m = range(0, l.length()).foldl([], (q, i) => q.append(mul(st._1[i], l[i])))
      (m, st._2.append(sum(m)))
    })._2
  pure def decreasing(l: Vec, slack: int): bool =
    range(1, l.length()).foldl(true, (b, i) => b and l[i] <= l[i - 1] + slack)
  /// the numbers of l are the eigenvalues of a, counted with multiplicity
  pure def spectrum(l: Vec, a: Mat, rel: int): bool = {
    val p = powerSums(a)
    val q = powerSumsOf(l)
    val t = max2(abs(p[0]), 2^100)
    l.length() == a.length() and
    range(0, l.length()).foldl((true, t), (st, k) =>
      (st._1 and abs(p[k] - q[k]) <= rel * (st._2 / 2^40) + 2^90, mul(st._2, t)))._1
  }

  // ================================================================ the properties as relations
  /// PCA_components(X) = lam
  pure def componentsBad(X: Mat, lam: Vec): str = {
    val C = cov(X)
    val t = max2(trace(C), 2^100)
    if (lam.length() != X[0].length()) "number of eigenvalues"
    else if (not(decreasing(lam, t / 2^40))) "decreasing order"
    else if (abs(sum(lam) - trace(C)) > t / 2^33) "sum of the eigenvalues is the trace"
    else if (not(spectrum(lam, C, 2^10))) "eigenvalues of the covariance matrix"
    else ""
  }
  /// PCA(X, n) = Y, where lam are the eigenvalues of the covariance of X
  pure def pcaBad(X: Mat, n: int, Y: Mat, lam: Vec): str = {
    val C = cov(X)
    val t = max2(trace(C), 2^100)
    val big = max2(maxAbsM(X), 2^100)
    val Xc = centred(X)
    if (Y.length() != X.length()) "one row per sample"
    else if (not(Y.foldl(true, (b, r) => b and r.length() == n))) "n features"
    else {
      val CY = cov(Y)
      val Yc = centred(Y)
      val uncorrelated = range(0, n).foldl(true, (b, i) => b and range(0, n).foldl(true, (c, j) =>
        c and abs(CY[i][j] - (if (i == j) lam[i] else 0)) <= t / 2^30 + mul(big, big) / 2^40))
      if (not(uncorrelated)) "features uncorrelated with the largest variances"
      // the direction of a feature with variance: v = cov(X, y) / lambda
      else range(0, n).foldl("", (bad, i) =>
        if (bad != "" or lam[i] < t / 2^16 or lam[i] < mul(big, big) / 2^24) bad
        else {
          val v = transpose(Xc).foldl([], (l, c) => l.append(div(dot(c, column(Yc, i)) / (X.length() - 1), lam[i])))
          if (abs(norm2(v) - ONE) > ONE / 2^18) "directions have unit length"
          else if (not(nearV(matVec(C, v), scale(lam[i], v), t / 2^24))) "directions are eigenvectors"
          else if (not(nearV(matVec(X, v), column(Y, i), big / 2^14))) "features are projections of the data"
          else ""
        })
    }
  }
  /// LDA_discriminants(X, labels) = lam
  pure def discriminantsBad(X: Mat, labels: List[int], lam: Vec): str = {
    val Sw = withinScatter(X, labels)
    val P = solveM(Sw, betweenScatter(X, labels))
    val t = max2(trace(P), ONE / 2^20)
    if (lam.length() != X[0].length()) "number of discriminants"
    else if (not(decreasing(lam, t / 2^30))) "decreasing order"
    else if (not(spectrum(lam, P, 2^14))) "discriminants solve Sb v = lambda Sw v"
    else ""
  }
  /// LDA(X, labels, n) = Y, where lam are the discriminants
  pure def ldaBad(X: Mat, labels: List[int], n: int, Y: Mat, lam: Vec): str = {
    val Sw = withinScatter(X, labels)
    val Sb = betweenScatter(X, labels)
    val G = scatter(X)
    if (Y.length() != X.length()) "one row per sample"
    else if (not(Y.foldl(true, (b, r) => b and r.length() == n))) "n features"
    else range(0, n).foldl("", (bad, i) => if (bad != "") bad else {
      val y = column(Y, i)
      val v = solve(G, matVec(transpose(X), y))
      val nv = sqrt(norm2(v))
      if (nv < ONE / 2^20) "direction is not zero"
      else if (not(nearV(matVec(X, v), y, mul(nv, maxAbsM(X)) / 2^22))) "features are projections of the data"
      else if (not(nearV(matVec(Sb, v), scale(lam[i], matVec(Sw, v)), mul(nv, trace(Sw) + trace(Sb)) / 2^18)))
        "directions solve Sb v = lambda Sw v in the order of decreasing lambda"
      else ""
    })
  }
  /// the same data with other class names and another order of rows: same features up to sign
  pure def ldaSameBad(Y: Mat, Z: Mat, perm: List[int], lam: Vec): str = {
    val p = lam.length()
    val Zp = perm.foldl([], (m, k) => m.append(Y[k]))
    if (Z.length() != Y.length()) "one row per sample"
    else range(0, Z[0].length()).foldl("", (bad, i) => {
      val gap = range(0, p).foldl(abs(lam[0]) + ONE, (g, j) => if (j == i) g else min2(g, abs(lam[i] - lam[j])))
      val a = column(Zp, i)
      val b = column(Z, i)
      val tol = max2(maxAbs(a), 2^120) / 2^12
      if (bad != "" or gap < max2(abs(lam[0]), ONE) / 2^6 or lam[i] < ONE / 2^8) bad
      else if (nearV(a, b, tol) or nearV(a, scale(-ONE, b), tol)) "" else "features depend on class names or row order"
    })
  }

  // ================================================================ the data
  type Case = { kind: str, X: Mat, labels: List[int], n: int, dflt: bool, perm: List[int], form: str, naming: int, unit: int }
  var ev: Case
  pure val NOCASE: Case = { kind: "none", X: [], labels: [], n: 0, dflt: false, perm: [], form: "f64", naming: 0, unit: 0 }

  /// styles: plain, columns of different scale, one column a combination of others, a constant column,
  /// a large common offset, few rows, axes (repeated eigenvalues), small integers
  pure def tableOf(style: int, s: int, N: int, p: int): Mat =
    range(0, N).foldl([], (m, k) => {
      val r = dyadicV(s, 10 + 7 * k, p, 2, 5)
      m.append(
        if (style == 1) range(0, p).foldl([], (l, j) => l.append(r[j] * 2^(2 * ((j + draw(s, 1, p)) % p))))
        else if (style == 2 and p > 1) r.replaceAt(draw(s, 2, p), sum(r) / 2)
        else if (style == 3) r.replaceAt(draw(s, 3, p), dyadic(s, 4, 8, 2))
        else if (style == 4) r.foldl([], (l, a) => l.append(a + 64 * ONE))
        else if (style == 6) range(0, p).foldl([], (l, j) => l.append(if (k / 2 % p == j) (if (k % 2 == 0) ONE else -ONE) else 0))
        else if (style == 7) range(0, p).foldl([], (l, j) => l.append(ONE * (draw(s, 900 + 7 * k + j, 9) - 4)))
        else r)
    })
  pure def permutation(s: int, N: int): List[int] =
    range(0, N).foldl([], (l, k) => {
      val i = draw(s, 1700 + k, k + 1)
      l.slice(0, i).append(k).concat(l.slice(i, k))
    })
  /// the library gets the table times 2^unit; what it returns is judged in the unit of the table
  pure val UNITS: Set[int] = Set(0, 1, -1, 10, -10, -17, 20, -30, 40, -60, 200)
  action init = { ev' = NOCASE }
  action pcaX = {
    nondet style = 0.to(7).oneOf()
    nondet N = 2.to(14).oneOf()
    nondet p = 2.to(5).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet dflt = Set(true, false, false).oneOf()
    nondet form = Set("f64", "strided", "readonly", "fortran", "transposed", "i64", "i8").oneOf()
    nondet unit = UNITS.oneOf()
    val n = if (dflt) p - 1 else 1 + draw(s, 6, p - 1)
    { ev' = { ...NOCASE, kind: "PCA", X: tableOf(style, s, N, p), n: n, dflt: dflt, form: form, unit: unit } }
  }
  action ldaX = {
    nondet style = Set(0, 0, 1, 2, 4, 7).oneOf()
    nondet N = 6.to(14).oneOf()
    nondet p = 2.to(4).oneOf()
    nondet nc = 2.to(4).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet dflt = Set(true, false, false).oneOf()
    nondet form = Set("f64", "strided", "readonly", "fortran", "transposed", "i64").oneOf()
    nondet naming = 0.to(11).oneOf()
    nondet unit = UNITS.oneOf()
    val labels = range(0, N).foldl([], (l, k) => l.append(if (k < nc) k else draw(s, 500 + k, nc)))
    // class means apart
    val X0 = tableOf(style, s, N, p)
    val X = range(0, N).foldl([], (m, k) => m.append(add(X0[k], scale((1 + draw(s, 9, 3)) * ONE, dyadicV(s, 600 + 9 * labels[k], p, 2, 2)))))
    val n = if (dflt) p - 1 else 1 + draw(s, 6, p - 1)
    val Sw = withinScatter(X, labels)
    all {
      minPivot(Sw) > trace(Sw) / 2^7,
      minPivot(scatter(X)) > trace(scatter(X)) / 2^14,
      ev' = { kind: "LDA", X: X, labels: labels, n: n, dflt: dflt, perm: permutation(s, N), form: form, naming: naming, unit: unit }
    }
  }
  action step = any { pcaX, ldaX }
  action stepPCA = pcaX
  action stepLDA = ldaX

  /// theorems: total scatter is within + between; the zero vector of classes
  val scatterSplit = ev.kind == "LDA" implies
    nearM(scatter(centred(ev.X)), addM(withinScatter(ev.X, ev.labels), betweenScatter(ev.X, ev.labels)), 2^120)
  val permOk = ev.kind == "LDA" implies ev.perm.foldl(Set(), (q, k) => q.union(Set(k))).size() == ev.X.length()
  val inv = scatterSplit and permOk
}

/// validation of logged calls
module projlog {
  import fx.* from "./fx"
  import projection.*
  type Logged = { kind: str, X: Mat, labels: List[int], n: int, Y: Mat, lam: Vec, Z: Mat, perm: List[int] }
  pure def verdict(r: Logged): str = {
    val b = if (r.kind == "PCA") componentsBad(r.X, r.lam) else discriminantsBad(r.X, r.labels, r.lam)
    if (b != "") b
    else if (r.kind == "PCA") pcaBad(r.X, r.n, r.Y, r.lam)
    else {
      val c = ldaBad(r.X, r.labels, r.n, r.Y, r.lam)
      if (c != "") c else ldaSameBad(r.Y, r.Z, r.perm, r.lam)
    }
  }
}
