// -*- mode: Bluespec; -*-
/// The choices of the environment: parameters and data, named by seeds.
module gen {
  import fx.* from "./fx"
  import filters.* from "./filters"

  /// parameters of a filter, named by one seed: usual values, or any value of the range that makes sense
  pure def pick(s: int, i: int, usual: Vec, other: int): int =
    if (draw(s, 40 + i, 3) == 0) other else usual[draw(s, i, usual.length())]
  pure def params(kind: str, n: int, s: int): Par = {
    kind: kind, n: n,
    mu: if (kind == "RLS") pick(s, 1, [ONE, rat(99, 100), rat(9, 10), HALF, rat(75, 100)], rat(500 + draw(s, 31, 501), 1000))
        else if (usesLast(kind) and kind != "GNGD")
          pick(s, 1, [0, rat(1, 100), rat(5, 100), rat(1, 10), rat(3, 10), HALF], rat(draw(s, 31, 600), 1000))
        else if (kind == "LMF" or kind == "NLMF")
          pick(s, 1, [0, rat(1, 1000), rat(1, 100), rat(5, 100), rat(1, 10), rat(3, 10)], rat(draw(s, 31, 400), 1000))
        else pick(s, 1, [0, rat(1, 100), rat(1, 10), HALF, ONE, rat(3, 2), TWO, rat(1, 4)],
          // signs of errors: dyadic steps keep the arithmetic exact
          if (kind == "SSLMS" and draw(s, 43, 2) == 0) rat(draw(s, 31, 128), 64) else rat(draw(s, 31, 2500), 1000)),
    eps: if (kind == "GNGD") pick(s, 2, [rat(1, 2), ONE, 3 * ONE, rat(1, 10)], rat(1 + draw(s, 32, 1000), 200))
         else if (kind == "RLS") pick(s, 2, [rat(1, 1000), rat(1, 10), ONE, 3 * ONE, rat(1, 100)], rat(1 + draw(s, 32, 4000), 1000))
         else pick(s, 2, [rat(1, 1000), rat(1, 10), ONE, 3 * ONE, rat(1, 100)],
                   if (draw(s, 42, 2) == 0) rat(1, 10^draw(s, 32, 8)) else rat(1 + draw(s, 32, 3000), 100)),
    ro: if (kind == "GNGD") pick(s, 3, [0, rat(1, 10), rat(1, 100), rat(1, 2)], rat(draw(s, 33, 500), 1000))
        else pick(s, 3, [0, rat(2, 10000), rat(1, 100), rat(1, 1000), rat(1, 10)], rat(draw(s, 33, 1000), 10000)),
    a: pick(s, 4, [rat(95, 100), HALF, 0, ONE], rat(draw(s, 34, 1000), 1000)),
    lambd: pick(s, 5, [rat(3, 100), 3 * ONE, HALF, rat(1, 100), 10 * ONE, ONE], rat(1 + draw(s, 35, 2000), 100)),
    alpha: pick(s, 6, [TWO, ONE, rat(3, 2), 3 * ONE, rat(5, 2), 4 * ONE], 
      if (draw(s, 45, 2) == 0) rat(50 + draw(s, 36, 50), 100) else ONE + rat(draw(s, 36, 400), 100)),
    order: 1 + draw(s, 7, 7), ifc: pick(s, 8, [rat(1, 1000), rat(1, 10), ONE], 
      if (draw(s, 44, 2) == 0) rat(1, 10^draw(s, 38, 7)) else rat(1 + draw(s, 38, 2000), 500)),
    mem: 2 + draw(s, 9, 7)
  }

  /// Data sets come in classes: 0 integers, 1 and 2 dyadic, 3 tiny, 4 large, 5 sparse,
  /// 6 the same sample again and again, 7 one coordinate only, 8 wide dynamic range, 9 small naturals,
  /// 11 nearly the same sample again and again (10, 12 and 13 belong to data.qnt)
  pure val CLASSES: Set[int] = 0.to(9).union(Set(11))
  pure def value(c: int, s: int, i: int, col: int, n: int): int =
    if (c == 0) dyadic(s, i, 4, 0)
    else if (c == 1) dyadic(s, i, 2, 4)
    else if (c == 2) dyadic(s, i, 1, 8)
    else if (c == 3) dyadic(s, i, 1, 8) / 2^20
    else if (c == 4) dyadic(s, i, 400, 0)
    else if (c == 5) (if (draw(s, i + 5000, 3) == 0) dyadic(s, i, 2, 4) else 0)
    else if (c == 6) dyadic(s, col, 2, 4)
    else if (c == 7) (if (col == draw(s, 4999, n)) dyadic(s, i, 2, 4) else 0)
    else if (c == 8) dyadic(s, i, 1, 6) * 2^draw(s, i + 6000, 8) / 2^draw(s, i + 7000, 16)
    else if (c == 11) dyadic(s, col, 2, 4) + dyadic(s, i, 1, 4) / 2^(4 + draw(s, 4998, 12))
    else ONE * draw(s, i, 5)
  pure def samples(c: int, s: int, N: int, n: int): Mat =
    range(0, N).foldl([], (m, k) =>
      m.append(range(0, n).foldl([], (l, j) => l.append(value(c, s, 10 + k * n + j, j, n)))))
  pure def targets(c: int, s: int, N: int): Vec =
    range(0, N).foldl([], (l, k) => l.append(
      if (c == 6) dyadic(s, 3000, 2, 4) else value(if (c == 5 or c == 7) 1 else c, s, 3000 + k, 0, 1)))
  /// now and then the target is what the filter predicts, so that the error is exactly zero
  pure def hit(p: Par, st: St, d: int, x: Vec, s: int): int =
    if (draw(s, 1, 5) == 0 and grid(st.w, 20) and grid(x, 12)) predict(p, st, x) else d

  pure def born(kind: str, n: int, s: int, zero: bool): { par: Par, st: St } = {
    val p = params(kind, n, s)
    val w = if (zero) zeros(n) else range(0, n).foldl([], (l, i) => l.append(dyadic(s, 20 + i, 1, 6)))
    { par: p, st: newFilter(p, w) }
  }
}
