// -*- mode: Bluespec; -*-
/// A process that calls the data functions.  Every call is one action; `ev` records the arguments and
/// what must come out.  The functions have no state: the only state is what was called before, which
/// later calls repeat (C28).
module data {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"
  import datafn.* from "./datafn"

  const OPS: Set[str]         // functions that may be called
  const FORMS: Set[str]       // representations of the arguments

  type Cell = { peaks: Vec, dw: int, over: bool }
  type Ev = {
    op: str, fn: str, idx: int, form: str, bad: str,
    x: Mat, u: Vec, v: Vec, n: int, m: int, order: int, alphas: Vec, method: str, flag: bool,
    offset: int, sc: int, given: Set[str], labels: List[int],
    err: bool, outV: Vec, outM: Mat, slack: Mat, cnt: List[(int, int)], cells: List[List[Cell]]
  }
  pure val NOEV: Ev = { op: "none", fn: "", idx: -1, form: "f64", bad: "", x: [], u: [], v: [], n: 0, m: 0, order: 0,
    alphas: [], method: "", flag: false, offset: 0, sc: 0, given: Set(), labels: [], err: false, outV: [], outM: [],
    slack: [], cnt: [], cells: [] }
  var ev: Ev
  /// the calls made so far
  var made: List[str]

  pure val SEEDS: Set[int] = 0.to(2^40)
  /// classes of data: those of gen.qnt, 10: so small that the 1e-10 of Learning Entropy matters,
  /// 12 and 13: errors far below and far above one
  pure def cell(c: int, s: int, i: int, col: int, n: int): int =
    if (c == 10) dyadic(s, i, 2, 6) / 2^30 else if (c == 12) dyadic(s, i, 1, 8) / 2^40 else if (c == 13) dyadic(s, i, 1, 8) * 2^40 else value(c, s, i, col, n)
  pure def matrix(c: int, s: int, N: int, n: int): Mat =
    range(0, N).foldl([], (m, k) => m.append(range(0, n).foldl([], (l, j) => l.append(cell(c, s, 10 + k * n + j, j, n)))))
  pure def vector(c: int, s: int, N: int): Vec =
    range(0, N).foldl([], (l, k) => l.append(cell(c, s, 3000 + k, 0, 1)))
  /// a weight history: increments of class c added up, with jumps and pauses
  pure def walk(c: int, s: int, N: int, n: int): Mat = {
    val inc = matrix(c, s, N, n)
    range(1, N).foldl([inc[0]], (m, k) => m.append(
      if (draw(s, 8000 + k, 6) == 0) m[k - 1]
      else if (draw(s, 8200 + k, 9) == 0) axpy(m[k - 1], 7 * ONE, inc[k])
      else add(m[k - 1], inc[k])))
  }
  pure def history(c: int, s: int, N: int, n: int): Mat =
    if (draw(s, 8999, 3) == 0) matrix(c, s, N, n) else walk(c, s, N, n)

  // ================================================================ error measures (C25)
  action errorsN(sizes: Set[int]): bool = all {
    OPS.contains("errors"),
    nondet fn = Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error").oneOf()
    nondet function = Set("MSE", "MAE", "RMSE", "default").oneOf()
    nondet N = sizes.oneOf()
    nondet c = CLASSES.union(Set(12, 13)).oneOf()
    nondet s = SEEDS.oneOf()
    nondet pair = Set(true, false).oneOf()
    nondet twist = 0.to(9).oneOf()
    nondet form = FORMS.oneOf()
    val u = vector(c, s, N)
    // special second series: equal, swapped sign, all -1 (the default of the argument), zero
    val v = if (not(pair)) [] else if (twist == 0) u else if (twist == 1) scale(-ONE, u)
            else if (twist == 2) u.foldl([], (l, a) => l.append(-ONE)) else if (twist == 3) zeros(N)
            else vector(c, s + 1, N)
    val e = errorOf(u, v, pair)
    val f = if (fn != "get_mean_error") fn else if (function == "default") "MSE" else function
    all {
      ev' = { ...NOEV, op: "call", fn: fn, form: form, method: function, flag: pair, u: u, v: v,
        outV: if (f == "MSE") [MSE(e)] else if (f == "MAE") [MAE(e)] else if (f == "RMSE") [RMSE(e)] else logSE(e),
        outM: [e] },
      made' = made.append(fn)
    }
  }
  action errorsBadX = all {
    OPS.contains("errors"),
    nondet fn = Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error").oneOf()
    nondet bad = Set("longer", "shorter", "single", "empty", "text1", "text2", "name", "case", "logSE").oneOf()
    nondet function = Set("MSE", "MAE", "RMSE").oneOf()
    nondet N = 3.to(8).oneOf()
    nondet s = SEEDS.oneOf()
    all {
      (Set("name", "case", "logSE").contains(bad)) implies fn == "get_mean_error",
      ev' = { ...NOEV, op: "reject", fn: fn, bad: bad, method: function, u: vector(1, s, N), v: vector(1, s + 1, N),
              flag: true, err: true },
      made' = made
    }
  }

  // ================================================================ preprocess (C21, C22)
  action windowsN(sizes: Set[int]): bool = all {
    OPS.contains("windows"),
    nondet N = sizes.oneOf()
    nondet c = CLASSES.oneOf()
    nondet s = SEEDS.oneOf()
    nondet bias = Set(true, false).oneOf()
    nondet form = FORMS.oneOf()
    val n = if (draw(s, 5, 4) == 0 and N < 100) N else if (draw(s, 5, 4) == 1) 1 else 1 + draw(s, 6, N)
    val u = vector(c, s, N)
    all {
      ev' = { ...NOEV, op: "call", fn: "input_from_history", form: form, u: u, n: n, flag: bias, outM: windows(u, n, bias) },
      made' = made.append("input_from_history")
    }
  }
  action windowsBadX = all {
    OPS.contains("windows"),
    nondet bad = Set("zero", "negative", "float", "wholefloat", "string", "none", "list", "series").oneOf()
    nondet N = 3.to(8).oneOf()
    nondet s = SEEDS.oneOf()
    all {
      ev' = { ...NOEV, op: "reject", fn: "input_from_history", bad: bad, u: vector(0, s, N), n: 2, err: true,
              flag: draw(s, 3, 2) == 0 },
      made' = made
    }
  }
  pure def flat(m: Mat): Vec = m.foldl([], (l, r) => l.concat(r))
  /// offset and scale of the environment: often 0 and 1
  pure def offsetOf(s: int): int = [0, ONE, -3 * ONE, rat(5, 4), 1000 * ONE, dyadic(s, 61, 4, 8), 0][draw(s, 60, 7)]
  pure def scaleOf(s: int): int = [ONE, 2 * ONE, -ONE, rat(1, 8), 300 * ONE, rat(7, 4), ONE][draw(s, 62, 7)]
  action standardizeN(sizes: Set[int]): bool = all {
    OPS.contains("standardize"),
    nondet N = sizes.oneOf()
    nondet n = Set(0, 0, 1, 2, 3).oneOf()      // columns; 0: a plain series
    nondet c = CLASSES.oneOf()
    nondet s = SEEDS.oneOf()
    nondet given = Set(Set(), Set("offset"), Set("scale"), Set("offset", "scale")).oneOf()
    nondet back = Set(true, false, false).oneOf()
    nondet form = FORMS.oneOf()
    val x = if (n == 0) [vector(c, s, N)] else matrix(c, s, N, n)
    val v = flat(x)
    val off = if (back or given.contains("offset")) offsetOf(s) else mean(v)
    val sc = if (back or given.contains("scale")) scaleOf(s) else std(v)
    all {
      // doubles cannot standardise series whose deviation is lost in rounding
      sc != 0, abs(sc) > maxAbs(v) / 2^12,
      ev' = { ...NOEV, op: "call", fn: if (back) "standardize_back" else "standardize", form: form, x: x, n: n,
        given: if (back) Set("offset", "scale") else given, offset: off, sc: sc,
        outV: if (back) standardizeBack(v, off, sc) else standardize(v, off, sc) },
      made' = made.append("standardize")
    }
  }
  action standardizeBadX = all {
    OPS.contains("standardize"),
    nondet fn = Set("standardize", "standardize_back").oneOf()
    nondet bad = Set("x-text", "x-ragged", "offset-text", "offset-list", "scale-text", "scale-list").oneOf()
    nondet s = SEEDS.oneOf()
    all {
      ev' = { ...NOEV, op: "reject", fn: fn, bad: bad, x: [vector(1, s, 5)], offset: offsetOf(s), sc: scaleOf(s), err: true },
      made' = made
    }
  }

  // ================================================================ detection (C17, C18, C19, C20)
  action leN(sizes: Set[int], widths: Set[int], windows_: Set[int]): bool = all {
    OPS.contains("le"),
    nondet N = sizes.oneOf()
    nondet n = widths.oneOf()
    nondet m = windows_.oneOf()
    nondet order = 1.to(4).oneOf()
    nondet c = 0.to(10).oneOf()
    nondet s = SEEDS.oneOf()
    nondet none = Set("omitted", "None", "False", "empty").oneOf()
    nondet form = FORMS.oneOf()
    val x = history(c, s, N, n)
    all {
      N > order,
      ev' = { ...NOEV, op: "call", fn: "learning_entropy", form: form, x: x, m: m, order: order, method: none,
        given: if (m == 10 and draw(s, 1, 2) == 0) Set() else if (draw(s, 2, 2) == 0) Set("m", "order") else Set("m", "order", "kw"),
        outM: leDirect(x, m, order), slack: leSlack(x, m, order) },
      made' = made.append("learning_entropy")
    }
  }
  pure val ALPHAS: List[int] = [0, ONE / 2, ONE, 3 * ONE / 2, 2 * ONE, 5 * ONE / 2, 3 * ONE, 4 * ONE, 6 * ONE, 10 * ONE, -ONE, 2 * ONE, ONE / 16]
  action leMultiN(sizes: Set[int], widths: Set[int], windows_: Set[int]): bool = all {
    OPS.contains("lemulti"),
    nondet N = sizes.oneOf()
    nondet n = widths.oneOf()
    nondet m = windows_.oneOf()
    nondet order = 1.to(4).oneOf()
    nondet c = 0.to(10).oneOf()
    nondet s = SEEDS.oneOf()
    nondet na = 1.to(7).oneOf()
    nondet form = FORMS.oneOf()
    val x = history(c, s, N, n)
    val al = range(0, na).foldl([], (l, i) => l.append(ALPHAS[draw(s, 400 + i, 13)]))
    all {
      N > order,
      ev' = { ...NOEV, op: "call", fn: "learning_entropy", form: form, x: x, m: m, order: order, alphas: al, method: "alpha",
        given: if (m == 10 and draw(s, 1, 2) == 0) Set() else Set("m", "order"), cnt: leCount(x, m, order, al) },
      made' = made.append("learning_entropy")
    }
  }
  action elbndN(sizes: Set[int], widths: Set[int]): bool = all {
    OPS.contains("elbnd"),
    nondet N = sizes.oneOf()
    nondet n = widths.oneOf()
    nondet c = 0.to(10).oneOf()
    nondet s = SEEDS.oneOf()
    nondet fn = Set("max", "sum", "default").oneOf()
    nondet form = FORMS.oneOf()
    val x = history(c, s, N, n)
    val e = vector(c, s + 1, N)
    all {
      ev' = { ...NOEV, op: "call", fn: "ELBND", form: form, x: x, u: e, method: fn,
              outV: elbnd(x, e, if (fn == "sum") "sum" else "max") },
      made' = made.append("ELBND")
    }
  }
  action elbndBadX = all {
    OPS.contains("elbnd"),
    nondet bad = Set("mean", "MAX", "Sum", "", "none", "min").oneOf()
    nondet s = SEEDS.oneOf()
    all {
      ev' = { ...NOEV, op: "reject", fn: "ELBND", bad: bad, x: matrix(1, s, 5, 2), u: vector(1, s, 5), err: true },
      made' = made
    }
  }
  /// ESE: windows up to the size named by the sqrt and log rules; long windows are rare because of their cost
  action eseN(sizes: Set[int], more: Set[int], widths: Set[int]): bool = all {
    OPS.contains("ese"),
    nondet wi = sizes.oneOf()
    nondet extra = more.oneOf()
    nondet n = widths.oneOf()
    nondet c = Set(0, 1, 2, 4, 5, 8).oneOf()
    nondet s = SEEDS.oneOf()
    nondet method = Set("10%", "30%", "35%", "sqrt", "log10", "log10log10").oneOf()
    nondet dflt = Set(true, false, false).oneOf()
    val me = if (dflt) "10%" else method
    // now and then a history shorter than the window (or as long as it): nothing has a score yet
    val rows = if (draw(s, 15, 6) == 0) 1 + draw(s, 16, wi) else wi + extra
    val x = history(c, s, rows, n)
    val cells = eseCells(x, wi, me)
    all {
      (me == "log10log10") implies wi > 10,
      ev' = { ...NOEV, op: "call", fn: "ESE", x: x, m: wi, n: peaks(wi, me), method: me,
        given: (if (dflt and me == "10%") Set() else Set("method")).union(
          if (wi == 1000 and draw(s, 14, 2) == 0) Set() else Set("window")), cells: cells, outV: eseExp(cells, min2(wi, rows), 0),
        outM: [eseExp(cells, min2(wi, rows), rat(1, 1000000000000000)),
          eseExp(cells, min2(wi, rows), -rat(1, 1000000000000000))] },
      made' = made.append("ESE")
    }
  }

  // ================================================================ C28: histories of calls
  /// a call that was made before is made again (with the same arrays, or with copies)
  action repeatX = all {
    OPS.contains("repeat"),
    made.length() > 0,
    nondet i = 0.to(12).oneOf()
    nondet how = Set("same", "copies", "readonly", "strided", "fortran", "lists").oneOf()
    all {
      i < made.length(),
      ev' = { ...NOEV, op: "repeat", fn: made[i], idx: i, form: how },
      made' = made.append(made[i])
    }
  }
  /// the caller overwrites the arrays it passed to call i (or received from it) and calls again
  action overwriteX = all {
    OPS.contains("repeat"),
    made.length() > 0,
    nondet i = 0.to(12).oneOf()
    nondet what = Set("arguments", "results").oneOf()
    nondet s = SEEDS.oneOf()
    all {
      i < made.length(),
      ev' = { ...NOEV, op: "overwrite", fn: made[i], idx: i, bad: what, n: s },
      made' = made.append(made[i])
    }
  }
  /// projections and scores whose values other properties fix: here only their purity matters
  action otherX = all {
    OPS.contains("repeat"),
    nondet fn = Set("PCA", "PCA_components", "LDA", "LDA_discriminants", "ESE", "filter_data").oneOf()
    nondet N = 8.to(14).oneOf()
    nondet n = 2.to(4).oneOf()
    nondet s = SEEDS.oneOf()
    all {
      ev' = { ...NOEV, op: "call", fn: fn, x: matrix(2, s, N, n), u: vector(2, s, N), v: vector(1, s + 1, n), n: 1 + draw(s, 4, n - 1),
              m: 3 + draw(s, 8, 3), method: METHODS[draw(s, 9, 5)], labels: range(0, N).foldl([], (l, i) => l.append(i % 2)) },
      made' = made.append(fn)
    }
  }

  action errorsX = errorsN(1.to(12))
  action windowsX = windowsN(1.to(14))
  action standardizeX = standardizeN(1.to(12))
  action leX = leN(Set(2, 3, 5, 8, 12, 16, 20, 26), 1.to(3), Set(1, 2, 3, 4, 5, 6, 8, 10))
  action leMultiX = leMultiN(Set(2, 3, 5, 8, 12, 16, 20, 26), 1.to(3), Set(1, 2, 3, 4, 5, 6, 8, 10))
  action elbndX = elbndN(1.to(12), 1.to(4))
  action eseX = eseN(Set(1, 2, 3, 5, 9, 10, 11, 12, 16, 20, 24, 25, 30, 36, 40), 0.to(6), 1.to(3))

  action init = all { ev' = NOEV, made' = [] }
  action step = any { errorsX, errorsX, errorsBadX, windowsX, windowsX, windowsBadX, standardizeX, standardizeX,
                      standardizeBadX, leX, leMultiX, elbndX, elbndX, elbndBadX, eseX, repeatX, overwriteX, otherX }

  /// calls with long series, wide histories and long windows
  action stepBig = any {
    errorsN(Set(100, 257, 1000, 1001, 1025, 2048, 3000)), windowsN(Set(129, 300, 600)),
    standardizeN(Set(130, 512, 1001, 2100)),
    leN(Set(70, 140, 260), Set(1, 2), Set(12, 30, 50, 64, 101)), leN(Set(14), Set(33, 70), Set(3, 10)),
    leMultiN(Set(70, 140, 260), Set(1, 2), Set(12, 30, 50, 64, 101)), leMultiN(Set(14), Set(33, 70), Set(3, 10)),
    elbndN(Set(260, 1030, 2050), Set(1, 2)), elbndN(Set(12), Set(40, 130)),
    eseN(Set(51, 64, 100, 150, 256, 1000), 1.to(2), Set(1)), eseN(Set(51, 64, 100, 150, 256), 0.to(3), Set(1, 2)),
    eseN(Set(12), Set(3), Set(18, 40)) }

  /// histories for C28: many repetitions
  action stepPure = any { errorsX, windowsX, standardizeX, leX, leMultiX, elbndX, otherX, otherX, otherX,
                          repeatX, repeatX, repeatX, repeatX, overwriteX, overwriteX, overwriteX }

  // ================================================================ theorems about the functions
  val errorsOk = Set("MSE", "MAE", "RMSE", "get_mean_error").contains(ev.fn) and ev.op == "call" implies {
    val e = ev.outM[0]
    and { MAE(e) <= RMSE(e) + 2^100, ev.outV[0] >= 0, abs(sq(RMSE(e)) - MSE(e)) <= 2^110 + MSE(e) / 2^60 }
  }
  val standardOk = (ev.fn == "standardize" and ev.op == "call") implies and {
    nearV(standardizeBack(ev.outV, ev.offset, ev.sc), flat(ev.x), 2^100 + maxAbs(flat(ev.x)) / 2^60),
    ev.given == Set() implies and {
      abs(mean(ev.outV)) <= 2^110, abs(std(ev.outV) - ONE) <= 2^120 }
  }
  val windowsOk = (ev.fn == "input_from_history" and ev.op == "call") implies
    and { ev.outM.length() == ev.u.length() - ev.n + 1,
          ev.outM.foldl(true, (b, r) => b and r.length() == (if (ev.flag) ev.n + 1 else ev.n)) }
  val leOk = (ev.fn == "learning_entropy" and ev.op == "call" and ev.alphas != []) implies and {
    ev.cnt.length() == ev.x.length(),
    range(0, ev.cnt.length()).foldl(true, (b, k) => b and 0 <= ev.cnt[k]._1 and ev.cnt[k]._1 <= ev.cnt[k]._2
      and ev.cnt[k]._2 <= ev.alphas.length() * ev.x[0].length() and (k < ev.m implies ev.cnt[k]._2 == 0))
  }
  val eseOk = (ev.fn == "ESE" and ev.op == "call" and not(OPS.contains("repeat"))) implies and {
    ev.outV.length() == ev.x.length(),
    ev.outV.foldl(true, (b, a) => b and a >= -ONE / 1000000),
    ev.cells.foldl(true, (b, r) => b and r.foldl(true, (c, q) => c and
      (q.over implies (q.peaks.length() == min2(ev.n, ev.m) and q.dw > q.peaks[q.peaks.length() - 1]))))
  }
  val inv = errorsOk and standardOk and windowsOk and leOk and eseOk
}
