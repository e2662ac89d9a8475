// -*- mode: Bluespec; -*-
/// orders of positions
module symfn {
  import fx.* from "./fx"
  import gen.* from "./gen"
  pure def order_(n: int, s: int, i: int): List[int] =
    range(0, n).foldl(range(0, n), (l, k) => {
      val j = draw(s, i + k, n)
      l.replaceAt(k, l[j]).replaceAt(j, l[k])
    })
  pure def take(v: Vec, q: List[int]): Vec = q.foldl([], (l, i) => l.append(v[i]))
}

/// C34: no position is special.  Every event holds a call on data and the same call on an image of the data:
/// rows in another order, columns in another order or with another sign or offset, the two series exchanged.
module datasym {
  import symfn.*
  import fx.* from "./fx"
  import gen.* from "./gen"
  import datafn.* from "./datafn"

  /// row i of B is row rows[i] of A; column j of B is column cols[j] of A times flip[j] plus shift[j]
  type Ev = { fn: str, how: str, x: Mat, xB: Mat, u: Vec, uB: Vec, v: Vec, vB: Vec, rows: List[int], cols: List[int],
              flip: List[int], shift: Vec, labels: List[int], labelsB: List[int], n: int, m: int, order: int, alphas: Vec,
              method: str, bias: bool, from: int }
  var ev: Ev
  pure val NOEV: Ev = { fn: "none", how: "", x: [], xB: [], u: [], uB: [], v: [], vB: [], rows: [], cols: [], flip: [], shift: [],
    labels: [], labelsB: [], n: 0, m: 0, order: 0, alphas: [], method: "", bias: false, from: 0 }
  pure val ERRORS: Set[str] = Set("MSE", "MAE", "RMSE", "logSE", "get_mean_error")
  pure val TABLES: Set[str] = Set("PCA", "PCA_components", "LDA", "LDA_discriminants")
  pure val SERIES: Set[str] = Set("learning_entropy", "learning_entropy alpha", "ELBND", "ESE")

  pure def rowsOf(m: Mat, q: List[int]): Mat = q.foldl([], (l, i) => l.append(m[i]))
  pure def colsOf(m: Mat, q: List[int], flip: List[int], shift: Vec): Mat = m.foldl([], (l, r) => l.append(
    range(0, q.length()).foldl([], (c, j) => c.append(r[q[j]] * flip[j] + shift[j]))))
  pure def flipped(v: Vec, s: int, i: int): Vec =
    range(0, v.length()).foldl([], (l, k) => l.append(if (draw(s, i + k, 2) == 0) -v[k] else v[k]))
  pure def moved(v: Vec, sign: int, c: int): Vec = v.foldl([], (l, a) => l.append(sign * a + c))
  pure def ones(n: int): List[int] = range(0, n).foldl([], (l, k) => l.append(1))

  action errors = {
    nondet fn = ERRORS.oneOf()
    nondet how = Set("swap", "rows", "sign", "offset").oneOf()
    nondet N = 1.to(24).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet method = Set("MSE", "MAE", "RMSE").oneOf()
    val u = dyadicV(s, 10, N, 4, 6)
    // now and then the two series agree
    val v = range(0, N).foldl([], (l, k) => l.append(if (draw(s, 400 + k, 8) == 0) u[k] else dyadic(s, 200 + k, 4, 6)))
    val q = if (how == "rows") order_(N, s, 600) else range(0, N)
    val c = if (how == "offset") dyadic(s, 1, 20, 6) else 0
    val g = if (how == "sign") -1 else 1
    ev' = { ...NOEV, fn: fn, how: how, method: method, u: u, v: v, rows: q,
            uB: moved(take(if (how == "swap") v else u, q), g, c), vB: moved(take(if (how == "swap") u else v, q), g, c) }
  }
  action series_ = {
    nondet fn = SERIES.oneOf()
    nondet N = 8.to(26).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet how = Set("cols", "sign", "offset", "all").oneOf()
    nondet c = Set(0, 1, 2, 5).oneOf()
    nondet method = Set("10%", "30%", "35%", "sqrt", "log10").oneOf()
    nondet sum_ = Set("max", "sum").oneOf()
    val inc = samples(c, s, N, n)
    val x = range(1, N).foldl([inc[0]], (l, k) => l.append(
      if (draw(s, 9100 + k, 6) == 0) l[k - 1] else if (draw(s, 9200 + k, 5) == 0) axpy(l[k - 1], 9 * ONE, inc[k]) else add(l[k - 1], inc[k])))
    val e = targets(c, s, N)
    val m = 2 + draw(s, 5, 6)
    val order = 1 + draw(s, 6, 3)
    val q = if (how == "cols" or how == "all") order_(n, s, 600) else range(0, n)
    val f = range(0, n).foldl([], (l, j) => l.append(if ((how == "sign" or how == "all") and draw(s, 640 + j, 2) == 0) -1 else 1))
    val o = range(0, n).foldl([], (l, j) => l.append(if (how == "offset" or how == "all") dyadic(s, 660 + j, 1000, 4) else 0))
    ev' = { ...NOEV, fn: fn, how: how, x: x, xB: colsOf(x, q, f, o), u: e, uB: if (how == "sign") flipped(e, s, 9300) else e,
            cols: q, flip: f, shift: o, m: m, order: order, rows: range(0, N), method: if (fn == "ELBND") sum_ else method,
            alphas: [ONE, 3 * ONE / 2, 2 * ONE, HALF].slice(0, 1 + draw(s, 8, 4)),
            // the first rows hold weights instead of differences (known findings): they and what looks back at them
            // know signs and offsets
            from: if (how == "cols" or fn == "ELBND") 0 else if (fn == "ESE") m + 1 else m + order }
  }
  action tables = {
    nondet fn = TABLES.oneOf()
    nondet N = 8.to(20).oneOf()
    nondet n = 2.to(5).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet how = Set("rows", "cols", "sign", "offset", "names", "all").oneOf()
    nondet classes = 2.to(4).oneOf()
    val x = range(0, N).foldl([], (l, k) => l.append(range(0, n).foldl([], (r, j) =>
      r.append(dyadic(s, 20 * k + j, 4, 6) * (n - j) + (if (k % classes == j) 6 * ONE else 0)))))
    val q = if (how == "rows" or how == "all") order_(N, s, 600) else range(0, N)
    val p = if (how == "cols" or how == "all") order_(n, s, 640) else range(0, n)
    val f = range(0, n).foldl([], (l, j) => l.append(if ((how == "sign" or how == "all") and draw(s, 660 + j, 2) == 0) -1 else 1))
    val o = range(0, n).foldl([], (l, j) => l.append(
      if (how == "offset" or how == "all") dyadic(s, 680 + j, 30, 4) * [1, 1, 2^14][draw(s, 9, 3)] else 0))
    val names = if (how == "names" or how == "all") order_(classes, s, 700) else range(0, classes)
    ev' = { ...NOEV, fn: fn, how: how, x: x, xB: colsOf(rowsOf(x, q), p, f, o), rows: q, cols: p, flip: f, shift: o,
            n: 1 + draw(s, 4, n - 1), labels: range(0, N).foldl([], (l, k) => l.append(k % classes)),
            labelsB: q.foldl([], (l, k) => l.append(names[k % classes])) }
  }
  action windows_ = {
    nondet N = 1.to(20).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet bias = Set(true, false).oneOf()
    nondet how = Set("reverse", "delay", "more").oneOf()
    val u = dyadicV(s, 10, N, 4, 6)
    val n = 1 + draw(s, 7, N)
    val extra = dyadicV(s, 300, 1 + draw(s, 8, 5), 4, 6)
    ev' = { ...NOEV, fn: "input_from_history", how: how, n: n, bias: bias, u: u, m: extra.length(),
            uB: if (how == "reverse") range(0, N).foldl([], (l, k) => l.append(u[N - 1 - k]))
                else if (how == "delay") extra.concat(u) else u.concat(extra) }
  }
  action scaling = {
    nondet N = 2.to(20).oneOf()
    nondet s = 0.to(2^40).oneOf()
    nondet how = Set("rows", "sign").oneOf()
    val u = dyadicV(s, 10, N, 4, 6)
    val q = if (how == "rows") order_(N, s, 600) else range(0, N)
    ev' = { ...NOEV, fn: "standardize", how: how, u: u, rows: q, uB: moved(take(u, q), if (how == "sign") -1 else 1, 0) }
  }
  action begin = all { ev' = NOEV }
  action call = any { errors, series_, series_, tables, tables, windows_, scaling }

  /// theorems of the specification
  pure def kindOf(e: Ev): str = if (e.fn == "get_mean_error") e.method else e.fn
  pure def error1(f: str, e: Vec): Vec =
    if (f == "MSE") [MSE(e)] else if (f == "MAE") [MAE(e)] else if (f == "RMSE") [RMSE(e)] else logSE(e)
  val errorsAgree = ERRORS.contains(ev.fn) implies {
    val a = error1(kindOf(ev), sub(ev.u, ev.v))
    val b = error1(kindOf(ev), sub(ev.uB, ev.vB))
    if (ev.fn == "logSE") nearV(take(a, ev.rows), b, 2^100) else nearV(a, b, 2^100)
  }
  pure def colsOnly(m: Mat, q: List[int]): Mat = colsOf(m, q, ones(q.length()), zeros(q.length()))
  val seriesAgree = SERIES.contains(ev.fn) implies (
    if (ev.fn == "learning_entropy")
      nearM(colsOnly(leDirect(ev.x, ev.m, ev.order), ev.cols).slice(min2(ev.from, ev.x.length()), ev.x.length()),
            leDirect(ev.xB, ev.m, ev.order).slice(min2(ev.from, ev.x.length()), ev.x.length()), 2^120)
    else if (ev.fn == "ELBND") nearV(elbnd(ev.x, ev.u, ev.method), elbnd(ev.xB, ev.uB, ev.method), 2^100)
    else true)
  val windowsAgree = ev.fn == "input_from_history" implies {
    val a = windows(ev.u, ev.n, ev.bias)
    val b = windows(ev.uB, ev.n, ev.bias)
    if (ev.how == "delay") b.slice(ev.m, b.length()) == a
    else if (ev.how == "more") b.slice(0, a.length()) == a
    else range(0, a.length()).foldl(true, (ok, k) => ok and range(0, ev.n).foldl(true, (o, j) =>
      o and a[k][j] == b[a.length() - 1 - k][ev.n - 1 - j]))
  }
  val inv = errorsAgree and seriesAgree and windowsAgree
}

/// The same for networks: inputs, hidden nodes and outputs in another order, inputs with another sign (with the weights
/// that belong to them), for tanh also hidden nodes with another sign.
module netsym {
  import fx.* from "./fx"
  import mlpfn.* from "./mlp"
  import mlpworld.* from "./mlp"
  import symfn.*

  type Ev = { op: str, sizes: List[int], nin: int, nout: int, f: str, mu: int, auto: bool, hidden: List[Mat], out: Mat,
              hiddenB: List[Mat], outB: Mat, perms: List[List[int]], flips: List[List[int]], operm: List[int],
              X: Mat, XB: Mat, D: Mat, DB: Mat, epochs: int, Y: Mat }
  var a: Net
  var b: Net
  var twin: Net
  var ev: Ev

  /// columns of a weight matrix: bias first
  pure def columns(W: Mat, q: List[int], g: List[int]): Mat = W.foldl([], (m, r) => m.append(
    [r[0]].concat(range(0, q.length()).foldl([], (l, j) => l.append(r[1 + q[j]] * g[j])))))
  pure def image(net: Net, perms: List[List[int]], flips: List[List[int]], operm: List[int]): Net = {
    val L = net.hidden.length()
    { ...net,
      hidden: range(0, L).foldl([], (l, k) => {
        val W = columns(net.hidden[k], perms[k], flips[k])
        l.append(range(0, perms[k + 1].length()).foldl([], (m, j) => m.append(scale(flips[k + 1][j] * ONE, W[perms[k + 1][j]]))))
      }),
      out: operm.foldl([], (m, i) => m.append(columns(net.out, perms[L], flips[L])[i])) }
  }
  pure def imageX(x: Vec, q: List[int], g: List[int]): Vec = range(0, q.length()).foldl([], (l, j) => l.append(x[q[j]] * g[j]))

  action init = {
    nondet s = 0.to(2^40).oneOf()
    nondet nin = 1.to(6).oneOf()
    nondet depth = Set(1, 2, 2, 3).oneOf()
    nondet nout = Set(1, 1, 2, 3).oneOf()
    nondet f = Set("sigmoid", "tanh").oneOf()
    nondet auto = Set(true, false).oneOf()
    val sizes = range(0, depth).foldl([], (l, k) => l.append(1 + draw(s, 50 + k, 6)))
    val mu = [rat(1, 10), rat(1, 2), rat(1, 100), rat(3, 10)][draw(s, 60, 4)]
    val net = netOf(s, nin, sizes, nout, f, auto, mu)
    val ns = [nin].concat(sizes)
    val perms = range(0, ns.length()).foldl([], (l, k) => l.append(order_(ns[k], s, 2000 + 20 * k)))
    val flips = range(0, ns.length()).foldl([], (l, k) => l.append(range(0, ns[k]).foldl([], (r, j) =>
      r.append(if ((k == 0 or f == "tanh") and draw(s, 2200 + 20 * k + j, 3) == 0) -1 else 1))))
    val operm = order_(nout, s, 2300)
    val other = image(net, perms, flips, operm)
    all {
      a' = net, b' = other, twin' = nudge(net),
      ev' = { op: "create", sizes: sizes, nin: nin, nout: nout, f: f, mu: mu, auto: auto, hidden: net.hidden, out: net.out,
              hiddenB: other.hidden, outB: other.out, perms: perms, flips: flips, operm: operm,
              X: [], XB: [], D: [], DB: [], epochs: 0, Y: [] }
    }
  }
  action step = {
    nondet op = Set("run", "train", "train").oneOf()
    nondet N = 1.to(4).oneOf()
    nondet epochs = 1.to(2).oneOf()
    nondet s = 0.to(2^40).oneOf()
    val X = dyadicM(s, 10, N, ev.nin, 2, 5)
    val D = dyadicM(s, 500, N, ev.nout, 2, 5)
    val XB = X.foldl([], (m, x) => m.append(imageX(x, ev.perms[0], ev.flips[0])))
    val DB = D.foldl([], (m, d) => m.append(take(d, ev.operm)))
    val n2 = if (op == "run") a else train(a, X, D, epochs).net
    val m2 = if (op == "run") b else train(b, XB, DB, epochs).net
    val u2 = if (op == "run") twin else train(twin, X, D, epochs).net
    all {
      okTrain(a, X, D, if (op == "run") 1 else epochs), close(n2, u2),
      a' = n2, b' = m2, twin' = u2,
      ev' = { ...ev, op: op, X: X, XB: XB, D: D, DB: DB, epochs: epochs,
              Y: X.foldl([], (m, x) => m.append(forward(a, x))), hidden: n2.hidden, out: n2.out, hiddenB: m2.hidden, outB: m2.out }
    }
  }
  /// theorem: training commutes with the symmetry
  val symmetric = {
    val i = image(a, ev.perms, ev.flips, ev.operm)
    nearM(i.out, b.out, 2^120) and range(0, a.hidden.length()).foldl(true, (q, l) => q and nearM(i.hidden[l], b.hidden[l], 2^120))
  }
}
