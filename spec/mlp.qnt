// -*- mode: Bluespec; -*-
/// The multi-layer perceptron: forward pass, stochastic gradient training, and the life of one network.
module mlpfn {
  import fx.* from "./fx"

  /// hidden[l] has one row per node: bias weight first, then one weight per input of the layer;
  /// out has one row per network output
  type Net = { nin: int, hidden: List[Mat], out: Mat, f: str, mus: Vec, muOut: int }

  pure def act(f: str, s: int): int = if (f == "tanh") tanh(s) else sigmoid(s)
  /// derivative of the activation, from its value
  pure def dact(f: str, h: int): int = if (f == "tanh") ONE - sq(h) else mul(h, ONE - h)

  /// sums and values of every hidden layer
  type Pass = { ins: Mat, hs: Mat, big: int }
  pure def pass(net: Net, x: Vec): Pass =
    net.hidden.foldl({ ins: [], hs: [x], big: 0 }, (p, W) => {
      val inp = [ONE].concat(p.hs[p.hs.length() - 1])
      val s = matVec(W, inp)
      { ins: p.ins.append(inp), hs: p.hs.append(s.foldl([], (l, a) => l.append(act(net.f, a)))), big: max2(p.big, maxAbs(s)) }
    })
  pure def outputs(net: Net, p: Pass): Vec = matVec(net.out, [ONE].concat(p.hs[p.hs.length() - 1]))
  pure def forward(net: Net, x: Vec): Vec = outputs(net, pass(net, x))
  pure def okForward(net: Net, x: Vec): bool = pass(net, x).big < 150 * ONE

  /// one training step: every weight moves by its layer's rate times the negative gradient of
  /// half the squared output error
  pure def learnStep(net: Net, x: Vec, d: Vec): { net: Net, e: Vec } = {
    val p = pass(net, x)
    val L = net.hidden.length()
    val e = sub(d, outputs(net, p))
    val top = [ONE].concat(p.hs[L])
    val out2 = range(0, net.out.length()).foldl([], (m, i) => m.append(axpy(net.out[i], mul(net.muOut, e[i]), top)))
    // error signals of the hidden layers, last layer first
    val back = range(0, L).foldl({ sig: e, W: net.out, hid: [] }, (b, q) => {
      val l = L - 1 - q
      val h = p.hs[l + 1]
      val g = range(0, h.length()).foldl([], (r, j) => r.append(
        mul(dact(net.f, h[j]), range(0, b.sig.length()).foldl(0, (s, i) => s + mul(b.sig[i], b.W[i][j + 1])))))
      val W2 = range(0, h.length()).foldl([], (m, j) => m.append(axpy(net.hidden[l][j], mul(net.mus[l], g[j]), p.ins[l])))
      { sig: g, W: net.hidden[l], hid: [W2].concat(b.hid) }
    })
    { net: { ...net, out: out2, hidden: back.hid }, e: e }
  }
  /// epochs of training in the order of the data
  pure def train(net: Net, X: Mat, D: Mat, epochs: int): { net: Net, e: Mat, mse: Vec } =
    range(0, epochs).foldl({ net: net, e: [], mse: [] }, (t, k) => {
      val r = range(0, X.length()).foldl({ net: t.net, e: [], s: 0 }, (q, i) => {
        val z = learnStep(q.net, X[i], D[i])
        { net: z.net, e: q.e.append(z.e), s: q.s + norm2(z.e) }
      })
      { net: r.net, e: t.e.concat(r.e), mse: t.mse.append(r.s / X.length()) }
    })
  pure def bounded(net: Net): bool =
    maxAbsM(net.out) < 2^168 and net.hidden.foldl(true, (b, W) => b and maxAbsM(W) < 2^168)
  pure def okTrain(net: Net, X: Mat, D: Mat, epochs: int): bool =
    range(0, epochs * X.length()).foldl((true, net), (t, k) =>
      if (not(t._1)) t else {
        val i = k % X.length()
        if (okForward(t._2, X[i])) {
          val z = learnStep(t._2, X[i], D[i])
          (bounded(z.net), z.net)
        } else (false, t._2)
      })._1
}

/// helpers of the machines over networks
module mlpworld {
  import fx.* from "./fx"
  import mlpfn.*

  pure def nudgeM(A: Mat): Mat = A.foldl([], (m, r) => m.append(r.foldl([], (l, a) => l.append(a + 2^116))))
  pure def nudge(n: Net): Net =
    { ...n, hidden: n.hidden.foldl([], (l, W) => l.append(nudgeM(W))), out: nudgeM(n.out) }
  pure def close(a: Net, b: Net): bool =
    nearM(a.out, b.out, 2^128) and
    range(0, a.hidden.length()).foldl(true, (q, l) => q and nearM(a.hidden[l], b.hidden[l], 2^128))

  pure def rateOf(auto: bool, mu: int, m: int): int = if (auto) div(ONE, sqrt(m * ONE)) else mu
  /// inputs: as they come, all close to the first one, a few again and again, sparse ones
  pure def inputs(s: int, N: int, n: int, r: int, q: int): Mat = {
    val X = dyadicM(s, 1, N, n, r, q)
    val style = draw(s, 9000, 8)
    val small = 2^(2 + draw(s, 9001, 14))
    if (style == 0 and q > 0) range(0, N).foldl([], (m, k) => m.append(range(0, n).foldl([], (l, j) =>
      l.append(X[0][j] + dyadic(s, 7000 + k * n + j, 1, 4) / small))))
    else if (style == 1) range(0, N).foldl([], (m, k) => m.append(X[draw(s, 7000 + k, min2(2, N))]))
    else if (style == 2) range(0, N).foldl([], (m, k) => m.append(range(0, n).foldl([], (l, j) =>
      l.append(if (draw(s, 7000 + k * n + j, 2) == 0) 0 else X[k][j]))))
    else X
  }
  pure def weightsOf(s: int, i: int, rows: int, cols: int): Mat = dyadicM(s, i, rows, cols, 2, 6)
  pure def netOf(s: int, nin: int, sizes: List[int], nout: int, f: str, auto: bool, mu: int): Net = {
    val ins = [nin].concat(sizes)
    {
      nin: nin, f: f,
      hidden: range(0, sizes.length()).foldl([], (l, k) => l.append(weightsOf(s, 100 * k, sizes[k], ins[k] + 1))),
      out: weightsOf(s, 700, nout, sizes[sizes.length() - 1] + 1),
      mus: range(0, sizes.length()).foldl([], (l, k) => l.append(rateOf(auto, mu, ins[k]))),
      muOut: rateOf(auto, mu, sizes[sizes.length() - 1])
    }
  }
}

/// the life of a network
module mlp {
  import fx.* from "./fx"
  import mlpfn.*
  import mlpworld.*

  type Ev = { op: str, form: str, sizes: List[int], nout: int, mu: int, auto: bool, f: str, nin: int,
              X: Mat, D: Mat, epochs: int, bad: str, Y: Mat, E: Mat, mse: Vec, hidden: List[Mat], out: Mat, err: bool, hit: List[bool] }
  var net: Net
  /// a copy that started 2^-44 off and was trained the same way: behaviours in which the two part are
  /// ill conditioned (training with a large rate is chaotic) and not explored
  var twin: Net
  var ev: Ev
  pure val NOEV: Ev = { op: "none", form: "f64", sizes: [], nout: 1, mu: 0, auto: false, f: "sigmoid", nin: 1, X: [], D: [],
    epochs: 0, bad: "", Y: [], E: [], mse: [], hidden: [], out: [], err: false, hit: [] }

  action born = {
    nondet s = 0.to(2^40).oneOf()
    nondet nin = 1.to(4).oneOf()
    nondet depth = Set(1, 1, 2, 3).oneOf()
    nondet nout = Set(1, 2, 3).oneOf()
    nondet one = Set(true, false).oneOf()
    nondet f = Set("sigmoid", "tanh").oneOf()
    nondet auto = Set(true, false).oneOf()
    val sizes = range(0, depth).foldl([], (l, k) => l.append(1 + draw(s, 50 + k, 4)))
    val mu = [rat(1, 10), rat(1, 2), rat(1, 100), 0, ONE][draw(s, 60, 5)]
    val no = if (one) 1 else nout
    val n = netOf(s, nin, sizes, no, f, auto, mu)
    all {
      net' = n, twin' = nudge(n),
      ev' = { ...NOEV, op: "create", sizes: sizes, nout: no, mu: mu, auto: auto, f: f, nin: nin, hidden: n.hidden, out: n.out }
    }
  }
  pure val FORMS: Set[str] = Set("f64", "list", "tuple", "strided", "readonly", "fortran", "i64", "f32", "listofarrays")
  action predictX = {
    nondet s = 0.to(2^40).oneOf()
    nondet form = FORMS.oneOf()
    val x = dyadicV(s, 1, net.nin, 3, if (form == "i64") 0 else 5)
    all {
      okForward(net, x),
      net' = net, twin' = twin,
      ev' = { ...NOEV, op: "predict", form: form, X: [x], Y: [forward(net, x)], hidden: net.hidden, out: net.out }
    }
  }
  action runX = {
    nondet s = 0.to(2^40).oneOf()
    nondet N = 1.to(6).oneOf()
    nondet form = FORMS.oneOf()
    nondet what = Set("run", "test").oneOf()
    val X = inputs(s, N, net.nin, 3, if (form == "i64") 0 else 5)
    val D = dyadicM(s, 500, N, net.out.length(), 4, 5)
    val Y = X.foldl([], (m, x) => m.append(forward(net, x)))
    all {
      X.foldl(true, (b, x) => b and okForward(net, x)),
      net' = net, twin' = twin,
      ev' = { ...NOEV, op: what, form: form, X: X, D: D, Y: Y, E: range(0, N).foldl([], (m, k) => m.append(sub(D[k], Y[k]))),
              hidden: net.hidden, out: net.out }
    }
  }
  action trainX = {
    nondet s = 0.to(2^40).oneOf()
    nondet N = 1.to(4).oneOf()
    nondet epochs = Set(0, 1, 2, 3, 3, 10).oneOf()
    nondet form = Set("f64", "list", "strided", "readonly", "fortran", "i64", "f32").oneOf()
    val X = inputs(s, N, net.nin, 2, if (form == "i64") 0 else 5)
    val D = dyadicM(s, 500, N, net.out.length(), 2, if (form == "i64") 0 else 5)
    val t = train(net, X, D, epochs)
    val u = train(twin, X, D, epochs).net
    all {
      okTrain(net, X, D, epochs), close(t.net, u),
      net' = t.net, twin' = u,
      ev' = { ...NOEV, op: "train", form: form, X: X, D: D, epochs: epochs, E: t.e, mse: t.mse, hidden: t.net.hidden, out: t.net.out }
    }
  }
  /// predict() followed by update()
  action oneX = {
    nondet s = 0.to(2^40).oneOf()
    nondet exact = Set(true, false, false).oneOf()
    val x = dyadicV(s, 1, net.nin, 2, 5)
    val y = forward(net, x)
    // targets that are met exactly: all of them, or some of several
    val hit = range(0, y.length()).foldl([], (l, i) => l.append(exact and draw(s, 600 + i, 3) > 0))
    val d = range(0, y.length()).foldl([], (l, i) => l.append(if (hit[i]) y[i] else dyadic(s, 500 + i, 2, 5)))
    val z = learnStep(net, x, d)
    val u = learnStep(twin, x, d).net
    all {
      okTrain(net, [x], [d], 1), close(z.net, u),
      net' = z.net, twin' = u,
      ev' = { ...NOEV, op: "one", X: [x], D: [d], hit: hit, Y: [y], E: [z.e], hidden: z.net.hidden, out: z.net.out }
    }
  }
  action rejectX = {
    nondet s = 0.to(2^40).oneOf()
    nondet N = 2.to(4).oneOf()
    nondet what = Set("train", "test").oneOf()
    nondet bad = Set("short-d", "long-d", "narrow", "wide", "flat-d", "wide-d", "narrow-d", "ragged", "text", "object",
      "text-d", "object-d", "predict-narrow", "predict-wide", "predict-empty", "predict-single", "predict-text", "predict-object",
      "update-wide", "update-text", "update-object", "update-layer", "run-narrow", "run-wide", "run-ragged", "run-text",
      "run-object").oneOf()
    all {
      net' = net, twin' = twin,
      ev' = { ...NOEV, op: "reject", bad: bad, f: what, X: dyadicM(s, 1, N, net.nin, 2, 5), D: dyadicM(s, 500, N, net.out.length(), 2, 5),
              epochs: 2, hidden: net.hidden, out: net.out, err: true }
    }
  }
  action init = born
  action stepInfer = any { predictX, predictX, runX, runX, trainX }
  action stepTrain = any { trainX, trainX, trainX, oneX, oneX, predictX, runX, rejectX }
  action step = stepTrain

  // ================================================================ theorems
  val shapes = and {
    ev.op == "train" implies (ev.E.length() == ev.X.length() * ev.epochs and ev.mse.length() == ev.epochs),
    ev.op == "predict" implies ev.Y[0].length() == net.out.length()
  }
  val inv = shapes
}

/// the gradient theorem on random networks
module mlpdesign {
  import fx.* from "./fx"
  import mlpfn.*
  import mlpworld.*
  /// the step is the negative gradient: difference quotient of half the squared error for one weight per layer
  pure def halfSq(n: Net, x: Vec, d: Vec): int = norm2(sub(d, forward(n, x))) / 2
  pure def gradientOk(n: Net, x: Vec, d: Vec): bool = {
    val z = learnStep(n, x, d).net
    val dh = 2^100
    val base = halfSq(n, x, d)
    // loss, weights stay small enough for the quotient to be good to 2^-40
    range(0, n.hidden.length()).foldl(true, (b, l) => b and range(0, n.hidden[l].length()).foldl(true, (c, j) =>
      c and range(0, n.hidden[l][j].length()).foldl(true, (q, k) => {
        val m = { ...n, hidden: n.hidden.replaceAt(l, n.hidden[l].replaceAt(j, n.hidden[l][j].replaceAt(k, n.hidden[l][j][k] + dh))) }
        val slope = div(halfSq(m, x, d) - base, dh)
        q and abs(z.hidden[l][j][k] - n.hidden[l][j][k] + mul(n.mus[l], slope)) < 2^120
      }))) and
    range(0, n.out.length()).foldl(true, (c, j) => c and range(0, n.out[j].length()).foldl(true, (q, k) => {
        val m = { ...n, out: n.out.replaceAt(j, n.out[j].replaceAt(k, n.out[j][k] + dh)) }
        val slope = div(halfSq(m, x, d) - base, dh)
        q and abs(z.out[j][k] - n.out[j][k] + mul(n.muOut, slope)) < 2^120
      }))
  }
  var n: Net
  var x: Vec
  var d: Vec
  action begin = {
    nondet s = 0.to(2^40).oneOf()
    nondet nin = 1.to(3).oneOf()
    nondet depth = 1.to(3).oneOf()
    nondet nout = 1.to(3).oneOf()
    nondet f = Set("sigmoid", "tanh").oneOf()
    nondet auto = Set(true, false).oneOf()
    val sizes = range(0, depth).foldl([], (l, k) => l.append(1 + draw(s, 50 + k, 3)))
    all {
      n' = netOf(s, nin, sizes, nout, f, auto, rat(1, 3)),
      x' = dyadicV(s, 1, nin, 2, 5), d' = dyadicV(s, 900, nout, 2, 5)
    }
  }
  val gradientDescent = gradientOk(n, x, d)
}

/// training with shuffling, logged: every epoch is some order of all samples, targets stay with their inputs
module mlplog {
  import fx.* from "./fx"
  import mlpfn.*
  type Logged = { net: Net, X: Mat, D: Mat, epochs: int, E: Mat, mse: Vec, net2: Net }
  type Walk = { net: Net, used: Set[int], order: List[int], bad: str }
  pure def tol(n: int): int = 2^134
  pure def walk(r: Logged): Walk =
    range(0, r.E.length()).foldl({ net: r.net, used: Set(), order: [], bad: "" }, (w, k) =>
      if (w.bad != "") w else {
        val used = if (k % r.X.length() == 0) Set() else w.used
        val fit = range(0, r.X.length()).foldl(-1, (c, i) =>
          if (c >= 0 or used.contains(i)) c
          else if (nearV(learnStep(w.net, r.X[i], r.D[i]).e, r.E[k], tol(0))) i else c)
        if (fit < 0) { ...w, bad: "an epoch is not an order of the samples with their targets" }
        else { net: learnStep(w.net, r.X[fit], r.D[fit]).net, used: used.union(Set(fit)), order: w.order.append(fit), bad: "" }
      })
  pure def verdict(r: Logged): str = {
    val w = walk(r)
    val N = r.X.length()
    if (r.E.length() != N * r.epochs) "number of errors"
    else if (w.bad != "") w.bad
    else if (not(nearM(w.net.out, r.net2.out, tol(0)))) "output weights after training"
    else if (not(range(0, r.net.hidden.length()).foldl(true, (b, l) => b and nearM(w.net.hidden[l], r.net2.hidden[l], tol(0)))))
      "hidden weights after training"
    else if (not(range(0, r.epochs).foldl(true, (b, k) => b and
      near(r.E.slice(k * N, k * N + N).foldl(0, (s, e) => s + norm2(e)) / N, r.mse[k], tol(0))))) "mean squared error of an epoch"
    else ""
  }
}
