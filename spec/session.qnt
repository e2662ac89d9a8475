// -*- mode: Bluespec; -*-
/// The life of two adaptive filters in one process.  Every public call is one action; `ev` records
/// the call with its arguments and the results it must have.
module session {
  import fx.* from "./fx"
  import filters.* from "./filters"
  import gen.* from "./gen"

  const KSET: Set[str]        // kinds of filters that may be created
  const OPS: Set[str]         // operations that may be called
  const NSET: Set[int]        // filter sizes
  const LSET: Set[int]        // lengths of data sets
  const FORMS: Set[str]       // representations of the arguments

  type Ev = {
    op: str, slot: int, form: str, par: Par, w0: Vec,   // what was called
    d: Vec, x: Mat, nt: int, epochs: int, variant: str,
    y: Vec, e: Vec, W: Mat, w: Vec, err: bool            // what must come out
  }
  var flt: List[{ par: Par, st: St }]
  var ev: Ev

  pure val NOPAR: Par = defaults("LMS", 1)
  pure val NOEV: Ev = { op: "none", slot: 0, form: "f64", par: NOPAR, w0: [], d: [], x: [], nt: 0,
    epochs: 0, variant: "", y: [], e: [], W: [], w: [], err: false }

  // ------------------------------------------------------------------ actions
  action init = {
    nondet k0 = KSET.oneOf()
    nondet k1 = KSET.oneOf()
    nondet n0 = NSET.oneOf()
    nondet n1 = NSET.oneOf()
    nondet s0 = 0.to(2^30).oneOf()
    nondet z0 = Set(true, false).oneOf()
    all {
      flt' = [born(k0, n0, s0, z0), born(k1, n1, s0 + 1, not(z0))],
      ev' = { ...NOEV, op: "init" }
    }
  }

  /// a new filter takes the place of an old one
  action create = all {
    OPS.contains("create"),
    nondet slot = 0.to(1).oneOf()
    nondet k = KSET.oneOf()
    nondet n = NSET.oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet z = Set(true, false).oneOf()
    nondet form = FORMS.oneOf()
    val b = born(k, n, s, z)
    all {
      flt' = flt.replaceAt(slot, b),
      ev' = { ...NOEV, op: "create", slot: slot, form: form, par: b.par, w0: b.st.w, w: b.st.w,
              variant: if (z) "zeros" else "array" }
    }
  }

  action predictX = all {
    OPS.contains("predict"),
    nondet slot = 0.to(1).oneOf()
    nondet c = CLASSES.oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet form = FORMS.oneOf()
    val f = flt[slot]
    val x = samples(c, s, 1, f.par.n)
    all {
      flt' = flt,
      ev' = { ...NOEV, op: "predict", slot: slot, form: form, x: x,
              y: [predict(f.par, f.st, x[0])], w: f.st.w }
    }
  }

  action adaptX = all {
    OPS.contains("adapt"),
    nondet slot = 0.to(1).oneOf()
    nondet c = CLASSES.oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet form = FORMS.oneOf()
    val f = flt[slot]
    val x = samples(c, s, 1, f.par.n)
    val d = hit(f.par, f.st, targets(c, s, 1)[0], x[0], s)
    val s2 = learn(f.par, f.st, d, x[0])
    all {
      okLearn(f.par, f.st, d, x[0]),
      flt' = flt.replaceAt(slot, { ...f, st: s2 }),
      ev' = { ...NOEV, op: "adapt", slot: slot, form: form, d: [d], x: x, w: s2.w }
    }
  }

  action runX = all {
    OPS.contains("run"),
    nondet slot = 0.to(1).oneOf()
    nondet N = LSET.oneOf()
    nondet c = CLASSES.oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet form = FORMS.oneOf()
    val f = flt[slot]
    val x = samples(c, s, N, f.par.n)
    val d = targets(c, s, N)
    val r = runF(f.par, f.st, d, x)
    all {
      okRun(f.par, f.st, d, x),
      flt' = flt.replaceAt(slot, { ...f, st: r.st }),
      ev' = { ...NOEV, op: "run", slot: slot, form: form, d: d, x: x, y: r.y, e: r.e, W: r.W, w: r.st.w }
    }
  }

  action pretrainedX = all {
    OPS.contains("pretrained"),
    nondet slot = 0.to(1).oneOf()
    nondet N = LSET.oneOf()
    nondet c = CLASSES.oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet form = FORMS.oneOf()
    nondet epochs = 0.to(3).oneOf()
    nondet eighth = 0.to(8).oneOf()
    nondet how = Set("full", "full", "positional", "no-epochs", "no-ntrain", "bare", "swapped").oneOf()
    val f = flt[slot]
    val x = samples(c, s, N, f.par.n)
    val d = targets(c, s, N)
    // what is left out takes its documented value
    val part = if (how == "no-ntrain" or how == "bare") 4 else eighth
    val times = if (how == "no-epochs" or how == "bare") 1 else epochs
    val nt = N * part / 8
    val t = range(0, times).foldl((true, f.st), (a, k) =>
      if (a._1 and okRun(f.par, a._2, d.slice(0, nt), x.slice(0, nt)))
        (true, runF(f.par, a._2, d.slice(0, nt), x.slice(0, nt)).st)
      else (false, a._2))
    val r = pretrainedRun(f.par, f.st, d, x, nt, times)
    all {
      t._1,
      okRun(f.par, t._2, d.slice(nt, N), x.slice(nt, N)),
      flt' = flt.replaceAt(slot, { ...f, st: r.st }),
      ev' = { ...NOEV, op: "pretrained", slot: slot, form: form, d: d, x: x, nt: part, epochs: times, variant: how,
              y: r.y, e: r.e, W: r.W, w: r.st.w }
    }
  }

  action clearX = all {
    OPS.contains("clear"),
    nondet slot = 0.to(1).oneOf()
    val f = flt[slot]
    all {
      f.par.kind == "OCNLMS",
      flt' = flt.replaceAt(slot, { ...f, st: clearMemory(f.par, f.st) }),
      ev' = { ...NOEV, op: "clear", slot: slot, w: f.st.w }
    }
  }

  /// a call whose arguments cannot be accepted: ValueError, and nothing happened
  pure val BAD: Set[str] = Set("adapt-short", "adapt-long", "adapt-scalar", "adapt-matrix", "adapt-text",
    "run-short-d", "run-long-d", "run-narrow", "run-wide", "run-ragged", "run-text", "run-flat",
    "pre-short-d", "pre-long-d", "pre-narrow", "pre-wide", "pre-ragged", "pre-text",
    "adapt-target-text", "adapt-target-blank", "adapt-target-object", "adapt-target-pair", "adapt-target-vector",
    "adapt-target-empty", "run-target-text", "run-target-object", "run-target-ragged", "run-target-column",
    "run-target-matrix", "run-target-rows", "run-deep", "run-object", "pre-target-text", "pre-target-object",
    "pre-target-matrix", "pre-target-ragged", "run-empty-d", "run-one-d", "run-empty-x", "pre-empty-d", "pre-empty-x", "adapt-empty",
    "run-vector-x", "run-scalar-d", "run-scalar-x", "run-none-d", "pre-vector-x", "pre-scalar-d",
    "init-short", "init-long", "init-word", "init-text",
    "reinit-short", "reinit-long", "reinit-word", "reinit-text", "reinit-matrix", "reinit-none")
  action rejectX = all {
    OPS.contains("reject"),
    nondet slot = 0.to(1).oneOf()
    nondet v = BAD.oneOf()
    nondet N = LSET.oneOf()
    nondet s = 0.to(2^30).oneOf()
    val f = flt[slot]
    all {
      N >= 3,
      flt' = flt,
      ev' = { ...NOEV, op: "reject", slot: slot, variant: v, d: targets(1, s, N),
              x: samples(1, s, N, f.par.n), w: f.st.w, err: true }
    }
  }
  /// new initial weights for a filter that has learned: they replace its weights and nothing else
  action reinitX = all {
    OPS.contains("reinit"),
    nondet slot = 0.to(1).oneOf()
    nondet s = 0.to(2^30).oneOf()
    nondet how = Set("zeros", "array", "array", "sized", "zeros-sized").oneOf()
    nondet form = FORMS.oneOf()
    val f = flt[slot]
    val w = if (how == "zeros" or how == "zeros-sized") zeros(f.par.n) else born(f.par.kind, f.par.n, s, false).st.w
    all {
      flt' = flt.replaceAt(slot, { ...f, st: { ...f.st, w: w } }),
      ev' = { ...NOEV, op: "reinit", slot: slot, form: form, variant: how, w0: w, w: w }
    }
  }
  /// deep copy of one filter into the other slot
  action cloneX = all {
    OPS.contains("clone"),
    nondet slot = 0.to(1).oneOf()
    all {
      flt' = flt.replaceAt(1 - slot, flt[slot]),
      ev' = { ...NOEV, op: "clone", slot: slot, par: flt[slot].par, w: flt[slot].st.w }
    }
  }
  /// the caller overwrites every array it passed in or got back so far: nothing happens to the filters
  action scribbleX = all {
    OPS.contains("scribble"),
    flt' = flt,
    ev' = { ...NOEV, op: "scribble", w: flt[0].st.w }
  }

  action step = any { adaptX, runX, predictX, pretrainedX, clearX, rejectX, reinitX, cloneX, scribbleX, create }

  // ------------------------------------------------------------------ design invariants
  /// errors are targets minus outputs, one row of weights per output, sizes right
  val shapes = and {
    flt.foldl(true, (b, f) => b and f.st.w.length() == f.par.n),
    ev.y.length() == ev.W.length() or ev.op == "predict",
    ev.op == "run" implies range(0, ev.d.length()).foldl(true, (b, k) => b and ev.e[k] == ev.d[k] - ev.y[k]),
    (ev.op == "run" and ev.d.length() == 0) implies (ev.y == [] and ev.W == [])
  }
  /// predictions are read only and rejected calls change nothing: see flt' = flt above
  val memoryBounded = flt.foldl(true, (b, f) => b and
    f.st.ox.length() == (if (f.par.kind == "OCNLMS") f.par.mem else 0) and
    f.st.xm.length() == (if (f.par.kind == "AP") f.par.order else 0))
  val inv = shapes and memoryBounded
}
