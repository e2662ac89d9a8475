// -*- mode: Bluespec; -*-
/// Trace validation: is a history logged from a real filter a behaviour of the specification?
/// Entry k of the log holds, packed into one integer, the target, the output and error
/// reported for sample k, the input, and the weights in force before sample k.  The last entry only
/// holds the final weights.  Weights are taken over from the log at every step, hidden state
/// (memories, step sizes, inverse correlation) is what the specification says it must be.
module tracefilter {
  import fx.* from "./fx"
  import filters.* from "./filters"

  const PAR: Par
  const SIZE: int                // number of entries
  const Y: bool                  // were outputs and errors logged?
  const OVER: bool               // does the log end because the weights stopped being finite?

  pure val WIDTH: int = 2^112
  pure val BIAS: int = 2^111
  pure val STEP: int = 2^88      // resolution 2^-72
  pure def get1(t: int, i: int): int = (t / 2^(112 * i) % WIDTH - BIAS) * STEP
  pure def getV(t: int, i: int, n: int): Vec =
    range(0, n).foldl([], (l, k) => l.append(get1(t, i + k)))

  var i: int          // entries consumed
  var st: St          // state the specification requires before entry i
  var free: bool      // the last learning step hung on the sign of a rounding error
  var bad: str        // first clause that failed, or ""

  pure def close(u: Vec, v: Vec, sc: int): bool =
    range(0, u.length()).foldl(true, (b, k) => b and abs(u[k] - v[k]) <= sc / 2^26)

  action begin = all {
    i' = 0, free' = true, bad' = "",
    st' = newFilter(PAR, zeros(PAR.n))
  }
  /// the next entry of the log is t
  action consume(t: int): bool = {
    val d = get1(t, 0)
    val y = get1(t, 1)
    val e = get1(t, 2)
    val x = getV(t, 3, PAR.n)
    val w = getV(t, 3 + PAR.n, PAR.n)
    val last = i + 1 == SIZE
    val s = { ...st, w: w }
    val sc = max2(ONE, max2(max2(maxAbs(x), maxAbs(w)), max2(max2(abs(d), abs(y)), maxAbs(st.w))))
    val yy = predict(PAR, s, x)
    val ee = d - yy
    all {
      i < SIZE, bad == "",
      i' = i + 1,
      bad' = if (last and OVER) (if (maxAbs(st.w) > 2^190) "" else "finite")
             else if (not(free) and not(close(st.w, w, sc))) "weights"
             else if (not(last) and Y and not(close([yy], [y], sc))) "output"
             else if (not(last) and Y and not(close([d - y], [e], sc))) "error"
             else "",
      st' = if (last) s else learnE(PAR, s, ee, d, x),
      free' = (Set("SSLMS", "NSSLMS").contains(PAR.kind) and abs(ee) < EDGE)
    }
  }
  val accepted = bad == ""
}
