/**
 * The regressor: normalised coin betting under squared loss (C24), and what follows from the rule
 * about its predictions (C23).
 *
 * Numbers are fixed point: an int n stands for n / ONE.  Divisions round towards zero, an error of
 * 1e-60 per operation, far below what the 32-bit floats of the real code can tell apart.
 *
 * A weight is named by the feature it belongs to: 0..5 are features of the namespaces a (0, 1),
 * b (2, 3) and c (4, 5), 9 is the constant feature, a product of features i and j is
 * 100 + 10 * i + j, one of i, j and k is 1000 + 100 * i + 10 * j + k.
 */
module coin {
  pure val ONE: int = 10^60
  pure val MILLI: int = 10^57
  pure val MICRO: int = 10^54

  // 1e-6, added to the sum of squared norms
  pure val TINY: int = MICRO

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def max(a: int, b: int): int = if (a < b) b else a
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def clamp(x: int, lo: int, hi: int): int = min(max(x, lo), hi)
  pure def quo(a: int, b: int): int = if (a < 0) -((-a) / b) else a / b
  pure def mul(a: int, b: int): int = quo(a * b, ONE)
  pure def div(a: int, b: int): int = quo(a * ONE, b)     // b > 0

  type Feature = { id: int, x: int }
  /// xt: the bet; zt: sum of negative gradients; g2: sum of their magnitudes; mx: largest feature
  /// value; we: wealth won; mg: largest update (at least beta)
  type Weight = { xt: int, zt: int, g2: int, mx: int, we: int, mg: int }
  type Params = { alpha: int, beta: int, constant: bool, pairs: List[List[int]], unit: int }
  type Model = { w: int -> Weight, lo: int, hi: int, sum: int, total: int, avg: int }
  type Example = List[Feature]

  pure val FRESH: Weight = { xt: 0, zt: 0, g2: 0, mx: 0, we: 0, mg: 0 }
  pure def fresh: Model = { w: Map(), lo: 0, hi: 0, sum: 0, total: 0, avg: 0 }

  pure def weight(m: Model, id: int): Weight = if (m.w.keys().contains(id)) m.w.get(id) else FRESH

  // ---------------------------------------------------------------- expansion
  pure def within(e: Example, ns: int): Example = e.select(f => f.id / 2 == ns)

  /// Products of the namespaces listed, each combination once: next to itself a namespace is
  /// combined with the same feature and later ones only.
  pure def products(e: Example, nss: List[int]): Example = {
    pure def code(ids: List[int]): int =
      (if (ids.length() == 2) 100 else 1000) + ids.foldl(0, (acc, i) => 10 * acc + i)
    pure val start: List[{ ids: List[int], x: int }] = [{ ids: [], x: ONE }]
    pure val combos = range(0, nss.length()).foldl(start, (acc, k) =>
      acc.foldl([], (out, part) =>
        within(e, nss[k]).foldl(out, (o, f) =>
          if (k > 0 and nss[k] == nss[k - 1] and f.id < part.ids[k - 1]) o
          else o.append({ ids: part.ids.append(f.id), x: mul(part.x, f.x) }))))
    combos.foldl([], (out, p) => out.append({ id: code(p.ids), x: p.x }))
  }

  pure def expand(e: Example, c: Params): Example = {
    pure val base = c.pairs.foldl(e, (acc, nss) => acc.concat(products(e, nss)))
    if (c.constant) base.append({ id: 9, x: ONE }) else base
  }

  // ---------------------------------------------------------------- the rule
  /// The bet of a weight that has seen values up to mx.
  pure def bet(c: Params, s: Weight, mx: int): int = {
    pure val scale = mul(s.mg, mx)
    if (scale > 0) mul(div(c.alpha + s.we, scale), div(s.zt, scale + s.g2)) else 0
  }

  pure def raw(c: Params, m: Model, e: Example): int =
    expand(e, c).foldl(0, (acc, f) => acc + mul(m.weight(f.id).xt, f.x))

  pure def predict(c: Params, m: Model, e: Example): int = clamp(raw(c, m, e), m.lo, m.hi)

  /// Sums of squares of the example's features, each relative to the largest value seen.
  pure def norm(c: Params, m: Model, e: Example): int =
    expand(e, c).foldl(0, (acc, f) => {
      pure val mx = max(m.weight(f.id).mx, abs(f.x))
      if (mx > 0) acc + mul(div(f.x, mx), div(f.x, mx)) else acc
    })

  /// What the current bets, made anew, predict: not yet normalised, not clamped.
  pure def betting(c: Params, m: Model, e: Example): int =
    expand(e, c).foldl(0, (acc, f) => {
      pure val s = m.weight(f.id)
      acc + mul(bet(c, s, max(s.mx, abs(f.x))), f.x)
    })

  pure def normalise(c: Params, m: Model, e: Example, y: int, w: int): Model = {
    pure val sum = m.sum + mul(norm(c, m, e), w)
    pure val total = m.total + w
    { ...m, lo: min(m.lo, y), hi: max(m.hi, y), sum: sum, total: total,
      avg: if (total > 0) div(sum + TINY, total) else ONE }
  }

  /// 2 (p - y) w
  pure def update(c: Params, m: Model, e: Example, y: int, w: int): int = {
    pure val n = normalise(c, m, e, y, w)
    pure val p = clamp(div(betting(c, m, e), n.avg), n.lo, n.hi)
    mul(2 * (p - y), w)
  }

  pure def step1(c: Params, s: Weight, x: int, u: int, avg: int): Weight = {
    pure val g = mul(u, x)
    pure val mx = max(s.mx, abs(x))
    pure val mg = if (abs(u) > s.mg) max(abs(u), c.beta) else s.mg
    pure val xt = bet(c, { ...s, mg: mg }, mx)
    { xt: div(xt, avg), zt: s.zt - g, g2: s.g2 + abs(g), mx: mx, we: s.we - mul(g, xt), mg: mg }
  }

  pure def learn(c: Params, m: Model, e: Example, y: int, w: int): Model = {
    pure val n = normalise(c, m, e, y, w)
    pure val u = update(c, m, e, y, w)
    pure val upd = expand(e, c).foldl(m.w, (acc, f) =>
      acc.put(f.id, step1(c, { ...m, w: acc }.weight(f.id), f.x, u, n.avg)))
    { ...n, w: upd }
  }

  // ---------------------------------------------------------------- state
  var conf: Params
  var model: Model
  /// the same history with all labels negated, and with all features of namespace a four times as large
  var mirrored: Model
  var scaled: Model
  var before: Model
  /// what was done last
  var last: { op: str, e: Example, y: int, wt: int, raw: int, pred: int, update: int }
  /// 0 < |p - y| too small, or p = y by a margin too small, for 32-bit floats to decide
  var close: bool

  pure val XS: Set[int] = Set(0, 250, 1000, -1000, 1500, -500, 2000, 10000, 100000, 8, 3000, 1, -40000, 1000000)
  pure val YS: Set[int] = Set(-2000, -1000, -500, 0, 500, 1000, 3000, 10, -60000, 150000)
  pure val WTS: Set[int] = Set(0, 500, 1000, 2000, 10000, 20, 35000, 150000, 3000000)
  pure val PRESENT: Set[Set[int]] = Set(Set(), Set(0), Set(0, 1), Set(0, 2), Set(0, 1, 2), Set(1, 2, 3), Set(0, 2, 4), Set(0, 1, 2, 4, 5), Set(4), Set(2, 4))

  /// Features of namespace a come in units of 10^k: the rule does not care.
  pure val UNITS: Set[int] = Set(0, 0 - 20, 18, 1, -3, -7)

  pure def inUnit(x: int, k: int): int = if (k < 0) quo(x, 10^(-k)) else x * 10^k

  pure def four(e: Example): Example =
    e.foldl([], (acc, f) => acc.append(if (f.id < 2) { ...f, x: 4 * f.x } else f))

  action init = {
    nondet alpha = Set(4000, 1000, 500, 10000, 100, 60000).oneOf()
    nondet beta = Set(1000, 250, 2000, 30, 20000).oneOf()
    nondet constant = Set(true, false).oneOf()
    nondet pairs = Set([], [[0, 1]], [[0, 0]], [[1, 0], [2, 2]], [[0, 1, 2]], [[0, 0, 1], [1, 2]]).oneOf()
    // (products of features in such units would be beyond 32-bit floats)
    nondet unit = (if (pairs == []) UNITS else Set(0, 1, -3)).oneOf()
    all {
      conf' = { alpha: alpha * MILLI, beta: beta * MILLI, constant: constant, pairs: pairs, unit: unit },
      model' = fresh, mirrored' = fresh, scaled' = fresh, before' = fresh,
      last' = { op: "new", e: [], y: 0, wt: 0, raw: 0, pred: 0, update: 0 },
      close' = false,
    }
  }

  action doLearn(e: Example, y: int, wt: int): bool = {
    val n = normalise(conf, model, e, y, wt)
    val part = div(betting(conf, model, e), n.avg)
    val p = clamp(part, n.lo, n.hi)
    val silent = expand(e, conf).foldl(true, (acc, f) => acc and (model.weight(f.id).zt == 0 or f.x == 0))
    all {
      before' = model,
      model' = learn(conf, model, e, y, wt),
      mirrored' = learn(conf, mirrored, e, -y, wt),
      scaled' = learn(conf, scaled, four(e), y, wt),
      last' = { op: "learn", e: e, y: y, wt: wt, raw: raw(conf, model, e), pred: predict(conf, model, e), update: update(conf, model, e, y, wt) },
      close' = (close or (not(silent) and abs(p - y) < 100 * MICRO and abs(part - y) < MILLI)),
      conf' = conf,
    }
  }

  action doPredict(e: Example): bool = all {
    before' = model, model' = model, mirrored' = mirrored, scaled' = scaled, conf' = conf, close' = close,
    last' = { op: "predict", e: e, y: 0, wt: 0, raw: raw(conf, model, e), pred: predict(conf, model, e), update: 0 },
  }

  pure def example(k: int, ids: Set[int], x0: int, x1: int, x2: int, x3: int): Example =
    range(0, 6).foldl([], (acc, i) =>
      if (ids.contains(i)) acc.append({ id: i, x: if (i == 0) inUnit(MILLI * x0, k) else if (i == 1) inUnit(MILLI * x1, k) else if (i == 2) MILLI * x2 else MILLI * x3 }) else acc)

  action step = {
    nondet ids = PRESENT.oneOf()
    nondet x0 = XS.oneOf()
    nondet x1 = XS.oneOf()
    nondet x2 = XS.oneOf()
    nondet x3 = XS.oneOf()
    nondet y = YS.oneOf()
    nondet wt = WTS.oneOf()
    nondet what = Set("l", "l", "p", "m").oneOf()
    if (what == "p") doPredict(example(conf.unit, ids, x0, x1, x2, x3)) else doLearn(example(conf.unit, ids, x0, x1, x2, x3), y * MILLI, wt * MILLI)
  }

  // ---------------------------------------------------------------- what holds
  /// Predictions lie within the labels learned from, and 0 (C23).
  val inRange = last.pred >= before.lo and last.pred <= before.hi and before.lo <= 0 and before.hi >= 0

  val SLACK = 10^40
  def weights(p: Weight => bool): bool = model.w.keys().forall(id => p(model.w.get(id)))

  /// The gambler is never bankrupt, and never bets more than there is.
  val solvent = weights(s => conf.alpha + s.we > 0)
  val sums = weights(s => abs(s.zt) <= s.g2)
  val magnitudes = weights(s => s.mg == 0 or s.mg >= conf.beta)
  val idle = weights(s => s.mg > 0 or (s.zt == 0 and s.g2 == 0 and s.we == 0 and s.xt == 0))

  /// The bookkeeping only grows, importance 0 teaches nothing, weights of absent features stay.
  val grows = before.w.keys().forall(id => {
    val a = before.w.get(id)
    val b = model.w.get(id)
    a.g2 <= b.g2 and a.mx <= b.mx and a.mg <= b.mg
  }) and before.lo >= model.lo and before.hi <= model.hi and before.total <= model.total
  val free = (last.op == "learn" and last.wt == 0) implies model.w.keys().forall(id => {
    val a = before.weight(id)
    val b = model.w.get(id)
    a.zt == b.zt and a.g2 == b.g2 and a.we == b.we and a.mg == b.mg
  })
  val local = before.w.keys().forall(id =>
    before.w.get(id) == model.w.get(id) or (last.op == "learn" and expand(last.e, conf).foldl(false, (acc, f) => acc or f.id == id)))

  /// A weight bets in the direction of what it won on.
  val mirror = model.w.keys().forall(id => {
    val a = model.w.get(id)
    val b = mirrored.w.get(id)
    a.xt == -b.xt and a.zt == -b.zt and a.g2 == b.g2 and a.mx == b.mx and a.we == b.we and a.mg == b.mg
  }) and model.lo == -mirrored.hi and model.hi == -mirrored.lo

  /// Predictions do not depend on the unit a feature is measured in.
  val scaleFree = last.op == "new" or abs(raw(conf, model, last.e) - raw(conf, scaled, four(last.e))) <= SLACK + abs(raw(conf, model, last.e)) / 10^9

  // witnesses
  val clamped = last.raw > before.hi or last.raw < before.lo
  val wonLots = model.w.keys().exists(id => model.w.get(id).we > ONE)
  val lost = model.w.keys().exists(id => model.w.get(id).we < -2 * ONE)
  val above = model.w.keys().exists(id => model.w.get(id).mg > conf.beta)
  val firstFree = model.total == 0 and model.w.keys().size() > 0
  val interacted = model.w.keys().exists(id => id > 99 and abs(model.w.get(id).we) > ONE / 4)
}
