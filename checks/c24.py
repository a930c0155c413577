"""C24 The regressor follows the coin-betting update."""
import json, math
from vlib import core, coinmodel as C, reducemodel as R


def run(ctx):
    hb = core.harness("dev")
    traces = C.simulate(ctx, ctx.pick(60, 600), 14, tag="s")
    traces += C.simulate(ctx, ctx.pick(8, 80), 60, tag="l")
    traces += C.simulate(ctx, ctx.pick(1, 6), 250, tag="h", need=False)
    try:
        places = C.place(ctx, hb, traces)
    except C.Unplaced as x:
        ctx.violate("the expansion of an example is not the one the rule is about: %s" % x, {"observed": str(x)})
        return
    ss = C.sessions(ctx, traces, places)
    n = 0
    for prof in ("dev", "rel"):
        obs = core.run_sessions(core.harness(prof), [{"id": s["id"], "ops": s["ops"]} for s in ss])
        for s in ss:
            bad, k = judge(s, obs[s["id"]])
            n += k
            ctx.traces += 1
            if bad:
                ctx.violate("the regressor departs from the coin-betting rule [%s]: %s" % (prof, bad[0]), dict(bad[1], ops=s["ops"]))
    ctx.extra["comparisons"] = n
    ctx.extra["worst"] = {k: float("%.3g" % v) for k, v in WORST.items()}
    ctx.sample({"ops": ss[0]["ops"][:8], "specification": traces[0][1]["last"]})
    if n < 1000:
        raise core.ToolError("hardly anything compared")


WORST = {}
TOL = 3e-4


def off(what, got, want, scale):
    """Whether a number of the real code is not the rule's, relative to the magnitudes it was computed from."""
    if not isinstance(got, (int, float)) or not math.isfinite(got):
        return True
    d = abs(got - want) / scale if scale else (0 if got == want else 1)
    if d <= TOL:
        WORST[what] = max(WORST.get(what, 0), d)
    return d > TOL


def judge(s, obs):
    t, n = s["trace"], 0
    ids = {i: k for k, i in s["ix"].items()}
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        if any(k in o for k in ("err", "panic", "crash")):
            return ("%s fails: %s" % (op["op"], json.dumps(o)[:300]), {"op": op, "observed": o}), n
        if p is None:
            continue
        st, prev = t[p[1]], t[p[1] - 1]
        if prev["close"]:
            return None, n
        c = st["conf"]
        if p[0] == "pred":
            m = st["before"]
            want, pred = C.fl(st["last"]["raw"]), C.fl(st["last"]["pred"])
            scale = terms(s, st, m)
            where = {"step": p[1], "op": op, "observed": o, "raw prediction of the rule": want, "prediction of the rule": pred}
            n += 1
            if "raw" not in o or off("raw", core.fval(o["raw"]), want, scale):
                return ("prediction %s, the rule's is %s (step %d)" % (o.get("raw"), want, p[1]), where), n
            if s["link"] == "Logistic":
                pred, scale = 1 / (1 + math.exp(-pred)), max(1, scale)
            if off("prediction", core.fval(o["prediction"]), pred, scale):
                return ("prediction %s, the rule's is %s (step %d)" % (o["prediction"], pred, p[1]), where), n
        elif not st["close"]:
            red = R.inner(o.get("model"))
            m = st["model"]
            red = red and red["reduction"]
            if not red or "weights" not in red or "weights" not in red["weights"]:
                continue     # the model is written otherwise: predictions decide
            ws = red["weights"]["weights"]
            for i, v in ws.items():
                if int(i) not in ids and any(x != 0 for x in v[0]):
                    return ("weight %s is nobody's" % i, {"step": p[1], "op": op, "weight": v}), n
            for k, w in m["w"].items():
                v = ws.get(str(s["ix"][k]), [[0.0] * 6])[0]
                w = {x: C.fl(w[x]) for x in C.ST}
                sc = scales(c, w, C.fl(m["avg"]))
                for x, got in zip(C.ST, v):
                    n += 1
                    if off(x, got, w[x], sc[x]):
                        return ("after step %d the weight of feature %d has %s %s, the rule's is %s" % (p[1], k, x, got, w[x]),
                                {"step": p[1], "last": st["last"], "weight": v, "weight of the rule": w, "index": s["ix"][k]}), n
    return None, n


def scales(c, w, avg):
    a = C.fl(c["alpha"])
    d = w["mg"] * w["mx"]
    bet = (a + abs(w["we"])) / (d * (d + w["g2"])) * w["g2"] / avg if d and avg else 0
    won = a + abs(w["we"])
    return {"xt": max(bet, abs(w["xt"])) * 5, "zt": w["g2"], "g2": w["g2"], "mx": w["mx"], "we": won, "mg": w["mg"]}


def terms(s, st, m):
    """Sum of the magnitudes a prediction is made of."""
    e = {f["id"]: C.fl(f["x"]) for f in st["last"]["e"]}
    e[9] = 1.0
    tot = 0
    avg = C.fl(m["avg"])
    for k, w in m["w"].items():
        w = {x: C.fl(w[x]) for x in C.ST}
        ids = [k] if k < 100 else [int(x) for x in str(k - (100 if k < 1000 else 1000)).zfill(2 if k < 1000 else 3)]
        x = 1.0
        for i in ids:
            x *= e.get(i, 0.0)
        tot += abs(x) * scales(st["conf"], w, avg)["xt"]
    return tot
