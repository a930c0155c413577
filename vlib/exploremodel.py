"""Binding of spec/Explore.tla: exploration stacks over scripted scores and over trained regressors."""
import json, math
from . import core, reducemodel as R, wsmodel as W

U = 10 ** 8
LN2 = math.log(2)
NAME = {"greedy": "CbExploreAdfGreedy", "softmax": "CbExploreAdfSoftmax", "squarecb": "CbExploreAdfSquareCb"}


def model(ctx, learn):
    r = core.tlc(ctx, "ExploreMC", dict(MaxActs=3, MaxLearn=learn), overrides=dict(PARAMS="MCParams", SCORES=ctx.pick("QuickScores", "MCScores")),
                 invariants=["Laws", "Shift"], properties=["Sharper", "FloorRight"], timeout=1500)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Learns", "Decide"])


def stack(r, k, cfg, debug=True):
    c = W.coin(r, plain=True)
    cfg = dict(cfg, cbAdf=W.dbg(r, W.red("CbAdf", {"regressor": c}), .1 if debug else 0))
    return W.dbg(r, W.red(NAME[k], cfg), .1 if debug else 0)


def fixed(x):
    return max(-10 * U, min(10 * U, int(round(x * U)))) if x == x else 10 * U


def values(o):
    """Order and values of an ActionProbs answer."""
    if o.get("type") != "ActionProbs":
        return None, None
    return [a for a, _ in o["v"]], [core.fval(x) for _, x in o["v"]]


def actions(n):
    return {"shared": None, "actions": [[["a", [[i % 4000, 1.0]]]] for i in range(n)]}


def validate(ctx, sessions, events, describe, tag=""):
    """events: per session a list of (event, where), the first a "config"."""
    flat, owner = [], []
    for s, evs in zip(sessions, events):
        for e, w in evs:
            flat.append(e)
            owner.append((s, w))
    start = bad = 0
    while start < len(flat) and bad < 3:
        matched, _ = core.validate_trace(ctx, "ExploreTrace", flat[start:], tag="%s-%d" % (tag, bad))
        if matched >= len(flat) - start:
            break
        i = start + matched
        s, w = owner[i]
        ctx.violate(describe(s, w, flat[i]), {"where": w, "event": flat[i], "ops": s["ops"]})
        bad += 1
        j = i + 1
        while j < len(flat) and flat[j]["a"] != "config":
            j += 1
        start = j
    ctx.traces += len(sessions)


def failed(o):
    return "panic" in o or "err" in o or "crash" in o


# ---- formulas (C10): scores on a grid, parameters the specification can compute with

def grid_sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        kind = r.choice(["greedy", "softmax", "squarecb", "squarecb"]) if k % 40 else "squarecb"
        e = r.choice([0, 0, 0, 10, 20, 35, 50, 80, 90, 99, 100, 1])
        if kind == "greedy":
            par = {"k": kind, "e": r.choice([e, 5])}
            cfg = {"epsilon": par["e"] / 100}
            if par["e"] == 5 and r.random() < .5:
                cfg = {}
        elif kind == "softmax":
            par = {"k": kind, "m": r.choice([0, 1, 1, 2, 3, 8]), "e": e}
            cfg = {"lambda": 4 * LN2 * par["m"], "uniformEpsilon": e / 100}
            if e == 0 and r.random() < .5:
                del cfg["uniformEpsilon"]
        else:
            num, den = r.choice([(0, 1), (1, 2), (1, 2), (1, 1), (2, 1), (1, 4)])
            par = {"k": kind, "scale": r.choice([0, 1, 3, 10, 10, 10, 100]), "num": num, "den": den, "e": e}
            if num == 2:
                par["scale"] = min(par["scale"], 10)
            cfg = {"gammaScale": float(par["scale"]), "gammaExponent": num / den, "uniformEpsilon": e / 100}
            if par["scale"] == 10 and r.random() < .5:
                del cfg["gammaScale"]
            if (num, den) == (1, 2) and r.random() < .5:
                del cfg["gammaExponent"]
        nmax = 7 if kind != "greedy" and par["e"] else 11 if kind == "softmax" else r.choice([11, 11, 11, 40, 130, 270])
        long = kind == "squarecb" and k % 40 == 0       # counts beyond what fits a byte
        limit = (140 if long else 30) if par.get("num") == 2 else 2000 if long else 110
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": {"numBits": 12}, "entryReduction": stack(r, kind, cfg)}}, {"op": "probe", "ws": "w", "probe": "p"}]
        plan = [None, None]
        t = nf = 0
        ws = "w"
        for _ in range(r.randint(4, 10)):
            burst = r.choice([0, 0, 1, 1, 2, 3, 5, 9, 16, 40]) if t < limit - 40 else 0
            if long and t < limit - 500:
                burst = r.choice([1, 100, 255, 300, 500])
            for _ in range(min(burst, 3) if num_free(kind) and r.random() < .5 else burst):
                n_ = r.randint(1, 3)
                ops += [{"op": "script", "probe": "p", "scalars": [0.5, -0.25, 1.0]}, {"op": "feats", "f": "l%d" % nf, "spec": actions(n_)},
                        {"op": r.choice(["learn", "learn", "ptl"]), "ws": ws, "f": "l%d" % nf, "label": {"cb": [r.randrange(n_), r.choice([-1.0, 0.0, 1.0]), r.choice([0.25, 0.5, 1.0])]}}]
                plan += [None, None, ("learn",)]
                t += 1
                nf += 1
            if r.random() < .1:
                fmt = r.choice(["bin", "json"])
                nw = "w%d" % nf
                ops += [{"op": "save", "ws": ws, "fmt": fmt, "slot": "s"}, {"op": "load", "ws": nw, "fmt": fmt, "slot": "s"}]
                plan += [None, None]
                ws = nw
            for _ in range(r.randint(1, 3)):
                m = r.choice([1, 2, 2, 3, 3, 4, 5, nmax])
                lo = r.choice([0, -8, 4])
                s = [lo + r.choice([0, 0, 1, 2, 3, 5, 8, 13, 20]) for _ in range(m)]
                ops += [{"op": "feats", "f": "f%d" % nf, "spec": actions(m)}, {"op": "script", "probe": "p", "scalars": [-x / 4 for x in s]},
                        {"op": "predict", "ws": ws, "f": "f%d" % nf}]
                plan += [None, None, ("decide", s, par, t)]
                nf += 1
        out.append({"id": k, "ops": ops, "plan": plan, "par": par})
    return out


def num_free(kind):
    return kind != "squarecb"


def grid_events(s, obs):
    evs = [({"a": "config", "par": s["par"]}, None)]
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o, "config": s["ops"][0]["config"]["entryReduction"]}
        if p is None:
            if failed(o):
                raise core.Refused(op, o)
        elif p[0] == "learn":
            evs.append(({"a": "learn", "ok": not failed(o)}, where))
        else:
            order, pr = values(o)
            ok = pr is not None
            pr, order = (pr, order) if ok else ([], [])
            top = max(pr) if pr else 0
            odds = []
            for x in pr:
                v = 0.0
                if p[2]["e"] == 0 and x > 0 and x == x:
                    v = 1000 * math.log2(pr[first_best(p[1])] / x) if p[2]["k"] == "softmax" and len(pr) == len(p[1]) and pr[first_best(p[1])] > 0 else 1000 / x if p[2]["k"] == "squarecb" else 0
                elif p[2]["e"] == 0:
                    v = 1e9
                odds.append(int(max(-1e9, min(1e9, round(v)))))
            evs.append(({"a": "decide", "ok": ok, "order": order, "scores": p[1], "probs": [fixed(x) for x in pr], "odds": odds}, where))
    return evs


def first_best(s):
    return s.index(min(s))


# ---- laws (C09): any finite scores

SPECIAL = [0.0, -0.0, 1.0, -1.0, 1e-30, -1e-30, 1e30, -1e30, 1e-45, 3e10, -3e10, 88.0, 104.0, 1e-7, 100.0, 0.1, 0.10000001]


def law_config(r):
    kind = r.choice(["greedy", "softmax", "squarecb"])
    e = r.choice([0.0, 0.0, 0.05, 0.1, 0.2, 0.5, 0.9, 0.99, 0.999, 0.9995, 1.0, 1e-6, 1e-3, round(r.random(), 3)])
    if kind == "greedy":
        return kind, {"epsilon": e}, e
    if kind == "softmax":
        return kind, {"uniformEpsilon": e, "lambda": r.choice([0.0, 1e-3, 0.5, 1.0, 1.0, 5.0, 100.0, 1e4])}, e
    return kind, {"uniformEpsilon": e, "gammaScale": r.choice([0.0, 1e-3, 1.0, 10.0, 10.0, 1e3, 1e6]), "gammaExponent": r.choice([0.0, 0.25, 0.5, 0.5, 1.0, 2.0])}, e


def score_vector(r, n):
    how = r.random()
    if how < .2:
        return [R.f32(r.choice([0.0, 1.0, -2.5]))] * n
    if how < .45:
        pool = r.sample(SPECIAL, r.randint(1, 4))
        return [R.f32(r.choice(pool)) for _ in range(n)]
    if how < .6:
        b = R.f32(r.uniform(-3, 3))
        return [R.f32(b * (1 + r.choice([0, 0, 1, 2, -1]) * 6e-8 * r.choice([1, 1, 10]))) for _ in range(n)]
    scale = r.choice([1e-3, 1.0, 1.0, 1.0, 10.0, 1e4])
    v = [R.f32(r.gauss(0, 1) * scale) for _ in range(n)]
    if r.random() < .4 and n > 1:
        v[r.randrange(n)] = min(v)
    return v


def ranks(v):
    d = {x: i for i, x in enumerate(sorted(set(x + 0.0 for x in v)))}
    return [d[x + 0.0] for x in v]


def law_sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        kind, cfg, e = law_config(r)
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": {"numBits": 12}, "entryReduction": stack(r, kind, cfg)}}, {"op": "probe", "ws": "w", "probe": "p"}]
        plan = [None, None]
        nf = 0
        for _ in range(r.randint(3, 8)):
            for _ in range(r.choice([0, 1, 1, 3, 10])):
                ops += [{"op": "script", "probe": "p", "scalars": [0.5, -1.0]}, {"op": "feats", "f": "l", "spec": actions(2)}, {"op": "learn", "ws": "w", "f": "l", "label": {"cb": [1, 0.5, 0.5]}}]
                plan += [None, None, None]
            m = r.choice([1, 2, 2, 3, 3, 4, 6, 10, 17, 50, r.randint(1, 50)]) if r.random() < .99 else r.choice([129, 257, 300])
            v = score_vector(r, m)
            ops += [{"op": "feats", "f": "f%d" % nf, "spec": actions(m)}, {"op": "script", "probe": "p", "scalars": [-x for x in v]}, {"op": "predict", "ws": "w", "f": "f%d" % nf}]
            plan += [None, None, ("law", v, e)]
            nf += 1
        out.append({"id": k, "ops": ops, "plan": plan})
    return out


def trained_sessions(ctx, n):
    """Real regressors: the scores are those of a plain bandit learner with the same history."""
    r = ctx.rng
    out = []
    for k in range(n):
        kind, cfg, e = law_config(r)
        g = W.global_config(r, r.choice([6, 10, 14]))
        c = W.coin(r, plain=True)
        st = W.red(NAME[kind], dict(cfg, cbAdf=W.red("CbAdf", {"regressor": c})))
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}},
               {"op": "new", "ws": "t", "config": {"globalConfig": g, "entryReduction": W.red("CbAdf", {"regressor": c})}}]
        plan = [None, None]
        exs = [R.example(r, g["numBits"], R.BASEVALS, maxact=8, edges=False) for _ in range(3)]
        for step in range(r.randint(0, 12)):
            x = r.choice(exs)
            lab = R.label(r, x)
            tl = dict(lab, pn=1, pd=1) if kind == "squarecb" else lab
            ops += [{"op": "feats", "f": "l%d" % step, "spec": x}, {"op": "learn", "ws": "w", "f": "l%d" % step, "label": R.cb(lab)},
                    {"op": "feats", "f": "l%d" % step, "spec": x}, {"op": "learn", "ws": "t", "f": "l%d" % step, "label": R.cb(tl)}]
            plan += [None] * 4
        for i, x in enumerate(exs):
            ops += [{"op": "feats", "f": "p%d" % i, "spec": x}, {"op": "predict", "ws": "t", "f": "p%d" % i}, {"op": "predict", "ws": "w", "f": "p%d" % i}]
            plan += [None, ("twin",), ("trained", e)]
        out.append({"id": k, "ops": ops, "plan": plan})
    return out


def floor_sessions(ctx, n, grid):
    """The floor helper: on a grid (percent probabilities and floors), or with anything."""
    r = ctx.rng
    out = []
    for k in range(n):
        ops, plan = [], []
        for _ in range(20):
            m = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 20])
            cuts = sorted([r.choice([0, 0, 1000, r.randint(0, 1000)]) for _ in range(m - 1)])
            p = [b - a for a, b in zip([0] + cuts, cuts + [1000])]
            r.shuffle(p)
            e = r.choice([0, 1, 10, 25, 50, 70, 90, 99, 100, r.randint(0, 100)])
            zero = r.random() < .6
            ops.append({"op": "enforce", "p": [R.f32(x / 1000) for x in p], "eps": e / 100, "zero": zero})
            plan.append(("floor", [x * (U // 1000) for x in p], e, zero))
        out.append({"id": k, "ops": ops, "plan": plan})
    return out


def law_events(s, obs):
    evs = [({"a": "config", "par": {"k": "none"}}, None)]
    twin = []
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o, "config": s["ops"][0].get("config", {}).get("entryReduction")}
        if p is None:
            if failed(o):
                evs.append(({"a": "learn", "ok": False}, where))
            continue
        if p[0] == "floor":
            q = [core.fval(x) for _, x in o.get("v", [])]
            evs.append(({"a": "floor", "ok": "v" in o and [a for a, _ in o["v"]] == list(range(len(p[1]))), "p": p[1], "q": [fixed(x) for x in q], "e": p[2], "zero": p[3]}, where))
            continue
        if p[0] == "twin":
            twin = [core.fval(x) for _, x in o.get("v", [])]
            continue
        scores, e = (p[1], p[2]) if p[0] == "law" else (twin, p[1])
        if any(x != x or abs(x) > 1e35 for x in scores):
            continue
        where["scores"] = scores
        order, pr = values(o)
        n = max(1, len(scores))
        evs.append(({"a": "law", "ok": pr is not None, "order": order or [], "ranks": ranks(scores), "probs": [fixed(x) for x in pr or []], "share": int(e * U) // n}, where))
    return evs
