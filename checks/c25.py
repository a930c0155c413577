"""C25 Learning touches only the weights of the example's own features."""
import json
from vlib import core, expandmodel as X, reducemodel as R, wsmodel as W

BITS = [1, 2, 3, 5, 8, 12]


def run(ctx):
    for geo, vals, depth in [("MCGeometries", ctx.pick({0, 1}, {0, 1, 2}), 3 if not ctx.thorough else 2), ("Wide", {0, 1}, 2)]:
        r = core.tlc(ctx, "WeightsMC", dict(VALUES=vals, MaxOps=depth), overrides=dict(GEOMETRIES=geo), invariants=["Faithful"],
                     properties=["Local", "Lossless"], timeout=2000, tag=geo)
        ctx.add_tlc(r)
        ctx.require_actions(r, ["Learn", "Saves", "Loads"] if r.coverage.get("Learn") else ["Learns", "Saves", "Loads"])
    ss = store_sessions(ctx, ctx.pick(1500, 10000))
    learn = learn_sessions(ctx, core.harness("dev"), ctx.pick(2500, 20000))
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [store_events(s, obs[s["id"]]) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "a store of weights does not hold what was put there [%s]: %s" % (prof, json.dumps(w)[:600]), "-s" + prof, "WeightsTrace")
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in learn])
        evs = [learn_events(s, obs[s["id"]]) for s in learn]
        X.validate(ctx, learn, evs, lambda s, w, e: "weights changed that are not those of the example learned [%s]: %s" % (prof, json.dumps(w)[:900]), "-l" + prof, "WeightsTrace")
        ctx.sample([e for e, _ in evs[0]][:3])


def store_sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        size, models, states = r.choice([1, 2, 3, 4, 5, 8, 16, 17]), r.choice([1, 1, 2, 3, 4, 5]), r.choice([1, 2, 3, 4, 6, 8])
        cur = "w"
        ops = [{"op": "wnew", "w": "w", "size": size, "models": models, "states": states}]
        plan = [None]
        vals = {}
        tab = core.intern_table()

        def tok(i, m):
            st = vals.get((i, m), [0.0] * states)
            return tab(st) + 1 if any(st) else 0
        for _ in range(r.randint(3, 25)):
            x = r.random()
            if x < .5:
                i, m, c = r.choice([0, size - 1, r.randrange(size)]), r.randrange(models), r.randrange(states)
                v = r.choice([0.0, 1.0, -2.0, 0.5, 3.0, 1e-30, 7.0])
                vals.setdefault((i, m), [0.0] * states)[c] = R.f32(v)
                ops.append({"op": "wset", "w": cur, "i": i, "m": m, "k": c, "v": v})
                plan.append(("set", i * 16 + m, tok(i, m), states))
            elif x < .6:
                nxt = "v" if cur == "w" else "w"
                ops.append({"op": "wround", "w": cur, "to": nxt, "fmt": r.choice(["json", "plain"])})
                plan.append(("round",))
                cur = nxt
            else:
                i, m = r.choice([0, size - 1, r.randrange(size)]), r.randrange(models)
                ops.append({"op": "wget", "w": cur, "i": i, "m": m})
                plan.append(("get", i * 16 + m))
        for i in range(size):
            for m in range(models):
                ops.append({"op": "wget", "w": cur, "i": i, "m": m})
                plan.append(("get", i * 16 + m))
        out.append({"id": k, "ops": ops, "plan": plan, "tab": tab})
    return out


def store_events(s, obs):
    evs = [({"a": "config", "holds": []}, None)]
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"store": s["ops"][0], "op": op, "observed": o}
        if any(k in o for k in ("panic", "err", "crash")):
            evs.append(({"a": "failed"}, where))
            break
        if p is None or p[0] == "round":
            continue
        if p[0] == "set":
            if o.get("len") != p[3]:
                evs.append(({"a": "failed"}, where))
                break
            evs.append(({"a": "set", "key": p[1], "token": p[2]}, where))
        else:
            st = [core.fval(x) for x in o["state"]]
            t = s["tab"](st) + 1 if any(st) else 0
            if core.fval(o["weight"]) != st[0]:
                t = -1
            evs.append(({"a": "get", "key": p[1], "token": t}, where))
    return evs


# ------------------------------------------------------------------ stacks

def stacks(r):
    coin = W.coin(r) if r.random() < .5 else W.red("Coin")
    kind = r.choice(["coin", "coin", "binary", "cb", "cb"])
    if kind == "coin":
        return kind, W.dbg(r, coin, .1)
    if kind == "binary":
        return kind, W.dbg(r, W.red("Binary", {"regressor": coin}), .1)
    algo = r.choice(["mtr", "mtr", "ips"])
    wrap = r.choice(["none", "greedy", "softmax"] + (["squarecb"] if algo == "mtr" else []))
    return kind, R.base(r, algo, wrap, coin)


def merged_parts(kind, ex):
    """What the regressor may be given."""
    if kind != "cb":
        return [ex]
    out = []
    for j in range(len(ex["actions"])):
        out.append(R.merged(ex, j))
    return out


def learn_sessions(ctx, hb, n):
    """Stores seeded with values in untouched places, which must be there, unchanged, for ever."""
    r = ctx.rng
    cand = []
    for k in range(n):
        bits = r.choice(BITS)
        kind, st = stacks(r)
        inter = X.inters(r, most=2)
        g = {"numBits": bits, "constantFeatureEnabled": r.random() < .5, "interactions": X.config(inter), "hashSeed": r.choice([0, 0, 5, 4294967295])}
        if kind == "cb":
            exs = [R.example(r, bits, maxact=3) for _ in range(3)]
        else:
            exs = [R.part(r, bits, R.VALS) for _ in range(3)]
        cand.append((k, g, kind, st, inter, exs))
    # phase 1: a fresh model of every configuration, and what the examples expand to
    first = []
    for k, g, kind, st, inter, exs in cand:
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}}, {"op": "dump", "ws": "w", "full": True}]
        for ex in exs:
            for p in merged_parts(kind, ex):
                ops.append({"op": "foreach", "spec": p, "seed": g["hashSeed"], "bits": g["numBits"], "constant": g["constantFeatureEnabled"],
                            "pairs": [t for t in inter if len(t) == 2], "triples": [t for t in inter if len(t) == 3]})
        first.append({"id": k, "ops": ops})
    obs = core.run_sessions(hb, first)
    out = []
    for k, g, kind, st, inter, exs in cand:
        o = obs[k]
        if any(x in y for y in o for x in ("err", "panic", "crash")) or len(o) < len(first[k]["ops"]):
            raise core.Refused(first[k]["ops"][0], o)
        model, feats, at = o[1]["model"], [], 2
        for ex in exs:
            own = set()
            for p in merged_parts(kind, ex):
                own |= {i for i, _ in o[at]["predict"]}
                at += 1
            feats.append(sorted(own))
        size = 1 << g["numBits"]
        ops, plan = [], []
        start = {}
        red = R.inner(model)
        if not red or red["reduction"]["weights"]["weights"] != {}:
            raise core.ToolError("unexpected form of a model: %s" % json.dumps(model)[:400])
        if r.random() < .7:
            for i in {0, size - 1, r.randrange(size), r.randrange(size)} | {(f + d) % size for own in feats for f in own[:4] for d in (-1, 1, size // 2)}:
                if r.random() < .8:
                    start[i] = [[r.choice([0.25, -0.5, 1.5]), r.choice([0.0, 1.0, -2.0]), 3.0, r.choice([1.0, 2.0]), r.choice([0.0, 0.5]), r.choice([1.0, 4.0])]]
            red["reduction"]["weights"]["weights"] = {str(i): v for i, v in start.items()}
            ops += [{"op": "put", "slot": "s", "model": model}, {"op": "load", "ws": "w", "slot": "s", "fmt": "json"}]
        else:
            ops += [first[k]["ops"][0]]
        plan += [None] * len(ops)
        ops.append({"op": "dump", "ws": "w", "full": True})
        plan.append(("same",))
        for _ in range(r.randint(2, 6)):
            j = r.randrange(len(exs))
            if kind == "cb":
                spec, lab = exs[j], R.cb(R.label(r, exs[j]))
            else:
                spec, lab = {"simple": exs[j]}, {"binary": r.random() < .5} if kind == "binary" else {"simple": [r.choice([1.0, -1.0, 2.0, 0.0]), r.choice([1.0, 0.5, 0.0, 3.0])]}
            ops.append({"op": "feats", "f": "f", "seed": g["hashSeed"], "spec": spec})
            plan.append(None)
            what = r.choice(["learn", "learn", "ptl", "predict", "save"])
            if what == "save":
                fmt = r.choice(["bin", "json"])
                ops += [{"op": "save", "ws": "w", "slot": "t", "fmt": fmt}, {"op": "load", "ws": "w", "slot": "t", "fmt": fmt}]
                plan += [None, None]
            else:
                o = {"op": what, "ws": "w", "f": "f"}
                if what != "predict":
                    o["label"] = lab
                ops.append(o)
                plan.append(None)
            ops.append({"op": "dump", "ws": "w", "full": True})
            plan.append(("learn", feats[j]) if what in ("learn", "ptl") else ("same",))
        out.append({"id": len(out), "ops": ops, "plan": plan, "start": start, "stack": st, "g": g})
    return out


def learn_events(s, obs):
    tab = core.intern_table()

    def tok(v):
        v = [float(x) for m in v for x in m]
        return tab([x + 0.0 for x in v]) + 1 if any(v) else 0
    evs = [({"a": "config", "holds": [[i, tok(v)] for i, v in sorted(s["start"].items())]}, None)]
    last = None
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"config": {"globalConfig": s["g"], "entryReduction": s["stack"]}, "op": last, "observed": o if p is None else None}
        if any(k in o for k in ("panic", "err", "crash")):
            evs.append(({"a": "failed"}, where))
            break
        if p is None:
            last = op
            continue
        ws = R.inner(o["model"])["reduction"]["weights"]["weights"]
        holds = [[int(i), tok(v)] for i, v in ws.items()]
        where["weights now"] = sorted(int(i) for i in ws)
        if p[0] == "learn":
            where["the example's"] = p[1]
            evs.append(({"a": "learn", "features": p[1], "holds": holds}, where))
        else:
            evs.append(({"a": "same", "holds": holds}, where))
    return evs
