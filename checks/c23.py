"""C23 Scalar predictions stay finite and within the labels seen."""
import json, math, struct
from vlib import core, coinmodel as C, expandmodel as X, wsmodel as W

LABELS = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 10.0, 1e-3, -1e-3, 1e5, -1e5, 3.4e38, -3.4e38, 1e-40, 1e20, -1e10, 0.1]
MILD = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 10.0, 0.1]
VALS = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 100.0, 1e-3, -7.0, 0.1]
WILD = [1e-20, 1e-38, 1e-45, 1e-30, -1e-25, 1e10, 1e20, -1e30, 3.4e38, -3.4e38, 1e38, 1e15, 1e-10]
WTS = [0.0, 1.0, 0.5, 2.0, 1e-6, 100.0]
WWILD = [1e10, 1e30, 3.4e38, 1e-38, 1e-45]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def run(ctx):
    r = core.tlc(ctx, "LabelRange", dict(N=5, Zero=2, MaxOps=ctx.pick(5, 6)), invariants=["Bounds", "Untaught"], properties=["InRange", "Widens"], timeout=1500)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Learns", "Predicts", "Saves", "Loads"])
    ss = sessions(ctx, ctx.pick(1500, 20000))
    # and histories of the rule itself, which predicts within the range at every step
    traces = C.simulate(ctx, ctx.pick(10, 100), 20, tag="s")
    ctx.extra["simulated"] = len(traces)
    for prof in ("dev", "rel"):
        obs = core.run_sessions(core.harness(prof), [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [events(s, obs[s["id"]]) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "a prediction is not finite or not within the labels seen [%s]: %s" % (prof, json.dumps(w)[:900]), "-" + prof, "LabelRangeTrace")
        ctx.sample(evs[0][:12])


def sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        wild = r.random() < .5
        labels = r.sample(LABELS if wild else MILD, r.randint(1, 4))
        vals = VALS + (WILD if wild else [])
        wts = WTS + (WWILD if wild and r.random() < .5 else [])
        bits = r.choice([2, 4, 8, 12])
        c = {}
        if r.random() < .4:
            c["alpha"] = r.choice([0.1, 1, 4, 100])
        if r.random() < .4:
            c["beta"] = r.choice([0.01, 1, 50])
        if r.random() < .3:
            c["linkFunction"] = "Logistic"
        st = W.dbg(r, W.red("Coin", c), .1)
        if r.random() < .2:
            st = W.red("ElementwiseInteraction", {"regressor": st, "one": {"Name": "a"}, "two": {"Name": "b"}, "keepOriginalFeatures": r.random() < .5})
        g = {"numBits": bits, "constantFeatureEnabled": r.random() < .5, "interactions": X.config(X.inters(r, most=2))}
        exs = [[[ns, [[r.randrange(1 << bits), r.choice(vals)] for _ in range(r.randint(0, 3))]] for ns in r.sample(["", "a", "b", "c"], r.randint(1, 3))]
               for _ in range(3)]
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}}]
        plan = [None]
        saved = None
        for _ in range(r.randint(4, 25)):
            what = r.choice(["learn", "learn", "ptl", "predict", "predict", "save", "load"])
            if what in ("learn", "ptl", "predict"):
                ops.append({"op": "feats", "f": "f", "spec": {"simple": r.choice(exs)}})
                plan.append(None)
                o = {"op": what, "ws": "w", "f": "f"}
                if what != "predict":
                    y = r.choice(labels)
                    o["label"] = {"simple": [y, r.choice(wts)]}
                    plan.append((what, f32(y)))
                else:
                    plan.append((what,))
                ops.append(o)
                if what != "predict" and r.random() < .5:
                    ops.append({"op": "predict", "ws": "w", "f": "f"})
                    plan.append(("predict",))
            elif what == "save":
                fmt = "bin" if wild or r.random() < .5 else "json"
                ops.append({"op": "save", "ws": "w", "slot": "s", "fmt": fmt})
                plan.append(("save",))
                saved = fmt
            elif saved:
                ops.append({"op": "load", "ws": "w", "slot": "s", "fmt": saved})
                plan.append(("load",))
        ops.append({"op": "predict", "ws": "w", "f": "f"} if any(o["op"] == "feats" for o in ops) else ops[0])
        plan.append(("predict",) if ops[-1]["op"] == "predict" else None)
        grid = sorted({f32(y) for y in labels} | {0.0})
        out.append({"id": k, "ops": ops, "plan": plan, "grid": grid, "link": c.get("linkFunction", "Identity").lower()})
    return out


def events(s, obs):
    grid = s["grid"]
    evs = [({"a": "config", "link": s["link"], "zero": grid.index(0.0)}, None)]
    hist = []
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"config": s["ops"][0]["config"], "op": op, "observed": o, "labels so far": list(hist)}
        if any(k in o for k in ("panic", "err", "crash")):
            evs.append(({"a": "failed"}, where))
            break
        if p is None:
            continue
        if p[0] in ("predict", "ptl"):
            v = core.fval(o["prediction"])
            fin = isinstance(v, float) and math.isfinite(v)
            evs.append(({"a": "predict", "finite": fin, "floor": max([i for i, y in enumerate(grid) if fin and y <= v], default=-1),
                         "ceil": min([i for i, y in enumerate(grid) if fin and y >= v], default=len(grid)), "unit": fin and 0 <= v <= 1}, where))
        if p[0] in ("learn", "ptl"):
            hist.append(p[1])
            evs.append(({"a": "learn", "y": grid.index(p[1])}, where))
        elif p[0] in ("save", "load"):
            evs.append(({"a": p[0]}, where))
    return evs
