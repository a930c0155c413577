"""C15 Binary classification reduces to signed regression."""
import json
from vlib import core, reducemodel as R, wsmodel as W


def run(ctx):
    R.model(ctx)
    ss = R.probe_sessions(ctx, ctx.pick(1200, 6000), 12, ["binary"])
    twins = twin_sessions(ctx, ctx.pick(500, 4000))
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [R.probe_events(s, obs[s["id"]]) for s in ss]
        R.validate(ctx, ss, evs, lambda s, w, e: "%s does not reduce to signed regression [%s]: %s" % (
            json.dumps(s["ops"][0]["config"]["entryReduction"]), prof, json.dumps(w)[:700]), "-p" + prof)
        ctx.sample({"ops": ss[0]["ops"][:6], "event": evs[0][-1][0]})
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in twins])
        evs = [twin_events(s, obs[s["id"]]) for s in twins]
        R.validate(ctx, twins, evs, lambda s, w, e: "a binary stack differs from its regressor taught +1 and -1 [%s]: %s" % (prof, json.dumps(w)[:700]), "-t" + prof)
    ctx.extra["binary_predictions"] = n = sum(1 for ev in evs for e, _ in ev if e["a"] == "binary")
    pos = sum(1 for ev in evs for e, _ in ev if e["a"] == "binary" and e["sign"] > 0)
    ctx.extra["positive"] = pos
    if n < 100 or pos < n // 20 or pos > n - n // 20:
        raise core.ToolError("one-sided predictions")


def twin_sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        g = W.global_config(r, r.choice([4, 8, 12]))
        reg, kind = W.simple_stack(r)
        bits = g["numBits"]
        mk = (lambda: W.rand_positional(r)) if kind == "elementwise" else (lambda: {"spec": {"simple": W.rand_sparse(r, bits)}})
        exs = [mk() for _ in range(4)]
        ops = [{"op": "new", "ws": "bin", "config": {"globalConfig": g, "entryReduction": W.dbg(r, W.red("Binary", {"regressor": reg}), .1)}},
               {"op": "new", "ws": "reg", "config": {"globalConfig": g, "entryReduction": reg}}]
        plan = [None, None]
        nf = 0

        def make(e):
            nonlocal nf
            for w in ("bin", "reg"):
                if "spec" in e:
                    ops.append({"op": "feats", "f": "%s%d" % (w, nf), "spec": e["spec"], "seed": g.get("hashSeed", 0)})
                else:
                    ops.append({"op": "parse", "f": "%s%d" % (w, nf), "fmt": "json", "text": e["text"], "ftype": "SparseSimple", "ltype": "Simple",
                                "seed": g.get("hashSeed", 0), "bits": bits})
                plan.append(None)
            nf += 1
            return nf - 1

        for step in range(r.randint(1, 12)):
            i = make(r.choice(exs))
            what = r.choice(["predict", "learn", "ptl", "ptl"])
            y = r.random() < .5
            a = {"op": what, "ws": "bin", "f": "bin%d" % i}
            b = {"op": what, "ws": "reg", "f": "reg%d" % i}
            if what != "predict":
                a["label"], b["label"] = {"binary": y}, {"simple": [1.0 if y else -1.0, 1.0]}
            # the regressor first: its prediction is what the binary answer must follow
            ops += [b, a]
            plan += [("reg", what), ("bin", what)]
            if what != "predict" and r.random() < .5:
                ops += [{"op": "dump", "ws": w, "full": True} for w in ("bin", "reg")]
                plan += [("dump", step), ("dump", step)]
        out.append({"id": k, "ops": ops, "plan": plan})
    return out


def twin_events(s, obs):
    it, val = core.intern_table(), core.intern_table()
    evs = [({"a": "config", "algo": "binary", "wrap": "none"}, None)]
    sign = 0
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o}
        if p is None:
            if "ok" not in o and "features" not in o:
                raise core.Refused(op, o)
        elif p[0] == "dump":
            ok = "model" in o
            evs.append(({"a": "value", "key": it(p[1]), "val": val(R.inner(o["model"])) if ok else 0, "ok": ok}, {"op": op, "plan": p}))
        elif p[1] == "learn":
            evs.append(({"a": "same", "ok": "ok" in o}, where))
        elif p[0] == "reg":
            x = core.fval(o["prediction"]) if o.get("type") == "Scalar" else float("nan")
            sign = (x > 0) - (x < 0)
            where0 = where
        else:
            evs.append(({"a": "binary", "sign": sign, "ok": o.get("type") == "Binary", "got": bool(o.get("value"))}, dict(where, regressor=where0["observed"])))
    return evs
