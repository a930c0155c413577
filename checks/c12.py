"""C12 Bandit learning reduces to the documented regression examples."""
import json
from vlib import core, reducemodel as R, wsmodel as W


def run(ctx):
    R.model(ctx)
    ss = R.probe_sessions(ctx, ctx.pick(1500, 8000), 12, ["mtr", "ips"])
    ss += [dict(s, id=len(ss) + i) for i, s in enumerate(R.probe_sessions(ctx, ctx.pick(20, 150), 150, ["mtr"], maxact=12))]
    twins = twin_sessions(ctx, ctx.pick(500, 4000))
    items = [(s["g"], d) for s in twins for d in s["learned"]]
    free = R.collision_free(core.harness("dev"), items)
    n = 0
    for s in twins:
        s["exact"] = all(free[n:n + len(s["learned"])])
        n += len(s["learned"])
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = []
        for s in ss:
            evs.append([(e, w) for e, w in R.probe_events(s, obs[s["id"]]) if e["a"] in ("config", "learn")])
        R.validate(ctx, ss, evs, lambda s, w, e: "%s does not teach its regressor what it should [%s]: %s" % (
            json.dumps(s["ops"][0]["config"]["entryReduction"]), prof, json.dumps(w)[:700]), "-p" + prof)
        ctx.sample({"ops": ss[0]["ops"][:6], "event": evs[0][-1][0]})
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in twins])
        evs = [twin_events(s, obs[s["id"]]) for s in twins]
        R.validate(ctx, twins, evs, lambda s, w, e: "learning differs from that of the regressor on the derived examples, or from the bandit learner beneath the exploration [%s]: %s" % (
            prof, json.dumps(w)[:700]), "-t" + prof)
    ctx.extra["longest_history"] = max(sum(1 for o in s["ops"] if o["op"] in ("learn", "ptl")) for s in ss)
    ctx.extra["compared_with_bare_regressor"] = sum(1 for ev in evs for e, _ in ev if e["a"] == "same")
    ctx.extra["exact_sessions"] = sum(1 for s in twins if s["exact"])
    if ctx.extra["compared_with_bare_regressor"] < 100:
        raise core.ToolError("hardly anything compared")


def twin_sessions(ctx, n):
    """One history learned by every wrapper, by the plain bandit learner and (derived) by the bare regressor."""
    r = ctx.rng
    out = []
    for k in range(n):
        algo = r.choice(["mtr", "mtr", "ips"])
        g = W.global_config(r, r.choice([10, 14, 14, 16]))
        if r.random() < .3:
            g["interactions"] = [[{"Name": "a"}, {"Name": "a"}]] + ([[{"Name": "b"}, {"Name": "a"}, {"Name": "a"}]] if r.random() < .5 else [])
        coin = W.coin(r, plain=True)
        one = r.random() < .4      # probabilities of one: SquareCB learns the same
        wraps = ["none", "greedy", "softmax"] if algo == "ips" else ["none", "greedy", "softmax", "squarecb", "squarecb1"]
        ops, plan = [], []
        for w in wraps:
            s = R.base(r, algo, "none" if w == "squarecb1" else w, coin)
            ops.append({"op": "new", "ws": w, "config": {"globalConfig": g, "entryReduction": s}})
            plan.append(None)
        ops.append({"op": "new", "ws": "bare", "config": {"globalConfig": g, "entryReduction": coin}})
        plan.append(None)
        exs = [R.example(r, g["numBits"], R.BASEVALS, edges=r.random() < .15) for _ in range(4)]
        learned, ev, ac, nf = [], 0, 0, 0
        for step in range(r.randint(1, 6)):
            e = r.choice(exs)
            lab = R.label(r, e)
            for w in wraps:
                l = dict(lab, pn=1, pd=1) if w == "squarecb1" else lab
                # examples without a shared part mean the same with an empty one
                spec = e if e["shared"] or r.random() < .5 else dict(e, shared=r.choice([None, []]))
                ops += [{"op": "feats", "f": "f%d" % nf, "spec": spec}, {"op": r.choice(["learn", "ptl"]), "ws": w, "f": "f%d" % nf, "label": R.cb(l)},
                        {"op": "dump", "ws": w, "full": True}]
                plan += [None, None, ("dump", step, "mtr1" if w in ("squarecb", "squarecb1") else algo, w)]
                nf += 1
            ev, ac = ev + 1, ac + len(e["actions"])
            for p, y, w in R.derived(algo, "none", e, lab, ev, ac):
                ops += [{"op": "feats", "f": "f%d" % nf, "spec": {"simple": p}}, {"op": "learn", "ws": "bare", "f": "f%d" % nf, "label": {"simple": [y, w]}}]
                plan += [None, None]
                learned.append(p)
                nf += 1
            q, j = e, lab["a"]
            if r.random() < .4:
                q = r.choice(exs)
                j = r.randrange(len(q["actions"]))
            ops += [{"op": "feats", "f": "f%d" % nf, "spec": q}, {"op": "predict", "ws": "none", "f": "f%d" % nf},
                    {"op": "feats", "f": "g%d" % nf, "spec": {"simple": R.merged(q, j)}}, {"op": "predict", "ws": "bare", "f": "g%d" % nf}]
            plan += [None, ("score", j), None, ("bare", step)]
            nf += 1
        out.append({"id": k, "ops": ops, "plan": plan, "g": g, "learned": learned})
    return out


def twin_events(s, obs):
    it, val = core.intern_table(), core.intern_table()
    evs = [({"a": "config", "algo": "mtr", "wrap": "none"}, None)]
    score = float("nan")
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o}
        if p is None:
            if "ok" not in o and "type" not in o:
                evs.append(({"a": "same", "ok": False}, where))
        elif p[0] == "dump":
            ok = "model" in o
            evs.append(({"a": "value", "key": it([p[1], p[2]]), "val": val(R.inner(o["model"])) if ok else 0, "ok": ok}, {"op": op, "plan": p, "step": p[1]}))
        elif p[0] == "score":
            score = core.fval(o["v"][p[1]][1]) if "v" in o and len(o["v"]) > p[1] else float("nan")
        elif s["exact"]:
            b = core.fval(o.get("raw", [0, "NaN"]))
            where["score"] = score
            evs.append(({"a": "same", "ok": core.close(score, b, 5e-4, 5e-5) or (score != score and b != b)}, where))
    return evs
