"""C11 A bandit scores each action from that action and the shared context only."""
import json
from vlib import core, reducemodel as R, wsmodel as W


def run(ctx):
    R.model(ctx)
    ss = R.probe_sessions(ctx, ctx.pick(1500, 8000), 12, ["mtr", "ips"])
    real = real_sessions(ctx, ctx.pick(600, 4000))
    items = [(s["g"], d) for s in real for d in s["learned"]]
    free = dict(zip(range(len(items)), R.collision_free(core.harness("dev"), items)))
    n = 0
    for s in real:
        s["exact"] = all(free[n + j] for j in range(len(s["learned"])))
        n += len(s["learned"])
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = []
        for s in ss:
            ev = R.probe_events(s, obs[s["id"]])
            for e, _ in ev:
                if e["a"] == "learn":
                    e["seen"] = False
            evs.append(ev)
        R.validate(ctx, ss, evs, lambda s, w, e: "prediction on %s does not ask the regressor for each action with the shared features, in order, or does not return its raw predictions [%s]: %s" % (
            json.dumps(s["ops"][0]["config"]["entryReduction"]), prof, json.dumps(w)[:700]), "-p" + prof)
        ctx.sample({"ops": ss[0]["ops"][:6], "event": evs[0][-1][0]})
        robs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in real])
        evs = [real_events(s, robs[s["id"]]) for s in real]
        R.validate(ctx, real, evs, lambda s, w, e: "the score of an action is not that of the regressor, or depends on more than the action and the shared features [%s]: %s" % (
            prof, json.dumps(w)[:700]), "-r" + prof)
    ctx.extra["compared_with_bare_regressor"] = sum(1 for ev in evs for e, _ in ev if e["a"] == "same")
    if ctx.extra["compared_with_bare_regressor"] < 100:
        raise core.ToolError("hardly anything compared")


def real_sessions(ctx, n):
    """Trained stacks over the real regressor: every subset and order of the actions, and a bare twin."""
    r = ctx.rng
    out = []
    for k in range(n):
        algo = r.choice(["mtr", "ips"])
        bits = r.choice([4, 10, 14, 14])
        g = W.global_config(r, bits)
        coin = W.coin(r, plain=True)
        stack = R.base(r, algo, "none", coin)
        exs = [R.example(r, bits, R.BASEVALS, edges=r.random() < .2) for _ in range(4)]
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": stack}},
               {"op": "new", "ws": "b", "config": {"globalConfig": g, "entryReduction": coin}}]
        plan = [None, None]
        ev = ac = nf = 0
        learned = []
        for step in range(r.randint(1, 5)):
            i = r.randrange(len(exs))
            e, lab = exs[i], R.label(r, exs[i])
            ops += [{"op": "feats", "f": "l%d" % step, "spec": e}, {"op": "learn", "ws": "w", "f": "l%d" % step, "label": R.cb(lab)}]
            plan += [None, None]
            ev, ac = ev + 1, ac + len(e["actions"])
            for part, y, w in R.derived(algo, "none", e, lab, ev, ac):
                ops += [{"op": "feats", "f": "d%d" % nf, "spec": {"simple": part}}, {"op": "learn", "ws": "b", "f": "d%d" % nf, "label": {"simple": [y, w]}}]
                plan += [None, None]
                learned.append(part)
                nf += 1
            if step and r.random() < .5:
                continue
            for e in r.sample(exs, 2):
                variants = [list(range(len(e["actions"])))]
                variants.append(variants[0][::-1])
                variants += [[j] for j in variants[0]]
                v = r.sample(variants[0], r.randint(1, len(variants[0])))
                variants += [v, v + v]
                for v in variants:
                    ops += [{"op": "feats", "f": "v%d" % nf, "spec": {"shared": e["shared"], "actions": [e["actions"][j] for j in v]}},
                            {"op": "predict", "ws": "w", "f": "v%d" % nf}]
                    plan += [None, ("cb", step, e, v)]
                    nf += 1
                for j in variants[0]:
                    ops += [{"op": "feats", "f": "v%d" % nf, "spec": {"simple": R.merged(e, j)}}, {"op": "predict", "ws": "b", "f": "v%d" % nf}]
                    plan += [None, ("bare", step, e, j)]
                    nf += 1
        out.append({"id": k, "ops": ops, "plan": plan, "g": g, "learned": learned})
    return out


def real_events(s, obs):
    it, val = core.intern_table(), core.intern_table()
    evs = [({"a": "config", "algo": "mtr", "wrap": "none"}, None)]
    scores = {}
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o}
        if p is None:
            if "ok" not in o:
                evs.append(({"a": "same", "ok": False}, where))
            continue
        if p[0] == "cb":
            v = o.get("v", [])
            good = [a for a, _ in v] == list(range(len(p[3])))
            for j, x in zip(p[3], v):
                key = it([p[1], p[2]["shared"], p[2]["actions"][j]])
                evs.append(({"a": "value", "key": key, "val": val(x[1][0]), "ok": good}, where))
                scores[key] = x[1]
            if not good:
                evs.append(({"a": "same", "ok": False}, where))
        elif s["exact"]:
            key = it([p[1], p[2]["shared"], p[2]["actions"][p[3]]])
            a, b = core.fval(scores.get(key, [0, "NaN"])), core.fval(o.get("raw", [0, "NaN"]))
            where["score"] = a
            evs.append(({"a": "same", "ok": core.close(a, b, 2e-4, 2e-5) or (a != a and b != b)}, where))
    return evs
