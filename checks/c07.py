"""C07 A reduction stack is accepted exactly when its parts fit."""
import json
from vlib import core, configmodel as G, expandmodel as X, reducemodel as R

KINDS = {"Coin", "Unknown", "Binary", "CbMtr", "CbIps", "Greedy", "Softmax", "SquareCb", "Debug", "Elementwise"}
WELL = {"bare", "some", "all"}
GLOBALS = {"good", "bits", "interaction", "unknown", "type", "top"}
LAWS = ["Grammar", "Implied", "BadParts", "Depth", "Direct"]


def run(ctx):
    # the laws, over every order of layers
    r = core.tlc(ctx, "Stack", dict(Kinds=KINDS, WELL={"bare"}, ILL={"ill"}, GLOBALS={"good", "bad"}, MaxDepth=ctx.pick(5, 6), MaxIll=1),
                 invariants=LAWS, properties=["NoRescue", "Unwrapped"], timeout=2000)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Bottoms", "Wraps"] if r.coverage.get("Bottoms") else ["Bottom", "Wrap"])
    # every stack within smaller bounds, and every way to spoil one layer of it, for conformance
    todo = []
    for tag, kw in (("deep", dict(WELL={"bare"}, ILL=set(), GLOBALS={"good"}, MaxDepth=ctx.pick(5, 6), MaxIll=0)),
                    ("forms", dict(WELL=WELL, ILL=set(), GLOBALS={"good"}, MaxDepth=3, MaxIll=0)),
                    ("ill", dict(WELL={"some"}, ILL=set(G.ILL), GLOBALS=GLOBALS, MaxDepth=3, MaxIll=1))):
        r = core.tlc(ctx, "StackMC", dict(Kinds=KINDS, **kw), invariants=["Say"], timeout=1500, tag=tag)
        ctx.add_tlc(r)
        todo += [dict(x, tag=tag) for x in r.prints]
    ctx.extra["stacks"] = len(todo)
    todo += longer(ctx)
    ss = sessions(ctx, todo)
    for prof in ("dev", "rel"):
        obs = core.run_sessions(core.harness(prof), [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [events(s, obs[s["id"]]) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "a stack is not treated as its parts demand [%s]: %s" % (prof, json.dumps(w)[:900]), "-" + prof, "StackTrace")
        nests(ctx, core.harness(prof), prof)
        ctx.extra["accepted " + prof] = sum(1 for s in ss if "ok" in obs[s["id"]][0])
        if not ctx.violations and ctx.extra["accepted " + prof] < 500:
            raise core.ToolError("hardly any stack is accepted")
        ctx.sample([e for e, _ in evs[5]])


def longer(ctx):
    """Random long stacks, mostly well typed."""
    r = ctx.rng
    out = []
    for _ in range(ctx.pick(1500, 10000)):
        ups = [["Coin"], ["Coin"], ["Binary", "Coin"], ["CbMtr", "Coin"], ["CbIps", "Coin"]] + [[e, b, "Coin"] for e in ("Greedy", "Softmax", "SquareCb") for b in ("CbMtr", "CbIps")]
        core_ = list(r.choice(ups))
        if r.random() < .3 and len(core_) > 1:
            core_.pop()
        for _ in range(r.randint(1, 6)):
            core_.insert(r.randint(0, len(core_) if core_[-1] != "Coin" else len(core_) - 1), r.choice(["Debug", "Debug", "Elementwise"]))
        if core_[-1] == "Debug" and r.random() < .9:
            core_.append("Coin")
        if r.random() < .1:
            core_.insert(r.randint(0, len(core_) - 1), r.choice(["Binary", "CbMtr", "Greedy", "SquareCb"]))
        st = [[k, r.choice(["bare", "some", "all"])] for k in core_]
        if r.random() < .1:
            st[r.randrange(len(st))][1] = r.choice(G.ILL)
        out.append({"glob": "good", "stack": st, "tag": "long"})
    return out


def sessions(ctx, todo):
    r = ctx.rng
    out = []
    for k, t in enumerate(todo):
        bits = r.choice([1, 2, 5])
        cfg = G.overall(r, t["glob"], t["stack"], bits)
        top = t["stack"][0][0] if t["stack"] else ""
        how = r.choice(["config", "text"])
        ops = [{"op": "new", "ws": "w", **({"text": json.dumps(cfg)} if how == "text" else {"config": cfg})}]
        ex = R.example(r, bits, R.BASEVALS, maxact=4)
        simple = {"simple": R.part(r, bits, R.BASEVALS)}
        out.append({"id": k, "stack": t["stack"], "glob": t["glob"], "tag": t["tag"], "cfg": cfg, "ops": ops, "ex": ex, "simple": simple,
                    "lab": R.label(r, ex), "top": top})
    # a workspace that was made is used: what examples it takes is what it says itself
    hb = core.harness("dev")
    obs = core.run_sessions(hb, [{"id": s["id"], "ops": s["ops"]} for s in out])
    for s in out:
        o = obs[s["id"]][0]
        if "ok" not in o:
            continue
        s["declared"] = o["ok"]
        cb = o["ok"]["features"] == "SparseCBAdf"
        lab = R.cb(s["lab"]) if o["ok"]["label"] == "CB" else {"binary": True} if o["ok"]["label"] == "Binary" else {"simple": [1.0, 1.0]}
        s["n"] = len(s["ex"]["actions"]) if cb else 0
        s["ops"] = s["ops"] + [{"op": "feats", "f": "f", "spec": s["ex"] if cb else s["simple"], "seed": s["cfg"]["globalConfig"].get("hashSeed", 0)},
                               {"op": "predict", "ws": "w", "f": "f"}, {"op": "learn", "ws": "w", "f": "f", "label": lab},
                               {"op": "ptl", "ws": "w", "f": "f", "label": lab}, {"op": "predict", "ws": "w", "f": "f"}]
    return out


def events(s, obs):
    evs = [({"a": "config", "glob": s["glob"]}, None)]
    for k, f in reversed(s["stack"]):
        evs.append(({"a": "layer", "kind": k, "form": f}, None))
    where = {"config": s["cfg"], "layers": s["stack"], "global": s["glob"]}
    o = obs[0]
    w = dict(where, observed=o)
    if "ok" in o:
        t = o["ok"]
        ok = t["typename"] == G.NAME.get(s["top"]) and t["bits"] == s["cfg"]["globalConfig"]["numBits"] and t["seed"] == s["cfg"]["globalConfig"].get("hashSeed", 0)
        evs.append(({"a": "new", "ok": True, "label": t["label"], "features": t["features"], "prediction": t["prediction"] if ok else "?"}, w))
    elif "err" in o:
        evs.append(({"a": "new", "ok": False, "label": "", "features": "", "prediction": ""}, w))
    else:
        return evs + [({"a": "failed"}, w)]
    for op, o in zip(s["ops"][1:], obs[1:] + [obs[-1]] * (len(s["ops"]) - len(obs))):
        w = dict(where, op=op, observed=o)
        if any(x in o for x in ("panic", "err", "crash")):
            return evs + [({"a": "failed"}, w)]
        p = o
        if op["op"] in ("predict", "ptl"):
            v = p.get("v")
            evs.append(({"a": "predict", "kind": p["type"], "count": len(v) if v is not None else 0, "actions": s["n"],
                         "entries": v is None or sorted(i for i, _ in v) == list(range(len(v)))}, w))
        if op["op"] in ("learn", "ptl"):
            evs.append(({"a": "learn"}, w))
    return evs


def nests(ctx, hb, prof):
    """Debug upon debug, as deep as can be written: an answer, never a crash."""
    out = []
    for depth in (5, 20, 40, 60, 63, 64, 100, 127, 128, 500, 5000):
        t = '{"typename":"Coin"}'
        y = "typename: Coin"
        for _ in range(depth):
            t = '{"typename":"Debug","config":{"next":%s}}' % t
        txt = '{"globalConfig":{"numBits":2},"entryReduction":%s}' % t
        for how in ("text", "yaml"):
            out.append({"id": len(out), "depth": depth, "how": how, "ops": [{"op": "new", "ws": "w", how: txt}, {"op": "feats", "f": "f", "spec": {"simple": [["", [[1, 1.0]]]]}}]})
    obs = core.run_sessions(hb, [{"id": s["id"], "ops": s["ops"]} for s in out], fresh=True)
    for s in out:
        o = obs[s["id"]][0]
        if not ("ok" in o or ("err" in o and s["depth"] > 30)):
            ctx.violate("%d nested debug reductions (%s) [%s]: %s" % (s["depth"], s["how"], prof, json.dumps(o)[:300]), s)
    ctx.traces += len(out)
