"""C09 Exploration always yields a valid distribution favouring the best action."""
import json
from vlib import core, exploremodel as X


def run(ctx):
    X.model(ctx, ctx.pick(1, 2))
    legs = [("law", X.law_sessions(ctx, ctx.pick(1500, 12000))), ("trained", X.trained_sessions(ctx, ctx.pick(800, 6000))),
            ("floor", X.floor_sessions(ctx, ctx.pick(60, 600), True))]
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        for name, ss in legs:
            obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
            evs = [X.law_events(s, obs[s["id"]]) for s in ss]
            X.validate(ctx, ss, evs, lambda s, w, e: "not a distribution over the actions favouring the best and exploring all [%s]: %s" % (
                prof, json.dumps({"config": w["config"], "scores": w.get("scores"), "observed": w["observed"], "op": w["op"]})[:900]), "-%s-%s" % (name, prof))
            ctx.extra["decisions_%s_%s" % (name, prof)] = sum(1 for ev in evs for e, _ in ev if e["a"] in ("law", "floor"))
            if name == "law":
                ctx.sample(evs[0][-1][0])
            if ctx.extra["decisions_%s_%s" % (name, prof)] < len(ss):
                raise core.ToolError("hardly anything decided: " + name)
