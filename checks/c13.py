"""C13 Interactions expand every feature combination exactly once."""
import json
from vlib import core, expandmodel as X


def run(ctx):
    X.model(ctx)
    ss = X.expand_sessions(ctx, ctx.pick(2000, 15000))
    twins = X.twin_sessions(ctx, ctx.pick(1500, 8000), core.harness("dev"))
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [X.expand_events(s, obs[s["id"]]) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "an example does not expand to each combination exactly once, or at changing weights [%s]: %s" % (
            prof, json.dumps(w)[:800]), "-e" + prof)
        ctx.sample({"inters": ss[0]["inter"], "event": evs[0][-1][0]})
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in twins])
        evs = [X.twin_events(s, obs[s["id"]]) for s in twins]
        X.validate(ctx, twins, evs, lambda s, w, e: "a model with interactions %s differs from one given the expansion [%s]: %s" % (
            json.dumps(s["inter"]), prof, json.dumps(w)[:800]), "-t" + prof)
    ctx.extra["twins"] = len(twins)
    if len(twins) < 100:
        raise core.ToolError("hardly any twins")


