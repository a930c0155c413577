"""C10 Exploration probabilities follow the configured strategy."""
import json
from vlib import core, exploremodel as X


def run(ctx):
    X.model(ctx, ctx.pick(2, 4))
    ss = X.grid_sessions(ctx, ctx.pick(1200, 10000))
    fl = X.floor_sessions(ctx, ctx.pick(60, 600), True)
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        for name, items, ev in (("grid", ss, X.grid_events), ("floor", fl, X.law_events)):
            obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in items])
            evs = [ev(s, obs[s["id"]]) for s in items]
            X.validate(ctx, items, evs, lambda s, w, e: "the probabilities are not those of the configured strategy [%s]: %s" % (
                prof, json.dumps({"config": w["config"], "plan": w["plan"], "observed": w["observed"], "op": w["op"]})[:900]), "-%s-%s" % (name, prof))
            ctx.sample(evs[0][-1][0])
    ctx.extra["decisions"] = sum(1 for s in ss for p in s["plan"] if p and p[0] == "decide")
    ctx.extra["longest_history"] = max(p[3] for s in ss for p in s["plan"] if p and p[0] == "decide")
