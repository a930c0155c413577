"""C16 The debug reduction is transparent."""
import copy
from vlib import wsmodel as W

ACTS = ("new", "make", "predict", "learn", "ptl", "save", "load", "dump")


def insert_debug(rng, r, p):
    """A copy of a stack with the debug reduction put in front of reductions, at random places."""
    r = copy.deepcopy(r)
    cfg = r.get("config")
    if cfg:
        for k in ("regressor", "cbAdf"):
            if k in cfg:
                cfg[k] = insert_debug(rng, cfg[k], p)
    for _ in range(2):
        if rng.random() < p:
            c = {"next": r}
            if rng.random() < .7: c["id"] = rng.choice(["", "x", "probe"])
            for o in ("prediction", "label", "features"):
                if rng.random() < .3: c[o] = rng.random() < .5
            if rng.random() < .3: c["indent"] = rng.choice([0, 2])
            r = W.red("Debug", c)
    return r


def run(ctx):
    W.exhaustive(ctx, ACTS, MaxHist=2)
    n = ctx.pick(600, 1000)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2", "o3"), WS=("w1", "w2", "w3"), SLOTS=("s1",),
                      FMTS=("bin", "json"), MaxHist=5, MaxOps=ctx.pick(24, 32))
    items = []
    for i, b in enumerate(behs):
        uni = W.universe(ctx.rng)
        confs = [("plain", uni["config"])]
        for k in range(3):
            c = copy.deepcopy(uni["config"])
            c["entryReduction"] = insert_debug(ctx.rng, c["entryReduction"], 1.0 if k == 0 else .5)
            confs.append(("debug%d" % k, c))

        def variant(c, k, confs=confs, rng=ctx.rng):
            # workspaces of the behaviour take turns; the audit's last ones use them all
            d, conf = confs[k % len(confs)]
            return {"config": conf, "d": d}
        beh = W.audit(b)
        # the same history once more, under every variant
        beh = beh + W.audit(b)[len(b):]
        items.append(("b%d" % i, beh, uni, variant))
    W.check_sessions(ctx, items, profiles=("dev", "rel"))
