"""C06 Examples are handed back exactly as they were."""
from vlib import wsmodel as W

ACTS = ("new", "make", "predict", "learn", "ptl", "show", "recycle")


def run(ctx):
    W.exhaustive(ctx, ACTS, MaxHist=1)
    n = ctx.pick(800, 1500)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2"), OBJ=("o1", "o2"), WS=("w1", "w2"), CFGS=("c1", "c2"),
                      MaxHist=8, MaxOps=ctx.pick(24, 32))
    items = []
    for i, b in enumerate(behs):
        kind = ctx.rng.choice(["simple", "binary", "cb", "cb", "cb"])
        uni = W.universe(ctx.rng, kind=kind, nex=2)
        uni2 = W.universe(ctx.rng, kind=kind, nex=2, bits=uni["bits"])
        uni2["config"]["globalConfig"]["hashSeed"] = uni["seed"]
        ok = ("ElementwiseInteraction" in str(uni["config"])) == ("ElementwiseInteraction" in str(uni2["config"]))

        def variant(c, k, a=uni["config"], b=uni2["config"]):
            return {"config": a, "d": "c1"} if c == "c1" else {"config": b, "d": "c2"}
        items.append(("b%d" % i, W.audit(b), uni) + ((variant,) if ok else ()))
    W.check_sessions(ctx, items, profiles=("dev", "rel"))
