"""C03 A model is a function of its configuration and learning history."""
from vlib import wsmodel as W

ACTS = ("new", "make", "recycle", "predict", "learn", "ptl", "dump", "save", "load")


def run(ctx):
    W.exhaustive(ctx, ("new", "make", "learn", "ptl", "predict", "dump"), CFGS=("c1", "c2"), MaxHist=2)
    n = ctx.pick(600, 1000)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2", "o3"), WS=("w1", "w2", "w3"), CFGS=("c1", "c2"),
                      SLOTS=("s1",), FMTS=("bin",), MaxHist=5, MaxOps=ctx.pick(28, 40), tag="gen")
    items = []
    for i, b in enumerate(behs):
        uni = W.universe(ctx.rng)
        # a second configuration that accepts the same examples and runs in the same process
        uni2 = dict(W.universe(ctx.rng, kind=uni["kind"], bits=uni["bits"]))
        uni2["config"]["globalConfig"]["hashSeed"] = uni["seed"]

        def variant(c, k, a=uni["config"], b=uni2["config"]):
            return {"config": a, "d": "c1"} if c == "c1" else {"config": b, "d": "c2"}
        if ("ElementwiseInteraction" in str(uni["config"])) != ("ElementwiseInteraction" in str(uni2["config"])):
            variant = None
        items.append(("b%d" % i, W.audit(b), uni) + ((variant,) if variant else ()))
    W.check_sessions(ctx, items, twins=True)
