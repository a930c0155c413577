"""C01 Predicting never changes the model."""
from vlib import core, wsmodel as W

ACTS = ("new", "make", "predict", "learn", "ptl", "dump", "save", "load")


def run(ctx):
    W.exhaustive(ctx, ACTS, MaxHist=2)
    n = ctx.pick(600, 1200)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2", "o3"), WS=("w1", "w2"), SLOTS=("s1",),
                      FMTS=("bin", "json"), MaxHist=5, MaxOps=ctx.pick(22, 30))
    items = []
    for i, b in enumerate(behs):
        uni = W.universe(ctx.rng)
        # many more predictions than TLC happened to choose: before every learning call of the
        # first handle only, so that the second route (audit) has none of them
        beh = []
        for op in b:
            if op["a"] in ("learn", "ptl", "save") and ctx.rng.random() < .5:
                obj = [o for o in ("o1", "o2", "o3") if any(x["a"] == "make" and x["o"] == o for x in beh)]
                for _ in range(ctx.rng.randint(1, 3)):
                    if obj:
                        beh.append({"a": "predict", "w": op["w"], "o": ctx.rng.choice(obj)})
            beh.append(op)
        items.append(("b%d" % i, W.audit(beh), uni))
    W.check_sessions(ctx, items, profiles=("dev", "rel"))
