"""C02 Predict-then-learn is predict followed by learn."""
from vlib import wsmodel as W

ACTS = ("new", "make", "predict", "learn", "ptl", "dump")


def run(ctx):
    W.exhaustive(ctx, ACTS, MaxHist=2)
    n = ctx.pick(800, 1500)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2", "o3"), WS=("w1", "w2"),
                      MaxHist=6, MaxOps=ctx.pick(20, 30))
    items = []
    for i, b in enumerate(behs):
        # learning happens through predict-then-learn; the audit reaches the same histories with
        # separate predict and learn calls
        beh = [dict(op, a="ptl") if op["a"] == "learn" and ctx.rng.random() < .8 else op for op in b]
        items.append(("b%d" % i, W.audit(beh, before=True), W.universe(ctx.rng)))
    W.check_sessions(ctx, items, profiles=("dev", "rel"))
