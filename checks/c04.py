"""C04 Saving and loading a binary model loses nothing."""
from vlib import wsmodel as W

ACTS = ("new", "make", "predict", "learn", "ptl", "save", "load", "dump")


def weave(rng, b, fmts, p=.45):
    """Adds save/load pairs around the generated behaviour, so that every point of a history is a
    save point in some session."""
    out, live, k = [], [], 0
    for op in b:
        if op["a"] in ("learn", "ptl", "predict") and rng.random() < p:
            f, s = rng.choice(fmts), "sx%d" % (k % 2)
            k += 1
            out += [{"a": "save", "w": op["w"], "s": s, "f": f}, {"a": "load", "w": op["w"], "s": s, "f": f}]
        out.append(op)
    return out


def run(ctx, fmts=("bin",), profiles=("dev",), clidir=None, n=None):
    W.exhaustive(ctx, ACTS, FMTS=fmts[:2], MaxHist=2)
    n = n or ctx.pick(600, 1500)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2", "o3"), WS=("w1", "w2"), SLOTS=("s1", "s2"),
                      FMTS=fmts, MaxHist=5, MaxOps=ctx.pick(24, 32))
    items = []
    for i, b in enumerate(behs):
        uni = W.universe(ctx.rng, bits=ctx.rng.choice([None, None, None, 1, 2, 12]))
        items.append(("b%d" % i, W.audit(weave(ctx.rng, b, fmts)), uni))
    W.check_sessions(ctx, items, profiles=profiles, clidir=clidir, tag="-" + fmts[-1])
