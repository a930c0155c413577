"""C19 Recycled feature containers carry nothing over."""
from vlib import core, parsemodel as P, wsmodel as W

ACTS = ("new", "make", "recycle", "predict", "learn", "show", "dump")


def run(ctx):
    W.exhaustive(ctx, ("make", "recycle", "new", "learn", "predict", "show"), EX=("e1", "e2"), OBJ=("o1", "o2"),
                 WS=("w1",), MaxHist=1)
    nss = {"", "a", "b", "c"}
    gen = lambda kinds, tag, **kw: P.generate(ctx, ctx.pick(220, 900), kinds, NSS=nss, NAMES={"x", "y", "z"}, STRS={"red", "blue"},
                                              VALS={"1", "2", "-3.5", "0.25", "0"}, tag=tag, **kw)
    simple = [e for e in gen(("simple",), "s", MaxParts=1, MaxNs=4, MaxItems=5, depth=22)]
    cb = [e for e in gen(("cb",), "c", MaxParts=5, MaxNs=3, MaxItems=3)]
    n = ctx.pick(450, 1500)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3", "e4"), OBJ=("o1", "o2"), WS=("w1",), SLOTS=("s1",), MaxHist=6,
                      MaxOps=ctx.pick(30, 40))
    items = []
    for i, b in enumerate(behs):
        uni = W.universe(ctx.rng)
        kind = uni["kind"]
        exs = []
        for _ in range(4):
            e = ctx.rng.choice(cb if kind == "cb" else simple)
            r = ctx.rng.choice(e["r"])
            if kind == "cb":
                lab = {"cb": [ctx.rng.randrange(len(e["m"]["actions"])), ctx.rng.choice(W.COSTS), ctx.rng.choice(W.PROBS)]}
            elif kind == "binary":
                lab = {"binary": ctx.rng.random() < .5}
            else:
                lab = {"simple": [ctx.rng.choice(W.LABELS), ctx.rng.choice(W.WEIGHTS)]}
            # binary stacks: no parser offers their labels, so those examples come unlabelled
            ft, lt = P.ftypes("cb" if kind == "cb" else "simple")
            if "interactions" not in uni["config"]["globalConfig"] and ctx.rng.random() < .12:
                r = big(ctx.rng, len(e["m"]["actions"]) if kind == "cb" else 0)
            exs.append({"fmt": r["f"], "text": r["text"], "label": lab, "ftype": ft, "ltype": lt})
        uni["examples"] = exs
        if "ElementwiseInteraction" in str(uni["config"]):
            # positional features only where the interaction looks for them
            for x in exs:
                x.update(fmt="json", text=W.rand_positional(ctx.rng, False)["text"])
        fresh, used = dict(uni), dict(uni)
        used["pool"] = "p"
        # the objects of a behaviour are recycled more often than TLC happened to choose
        items.append(("b%d" % i, W.audit(more(ctx.rng, b)), [fresh, used]))
    W.check_sessions(ctx, items, profiles=("dev", "rel"))


def big(rng, n):
    """An example with many features in a namespace, or many namespaces; n actions if not 0."""
    def line():
        if rng.random() < .5:
            return " ".join("|%s%d x:%s" % (rng.choice("abn"), i, rng.choice(["2", "-3.5", "0.25"])) for i in range(rng.randint(20, 60)))
        return "|%s %s" % (rng.choice("abc"), " ".join("f%d:%s" % (i, rng.choice(["2", "-3.5", "0.25"])) for i in range(rng.choice([33, 70, 150, 600]))))
    if not n:
        return {"f": "vw", "text": "1 " + line()}
    lines = [line() if rng.random() < .4 else "|a x" for _ in range(n)]
    lines[rng.randrange(n)] = line()
    return {"f": "vw", "text": "\n".join(["shared " + line()] * (rng.random() < .5) + lines)}


def more(rng, beh):
    """Recycles every object shortly before its example is needed again; later operations on it are
    preceded by another parse of the same example (the specification allows both)."""
    out, live = [], {}
    for op in beh:
        if op["a"] == "make":
            live[op["o"]] = op["e"]
        elif op["a"] == "recycle":
            live.pop(op["o"], None)
        elif op["a"] in ("predict", "learn") and rng.random() < .4:
            o = op["o"]
            os = [x for x in live if x != o and rng.random() < .5]
            for x in [o] + os:
                out.append({"a": "recycle", "o": x})
            for x in rng.sample([o] + os, len(os) + 1):
                out.append({"a": "make", "o": x, "e": live[x]})
        out.append(op)
    return out
