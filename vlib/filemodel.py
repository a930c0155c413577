"""Binding of spec/Files.tla: what commands leave in files, and what is made of files."""
from . import core, wsmodel as W

FILES = ("f1", "f2", "f3")


def exhaustive(ctx):
    r = core.tlc(ctx, "Files", dict(FILES={"f1", "f2"}, MODELS={"a", "b"}, SIZES={1, 2} if not ctx.thorough else {1, 2, 3},
                                    LIMITS={0, 1, 2} if not ctx.thorough else {0, 1, 2, 3}),
                 invariants=["TypeOK"], properties=["SuccessIsComplete", "FailureIsTold", "EnoughIsSuccess", "OnlyWholeModels"])
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Begin", "DoWrite", "End", "DoKill", "Damage", "Load"])


def check(ctx, events, owner, describe, limit=5):
    """Validates events, in groups that begin with a reset; owner: what each event came from."""
    start = bad = 0
    while start < len(events) and bad < limit:
        matched, r = core.validate_trace(ctx, "FilesTrace", events[start:], dict(FILES=set(FILES), MODELS={"a"}, SIZES={1}, LIMITS={0}),
                                         tag="-%d" % bad)
        if matched >= len(events) - start:
            break
        describe(events[start + matched], owner[start + matched])
        bad += 1
        j = start + matched + 1
        while j < len(events) and events[j]["a"] != "reset":
            j += 1
        start = j


def trained(ctx, n, bits=(1, 2, 3, 5)):
    """Stacks of all kinds, some of them taught; sessions (setup ops), models in both forms."""
    rng = ctx.rng
    sess = []
    for k in range(n):
        uni = W.universe(rng, bits=rng.choice(bits), debug=.1)
        ops = [{"op": "new", "ws": "w", "config": uni["config"]}]
        for i, x in enumerate(uni["examples"][:rng.choice([0, 1, 2, 3, 3])]):
            if "spec" in x:
                ops.append({"op": "feats", "f": "e%d" % i, "spec": x["spec"], "label": x["label"], "seed": uni["seed"]})
            else:
                ops.append({"op": "parse", "f": "e%d" % i, "fmt": x["fmt"], "text": x["text"], "seed": uni["seed"], "bits": uni["bits"],
                            "ftype": "SparseSimple", "ltype": "Simple"})
            ops.append({"op": rng.choice(["learn", "ptl"]), "ws": "w", "f": "e%d" % i, "label": x["label"]})
        ops.append({"op": "save", "ws": "w", "slot": "s", "fmt": "bin"})
        ops.append({"op": "save", "ws": "w", "slot": "s", "fmt": "json", "full": True})
        sess.append({"id": k, "ops": ops, "uni": uni})
    return sess
