"""Binding of spec/Expand.tla: what examples expand to, and twins given the expansion itself."""
import json
from . import core, reducemodel as R, wsmodel as W

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def model(ctx):
    r = core.tlc(ctx, "ExpandMC", dict(MaxWeights=ctx.pick(1, 12)), overrides=dict(EXS="MCExs", INTERS="MCInters"),
                 invariants=["Counted", "OrderFree", "Once", "Absent"], properties=["SameWeights"], timeout=2000)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Predict", "Learns"])


def inters(r, names=("", "a", "b", "c"), most=3):
    return [[r.choice(names) for _ in range(r.choice([2, 2, 3]))] for _ in range(r.randint(0, most))]


def config(inter):
    return [["Default" if n == "" else {"Name": n} for n in t] for t in inter]


def prime_example(r, bits, most=3):
    vals = PRIMES[:]
    r.shuffle(vals)
    pool = [r.randrange(1 << bits) for _ in range(6)] + [0, (1 << bits) - 1]
    ex = []
    for ns in r.sample(["", "a", "b", "c"], r.randint(1, 4)):
        k = min(r.choice([0, 1, 1, 2, 2, 3, most]), len(vals))
        ex.append([ns, [[r.choice(pool) if r.random() < .3 else r.randrange(1 << bits), vals.pop()] for _ in range(k)]])
    return ex


def expand_sessions(ctx, n):
    r = ctx.rng
    out = []
    for k in range(n):
        bits = r.choice([4, 10, 18, 18, 18])
        inter = inters(r)
        const = r.random() < .5
        seed = r.choice([0, 0, 1, 4294967295])
        ops, exs = [], []
        base = [prime_example(r, bits) for _ in range(3)]
        for e in base:
            variants = [e, [[ns, list(reversed(f))] for ns, f in e], r.sample(e, r.randint(1, len(e)))]
            for v in variants[:1] + r.sample(variants[1:], 1):
                ops.append({"op": "foreach", "spec": v, "seed": seed, "bits": bits, "constant": const,
                            "pairs": [t for t in inter if len(t) == 2], "triples": [t for t in inter if len(t) == 3]})
                exs.append(v)
        out.append({"id": k, "ops": ops, "exs": exs, "inter": inter, "const": const, "bits": bits})
    return out


def expand_events(s, obs):
    evs = [({"a": "config", "inters": s["inter"], "const": s["const"]}, None)]
    for op, e, o in zip(s["ops"], s["exs"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        ok = "predict" in o
        got = {k: [[i, int(core.fval(v)) if abs(core.fval(v)) < 2e9 else -1] for i, v in o.get(k, [])] for k in ("predict", "state", "update")}
        evs.append((dict({"a": "expand", "ok": ok, "ex": e, "wide": s["bits"] >= 18 and all(i for _, f in e for i, _ in f)}, **got), {"op": op, "observed": o}))
    return evs


def weights(m):
    """index -> state of the regressor at the bottom of a dumped model."""
    m = R.inner(m)
    if not m:
        return None
    return {int(i): json.dumps(v) for i, v in m["reduction"]["weights"]["weights"].items()}


def twin_sessions(ctx, n, binary):
    """Workspaces with interactions beside ones given the expansion, by (real) indices."""
    r = ctx.rng
    cand = []
    for k in range(n):
        bits = r.choice([12, 16, 18])
        inter = inters(r, names=("", "a", "b", "c"), most=3)
        g = {"numBits": bits, "constantFeatureEnabled": r.random() < .5, "interactions": config(inter)}
        if r.random() < .5:
            g["hashSeed"] = r.choice([0, 1, 7, 4294967295])
        exs = [R.part(r, bits, R.BASEVALS, 3, 3, edges=False) for _ in range(3)]
        cand.append((g, inter, exs))
    fe = core.run_sessions(binary, [{"id": k, "ops": [
        {"op": "foreach", "spec": e, "seed": g.get("hashSeed", 0), "bits": g["numBits"], "constant": g["constantFeatureEnabled"],
         "pairs": [t for t in inter if len(t) == 2], "triples": [t for t in inter if len(t) == 3]} for e in exs]}
        for k, (g, inter, exs) in enumerate(cand)])
    out = []
    for k, (g, inter, exs) in enumerate(cand):
        lists = [o.get("predict", []) for o in fe[k]]
        if any(len({i for i, _ in l}) != len(l) for l in lists):
            continue
        full = []
        for e, l in zip(exs, lists):
            own = sum(len(f) for _, f in e)
            full.append(e + [["zz", [[i, core.fval(v)] for i, v in l[own:]]]])
        kind = r.choice(["coin", "coin", "coin", "binary", "cb"])
        st = W.coin(r)
        if kind == "binary":
            st = W.red("Binary", {"regressor": st})
        if kind == "cb":
            st = W.red("CbAdf", {"regressor": st})
        st = W.dbg(r, st, .2)
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}},
               {"op": "new", "ws": "t", "config": {"globalConfig": {"numBits": g["numBits"], "constantFeatureEnabled": False}, "entryReduction": st}}]
        plan = [None, None]
        nf = 0

        def spec(e):
            return {"shared": None, "actions": [e]} if kind == "cb" else {"simple": e}
        for step in range(r.randint(1, 6)):
            i = r.randrange(len(exs))
            y = r.choice([1.0, -1.0, 0.5, 3.0])
            lab = {"binary": y > 0} if kind == "binary" else {"cb": [0, y, r.choice([.25, .5, 1.0])]} if kind == "cb" else {"simple": [y, r.choice([1.0, 0.5, 2.0])]}
            what = r.choice(["learn", "learn", "ptl"])
            ops += [{"op": "feats", "f": "f", "spec": spec(exs[i]), "seed": g.get("hashSeed", 0)}, {"op": what, "ws": "w", "f": "f", "label": lab},
                    {"op": "feats", "f": "f", "spec": spec(full[i])}, {"op": what, "ws": "t", "f": "f", "label": lab},
                    {"op": "dump", "ws": "w", "full": True}, {"op": "dump", "ws": "t", "full": True}]
            plan += [None, ("a", "learn"), None, ("b", "learn"), ("dump", "a"), ("dump", "b", sorted(set(x for x, _ in lists[i])), y != 0)]
            j = r.randrange(len(exs))
            ops += [{"op": "feats", "f": "f", "spec": spec(exs[j]), "seed": g.get("hashSeed", 0)}, {"op": "predict", "ws": "w", "f": "f"},
                    {"op": "feats", "f": "f", "spec": spec(full[j])}, {"op": "predict", "ws": "t", "f": "f"}]
            plan += [None, ("a", "predict"), None, ("b", "predict")]
        out.append({"id": len(out), "ops": ops, "plan": plan, "inter": inter})
    return out


def scalar(o):
    if "raw" in o:
        return [core.fval(o["raw"]), core.fval(o["prediction"])] if "prediction" in o else [core.fval(o["raw"])]
    if "v" in o:
        return [core.fval(x) for _, x in o["v"]]
    return None


def twin_events(s, obs):
    evs = [({"a": "config", "inters": s["inter"], "const": False}, None)]
    last, before = None, {}
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        where = {"op": op, "plan": p, "observed": o if op["op"] != "dump" else None}
        if p is None:
            if "ok" not in o:
                raise core.Refused(op, o)
        elif p[0] == "a":
            last = o
        elif p[0] == "b":
            where["with interactions"] = last
            if "panic" in o or "crash" in o or "err" in o or "panic" in last or "err" in last or "crash" in last:
                evs.append(({"a": "same", "ok": False}, where))
                continue
            x, y = scalar(last), scalar(o)
            if x is None:
                same = last.get("value") == o.get("value") or p[1] == "learn"
                if last.get("value") is not None and last.get("value") != o.get("value"):
                    continue    # the sign of a number rounding to zero
            else:
                same = len(x) == len(y) and all(core.close(a, b, 5e-4, 5e-5) for a, b in zip(x, y))
            evs.append(({"a": "same", "ok": same}, where))
        elif p[1] == "a":
            last = weights(o.get("model"))
        else:
            w = weights(o.get("model"))
            if w is None or last is None:
                raise core.Refused(op, o)
            where["with interactions"], where["given the expansion"] = sorted(last), sorted(w)
            evs.append(({"a": "same", "ok": sorted(last) == sorted(w)}, where))
            ch = [i for i in set(last) | set(before) if last.get(i) != before.get(i)]
            evs.append(({"a": "learned", "ok": True, "changed": sorted(ch), "expansion": p[2], "moved": False}, where))
            before = last
    return evs


def validate(ctx, sessions, events, describe, tag="", module="ExpandTrace"):
    flat, owner = [], []
    for s, evs in zip(sessions, events):
        for e, w in evs:
            flat.append(e)
            owner.append((s, w))
    start = bad = 0
    while start < len(flat) and bad < 3:
        matched, _ = core.validate_trace(ctx, module, flat[start:], tag="%s-%d" % (tag, bad))
        if matched >= len(flat) - start:
            break
        i = start + matched
        s, w = owner[i]
        ctx.violate(describe(s, w, flat[i]), {"where": w, "event": flat[i], "ops": s["ops"]})
        bad += 1
        j = i + 1
        while j < len(flat) and flat[j]["a"] != "config":
            j += 1
        start = j
    ctx.traces += len(sessions)
