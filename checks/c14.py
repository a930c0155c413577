"""C14 Elementwise interaction multiplies matching features."""
import json
from vlib import core, expandmodel as X, reducemodel as R, wsmodel as W

NAMES = ["a", "b", "c", "e\u00e9 "]


def run(ctx):
    r = core.tlc(ctx, "Elementwise", dict(NAMES={"a", "b", "c"}, POS=set(range(2)), VALS=ctx.pick({2, 3}, {2, 3, 5}), MaxOps=2),
                 invariants=["Laws"], properties=["Untouched", "Stable"], timeout=1500)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Uses"])
    hb = core.harness("dev")
    ss = sessions(ctx, hb, ctx.pick(1500, 12000))
    for prof in ("dev", "rel"):
        b = core.harness(prof)
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in ss])
        evs = [events(s, obs[s["id"]]) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "the regressor beneath an elementwise interaction is not given the products, or the example is changed [%s]: %s" % (
            prof, json.dumps(w)[:900]), "-u" + prof, "ElementwiseTrace")
        ctx.sample(evs[0][-1][0])
        twins = twin_sessions(ctx, ss, evs) if prof == "dev" else twins
        obs = core.run_sessions(b, [{"id": s["id"], "ops": s["ops"]} for s in twins])
        evs = [twin_events(s, obs[s["id"]]) for s in twins]
        X.validate(ctx, twins, evs, lambda s, w, e: "an elementwise interaction over the regressor differs from the regressor given the products [%s]: %s" % (
            prof, json.dumps(w)[:900]), "-t" + prof, "ElementwiseTrace")
    ctx.extra["twins"] = len(twins)
    if len(twins) < 100:
        raise core.ToolError("hardly any twins")


def bases(hb, combos):
    """Index of position 0 of every namespace, from parsing it."""
    out = {}
    obs = core.run_sessions(hb, [{"id": i, "ops": [{"op": "parse", "fmt": "json", "text": json.dumps({"features": {n: [1.0]}}), "ftype": "SparseSimple", "ltype": "Simple",
                                                     "seed": s, "bits": b, "f": "f"}]} for i, (n, s, b) in enumerate(combos)])
    for i, c in enumerate(combos):
        if "features" not in obs[i][0]: raise core.Refused(c, obs[i])
        f = obs[i][0]["features"]["simple"]
        out[c] = (f[0][0], f[0][1][0][0])
    return out


def sessions(ctx, hb, n):
    r = ctx.rng
    combos = [(nm, s, b) for nm in NAMES for s in (0, 1, 77, 4294967295) for b in (3, 8, 14, 18)]
    base = bases(hb, combos)
    # pairs whose product of hashes, and so the namespace of the products, is special
    out = []
    for k in range(n):
        seed, bits = r.choice([0, 0, 1, 77, 4294967295]), r.choice([3, 8, 14, 14, 18])
        names = r.sample(NAMES, 3) + [""]
        one, two = r.choice(names), r.choice(names)
        keep = r.random() < .5
        d = {nm: base[(nm, seed, bits)] if nm else ("default", 0) for nm in names}
        if len({x[0] for x in d.values()}) < 4:
            continue
        cfg = {"regressor": W.dbg(r, W.red("Coin"), .1), "one": {"Name": one} if one else "Default", "two": {"Name": two} if two else "Default"}
        if keep or r.random() < .5:
            cfg["keepOriginalFeatures"] = keep
        if not one and r.random() < .5:
            del cfg["one"]
        if not two and r.random() < .5:
            del cfg["two"]
        binary = r.random() < .2
        st = W.dbg(r, W.red("ElementwiseInteraction", cfg), .1)
        if binary:
            st = W.red("Binary", {"regressor": st})
        g = {"numBits": bits, "hashSeed": seed}
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}}, {"op": "probe", "ws": "w", "probe": "p"},
               {"op": "script", "probe": "p", "scalars": [0.5]}]
        plan = [None] * 3
        most = min(6, 1 << bits)
        for step in range(r.randint(2, 5)):
            vals = X.PRIMES[:]
            r.shuffle(vals)
            ex = []
            for nm in r.sample(names, r.choice([1, 2, 3, 4, 4])):
                if nm in (one, two) and r.random() < .1:
                    pos = []
                else:
                    top = r.choice([most, most, 1 << bits])
                    pos = sorted(r.sample(range(top), r.randint(1, min(most, 4))))
                ex.append([nm, [[p, vals[i % len(vals)] if r.random() < .8 else r.choice(vals)] for i, p in enumerate(pos)]])
                r.shuffle(vals)
            dense = [x for x in ex if [p for p, _ in x[1]] == list(range(len(x[1]))) and x[0]]
            if len(dense) == len(ex) and r.random() < .7:
                items = [[x[0], [float(v) for _, v in x[1]]] for x in ex]
                mk = [{"op": "parse", "fmt": "json", "text": json.dumps({"features": dict(items)}), "ftype": "SparseSimple", "ltype": "Simple", "seed": seed, "bits": bits, "f": "f"}]
            else:
                mk = [{"op": "feats", "f": "f", "seed": seed, "spec": {"simple": [[nm, [[(d[nm][1] + p) % (1 << bits), float(v)] for p, v in fs]] for nm, fs in ex]}}]
            ops += mk + [{"op": "show", "f": "f"}]
            plan += [None, ("show",)]
            for _ in range(r.choice([1, 1, 2])):
                what = r.choice(["predict", "learn", "ptl"])
                o = {"op": what, "ws": "w", "f": "f"}
                if what != "predict":
                    o["label"] = {"binary": True} if binary else {"simple": [1.0, 1.0]}
                ops += [o, {"op": "calls", "probe": "p"}, {"op": "show", "f": "f"}]
                plan += [("did",), ("use", ex, what), ("after",)]
        out.append({"id": len(out), "ops": ops, "plan": plan, "d": d, "one": one, "two": two, "keep": keep, "g": g, "stack": st, "binary": binary})
    return out


def events(s, obs):
    back = {v[0]: k for k, v in s["d"].items()}
    size = 1 << s["g"]["numBits"]
    evs = [({"a": "config", "one": s["one"], "two": s["two"], "keep": s["keep"], "size": size}, None)]
    s["given"] = []
    shown = did = use = None
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        if p is None:
            if "err" in o or "panic" in o or "crash" in o:
                raise core.Refused(op, o)
        elif p[0] == "show":
            shown = o
        elif p[0] == "did":
            did = o
        elif p[0] == "use":
            use = (p, o)
        else:
            (_, ex, what), c = use
            bad = any(k in x for x in (did, c) for k in ("panic", "err", "crash")) or not c.get("calls")
            for call in c.get("calls", []) or [None]:
                where = {"config": s["stack"], "op": what, "example": ex, "observed": did, "before": shown, "after": o, "regressor was given": call and call["features"]}
                got = []
                for it in (call or {"features": {}})["features"].get("simple", []):
                    nm = back.get(it[0], "*")
                    got.append([nm, [[i, int(core.fval(v))] for i, v in it[1]]] if len(it) == 2 or nm == "*" else ["?", []])
                if call:
                    # (whether look-ups by name see the namespace of the products does not matter: it has no name)
                    s["given"].append((ex, what, [i[:2] if i[0] not in back else i for i in call["features"].get("simple", [])]))
                evs.append(({"a": "use", "ok": not bad, "ex": ex, "got": got, "base": {k: v[1] for k, v in s["d"].items()},
                             "intact": [i for i in o.get("features", {}).get("simple", [0]) if i[1]] == [i for i in shown["features"]["simple"] if i[1]]}, where))
    return evs


def twin_sessions(ctx, ss, evs):
    """The real regressor with the interaction, beside one given what the probe saw (by raw index)."""
    r = ctx.rng
    cand = []
    for s in ss:
        exs = []
        for ex, what, got in s["given"]:
            if got and not any(e is ex for e, _ in exs) and all(len(i) == 2 for i in got):
                exs.append((ex, [["t%d" % n, [[i, core.fval(v) / 16] for i, v in it[1]]] for n, it in enumerate(got)]))
        if exs and s["g"]["numBits"] >= 8:
            cand.append((s, exs))
    items = [({"numBits": s["g"]["numBits"]}, t) for s, exs in cand for _, t in exs]
    free = R.collision_free(core.harness("dev"), items)
    out, n = [], 0
    for s, exs in cand:
        ok = all(free[n:n + len(exs)])
        n += len(exs)
        if not ok:
            continue
        c = W.coin(r)
        const = r.random() < .5
        st = W.red("ElementwiseInteraction", {"regressor": c, "one": {"Name": s["one"]} if s["one"] else "Default", "two": {"Name": s["two"]} if s["two"] else "Default",
                                              "keepOriginalFeatures": s["keep"]})
        tw = c
        if s["binary"]:
            st, tw = W.red("Binary", {"regressor": st}), W.red("Binary", {"regressor": tw})
        g = dict(s["g"], constantFeatureEnabled=const)
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": st}}, {"op": "new", "ws": "t", "config": {"globalConfig": g, "entryReduction": tw}}]
        plan = [None, None]
        size = 1 << g["numBits"]

        # values are scaled down: a product is scaled twice
        def orig(ex):
            return [[nm, [[(s["d"][nm][1] + p) % size, v / 16] for p, v in fs]] for nm, fs in ex]

        def twin(ex, t):
            names = {s["d"][nm][0] for nm, _ in ex}
            return [[nm, [[i, v if it[0] in names else v / 16] for i, v in fs]] for (nm, fs), it in zip(t, raw[id(ex)])]
        raw = {id(ex): got for ex, _, got in s["given"]}
        for step in range(r.randint(2, 6)):
            ex, t = r.choice(exs)
            y = r.choice([1.0, -1.0, 0.5])
            lab = {"binary": y > 0} if s["binary"] else {"simple": [y, r.choice([1.0, 0.5, 2.0])]}
            what = r.choice(["learn", "ptl"])
            ops += [{"op": "feats", "f": "f", "seed": g["hashSeed"], "spec": {"simple": orig(ex)}}, {"op": what, "ws": "w", "f": "f", "label": lab},
                    {"op": "feats", "f": "f", "spec": {"simple": twin(ex, t)}}, {"op": what, "ws": "t", "f": "f", "label": lab}]
            plan += [None, ("a",), None, ("b",)]
            ex, t = r.choice(exs)
            ops += [{"op": "feats", "f": "f", "seed": g["hashSeed"], "spec": {"simple": orig(ex)}}, {"op": "predict", "ws": "w", "f": "f"},
                    {"op": "feats", "f": "f", "spec": {"simple": twin(ex, t)}}, {"op": "predict", "ws": "t", "f": "f"}]
            plan += [None, ("a",), None, ("b",)]
        out.append({"id": len(out), "ops": ops, "plan": plan})
    return out


def twin_events(s, obs):
    evs = [({"a": "config", "one": "", "two": "", "keep": False, "size": 1}, None)]
    last = None
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        if p is None:
            if "ok" not in o:
                raise core.Refused(op, o)
        elif p[0] == "a":
            last = o
        else:
            bad = any(k in x for x in (o, last) for k in ("panic", "err", "crash"))
            x, y = X.scalar(last), X.scalar(o)
            same = x is None and y is None or x is not None and y is not None and all(core.close(a, b, 5e-4, 5e-5) for a, b in zip(x, y))
            evs.append(({"a": "same", "ok": not bad and same}, {"config": s["ops"][0]["config"], "op": op, "with interaction": last, "given the products": o}))
    return evs
