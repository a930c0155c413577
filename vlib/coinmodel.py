"""Binding of spec/coin.qnt: simulated histories of the coin-betting rule, replayed into the real regressor."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from . import core, expandmodel as X, reducemodel as R, wsmodel as W

INVS = ["inRange", "solvent", "sums", "magnitudes", "idle", "grows", "free", "local", "mirror", "scaleFree"]
WITNESSES = ["clamped", "wonLots", "lost", "above", "firstFree", "interacted"]
ONE = 10 ** 60
NS = ["a", "b", "c"]
ST = ["xt", "zt", "g2", "mx", "we", "mg"]


def itf(x):
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#map" in x:
            return {itf(k): itf(v) for k, v in x["#map"]}
        if "#set" in x or "#tup" in x:
            return [itf(v) for v in x.get("#set", x.get("#tup"))]
        return {k: itf(v) for k, v in x.items() if k != "#meta"}
    if isinstance(x, list):
        return [itf(v) for v in x]
    return x


def simulate(ctx, samples, steps, jobs=8, tag="", traces=None, need=True):
    """Runs the simulator in parallel; the invariants are checked on every sample.  Returns the traces."""
    r = ctx.rng
    seeds = [r.randrange(1 << 40) for _ in range(jobs)]

    def one(k):
        out = os.path.join(ctx.work, "t%s%d_{seq}.itf.json" % (tag, k))
        p = core.quint(ctx, ["run", os.path.join(core.SPEC, "coin.qnt"), "--max-samples", str(samples), "--max-steps", str(steps),
                             "--n-traces", str(traces or samples), "--out-itf", out, "--seed", str(seeds[k]), "--verbosity", "1", "--n-threads", "1",
                             "--invariants"] + INVS + ["--witnesses"] + WITNESSES, timeout=1500, check=False)
        if p.returncode != 0 or "No violation found" not in p.stdout:
            raise core.ToolError("coin.qnt: %s\n%s" % (p.stdout[-3000:], p.stderr[-2000:]))
        seen = {}
        for line in p.stdout.splitlines():
            for w in WITNESSES:
                if line.startswith(w + " was witnessed in"):
                    seen[w] = int(line.split()[4])
        res = []
        for i in range(traces or samples):
            f = out.replace("{seq}", str(i))
            if os.path.exists(f):
                with open(f) as fh:
                    t = json.load(fh)
                res.append([{k.split("::")[-1]: itf(v) for k, v in s.items() if k != "#meta"} for s in t["states"]])
                os.remove(f)
        return seen, res
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, range(jobs)))
    tot = {w: sum(s.get(w, 0) for s, _ in rs) for w in WITNESSES}
    traces = [t for _, ts in rs for t in ts]
    for t in traces:
        ctx.states += len(t)
        ctx.transitions += len(t) - 1
    for w, n in tot.items():
        ctx.actions["witness:" + w] = ctx.actions.get("witness:" + w, 0) + n
        if need and not n:
            raise core.ToolError("vacuous: %s never witnessed" % w)
    if not traces:
        raise core.ToolError("no traces")
    return traces


def code(ids):
    n = 0
    for i in ids:
        n = 10 * n + i
    return n + (100 if len(ids) == 2 else 1000)


def place(ctx, binary, traces):
    """Real indices for the features of each trace, and of their products and the constant: {id: index}."""
    r = ctx.rng
    todo, out = list(range(len(traces))), {}
    prim = dict(zip(range(6), [2, 3, 5, 7, 11, 13]))
    for _ in range(30):
        sess, plans = [], []
        for k in todo:
            c = traces[k][0]["conf"]
            bits = r.choice([8, 12, 16])
            seed = r.choice([0, 0, 7, 4294967295])
            idx = r.sample(range(1, 1 << bits), 6)
            if not c["pairs"] and r.random() < .3:
                idx[r.randrange(6)] = r.choice([0, (1 << bits) - 1])
            inter = [[NS[i] for i in p] for p in c["pairs"]]
            plans.append((k, bits, seed, idx, inter))
            sess.append({"id": k, "ops": [{"op": "foreach", "spec": [[NS[n], [[idx[2 * n], prim[2 * n]], [idx[2 * n + 1], prim[2 * n + 1]]]] for n in range(3)],
                                           "seed": seed, "bits": bits, "pairs": [i for i in inter if len(i) == 2], "triples": [i for i in inter if len(i) == 3],
                                           "constant": c["constant"]}]})
        obs = core.run_sessions(binary, sess)
        again = []
        for k, bits, seed, idx, inter in plans:
            c = traces[k][0]["conf"]
            want = {prim[i]: i for i in range(6)}
            if c["constant"]:
                want[1] = 9
            for p in c["pairs"]:
                combos = [[]]
                for n, ns in enumerate(p):
                    combos = [x + [f] for x in combos for f in (2 * ns, 2 * ns + 1) if not (n and p[n - 1] == ns and f < x[-1])]
                for ids in combos:
                    v = 1
                    for i in ids:
                        v *= prim[i]
                    want[v] = code(ids)
            got = {int(core.fval(v)): i for i, v in obs[k][0].get("predict", [])}
            if set(got) != set(want):
                raise Unplaced("expansion of the example with all features: %s" % json.dumps(obs[k][0])[:500])
            if len(set(got.values())) < len(got):
                again.append(k)
            else:
                out[k] = (bits, seed, inter, {want[v]: i for v, i in got.items()})
        todo = again
        if not todo:
            break
    return out


class Unplaced(Exception):
    pass


def fl(n):
    return n / ONE


def sessions(ctx, traces, places, dump=True):
    """One session per trace: every step on the real regressor, what it is after each."""
    r = ctx.rng
    out = []
    for k, t in enumerate(traces):
        if k not in places:
            continue
        bits, seed, inter, ix = places[k]
        c = t[0]["conf"]
        cc = {"alpha": fl(c["alpha"]), "beta": fl(c["beta"])}
        if cc["alpha"] == 4 and r.random() < .5:
            del cc["alpha"]
        if cc["beta"] == 1 and r.random() < .5:
            del cc["beta"]
        g = {"numBits": bits, "constantFeatureEnabled": c["constant"], "interactions": X.config(inter), "hashSeed": seed}
        link = "Logistic" if r.random() < .15 else "Identity"
        if link == "Logistic":
            cc["linkFunction"] = link
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": {"typename": "Coin", "config": cc}}}]
        plan = [None]
        for n, s in enumerate(t[1:]):
            e = {}
            for f in s["last"]["e"]:
                e.setdefault(NS[f["id"] // 2], []).append([ix[f["id"]], fl(f["x"])])
            spec = [[ns, e[ns]] for ns in e]
            r.shuffle(spec)
            ops.append({"op": "feats", "f": "f", "seed": seed, "spec": {"simple": spec}})
            plan.append(None)
            if s["last"]["op"] == "predict":
                ops.append({"op": "predict", "ws": "w", "f": "f"})
                plan.append(("pred", n + 1))
            else:
                lab = {"simple": [fl(s["last"]["y"]), fl(s["last"]["wt"])]}
                how = r.choice(["learn", "ptl", "both"])
                if how == "both":
                    ops.append({"op": "predict", "ws": "w", "f": "f"})
                    plan.append(("pred", n + 1))
                ops.append({"op": "ptl" if how == "ptl" else "learn", "ws": "w", "f": "f", "label": lab})
                plan.append(("pred", n + 1) if how == "ptl" else None)
                if dump:
                    ops.append({"op": "dump", "ws": "w", "full": True})
                    plan.append(("dump", n + 1))
        out.append({"id": len(out), "ops": ops, "plan": plan, "trace": t, "ix": ix, "link": link})
    return out
