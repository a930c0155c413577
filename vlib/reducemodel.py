"""Binding of spec/Reduce.tla: stacks over a recording regressor, and over the real one with bare twins."""
import json, struct
from fractions import Fraction
from . import core, wsmodel as W

PROBS = [(1, 4), (1, 2), (1, 1), (1, 10), (4, 5), (1, 3), (1, 20), (99, 100), (1, 250)]
COSTS = [-1000000, 0, 1000000, 300000, 2000000, -250000, 1, 3000000]
SMALL = [-400000, 0, 600000, 1]      # stay within TLC's integers when divided by a small probability
VALS = [1.0, 0.5, -1.0, 2.0, 0.25, -3.0, 1.5, 0.0, 10.0]
BASEVALS = [1.0, 0.5, -1.0, 2.0, 0.25, -3.0, 1.5]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def model(ctx):
    r = core.tlc(ctx, "ReduceMC", dict(ALGOS={"mtr", "ips", "binary"}, WRAPS={"none", "greedy", "softmax", "squarecb"}, MaxLearn=ctx.pick(1, 2)),
                 overrides=dict(EXS="MCExs", LABS="MCLabs"), invariants=["Transparent"],
                 properties=["OneMtr", "Importance", "IpsAll", "Silent", "Signs"], timeout=1500)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Predict", "Learns"])


def part(r, bits, vals, maxns=3, maxf=3, edges=True):
    out = []
    for ns in r.sample(["", "a", "b", "c"], r.randint(0, maxns)):
        out.append([ns, [[r.choice([0, (1 << bits) - 1] * edges + [r.randrange(1 << bits)] * 2), r.choice(vals)]
                         for _ in range(r.randint(0 if r.random() < .2 else 1, maxf))]])
    return out


def example(r, bits, vals=VALS, maxact=5, edges=True):
    n = r.choice([1, 1, 2, 2, 3, 4, maxact])
    acts = [part(r, bits, vals, 2, edges=edges) for _ in range(n)]
    if n > 1 and r.random() < .3:
        acts[-1] = acts[0]
    return {"shared": r.choice([None, part(r, bits, vals, edges=edges), part(r, bits, vals, edges=edges), part(r, bits, vals, edges=edges), []]), "actions": acts}


def label(r, ex):
    pn, pd = r.choice(PROBS)
    return {"a": r.randrange(len(ex["actions"])), "c": r.choice(COSTS if pd <= 100 else SMALL), "pn": pn, "pd": pd}


def cb(l):
    return {"cb": [l["a"], l["c"] / 1e6, l["pn"] / l["pd"]]}


def base(r, algo, wrap, regressor):
    c = {"regressor": regressor}
    if algo == "ips" or r.random() < .5:
        c["cbType"] = algo
    s = W.dbg(r, W.red("CbAdf", c), .1)
    if wrap == "greedy":
        s = W.red("CbExploreAdfGreedy", {"cbAdf": s, "epsilon": r.choice([0.0, 0.1, 1.0])})
    elif wrap == "softmax":
        s = W.red("CbExploreAdfSoftmax", {"cbAdf": s, "lambda": r.choice([0.5, 1.0, 4.0]), "uniformEpsilon": r.choice([0.0, 0.2])})
    elif wrap == "squarecb":
        s = W.red("CbExploreAdfSquareCb", {"cbAdf": s, "gammaScale": r.choice([1.0, 10.0]), "uniformEpsilon": r.choice([0.0, 0.2])})
    return W.dbg(r, s, .1)


class Features:
    """Identities of features seen, with their contribution (in quarters) to the recording regressor's score."""
    def __init__(self):
        self.tab = core.intern_table()

    def part(self, sp):
        out = []
        for it in sp or []:
            if len(it) != 2:
                out.append([-1, 0])       # contradictory container
            for i, v in it[1]:
                x = float(v[1])
                c = x * (i % 13 - 6) * 4
                out.append([self.tab([it[0], i, v[0]]), int(c) if c == int(c) else 10 ** 8])
        return out

    def example(self, show):
        f = show["features"]
        if "simple" in f:
            return {"hs": False, "shared": [], "actions": [self.part(f["simple"])]}
        return {"hs": f["shared"] is not None, "shared": self.part(f["shared"]), "actions": [self.part(a) for a in f["actions"]]}


def probe_sessions(ctx, n, length, algos, bits=12, maxact=5):
    """Random behaviours over the recording regressor."""
    r = ctx.rng
    out = []
    for k in range(n):
        algo = r.choice(algos)
        wrap = "none" if algo == "binary" else r.choice(["none", "none", "greedy", "softmax"] + (["squarecb"] * 2 if algo == "mtr" else []))
        if algo == "binary":
            stack = W.dbg(r, W.red("Binary", {"regressor": W.dbg(r, W.red("Coin"), .1)}), .1)
            exs = [part(r, bits, VALS) for _ in range(4)]
        else:
            stack = base(r, algo, wrap, W.dbg(r, W.red("Coin"), .1))
            exs = [example(r, bits, maxact=maxact) for _ in range(5)]
            e = r.choice(exs)
            exs.append({"shared": e["shared"], "actions": e["actions"][::-1]})
            exs.append({"shared": e["shared"], "actions": [r.choice(e["actions"])]})
        g = {"numBits": bits}
        if r.random() < .3:
            g["interactions"] = [[{"Name": "a"}, {"Name": "b"}]]
        ops = [{"op": "new", "ws": "w", "config": {"globalConfig": g, "entryReduction": stack}}, {"op": "probe", "ws": "w", "probe": "p"},
               {"op": "script", "probe": "p", "linear": True}]
        plan = [None] * 3
        for i, e in enumerate(exs):
            ops.append({"op": "feats", "f": "e%d" % i, "spec": {"simple": e} if algo == "binary" else e})
            ops.append({"op": "show", "f": "e%d" % i})
            plan += [None, ("show", i)]
        for _ in range(r.randint(3, length)):
            i = r.randrange(len(exs))
            what = r.choice(["predict", "learn", "learn", "ptl"])
            o = {"op": what, "ws": "w", "f": "e%d" % i}
            lab = None
            if what != "predict":
                if algo == "binary":
                    b = r.random() < .5
                    lab = {"a": int(b), "c": 0, "pn": 1, "pd": 1}
                    o["label"] = {"binary": b}
                else:
                    lab = label(r, exs[i])
                    o["label"] = cb(lab)
            sign = None
            if algo == "binary" and what != "learn":
                x = r.choice([0.0, 1.0, -1.0, 1e-30, -1e-30, 0.5, -0.5, 1e-45, -0.0, 2.0])
                sign = (x > 0) - (x < 0)
                ops.append({"op": "script", "probe": "p", "scalars": [x]})
                plan.append(None)
            ops += [o, {"op": "calls", "probe": "p"}]
            plan += [(what, i, lab, sign), ("calls",)]
        out.append({"id": k, "ops": ops, "plan": plan, "algo": algo, "wrap": wrap})
    return out


def probe_events(s, obs):
    """Events of one session for ReduceTrace; None where the session went wrong before it began."""
    F = Features()
    evs = [({"a": "config", "algo": s["algo"], "wrap": s["wrap"]}, None)]
    exs = {}
    last = None
    for op, p, o in zip(s["ops"], s["plan"], obs + [obs[-1]] * (len(s["ops"]) - len(obs))):
        if op["op"] in ("new", "probe", "feats") and "ok" not in o:
            raise core.Refused(op, o)
        if p is None:
            continue
        if p[0] == "show":
            exs[p[1]] = F.example(o)
            continue
        if p[0] != "calls":
            last = (p, o, op)
            continue
        (what, i, lab, sign), po, pop = last
        ok = "panic" not in po and "err" not in po and "crash" not in po and "calls" in o
        calls = o.get("calls", [])
        reqs = [F.part(c["features"].get("simple")) for c in calls if c["call"] == "predict"]
        learns = [{"feats": F.part(c["features"].get("simple")), "y": unit(c["label"], 0, 1e6), "w": unit(c["label"], 1, 1e5)}
                  for c in calls if c["call"] == "learn"]
        where = {"op": pop, "observed": po, "calls": calls}
        if what != "learn":
            if s["algo"] == "binary":
                evs.append(({"a": "binary", "sign": sign, "ok": ok, "got": bool(po.get("value"))}, where))
                evs.append(({"a": "predict", "ex": exs[i], "ok": ok, "reqs": reqs, "order": list(range(len(reqs))), "scored": False, "scores": []}, where))
            else:
                v = po.get("v", [])
                scored = po.get("type") == "ActionScores"
                sc = []
                for _, x in v:
                    q = core.fval(x) * 4
                    sc.append(int(q) if scored and q == q and abs(q) < 1e8 and q == int(q) else 10 ** 9)
                evs.append(({"a": "predict", "ex": exs[i], "ok": ok, "reqs": reqs, "order": [a for a, _ in v],
                             "scored": scored, "scores": sc}, where))
        if what != "predict":
            evs.append(({"a": "learn", "ex": exs[i], "lab": lab, "ok": ok, "seen": True, "calls": learns}, where))
    return evs


def unit(lab, k, u):
    if "simple" not in lab:
        return 2 * 10 ** 9
    x = core.fval(lab["simple"][k])
    return int(round(x * u)) if x == x and abs(x * u) < 2e9 else 2 * 10 ** 9


def validate(ctx, sessions, events, describe, tag=""):
    """events: per session a list of (event, where); reports the first event of a session TLC rejects."""
    flat, owner = [], []
    for s, evs in zip(sessions, events):
        for e, w in evs:
            flat.append(e)
            owner.append((s, w))
    start = bad = 0
    while start < len(flat) and bad < 3:
        matched, _ = core.validate_trace(ctx, "ReduceTrace", flat[start:], tag="%s-%d" % (tag, bad))
        if matched >= len(flat) - start:
            break
        i = start + matched
        s, w = owner[i]
        ctx.violate(describe(s, w, flat[i]), {"config": s["ops"][0], "where": w, "event": flat[i], "ops": s["ops"]})
        bad += 1
        j = i + 1
        while j < len(flat) and flat[j]["a"] != "config":
            j += 1
        start = j
    ctx.traces += len(sessions)


def inner(m):
    """The regressor at the bottom of an exported model."""
    if isinstance(m, dict):
        if m.get("typename") == "Coin":
            return m
        for v in m.values():
            x = inner(v)
            if x is not None:
                return x
    if isinstance(m, list):
        for v in m:
            x = inner(v)
            if x is not None:
                return x
    return None


def merged(ex, j):
    """Action j with the shared features, as one simple example (a namespace may be in both)."""
    out = []
    for src in (ex["actions"][j], ex["shared"] or []):
        for ns, fs in src:
            for o in out:
                if o[0] == ns:
                    o[1] += fs
                    break
            else:
                out.append([ns, list(fs)])
    return out


def names(inter):
    return [[n["Name"] if isinstance(n, dict) else "" for n in i] for i in inter]


def collision_free(binary, items):
    """items: (global config, simple example).  Whether no two of its expanded features share a weight
    (else the outcome of learning depends on the order of features, which is nobody's business)."""
    sess = []
    for k, (g, spec) in enumerate(items):
        inter = names(g.get("interactions", []))
        sess.append({"id": k, "ops": [{"op": "foreach", "spec": spec, "seed": g.get("hashSeed", 0), "bits": g["numBits"],
                                       "pairs": [i for i in inter if len(i) == 2], "triples": [i for i in inter if len(i) == 3],
                                       "constant": g.get("constantFeatureEnabled", True)}]})
    obs = core.run_sessions(binary, sess)
    out = []
    for k in range(len(items)):
        idx = [i for i, _ in obs[k][0].get("predict", [[0, 0], [0, 0]])]
        out.append(len(idx) == len(set(idx)))
    return out


def derived(algo, wrap, ex, lab, ev, ac):
    """The examples Reduce says the regressor is taught: (part, value, weight)."""
    p = Fraction(1) if wrap == "squarecb" else Fraction(lab["pn"], lab["pd"])
    c = Fraction(lab["c"], 10 ** 6)
    if algo == "mtr":
        return [(merged(ex, lab["a"]), float(c), float(1 / p * Fraction(ev, ac)))]
    return [(merged(ex, j), float(c / p) if j == lab["a"] else 0.0, 1.0) for j in range(len(ex["actions"]))]
