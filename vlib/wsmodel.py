"""Binding of spec/Workspace.tla: universes of concrete stacks and examples, behaviours from TLC,
translation to harness sessions, and events for WorkspaceTrace.tla."""
import copy, json
from . import core

NS = ["", "a", "b", "c"]
VALUES = [1.0, 0.5, -1.0, 2.0, 0.25, -3.0, 1.5, 0.0, 1e-05, 250.0]
LABELS = [0.0, 1.0, -1.0, 0.5, 3.0, -2.5, 0.002, 120.5, -10000.0]
WEIGHTS = [1.0, 1.0, 1.0, 0.5, 2.0, 0.0, 0.01, 60.0]
PROBS = [0.25, 0.5, 1.0, 0.1, 0.8, 0.004, 0.00001]
COSTS = [-1.0, 0.0, 1.0, 0.3, 2.0, -0.001, 25.0, -300.0]


# ------------------------------------------------------------- stacks

def red(name, cfg=None):
    return {"typename": name} if cfg is None else {"typename": name, "config": cfg}


def coin(rng, plain=False):
    cfg = {}
    if not plain:
        if rng.random() < .3: cfg["alpha"] = rng.choice([1.0, 4.0, 10.0])
        if rng.random() < .2: cfg["beta"] = rng.choice([0.5, 1.0, 2.0])
        if rng.random() < .15: cfg["linkFunction"] = "Logistic"
        if rng.random() < .15: cfg["lossFunction"] = rng.choice([{"Logistic": {}}, {"Squared": {}}])
    return red("Coin", cfg) if cfg or rng.random() < .5 else red("Coin")


def dbg(rng, r, p=0.0, counter=None):
    return red("Debug", {"next": r, "id": "d"}) if rng.random() < p else r


def elementwise(rng, child):
    return red("ElementwiseInteraction", {"regressor": child, "one": {"Name": "a"}, "two": {"Name": "b"},
                                          "keepOriginalFeatures": rng.random() < .5})


def simple_stack(rng, kind=None, debug=0.0):
    k = kind or rng.choice(["coin", "coin", "elementwise"])
    r = dbg(rng, coin(rng), debug)
    if k == "elementwise":
        r = dbg(rng, elementwise(rng, r), debug)
    return r, k


def binary_stack(rng, debug=0.0):
    r, k = simple_stack(rng, debug=debug)
    return dbg(rng, red("Binary", {"regressor": r}), debug)


def cb_stack(rng, kind=None, debug=0.0):
    k = kind or rng.choice(["adf", "greedy", "softmax", "squarecb"])
    base, bk = simple_stack(rng, kind="coin", debug=debug)
    cfg = {"regressor": base}
    if rng.random() < .6 or k == "squarecb":
        if rng.random() < .6: cfg["cbType"] = "mtr"
    else:
        cfg["cbType"] = "ips"
    r = dbg(rng, red("CbAdf", cfg), debug)
    if k == "greedy":
        c = {"cbAdf": r}
        if rng.random() < .6: c["epsilon"] = rng.choice([0.0, 0.1, 0.5, 1.0])
        r = dbg(rng, red("CbExploreAdfGreedy", c), debug)
    elif k == "softmax":
        c = {"cbAdf": r}
        if rng.random() < .6: c["lambda"] = rng.choice([0.5, 1.0, 5.0])
        if rng.random() < .6: c["uniformEpsilon"] = rng.choice([0.0, 0.1, 0.4])
        r = dbg(rng, red("CbExploreAdfSoftmax", c), debug)
    elif k == "squarecb":
        c = {"cbAdf": r}
        if rng.random() < .6: c["gammaScale"] = rng.choice([1.0, 10.0, 100.0])
        if rng.random() < .5: c["gammaExponent"] = rng.choice([0.25, 0.5, 1.0])
        if rng.random() < .5: c["uniformEpsilon"] = rng.choice([0.0, 0.1, 0.3])
        r = dbg(rng, red("CbExploreAdfSquareCb", c), debug)
    return r


def global_config(rng, bits=None, interactions=True, ns=("a", "b", "c")):
    g = {}
    b = bits if bits is not None else rng.choice([2, 3, 4, 6, 8, 10])
    g["numBits"] = b
    if rng.random() < .5: g["hashSeed"] = rng.choice([0, 1, 7, 4294967295])
    if rng.random() < .5: g["constantFeatureEnabled"] = rng.random() < .5
    if interactions and rng.random() < .5:
        def n():
            return "Default" if rng.random() < .25 else {"Name": rng.choice(list(ns))}
        g["interactions"] = [[n() for _ in range(rng.choice([2, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
    return g


# ------------------------------------------------------------- examples

def rand_sparse(rng, bits, maxns=3, maxf=3, allow_empty_ns=True, nss=NS):
    out = []
    for ns in rng.sample(nss, rng.randint(0, maxns)):
        lo = 0 if allow_empty_ns and rng.random() < .15 else 1
        feats = []
        for _ in range(rng.randint(lo, maxf) if rng.random() < .98 else rng.randint(12, 36)):
            idx = rng.choice([0, (1 << bits) - 1, (1 << bits) // 2, rng.randrange(1 << bits), rng.randrange(1 << bits)])
            feats.append([idx, rng.choice(VALUES)])
        out.append([ns, feats])
    return out


def rand_simple(rng, bits, binary=False):
    lab = {"binary": rng.random() < .5} if binary else {"simple": [rng.choice(LABELS), rng.choice(WEIGHTS)]}
    return {"spec": {"simple": rand_sparse(rng, bits)}, "label": lab}


def rand_positional(rng, binary=False):
    """Examples for elementwise interaction: positional namespaces a and b, written as JSON."""
    feats = {}
    for ns in ("a", "b"):
        feats[ns] = [rng.choice([v for v in VALUES if v]) for _ in range(rng.randint(1, 4))]
    if rng.random() < .6:
        feats["c"] = {"x": rng.choice(VALUES), "y": True}
    items = list(feats.items())
    rng.shuffle(items)
    lab = {"binary": rng.random() < .5} if binary else {"simple": [rng.choice(LABELS), rng.choice(WEIGHTS)]}
    return {"fmt": "json", "text": json.dumps({"features": dict(items)}), "label": lab}


def rand_cb(rng, bits):
    n = rng.randint(1, 4) if rng.random() < .95 else rng.randint(5, 16)
    shared = rng.choice([None, rand_sparse(rng, bits), rand_sparse(rng, bits), rand_sparse(rng, bits), []])
    acts = [rand_sparse(rng, bits, maxns=2) for _ in range(n)]
    return {"spec": {"shared": shared, "actions": acts},
            "label": {"cb": [rng.randrange(n), rng.choice(COSTS), rng.choice(PROBS)]}}


def universe(rng, kind=None, nex=3, debug=0.0, bits=None):
    """One configuration and examples that fit it."""
    kind = kind or rng.choice(["simple", "simple", "binary", "cb", "cb", "cb"])
    g = global_config(rng, bits)
    b = g["numBits"]
    if kind == "cb":
        r = cb_stack(rng, debug=debug)
        ex = [rand_cb(rng, b) for _ in range(nex)]
    else:
        r = binary_stack(rng, debug) if kind == "binary" else simple_stack(rng, debug=debug)[0]
        if "ElementwiseInteraction" in json.dumps(r):
            ex = [rand_positional(rng, kind == "binary") for _ in range(nex)]
        else:
            ex = [rand_simple(rng, b, kind == "binary") for _ in range(nex)]
    return {"kind": kind, "config": {"globalConfig": g, "entryReduction": r}, "examples": ex,
            "seed": g.get("hashSeed", 0), "bits": b}


# ------------------------------------------------------------- behaviours

def exhaustive(ctx, acts, WS=("w1", "w2"), EX=("e1", "e2"), OBJ=("o1",), CFGS=("c1",), SLOTS=("s1",), FMTS=("bin",), MaxHist=2, tag=""):
    """Exhaustive check of the design properties within small bounds; returns TLC statistics."""
    r = core.tlc(ctx, "Workspace", dict(WS=set(WS), EX=set(EX), OBJ=set(OBJ), CFGS=set(CFGS), SLOTS=set(SLOTS),
                                        FMTS=set(FMTS), ACTS=set(acts), MaxHist=MaxHist, MaxOps=0, Record=False),
                 invariants=["TypeOK"],
                 properties=["Silent", "PtlIsLearn", "Isolated", "SaveFaithful", "LoadFaithful", "SaveSilent",
                             "ObjectsIntact", "MakeForgets"], tag=tag)
    ctx.add_tlc(r)
    names = {"new": "New", "make": "Make", "recycle": "Recycle", "predict": "Predict", "learn": "Learn", "ptl": "PredictThenLearn",
             "save": "Save", "load": "Load", "dump": "Dump", "show": "Show", "refuse": "Refuse"}
    cov = {}
    for k, v in r.coverage.items():
        cov[k] = v
    for a in acts:
        if not (cov.get("Do" + names[a]) or cov.get(names[a]) or cov.get("Do" + names[a].replace("PredictThenLearn", "Ptl"))):
            raise core.ToolError("vacuous: action %s never taken (%s)" % (a, cov))
    return r


def generate(ctx, num, acts, WS=("w1", "w2"), EX=("e1", "e2", "e3"), OBJ=("o1", "o2"), CFGS=("c1",), SLOTS=("s1", "s2"),
             FMTS=("bin",), MaxHist=6, MaxOps=24, tag="gen"):
    r = core.tlc(ctx, "Workspace", dict(WS=set(WS), EX=set(EX), OBJ=set(OBJ), CFGS=set(CFGS), SLOTS=set(SLOTS),
                                        FMTS=set(FMTS), ACTS=set(acts), MaxHist=MaxHist, MaxOps=MaxOps, Record=True),
                 invariants=["Emit"], simulate=num, depth=MaxOps + 2, tag=tag)
    ctx.transitions += r.generated
    ctx.states += r.generated
    if len(r.prints) < num // 2:
        raise core.ToolError("TLC produced only %d behaviours" % len(r.prints))
    return r.prints[:num]


def audit(beh, MaxW="wr", before=False):
    """Extends a behaviour by the canonical route: for every description (cfg, hist) some handle
    ended in, a new workspace taught that history and nothing else, asked everything."""
    ws, slot, obj = {}, {}, {}
    made = []
    for op in beh:
        a = op["a"]
        if a == "new": ws[op["w"]] = (op["c"], ())
        elif a == "make":
            obj[op["o"]] = op["e"]
            if op["e"] not in made: made.append(op["e"])
        elif a == "recycle": obj.pop(op["o"], None)
        elif a in ("learn", "ptl"):
            c, h = ws[op["w"]]
            ws[op["w"]] = (c, h + (obj[op["o"]],))
        elif a == "save": slot[op["s"]] = ws[op["w"]]
        elif a == "load": ws[op["w"]] = slot[op["s"]]
    out = list(beh)
    need = sorted(set(ws.values()), key=lambda x: (x[0], len(x[1]), x[1]))
    for i, e in enumerate(made):
        out.append({"a": "make", "o": "oa%d" % i, "e": e})
    oa = {e: "oa%d" % i for i, e in enumerate(made)}
    for w in sorted(ws):
        out.append({"a": "dump", "w": w})
        for e in made:
            out.append({"a": "predict", "w": w, "o": oa[e]})
    for n, (c, h) in enumerate(need):
        w = "%s%d" % (MaxW, n)
        out.append({"a": "new", "w": w, "c": c})
        for e in h:
            if before:
                out.append({"a": "predict", "w": w, "o": oa[e]})
            out.append({"a": "learn", "w": w, "o": oa[e]})
        out.append({"a": "dump", "w": w})
        for e in made:
            out.append({"a": "predict", "w": w, "o": oa[e]})
    # everything an object went through left it as it was
    for o, e in sorted(obj.items()):
        out.append({"a": "show", "o": o})
    for i, e in enumerate(made):
        out.append({"a": "show", "o": "oa%d" % i})
    return out


def to_ops(beh, uni, variant=None, show=True, clidir=None):
    """Concrete harness operations for a behaviour.  variant(cfg id, occurrence) -> concrete
    configuration op fields (default: the universe's configuration)."""
    ops, evs = [], []
    ex = {"e%d" % (i + 1): x for i, x in enumerate(uni["examples"])}
    objs = {}
    conc = {}          # handle -> concrete configuration id
    slots = {}
    count = 0
    for op in beh:
        a = op["a"]
        ev = dict(op)
        if a == "new":
            v = variant(op["c"], count) if variant else {"config": uni["config"], "d": op["c"]}
            count += 1
            conc[op["w"]] = v["d"]
            o = {"op": "new", "ws": op["w"]}
            o.update({k: v[k] for k in ("config", "yaml", "text") if k in v})
        elif a == "make":
            x = ex[op["e"]]
            objs[op["o"]] = op["e"]
            if "spec" in x:
                o = {"op": "feats", "f": op["o"], "spec": x["spec"], "label": x["label"], "seed": uni["seed"]}
                ops.append(o)
                evs.append(None)
                o = {"op": "show", "f": op["o"]}
            else:
                o = {"op": "parse", "f": op["o"], "fmt": x["fmt"], "text": x["text"], "seed": uni["seed"], "bits": uni["bits"],
                     "ftype": x.get("ftype", "SparseSimple"), "ltype": x.get("ltype", "Simple")}
                if uni.get("pool"): o["pool"] = uni["pool"]
        elif a == "recycle":
            o = {"op": "recycle", "f": op["o"], "pool": uni.get("pool") or "p"}
            objs.pop(op["o"])
        elif a in ("predict", "learn", "ptl"):
            o = {"op": a, "ws": op["w"], "f": op["o"], "label": ex[objs[op["o"]]]["label"]}
        elif a == "save" and op["f"] == "cli":
            base = "%s/%s-%s" % (clidir[0], clidir[2], op["s"])
            ops.append({"op": "savefile", "ws": op["w"], "path": base + ".a"})
            evs.append(None)
            ops.append({"op": "exec", "argv": [clidir[1], "export-model", base + ".a"], "stdout": base + ".json"})
            evs.append(None)
            o = {"op": "exec", "argv": [clidir[1], "import-model", base + ".json", "-o", base + ".b"]}
            slots[op["s"]] = conc[op["w"]]
            ev["d"] = conc[op["w"]]
        elif a == "load" and op["f"] == "cli":
            o = {"op": "loadfile", "ws": op["w"], "path": "%s/%s-%s.b" % (clidir[0], clidir[2], op["s"])}
            conc[op["w"]] = slots[op["s"]]
        elif a == "save":
            o = {"op": "save", "ws": op["w"], "slot": op["s"], "fmt": op["f"]}
            slots[op["s"]] = conc[op["w"]]
            ev["d"] = conc[op["w"]]
        elif a == "load":
            o = {"op": "load", "ws": op["w"], "slot": op["s"], "fmt": op["f"]}
            conc[op["w"]] = slots[op["s"]]
        elif a == "dump":
            o = {"op": "dump", "ws": op["w"]}
            ev["d"] = conc[op["w"]]
        elif a == "show":
            o = {"op": "show", "f": op["o"]}
        else:
            raise core.ToolError("op " + a)
        ops.append(o)
        evs.append(ev)
        if show and a in ("predict", "learn", "ptl"):
            ops.append({"op": "show", "f": op["o"]})
            evs.append({"a": "show", "o": op["o"]})
    return ops, evs


def result_of(a, obs):
    """(ok, result) of one observation, as compared by the trace specification."""
    if any(k in obs for k in ("panic", "err", "crash")):
        return False, None
    if a == "new":
        return True, {k: v for k, v in obs["ok"].items() if k != "typename"}
    if a in ("make", "show"):
        return True, obs["features"]
    if a in ("learn", "load", "recycle"):
        return True, None
    return True, obs


def to_events(evs, obs, intern):
    """Recorded trace events; stops after the first failed call (nothing after it is defined)."""
    out = []
    for ev, o in zip(evs, obs):
        if ev is None:
            if any(k in o for k in ("panic", "err", "crash")):
                out.append({"a": "show", "o": "o1", "ok": False, "r": 0, "why": o})
                break
            continue
        ok, r = result_of(ev["a"], o)
        e = dict(ev)
        e["ok"] = ok
        e["r"] = intern(r) if r is not None else 0
        if e["a"] == "save" and e["f"] == "cli":
            e["r"] = 0
        out.append(e)
        if not ok:
            break
    if len(obs) < len(evs) and out and out[-1]["ok"]:
        e = dict(evs[min(len(obs), len(evs) - 1)] or {"a": "show", "o": "o1"})
        e.update(ok=False, r=0)
        out.append(e)
    return out


def trace_constants(events):
    c = dict(MaxHist=0, MaxOps=0, Record=False, ACTS={"x"}, FMTS={"bin", "json", "cli"})
    for k, f in (("WS", "w"), ("OBJ", "o"), ("SLOTS", "s"), ("EX", "e"), ("CFGS", "c")):
        c[k] = {e[f] for e in events if f in e} or {"x"}
    return c


def check_sessions(ctx, items, tag="", what="observed behaviour is not one of the specification", profiles=("dev",), twins=False,
                   clidir=None):
    """items: list of (name, beh, universe[, variant]).  Runs them and validates the recorded trace."""
    total_hits = 0
    for prof in profiles:
        binary = core.harness(prof)
        sess, meta = [], []
        for n, it in enumerate(items):
            name, beh, uni = it[0], it[1], it[2]
            unis = uni if isinstance(uni, list) else [uni, uni] if twins else [uni]
            for k, uni in enumerate(unis):
                ops, evs = to_ops(beh, uni, it[3] if len(it) > 3 else None, clidir=clidir and (clidir[0], clidir[1], "%s%d" % (prof, n)))
                sess.append({"id": "%d.%d" % (n, k), "ops": ops})
                meta.append((name, evs, ops, uni, k))
        # a twin runs in a process that has done nothing else
        obs = core.run_sessions(binary, [s for s, m in zip(sess, meta) if not (twins and m[4])])
        if twins:
            obs.update(core.run_sessions(binary, [s for s, m in zip(sess, meta) if m[4]], fresh=True))
        events, owner = [], []
        intern = None
        for s, (name, evs, ops, uni, k) in zip(sess, meta):
            if k == 0:
                intern = core.intern_table()
            events.append({"a": "reset", "keep": k > 0})
            owner.append((s, None))
            for e in to_events(evs, obs[s["id"]], intern):
                events.append(e)
                owner.append((s, e))
        start = 0
        bad_sessions = 0
        while start < len(events) and bad_sessions < 5:
            matched, r = core.validate_trace(ctx, "WorkspaceTrace", events[start:],
                                             trace_constants(events[start:]),
                                             tag="-" + prof + tag)
            total_hits += next((x["hits"] for x in r.prints if "hits" in x), 0)
            if matched >= len(events) - start:
                break
            i = start + matched
            s, e = owner[i]
            o = obs[s["id"]]
            detail = explain(events, owner, i, s, o)
            ctx.violate("%s [%s build]: %s" % (what, prof, detail), {"session": s, "observed": o, "event": e, "profile": prof,
                                                                     "universe": next(m[3] for q, m in zip(sess, meta) if q is s)})
            bad_sessions += 1
            # go on with the next session group
            j = i + 1
            while j < len(events) and not (events[j]["a"] == "reset" and not events[j]["keep"]):
                j += 1
            start = j
        ctx.traces += len(sess)
        if sess:
            ctx.sample({"profile": prof, "ops": sess[0]["ops"][:12], "observed": obs[sess[0]["id"]][:12]})
    ctx.extra["agreements_checked"] = ctx.extra.get("agreements_checked", 0) + total_hits
    if items and total_hits == 0 and not ctx.violations:
        raise core.ToolError("vacuous: no result was ever compared")


def explain(events, owner, i, s, obs):
    e = events[i]
    if not e.get("ok", True):
        bad = next((o for o in obs if any(k in o for k in ("panic", "err", "crash"))), None)
        return "call %s failed: %s" % ({k: v for k, v in e.items() if k not in ("ok", "r")}, json.dumps(bad)[:300])
    return "result of %s differs from an equivalent earlier observation" % {k: v for k, v in e.items() if k not in ("ok", "r")}
