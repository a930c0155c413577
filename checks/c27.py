"""C27 The Python package behaves like the core library."""
import json, os, shutil, tempfile
from vlib import configmodel as G, core, parsemodel as P, wsmodel as W

ACTS = ("new", "make", "recycle", "predict", "learn", "ptl", "save", "load", "dump", "refuse")
PY = ["/opt/vp/pyenv/bin/python", "/usr/bin/python3.12", "python3"]
BAD_TEXT = {
    "vw": ["1 |f x:abc", "1 |f :", "x |f a", "1 2 3 4 5 |f a", "|f x:1:2", "1 |f x:1e", "nothing at all"],
    "json": ["", "{", "[]", "{}", "{\"features\": 3}", "{\"label\": {}, \"features\": {\"f\": [\"x\"]}}", "{\"features\": {\"f\": [1, 2}}",
             "{\"label\": {\"value\": \"x\"}, \"features\": {\"f\": [1]}}", "1 |f x"],
    "dsjson": ["", "{", "{\"c\": 3}", "{\"c\": {\"_multi\": [{\"a\": [\"x\"]}]}}", "[1]", "1 |f x", "{\"_label_cost\": \"x\", \"c\": {\"_multi\": [{}]}}"],
}
FORMATS = {"simple": ("vw", "json"), "cb": ("vw", "json", "dsjson")}


def run(ctx):
    W.exhaustive(ctx, ACTS, FMTS=("bin", "json"), MaxHist=1, OBJ=("o1",))
    stage = core.python_pkg()
    py = next(p for p in PY if shutil.which(p))
    drive = [py, os.path.join(core.VERIF, "tools", "pydrive.py")]
    penv = {"PYTHONPATH": stage, "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"}
    gen = lambda kinds, tag, **kw: P.generate(ctx, ctx.pick(220, 900), kinds, tag=tag, **kw)
    simple = gen(("simple",), "s", MaxParts=1, MaxNs=4, MaxItems=4, depth=22)
    cb = gen(("cb",), "c", MaxParts=5, MaxNs=3, MaxItems=3)
    n = ctx.pick(260, 2000)
    behs = W.generate(ctx, n, ACTS, EX=("e1", "e2", "e3"), OBJ=("o1", "o2"), WS=("w1", "w2"), SLOTS=("s1", "s2"), FMTS=("bin", "json"),
                      MaxHist=6, MaxOps=ctx.pick(26, 36))
    tmp = tempfile.mkdtemp(prefix="c27-")
    # the texts among BAD_TEXT that the core library refuses
    qs = [dict(op="parse", fmt=f, text=t, ftype=P.ftypes(k)[0], ltype=P.ftypes(k)[1], seed=0, bits=18)
          for k in ("simple", "cb") for f in BAD_TEXT for t in BAD_TEXT[f] if f in FORMATS[k]]
    ob = core.run_sessions(core.harness("dev"), [{"id": i, "ops": [q]} for i, q in enumerate(qs)])
    bad = {"simple": [], "cb": []}
    for i, q in enumerate(qs):
        if "features" not in ob[i][0]:
            bad["cb" if q["ltype"] == "CB" else "simple"].append((q["fmt"], q["text"]))
    if min(len(v) for v in bad.values()) < 5:
        raise core.ToolError("the core library refuses almost nothing: %s" % bad)
    try:
        sessions = [plan(ctx, k, W.audit(b), simple, cb, tmp, bad) for k, b in enumerate(behs)]
        core_obs = core.run_sessions(core.harness("dev"), [{"id": s["id"], "ops": s["core"]} for s in sessions])
        py_obs = core.run_sessions(drive, [{"id": s["id"], "ops": s["py"]} for s in sessions], env=penv)
        # models the Python package saved, loaded by the core library
        back_obs = core.run_sessions(core.harness("dev"), [{"id": s["id"], "ops": s["back"]} for s in sessions])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    events, owner = [], []
    refused = {}
    for s in sessions:
        tab = core.intern_table()
        for k, (who, ops, obs) in enumerate((("core", s["core"], core_obs), ("python", s["py"], py_obs), ("core, models saved by Python", s["back"], back_obs))):
            events.append({"a": "reset", "keep": k > 0})
            owner.append((s, who, None, None))
            o = obs[s["id"]]
            o = o + [o[-1]] * (len(ops) - len(o))
            for op, ev, x in zip(ops, [v for v in s["evs"] if k == 1 or not (v and v["a"] == "refuse")], o):
                if ev is None:
                    continue
                e = dict(ev)
                ok, r = result(e, x, "cut" if op and op.get("slot") and e["a"] == "refuse" else k == 1)
                if e["a"] == "refuse":
                    key = "%s: %s" % (op["call"] if op["call"] != "call" else op["m"], x.get("refused", "accepted"))
                    refused[key] = refused.get(key, 0) + 1
                e.update(ok=ok, r=tab(r) if r is not None else 0)
                events.append(e)
                owner.append((s, who, op, x))
                if not ok:
                    break
    ctx.extra["refused_calls"] = refused
    start = bad = 0
    hits = 0
    while start < len(events) and bad < 5:
        matched, r = core.validate_trace(ctx, "WorkspaceTrace", events[start:], W.trace_constants(events[start:]), tag="-%d" % bad)
        hits += next((x["hits"] for x in r.prints if "hits" in x), 0)
        if matched >= len(events) - start:
            break
        s, who, op, x = owner[start + matched]
        e = events[start + matched]
        ctx.violate("%s: %s -> %s (%s)" % (who, json.dumps(op)[:500], json.dumps(x)[:300],
                                           "a call that cannot be honoured was not refused with an exception" if e["a"] == "refuse" else
                                           "the call failed" if not e.get("ok", True) else "differs from the same call on the core library"),
                    {"session": {k: s[k] for k in ("core", "py")}, "op": op, "observed": x, "who": who})
        bad += 1
        j = start + matched + 1
        while j < len(events) and not (events[j]["a"] == "reset" and not events[j]["keep"]):
            j += 1
        start = j
    ctx.traces += 3 * len(sessions)
    ctx.extra["agreements_checked"] = hits
    ctx.sample({"py": sessions[0]["py"][:12], "observed": py_obs[sessions[0]["id"]][:12]})
    if not hits and not ctx.violations:
        raise core.ToolError("vacuous: nothing was compared")


# ------------------------------------------------------------------ one session

def plan(ctx, k, beh, simple, cb, tmp, bad):
    r = ctx.rng
    while True:
        uni = W.universe(r, kind=r.choice(["simple", "cb", "cb"]))
        cfg = uni["config"]
        if "Binary" not in json.dumps(cfg):
            break
    bits = r.choice([4, 8, 14, 18])
    cfg["globalConfig"]["numBits"] = bits
    kind = uni["kind"]
    ft, lt = P.ftypes(kind)
    positional = "ElementwiseInteraction" in json.dumps(cfg)
    exs = []
    for _ in range(3):
        if kind == "simple" and not positional and r.random() < .06:
            exs.append({"none": True, "label": {"simple": [r.choice(W.LABELS), r.choice(W.WEIGHTS)]}})
            continue
        e = r.choice(cb if kind == "cb" else simple)
        t = r.choice(e["r"])
        x = {"fmt": t["f"], "text": t["text"], "dict": False}
        if positional:
            x.update(fmt="json", text=W.rand_positional(r)["text"])
        if x["fmt"] != "vw" and r.random() < .5 and plain(x["text"]):
            # sorted: how the members of a dictionary are ordered on the way in is nobody's promise
            x.update(dict=True, text=json.dumps(json.loads(x["text"]), sort_keys=True, ensure_ascii=False))
        if e["m"]["label"]["k"] == "none" or positional or r.random() < .3:
            x["label"] = {"cb": [r.randrange(len(e["m"]["actions"])), r.choice(W.COSTS), r.choice(W.PROBS)]} if kind == "cb" else \
                {"simple": [r.choice(W.LABELS), r.choice(W.WEIGHTS)]}
        exs.append(x)
    core_ops, py_ops, back_ops, evs = [], [], [], []
    objs, file = {}, 0
    slotfile = {}
    keep = r.random() < .6
    common = dict(keep=keep, seed=uni["seed"], bits=bits, ftype=ft, ltype=lt)
    for op in beh:
        a = op["a"]
        if a == "show":     # Python's feature objects cannot be looked into
            continue
        ev = dict(op)
        if a == "new":
            c = {"op": "new", "ws": op["w"], "config": cfg}
            p = c
        elif a == "make":
            i = int(op["e"][1:]) - 1
            x = exs[i]
            objs[op["o"]] = i
            if "none" in x:
                c = {"op": "feats", "f": op["o"], "spec": {"simple": []}, "seed": uni["seed"]}
                p = dict(common, op="make", f=op["o"])
            else:
                c = dict(common, op="parse", f=op["o"], fmt=x["fmt"], text=x["text"], pool="p")
                p = dict(common, op="make", f=op["o"], fmt=x["fmt"], text=x["text"], dict=x["dict"])
                if r.random() < .4:
                    p["config"] = cfg
            ev["none"] = "none" in x
        elif a == "recycle":
            objs.pop(op["o"])
            c = {"op": "recycle", "f": op["o"], "pool": "p"}
            p = c
        elif a in ("predict", "learn", "ptl"):
            c = {"op": a, "ws": op["w"], "f": op["o"], "how": r.randrange(3)}
            if "label" in exs[objs[op["o"]]]:
                c["label"] = exs[objs[op["o"]]]["label"]
            p = c
        elif a == "dump":
            c = {"op": "dump", "ws": op["w"], "full": True}
            p = c
            ev["d"] = "c"
        elif a == "save":
            file += 1
            f = os.path.join(tmp, "%d-%d" % (k, file))
            slotfile[op["s"]] = (f, op["f"])
            c = {"op": "save", "ws": op["w"], "slot": op["s"], "fmt": op["f"], "full": True}
            p = dict(c, text=r.random() < .5)
            ev["d"] = "c"
            back_ops.append(dict(c))
            if op["f"] == "bin":
                c["file"] = f + ".core"
            p["file"] = f + ".py"
        elif a == "load":
            f, fmt = slotfile[op["s"]]
            c = {"op": "load", "ws": op["w"], "slot": op["s"], "fmt": fmt}
            p = dict(c, **{"as": r.choice(["list", "bytes", "bytearray"])})
            if fmt == "bin" and r.random() < .4:
                p["file"] = f + ".core"
            back_ops.append({"op": "loadfile", "ws": op["w"], "path": f + ".py", "fmt": fmt})
        elif a == "refuse":
            p = refusal(r, op["y"], common, cfg, kind, objs, beh, op, bad[kind])
            c = None
        if c is not None:
            core_ops.append(c)
            if a not in ("save", "load"):
                back_ops.append(c)
        py_ops.append(p)
        evs.append(ev)
    return {"id": k, "core": core_ops, "py": py_ops, "back": back_ops, "evs": evs}


def plain(text):
    """JSON whose objects do not repeat a key: it can be passed as a dictionary."""
    seen = []

    def hook(pairs):
        if len({k for k, _ in pairs}) < len(pairs):
            seen.append(1)
        return dict(pairs)
    v = json.loads(text, object_pairs_hook=hook)
    return not seen and isinstance(v, dict)


def result(e, x, python):
    a = e["a"]
    if a == "refuse":
        # an example or argument that makes no sense may surface as the panic of an assertion inside the
        # library (the parsers refuse much that way); the caller is told and the process lives
        return x.get("refused") == "exception" or ((e["y"] in ("type", "text") or python == "cut") and "refused" in x), None
    if any(q in x for q in ("panic", "err", "crash", "accepted", "made of")):
        return False, None
    if a == "new":
        t = {q: x["ok"][q] for q in ("label", "features", "prediction")}
        t["features"] = t["features"].replace("CBAdf", "CbAdf")
        return True, t
    if a == "make":
        if python:
            return True, [x["features"], x["label"]]
        if e.get("none"):
            return True, ["simple", None]
        return True, ["simple" if "simple" in x["features"] else "cb", label(x["label"])]
    if a in ("predict", "ptl"):
        if not python:
            x = dict(x, prediction=bits(x["prediction"]), raw=bits(x["raw"])) if x["type"] == "Scalar" else dict(x, v=[[i, bits(v)] for i, v in x["v"]])
        return True, x
    if a in ("dump", "save"):
        return True, canon(x)
    return True, None


def bits(v):
    return 0 if v[0] == 0x80000000 else v[0]


def label(l):
    if l is None:
        return None
    if "simple" in l:
        return {"simple": [bits(v) for v in l["simple"]]}
    return {"cb": [l["cb"][0], bits(l["cb"][1]), bits(l["cb"][2])]}


def canon(v):
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, list):
        return [canon(x) for x in v]
    return 0 if isinstance(v, float) and v == 0 else v


# ------------------------------------------------------------------ calls that cannot be honoured

def refusal(r, why, common, cfg, kind, objs, beh, op, bad):
    o = {"op": "refuse"}
    if why == "config":
        base = r.choice(["Coin", "Greedy", "CbMtr", "Binary"])
        kinds = {"Coin": ["Coin"], "Greedy": ["Greedy", "CbMtr", "Coin"], "CbMtr": ["CbMtr", "Coin"], "Binary": ["Binary", "Coin"]}[base]
        c = G.spoil(r, kinds, G.spelled(r, kinds, [], len(kinds) + 1))
        if r.random() < .3:
            c = r.choice([{}, {"globalConfig": {}}, {"entryReduction": {"typename": "Coin"}}, {"globalConfig": {}, "entryReduction": {"typename": {"!": "object"}}},
                          {"globalConfig": {"numBits": {"!": "complex"}}, "entryReduction": {"typename": "Coin"}},
                          {"globalConfig": {"#7": 1}, "entryReduction": {"typename": "Coin"}},
                          {"globalConfig": {"!": "set"}, "entryReduction": {"typename": "Coin"}},
                          {"globalConfig": {}, "entryReduction": {"typename": "CbAdf", "config": {"regressor": {"typename": "Binary"}}}},
                          {"!": "object"}, 3, None, [], "Coin"])
        o.update(call="config", config=c)
    elif why == "model":
        if r.random() < .5:
            o.update(call="model", data=[r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 40]))], slot=r.choice(["s1", "s2"]), cut=r.randrange(1 << 30))
        else:
            o.update(call="jsonmodel", model=r.choice([{}, {"global_config": {}}, cfg, {"global_config": {"!": "set"}}, {"!": "object"}, [], 4, {"#1": {"#2": []}},
                                                       {"weights": 3, "feature_index_size": 1, "model_index_size": 1, "feature_state_size": 1,
                                                        "model_index_size_shift": 1, "feature_state_size_shift": 1}]))
    elif why == "text":
        fmt, text = r.choice(bad)
        o.update(common, call="text", fmt=fmt)
        if fmt != "vw" and r.random() < .5:
            o["dict"] = r.choice([{}, {"features": 3, "c": 3}, {"features": {"f": {"!": "object"}}, "c": {"!": "object"}},
                                  {"features": {"f": [{"!": "complex"}]}, "c": {"_multi": [{"f": {"!": "complex"}}]}},
                                  {"#4": 1}, {"features": {"!": "set"}, "c": {"!": "set"}}, {"!": "bytes"}, {"!": "object"}, 5, None])
        else:
            o["text"] = text
        if r.random() < .3:
            o["config"] = cfg
    else:
        # whatever lives at this point of the behaviour
        live, ex = set(), set(objs)
        for x in beh:
            if x is op:
                break
            if x["a"] in ("new", "load"):
                live.add(x["w"])
        if not live:
            o.update(call="config", config={"!": "object"})
            return o
        o.update(call="call", ws=r.choice(sorted(live)), m=r.choice(["predict", "learn", "ptl"]))
        good = {"simple": [1.0, 1.0]} if kind == "simple" else {"cb": [0, 1.0, 0.5]}
        wrong = {"cb": [0, 1.0, 0.5]} if kind == "simple" else {"simple": [1.0, 1.0]}
        x = r.random()
        if x < .5 and ex and o["m"] != "predict":
            o["f"] = r.choice(sorted(ex))
            if r.random() < .5:
                o["label"] = wrong
            else:
                o["junk"] = r.choice([None, 1.0, "x", {"!": "object"}, {"!": "ws"}])
        else:
            o["features"] = r.choice([None, 1, "a b", {"!": "object"}, {"!": "ws"}, {"f": 1}])
            o["label"] = good
    return o
