"""C21 Training does not depend on threads, queue size or reporting."""
import json, os, struct
from concurrent.futures import ThreadPoolExecutor
from vlib import core, trainmodel as T, wsmodel as W

THREADS = (0, 1, 2, 3, 8)
QUEUES = (0, 1, 2, 512)


def run(ctx):
    T.model(ctx)
    reml = core.cli(hooks=True)
    vh = core.harness("dev")
    corp = T.corpus(ctx, ctx.pick(150, 500))
    jobs = []
    ndata = ctx.pick(24, 80)
    d = ctx.work
    sessions = []
    sets = []
    for k in range(ndata):
        kind = ctx.rng.choice(["simple", "cb", "cb"])
        fmt = ctx.rng.choice(["vw", "json"] + (["dsjson"] if kind == "cb" else []))
        cfg = T.stack(ctx.rng, kind)
        n = ctx.rng.choice([0, 1, 2, 5, 12, 25, 40]) if k else 30
        exs = [ctx.rng.choice(corp[kind]["lab"]) for _ in range(n)]
        texts = [T.render(ctx.rng, e, fmt) for e in exs]
        for _ in range(2):
            if texts and ctx.rng.random() < .6:
                texts[ctx.rng.randrange(len(texts))] = T.heavy(fmt, kind, ctx.rng.choice([200, 2000]))
        base = os.path.join(d, "d%d" % k)
        T.write(base + ".dat", texts, fmt, kind, ctx.rng)
        json.dump(cfg, open(base + ".json", "w"))
        # reference: the library, one example at a time; half the sets start from a saved model
        start = ctx.rng.random() < .5
        ops = [{"op": "new", "ws": "w", "config": cfg}]
        if start:
            pre = [T.render(ctx.rng, ctx.rng.choice(corp[kind]["lab"]), fmt) for _ in range(3)]
            T.write(base + ".pre", pre, fmt, kind)
            ops += [{"op": "train", "ws": "w", "fmt": fmt, "path": base + ".pre"}, {"op": "savefile", "ws": "w", "path": base + ".start"}]
        ops += [{"op": "train", "ws": "w", "fmt": fmt, "path": base + ".dat"}, {"op": "savefile", "ws": "w", "path": base + ".ref"}]
        sessions.append({"id": k, "ops": ops})
        sets.append(dict(k=k, kind=kind, fmt=fmt, n=n, base=base, start=start, cfg=cfg, texts=texts))
    obs = core.run_sessions(vh, sessions)
    for s in sets:
        o = obs[s["k"]]
        tr = o[-2] if len(o) >= 2 else o[-1]
        if any("panic" in x or "err" in x or "crash" in x for x in o) or len(tr.get("preds", [])) != s["n"]:
            ctx.violate("library training does not process every example of a valid file: %s" % str([x for x in o if "preds" not in x] or tr)[:300],
                        {"set": {k: v for k, v in s.items() if k != "texts"}, "data": s["texts"], "obs": o})
            return
        s["preds"] = tr["preds"]
        combos = [(t, q) for t in THREADS for q in (QUEUES if t else (512,))]
        ctx.rng.shuffle(combos)
        for j, (t, q) in enumerate([(0, 512)] + combos[:ctx.pick(12, 16)]):
            jobs.append((s, j, t, q))

    def one(job):
        s, j, t, q = job
        r = __import__("random").Random("%d-%d-%d" % (ctx.seed, s["k"], j))
        base = "%s.%d" % (s["base"], j)
        args = (["--quiet"] if r.random() < .4 else []) + ["train", "-d", s["base"] + ".dat", "--data-format", T.CLIFMT[s["fmt"]],
                                                           "-o", base + ".model", "--num-parse-threads", str(t), "--queue-size", str(q)]
        args += ["-i", s["base"] + ".start"] if s["start"] else ["-c", s["base"] + ".json"]
        preds = r.random() < .7
        if preds:
            args += ["-p", base + ".preds"]
        if r.random() < .5:
            args += ["--progress", r.choice(["1", "3", "+2", "*1.5", "*2", "100"])]
        ms = ["parsed_features", "example_number"] + (["mse"] if s["kind"] == "simple" else [])
        if r.random() < .4:
            args += ["--metrics", ",".join(r.sample(ms, r.randint(1, len(ms))))]
        rc, so, se = T.run(reml, args, log=base + ".log", seed=ctx.seed * 1000 + j if r.random() < .8 else None)
        lines = open(base + ".preds").read().split("\n")[:-1] if preds and os.path.exists(base + ".preds") else None
        st, wk = T.steps(base + ".log", t == 0)
        return dict(job=job, args=args, rc=rc, err=se[-400:], preds=lines if preds else None, model=T.sha(base + ".model"), steps=st, workers=wk)

    with ThreadPoolExecutor(core.CORES) as ex:
        results = list(ex.map(one, jobs))
    # 1. the log of every run is a behaviour of Training
    log_events, lown = [], []
    for res in results:
        s, j, t, q = res["job"]
        ev = [{"a": "run", "n": s["n"], "bad": [], "unread": [], "workers": res["workers"] or (["w1"] if t else [])}] + res["steps"] \
            + [{"a": "exit", "code": 0 if res["rc"] == 0 else 1, "model": res["model"] is not None}]
        log_events += ev
        lown += [res] * len(ev)
    check_log(ctx, log_events, lown)
    # 2. predictions and model are those of Workspace after the same history
    events, owner = [], []
    for s in sets:
        intern = core.intern_table()
        rs = [r for r in results if r["job"][0] is s]
        hist = [("reference", s["preds"], T.sha(s["base"] + ".ref"))] + [(r["args"], r["preds"], r["model"]) for r in rs]
        for m, (who, preds, model) in enumerate(hist):
            ev = [{"a": "reset", "keep": m > 0}, {"a": "new", "w": "w1", "c": "c1", "ok": True, "r": 1}]
            if preds is not None and len(preds) != s["n"]:
                ev.append({"a": "predict", "w": "w1", "o": "o0", "ok": False, "r": 0, "why": "%d predictions for %d examples" % (len(preds), s["n"])})
            else:
                for x in range(s["n"]):
                    ev.append({"a": "make", "o": "o%d" % x, "e": "e%d" % x, "ok": True, "r": x + 1})
                    if preds is not None:
                        v = single(preds[x]) if m == 0 else json_or(preds[x])
                        ev.append({"a": "predict", "w": "w1", "o": "o%d" % x, "ok": True, "r": intern(v)})
                    ev.append({"a": "learn", "w": "w1", "o": "o%d" % x, "ok": True, "r": 0})
            ev.append({"a": "save", "w": "w1", "s": "s1", "f": "bin", "d": "c1", "ok": model is not None, "r": intern(model)})
            events += ev
            owner += [(s, who, preds, model)] * len(ev)
    start = bad = 0
    while start < len(events) and bad < 3:
        matched, _ = core.validate_trace(ctx, "WorkspaceTrace", events[start:], W.trace_constants(events[start:] + [{"e": "e0", "o": "o0"}]), tag="-cli")
        if matched >= len(events) - start:
            break
        i = start + matched
        s, who, preds, model = owner[i]
        ctx.violate("training as %s: %s is not that of learning the file one example at a time" % (who if isinstance(who, str) else " ".join(who), events[i]),
                    {"data": s["texts"], "config": s["cfg"], "args": who, "event": events[i], "predictions": preds, "reference": s["preds"]})
        bad += 1
        j = i + 1
        while j < len(events) and not (events[j]["a"] == "reset" and not events[j]["keep"]):
            j += 1
        start = j
    ctx.traces += len(results)
    ctx.extra["training_runs"] = len(results)
    ctx.sample({"args": results[1]["args"], "steps": results[1]["steps"][:12]})


def single(v):
    """numbers as single precision"""
    if isinstance(v, list):
        return [single(x) for x in v]
    if isinstance(v, dict):
        return {k: single(x) for k, x in v.items()}
    return struct.unpack("f", struct.pack("f", v))[0] if isinstance(v, float) else v


def json_or(line):
    try:
        return single(json.loads(line))
    except ValueError:
        return "unreadable: " + line


def check_log(ctx, events, owner):
    start = bad = 0
    while start < len(events) and bad < 3:
        matched, _ = core.validate_trace(ctx, "TrainingTrace", events[start:], tag="-%d" % bad)
        if matched >= len(events) - start:
            return
        i = start + matched
        res = owner[i]
        ctx.violate("training is not a behaviour of Training at step %s (exit status %s): %s" % (events[i], res["rc"], " ".join(res["args"])),
                    {"args": res["args"], "event": events[i], "before": events[max(0, i - 20):i], "stderr": res["err"], "rc": res["rc"]})
        bad += 1
        j = i + 1
        while j < len(events) and events[j]["a"] != "run":
            j += 1
        start = j
