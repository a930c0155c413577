"""C22 Training always ends, and ends in failure when the data is bad."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, trainmodel as T
from checks import c21

LIMIT = 60      # seconds; a run takes well under one


def spoil(rng, corp, kind, fmt):
    """An example that cannot be used: (how, text)."""
    ways = ["unlabelled", "unlabelled", "garbage", "utf8"]
    how = rng.choice(ways)
    if how == "unlabelled":
        return how, T.render(rng, rng.choice(corp[kind]["unlab"]), fmt)
    if how == "utf8":
        return how, "\udcff\udcfe |a x"
    if fmt == "vw":
        return how, rng.choice(["abc |a x", "1 2x |a x", "1 |a:z x"] if kind == "simple" else
                               ["0:1 |a x\n|a y", "x:1:0.5 |a x\n|a y", "0:1:0.5 |a x\n1:1:0.5 |a y", "0:c:0.5 |a:1 x"])
    return how, rng.choice(["{", "[1,2]", "nonsense", '{"label":1}', '{"label":{"value":"x"},"features":{}}'
                            if kind == "simple" else '{"label":7,"actions":[{}]}', '{"features":{"a":null},"actions":[3],"c":7}'])


def run(ctx):
    T.model(ctx)
    reml = core.cli(hooks=True)
    corp = T.corpus(ctx, ctx.pick(150, 500))
    d = ctx.work
    jobs = []
    for k in range(ctx.pick(260, 2000)):
        kind = ctx.rng.choice(["simple", "cb"])
        fmt = ctx.rng.choice(["vw", "json"] + (["dsjson"] if kind == "cb" else []))
        n = ctx.rng.choice([0, 1, 1, 2, 3, 5, 8, 12, 20])
        texts = [T.render(ctx.rng, ctx.rng.choice(corp[kind]["lab"]), fmt) for _ in range(n)]
        if texts and ctx.rng.random() < .3:
            texts[ctx.rng.randrange(n)] = T.heavy(fmt, kind, 1500)
        bad, how = [], "none"
        if n and ctx.rng.random() < .75:
            for b in sorted({ctx.rng.choice([1, n, ctx.rng.randint(1, n)]) for _ in range(ctx.rng.choice([1, 1, 1, 2]))}):
                h, texts[b - 1] = spoil(ctx.rng, corp, kind, fmt)
                bad.append((b, h))
        many = 0
        if bad and ctx.rng.random() < .25:
            # many more lines after the bad one
            many = ctx.rng.choice([3000, 20000])
            texts += [T.render(ctx.rng, ctx.rng.choice(corp[kind]["lab"]), fmt)] * many
        jobs.append(dict(k=k, kind=kind, fmt=fmt, texts=texts, bad=bad, many=many, n=len(texts), cfg=T.stack(ctx.rng, kind),
                         t=ctx.rng.choice([0, 1, 2, 3, 8]), q=ctx.rng.choice([0, 1, 2, 7, 512])))

    def one(s):
        base = os.path.join(d, "b%d" % s["k"])
        sep = "\n\n" if s["fmt"] == "vw" and s["kind"] == "cb" else "\n"
        with open(base + ".dat", "wb") as f:
            f.write((sep.join(s["texts"]) + (sep if s["texts"] else "")).encode("utf8", "surrogateescape"))
        json.dump(s["cfg"], open(base + ".json", "w"))
        r = __import__("random").Random("%d-%d" % (ctx.seed, s["k"]))
        s["args"] = (["--quiet"] if r.random() < .5 else []) + ["train", "-d", base + ".dat", "--data-format", T.CLIFMT[s["fmt"]],
                    "-c", base + ".json", "-o", base + ".model", "--num-parse-threads", str(s["t"]), "--queue-size", str(s["q"])]
        if r.random() < .4:
            s["args"] += ["-p", base + ".preds"]
        rc, so, se = T.run(reml, s["args"], log=base + ".log", seed=s["k"] if not s["many"] and r.random() < .8 else None, timeout=LIMIT)
        s["rc"], s["err"] = rc, se[-500:]
        s["model"] = os.path.exists(base + ".model")
        s["steps"], s["workers"] = T.steps(base + ".log", s["t"] == 0)
        for x in (".dat", ".log"):
            if s["many"] and os.path.exists(base + x):
                os.remove(base + x)
        return s

    with ThreadPoolExecutor(core.CORES) as ex:
        results = list(ex.map(one, jobs))
    events, owner = [], []
    for s in results:
        rep = {"args": s["args"], "bad": s["bad"], "n": s["n"], "data": s["texts"][:25], "config": s["cfg"], "stderr": s["err"], "rc": s["rc"]}
        if s["rc"] is None:
            ctx.violate("training has not ended after %d s (bad examples %s of %d, %d threads, queue %d)"
                        % (LIMIT, s["bad"], s["n"], s["t"], s["q"]), rep)
            continue
        if s["rc"] < 0:
            ctx.violate("training was ended by signal %d" % -s["rc"], rep)
            continue
        nread = sum(1 for e in s["steps"] if e["a"] == "read")
        if s["many"] and nread > s["bad"][0][0] + 20 * (s["q"] + 16):
            ctx.violate("training read on for %d examples after a bad one" % (nread - s["bad"][0][0]), rep)
            continue
        # reading stops at bytes that are not text; such an example is bad when it is met
        ev = [{"a": "run", "n": s["n"], "bad": [b for b, _ in s["bad"]], "workers": s["workers"] or (["w1"] if s["t"] else [])}]
        ev += s["steps"]
        ev[0]["unread"] = [b for b, h in s["bad"] if h == "utf8"]
        ev.append({"a": "exit", "code": 0 if s["rc"] == 0 else 1, "model": s["model"]})
        events += ev
        owner += [s] * len(ev)
    c21.check_log(ctx, events, owner)
    ctx.traces += len(results)
    ctx.extra["training_runs"] = len(results)
    ctx.extra["runs_with_bad_data"] = sum(1 for s in results if s["bad"])
    ctx.sample({"args": results[0]["args"], "steps": results[0]["steps"][:12], "bad": results[0]["bad"]})
