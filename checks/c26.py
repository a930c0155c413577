"""C26 Progress reports and metrics account for every example."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import core, trainmodel as T

PERIODS = [("0", "add", 0, 1), ("1", "add", 1, 1), ("2", "add", 2, 1), ("+1", "add", 1, 1), ("+3", "add", 3, 1), ("+7", "add", 7, 1), ("10", "add", 10, 1),
           ("+64", "add", 64, 1), ("1000", "add", 1000, 1), ("*1.5", "mul", 3, 2), ("*2", "mul", 2, 1), ("*1.25", "mul", 5, 4),
           ("*1", "mul", 1, 1), ("*0.5", "mul", 1, 2), ("*3", "mul", 3, 1), ("*10", "mul", 10, 1), ("*1.125", "mul", 9, 8), (None, "mul", 2, 1)]
TITLES = {"mse": "MeanSquaredError", "ips": "Estimated reward (IPS)", "parsed_features": "Parsed features", "example_number": "Example #"}


def model(ctx):
    r = core.tlc(ctx, "ProgressMC", dict(MaxN=ctx.pick(9, 12)), overrides=dict(PERIODS="MCPeriods", FEATS="MCFeats"), invariants=["Ordered", "Additive", "Multiplicative", "Timely", "Complete"],
                 properties=["Monotone"])
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Learn", "End"])


def tables(out):
    """The successive tables as lists of (titles, rows)."""
    res = []
    for blk in re.split(r"\x1b\[\d*A|\x1b\[J", out):
        lines = [l for l in blk.split("\n") if l.strip().startswith("|")]
        if lines:
            cells = [re.split(r"\s*\|\s*|\s{2,}", l.strip().strip("|").strip()) for l in lines]
            res.append((cells[0], cells[1:]))
    return res


def close(a, b):
    return abs(a - b) <= 1e-4 * max(abs(a), abs(b)) + 1e-6


def run(ctx):
    model(ctx)
    reml = core.cli(hooks=True)
    corp = T.corpus(ctx, ctx.pick(200, 600))
    corp["cb"]["lab"] = [e for e in corp["cb"]["lab"] if float(e["m"]["label"]["p"]) > 0]
    jobs = []
    for k in range(ctx.pick(220, 1600)):
        r = ctx.rng
        kind = r.choice(["simple", "cb"])
        fmt = r.choice(["vw", "json"] + (["dsjson"] if kind == "cb" else []))
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 17, 33, 70, r.randint(5, 40), r.randint(100, 200)])
        exs = [r.choice(corp[kind]["lab"]) for _ in range(n)]
        cfg = T.stack(r, kind)
        ms = ["parsed_features", "example_number"]
        if kind == "simple":
            ms.append("mse")
        elif cfg["entryReduction"]["typename"] != "CbAdf":
            ms.append("ips")
        metrics = [r.choice(ms) for _ in range(r.randint(0, 4))]
        jobs.append(dict(k=k, kind=kind, fmt=fmt, exs=exs, cfg=cfg, metrics=metrics, period=r.choice(PERIODS), t=r.choice([0, 0, 1, 3]),
                         texts=[T.render(r, e, fmt) for e in exs]))

    def one(s):
        base = os.path.join(ctx.work, "p%d" % s["k"])
        T.write(base + ".dat", s["texts"], s["fmt"], s["kind"])
        json.dump(s["cfg"], open(base + ".json", "w"))
        s["args"] = ["train", "-d", base + ".dat", "--data-format", T.CLIFMT[s["fmt"]], "-c", base + ".json", "-p", base + ".preds",
                     "--num-parse-threads", str(s["t"])]
        if s["period"][0] is not None:
            s["args"] += ["--progress", s["period"][0]]
        if s["metrics"]:
            s["args"] += ["--metrics", ",".join(s["metrics"])]
        s["rc"], s["out"], s["err"] = T.run(reml, s["args"])
        s["preds"] = [json.loads(x) for x in open(base + ".preds").read().split("\n")[:-1]] if s["rc"] == 0 else []

    with ThreadPoolExecutor(core.CORES) as ex:
        list(ex.map(one, jobs))
    events, owner = [], []
    for s in jobs:
        feats = [len(e["m"]["shared"]) + sum(len(a) for a in e["m"]["actions"]) for e in s["exs"]]
        n = len(feats)
        labs = [e["m"]["label"] for e in s["exs"]]
        ok, why = s["rc"] == 0 and len(s["preds"]) == n, "exit status %s, %d predictions" % (s["rc"], len(s["preds"]))
        want = {}
        if ok and "mse" in s["metrics"]:
            want["mse"] = means([(float(l["v"]) - p["prediction"]) ** 2 for l, p in zip(labs, s["preds"])])
        if ok and "ips" in s["metrics"]:
            want["ips"] = means([-float(l["c"]) * next(q for a, q in p if a == l["a"]) / float(l["p"]) for l, p in zip(labs, s["preds"])])
        snaps = tables(s["out"]) if ok else []
        cols = ["example_number"] + s["metrics"]
        table = []
        if ok and any(t[0] != [TITLES[c] for c in cols] for t in snaps):
            ok, why = False, "titles %s" % snaps[0][0]
        final = snaps[-1][1] if snaps else []
        if ok:
            try:
                for row in final:
                    v = list(zip(cols, row))
                    fits = [k for k in range(1, n + 1) if all(close(float(x), want[c][k - 1]) for c, x in v if c in want)]
                    nums = {int(x) for c, x in v if c == "example_number"}
                    pf = {int(x) for c, x in v if c == "parsed_features"} or {-1}
                    assert len(nums) == 1 and len(pf) == 1 and len(row) == len(cols)
                    table.append({"num": nums.pop(), "feats": pf.pop(), "fits": fits})
            except (AssertionError, ValueError):
                ok, why = False, "row %s" % row
        s["why"] = why
        snap = [len(t[1]) if t[1] == final[:len(t[1])] else -1 for t in snaps]
        ev = [{"a": "run", "kind": s["period"][1], "x": s["period"][2], "y": s["period"][3], "ok": ok, "table": table, "snaps": snap}]
        ev += [{"a": "learn", "f": f} for f in feats] + [{"a": "end"}]
        events += ev
        owner += [s] * len(ev)
        s["table"], s["feats"], s["want"] = final, feats, want
    start = bad = 0
    while start < len(events) and bad < 3:
        matched, _ = core.validate_trace(ctx, "ProgressTrace", events[start:], tag="-%d" % bad)
        if matched >= len(events) - start:
            break
        i = start + matched
        s = owner[i]
        b = next(j for j in range(i, -1, -1) if events[j]["a"] == "run")
        ctx.violate("the training table is not that of Progress at event %s number %d (%s): %s" % (events[i] if events[i]["a"] != "run" else "run", i - b,
                    s["why"], " ".join(s["args"])),
                    {"args": s["args"], "config": s["cfg"], "data": s["texts"], "table": s["table"], "features": s["feats"], "expected": s["want"],
                     "rows": events[b].get("table"), "snapshots": events[b].get("snaps"), "stderr": s["err"][-600:]})
        bad += 1
        j = i + 1
        while j < len(events) and events[j]["a"] != "run":
            j += 1
        start = j
    ctx.traces += len(jobs)
    ctx.extra["rows_checked"] = sum(len(s["table"]) for s in jobs)
    if ctx.extra["rows_checked"] < len(jobs) and not ctx.violations:
        raise core.ToolError("hardly any rows were printed")
    ctx.sample({"args": jobs[1]["args"], "table": jobs[1]["table"][:10], "features": jobs[1]["feats"][:20]})


def means(xs):
    out, s = [], 0.0
    for i, x in enumerate(xs):
        s += x
        out.append(s / (i + 1))
    return out
