"""C20 A data stream is split into exactly its examples."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import core, trainmodel as T

INV = ["Conserved", "Framed", "Squeezed", "Labelled"]
NONE = 99


def model(ctx):
    r = core.tlc(ctx, "Chunker", dict(MaxLines=ctx.pick(6, 8), MODES={"single", "strict", "multi"}), invariants=INV)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Read", "Eof"])
    r = core.tlc(ctx, "Chunker", dict(MaxLines=ctx.pick(4, 5), MODES={"single", "strict", "multi"}), invariants=INV + ["Emit"], tag="all", coverage=False)
    short = r.prints
    r = core.tlc(ctx, "Chunker", dict(MaxLines=40, MODES={"single", "strict", "multi", "multi"}), invariants=INV + ["Emit"],
                 simulate=ctx.pick(500, 4000), depth=42, tag="gen",
                 action_constraints=["LongEnough"])
    longer = [p for p in r.prints if len(p["kinds"]) > 5]
    if len(short) < 100 or len(longer) < 50:
        raise core.ToolError("too few streams generated (%d, %d)" % (len(short), len(longer)))
    ctx.transitions += r.generated
    return short, longer


def line_pool(ctx, corp):
    """Distinct lines by (format, kind)."""
    pool = {}
    for e in corp["simple"]["lab"]:
        for f in ("vw", "json"):
            pool.setdefault((f, "simple", "data"), set()).add(T.render(ctx.rng, e, f))
    for e in corp["cb"]["lab"]:
        for f in ("json", "dsjson"):
            pool.setdefault((f, "cb", "data"), set()).add(T.render(ctx.rng, e, f))
        for x in T.render(ctx.rng, e, "vw").split("\n"):
            head = x.split("|")[0].strip()
            k = "shared" if head == "shared" else "label" if ":" in head else "action"
            pool.setdefault(("vw", "cb", k), set()).add(x)
    return {k: sorted(v) for k, v in pool.items()}


def run(ctx):
    short, longer = model(ctx)
    corp = T.corpus(ctx, 300)
    pool = line_pool(ctx, corp)
    r = ctx.rng
    streams = []
    for p in short + longer:
        variants = [("vw", "cb")] if p["mode"] == "multi" else [("vw", "simple")] if p["mode"] == "single" else \
            [("vw", "simple"), ("json", "simple"), ("json", "cb"), ("dsjson", "cb")]
        for fmt, kind in variants:
            chosen = []
            used = set()
            for k in p["kinds"]:
                if k == "blank":
                    chosen.append(r.choice(["", "", "", " ", "\t "]))
                else:
                    x = r.choice(pool[(fmt, kind, k)])
                    for _ in range(30):
                        if x not in used:
                            break
                        x = r.choice(pool[(fmt, kind, k)])
                    used.add(x)
                    chosen.append(x)
            for end in ("lf", "crlf", "mixed"):
                if p in longer and end != r.choice(["lf", "crlf", "mixed"]):
                    continue
                for final in (True, False):
                    if not final and not chosen:
                        continue
                    text = ""
                    for j, x in enumerate(chosen):
                        t = {"lf": "\n", "crlf": "\r\n"}.get(end) or r.choice(["\n", "\r\n"])
                        text += x + (t if final or j < len(chosen) - 1 else "")
                    streams.append(dict(mode=p["mode"], kinds=p["kinds"], fmt=fmt, kind=kind, lines=chosen, text=text, end=end,
                                        final=final, cap=r.choice([1, 2, 3, 7, 64, 8192]), reuse=r.random() < .5))
    bits, seed = 18, 0
    if not ctx.thorough and len(streams) > 2500:
        streams = r.sample(streams, 2500)
    for prof in ("dev", "rel"):
        check(ctx, core.harness(prof), prof, streams, bits, seed)
    command(ctx, streams)


def types(kind):
    return dict(ftype="SparseSimple" if kind == "simple" else "SparseCBAdf", ltype="Simple" if kind == "simple" else "CB", seed=0, bits=18)


def check(ctx, binary, prof, streams, bits, seed):
    # every distinct line on its own
    lone = sorted({(s["fmt"], s["kind"], k, x) for s in streams for k, x in zip(s["kinds"], s["lines"]) if k != "blank"})
    sess = [{"id": i, "ops": [dict(op="parse", fmt=f, text=x, **types(kind))]} for i, (f, kind, k, x) in enumerate(lone)]
    base = len(sess)
    sess += [{"id": base + i, "ops": [dict(op="stream", fmt=s["fmt"], text=s["text"], cap=s["cap"], reuse=s["reuse"], **types(s["kind"]))]}
             for i, s in enumerate(streams)]
    obs = core.run_sessions(binary, sess)
    intern = core.intern_table()
    ident = {}
    for i, (f, kind, k, x) in enumerate(lone):
        o = obs[i][0]
        if "features" not in o:
            ctx.violate("a line on its own is not parsed: %r: %s" % (x, o), {"line": x, "obs": o})
            return
        ident[(f, kind, k, x)] = line_id(intern, o, k)
    events, owner = [], []
    for i, s in enumerate(streams):
        o = obs[base + i][0]
        ev = [{"a": "stream", "mode": s["mode"]}]
        ev += [{"a": "line", "k": k, "i": 0 if k == "blank" else ident[(s["fmt"], s["kind"], k, x)]} for k, x in zip(s["kinds"], s["lines"])]
        ok = "err" not in o and "examples" in o and not o.get("again") and all("features" in e for e in o["examples"])
        got = [example(intern, e, s) for e in o["examples"]] if ok else []
        ev.append({"a": "eof", "ok": ok, "got": got})
        events += ev
        owner += [(s, o)] * len(ev)
    start = bad = 0
    while start < len(events) and bad < 3:
        matched, _ = core.validate_trace(ctx, "ChunkerTrace", events[start:], tag="-%s%d" % (prof, bad))
        if matched >= len(events) - start:
            break
        s, o = owner[start + matched]
        ctx.violate("the %s stream %r is not read as its examples (capacity %d): got %s [%s build]" % (s["fmt"], s["text"][:300], s["cap"], str(o)[:300], prof),
                    {"stream": s, "observed": o, "expected_frames": s["kinds"], "profile": prof})
        bad += 1
        j = start + matched + 1
        while j < len(events) and events[j]["a"] != "stream":
            j += 1
        start = j
    ctx.traces += len(streams)
    ctx.extra["streams_" + prof] = len(streams)
    ctx.sample({"text": streams[-1]["text"][:500], "kinds": streams[-1]["kinds"]})


def line_id(intern, o, k):
    if k == "data":
        return intern([o["features"], o["label"]])
    f = o["features"]
    if k == "shared":
        return intern(["s", f["shared"]])
    return intern(["a", f["actions"][0], o["label"]["cb"][1:] if k == "label" else None])


def example(intern, o, s):
    if s["mode"] != "multi":
        return {"shared": 0, "actions": [intern([o["features"], o["label"]])], "at": NONE}
    f = o["features"]
    if "actions" not in f:
        return {"shared": -1, "actions": [], "at": -1}
    at = o["label"]["cb"][0] if o["label"] else NONE
    return {"shared": 0 if f["shared"] is None else intern(["s", f["shared"]]),
            "actions": [intern(["a", a, o["label"]["cb"][1:] if j == at else None]) for j, a in enumerate(f["actions"])], "at": at}


def command(ctx, streams):
    """The command line reads the same examples from files (all of them labelled)."""
    reml = core.cli(hooks=True)
    r = ctx.rng
    ok = []
    for s in streams:
        blocks, cur = [], []
        for k in s["kinds"] + ["blank"]:
            if k == "blank":
                if cur:
                    blocks.append(cur)
                cur = []
            else:
                cur.append(k)
        if s["mode"] != "multi" or all("label" in b for b in blocks):
            ok.append(s)
    ok = r.sample(ok, min(len(ok), ctx.pick(90, 800)))

    def one(a):
        i, s = a
        base = os.path.join(ctx.work, "s%d" % i)
        with open(base + ".dat", "wb") as f:
            f.write(s["text"].encode())
        red = {"typename": "Coin"} if s["kind"] == "simple" else {"typename": "CbAdf", "config": {"regressor": {"typename": "Coin"}}}
        json.dump({"globalConfig": {}, "entryReduction": red}, open(base + ".json", "w"))
        rc, so, se = T.run(reml, ["train", "-d", base + ".dat", "--data-format", T.CLIFMT[s["fmt"]], "-c", base + ".json", "-p", base + ".preds",
                                  "--num-parse-threads", str(i % 3)])
        n = -1
        if rc == 0:
            n = len(open(base + ".preds").read().split("\n")) - 1
        return n, se

    with ThreadPoolExecutor(core.CORES) as ex:
        res = list(ex.map(one, enumerate(ok)))
    events, owner = [], []
    for s, (n, se) in zip(ok, res):
        intern = core.intern_table()
        ev = [{"a": "stream", "mode": s["mode"]}] + [{"a": "line", "k": k, "i": intern(x)} for k, x in zip(s["kinds"], s["lines"])]
        ev.append({"a": "count", "n": n})
        events += ev
        owner += [(s, n, se)] * len(ev)
    # the frames are the machine's own here: only their number was observed
    full = []
    own = []
    for e, o in zip(events, owner):
        if e["a"] == "count":
            s = o[0]
            full.append({"a": "eof", "ok": True, "got": frames(s)})
            own.append(o)
        full.append(e)
        own.append(o)
    matched, _ = core.validate_trace(ctx, "ChunkerTrace", full, tag="-cli")
    if matched < len(full):
        s, n, se = own[matched]
        if full[matched]["a"] != "count":
            raise core.ToolError("the driver's frames are not the specification's")
        ctx.violate("training on the %s stream %r predicts %d examples: %s" % (s["fmt"], s["text"][:300], n, se[-200:]), {"stream": s, "predictions": n, "stderr": se[-500:]})
    ctx.traces += len(ok)
    ctx.extra["streams_cli"] = len(ok)


def frames(s):
    intern = core.intern_table()
    ids = [intern(x) for x in s["lines"]]
    if s["mode"] != "multi":
        return [{"shared": 0, "actions": [i], "at": NONE} for i, k in zip(ids, s["kinds"]) if k != "blank"]
    out, cur = [], []
    for i, k in list(zip(ids, s["kinds"])) + [(0, "blank")]:
        if k != "blank":
            cur.append((i, k))
        elif cur:
            sh = cur[0][0] if cur[0][1] == "shared" else 0
            acts = cur[1:] if sh else cur
            at = next((j for j, (_, q) in enumerate(acts) if q == "label"), NONE)
            out.append({"shared": sh, "actions": [a for a, _ in acts], "at": at})
            cur = []
    return out
