"""C29 Damaged or truncated models are refused."""
import copy, json, os, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import core, filemodel as F, trainmodel as T
from checks.c27 import PY

SIZES = ["feature_index_size", "model_index_size", "feature_state_size", "feature_state_size_shift", "model_index_size_shift"]


def run(ctx):
    F.exhaustive(ctx)
    vh = core.harness("dev")
    sess = F.trained(ctx, ctx.pick(40, 300))
    obs = core.run_sessions(vh, [{"id": s["id"], "ops": s["ops"]} for s in sess])
    second, what = [], {}
    for s in sess:
        o = obs[s["id"]]
        if len(o) < len(s["ops"]) or "model" not in o[-1]:
            raise core.Refused(s["ops"][0], o[-1])
        s["len"], s["json"] = o[-2]["len"], o[-1]["model"]
        top = ctx.pick(900, 4000)
        cuts = list(range(s["len"])) if s["len"] <= top else sorted(set(ctx.rng.sample(range(s["len"]), top - 60)) | set(range(30)) | set(range(s["len"] - 30, s["len"])))
        what[s["id"], "cut"] = [("cut", n) for n in cuts] + [("cut", s["len"])]
        second.append({"id": "%d-cut" % s["id"], "ops": s["ops"] + [{"op": "damaged", "slot": "s", "ws": "x", "n": n} for _, n in what[s["id"], "cut"]]})
        js = list(damages(ctx, s["json"]))
        what[s["id"], "json"] = js
        ops = []
        for _, _, m in js:
            ops += [{"op": "put", "slot": "j", "model": m}, {"op": "load", "slot": "j", "ws": "y", "fmt": "json"}]
        # the whole one, last, and what it is
        ops += [{"op": "put", "slot": "j", "model": s["json"]}, {"op": "load", "slot": "j", "ws": "y", "fmt": "json"},
                {"op": "save", "ws": "y", "slot": "k", "fmt": "json", "full": True}]
        second.append({"id": "%d-json" % s["id"], "ops": ops})
    obs = core.run_sessions(vh, second)
    events, owner = [], []

    def ev(e, o):
        events.append(e)
        owner.append(o)
    ncut = njson = 0
    for s in sess:
        ev({"a": "reset"}, None)
        m, o = "m%d" % s["id"], obs["%d-cut" % s["id"]]
        for k, (_, n) in enumerate(what[s["id"], "cut"]):
            x = o[min(len(s["ops"]) + k, len(o) - 1)]
            ev({"a": "place", "f": "f1", "m": m, "size": s["len"], "have": n, "how": "whole"}, None)
            got = "refused" if "refused" in x or assertion(x) else m if x.get("loaded") else "something else" if "loaded" in x else "crash or panic"
            ev({"a": "load", "f": "f1", "got": got, "wrote": "none" if got == "refused" else got},
               ("library, first %d of %d bytes" % (n, s["len"]), x, {"config": s["uni"]["config"], "ops": s["ops"], "cut": n}))
            ncut += 1
        o = obs["%d-json" % s["id"]]
        for k, (how, where, bad) in enumerate(what[s["id"], "json"]):
            x = o[min(2 * k + 1, len(o) - 1)]
            ev({"a": "place", "f": "f1", "m": m, "size": 1, "have": 1, "how": how}, None)
            got = "refused" if "err" in x else "something" if "ok" in x else "crash or panic"
            ev({"a": "load", "f": "f1", "got": got, "wrote": "none" if got == "refused" else got},
               ("library, JSON model, %s: %s" % (how, where), x, {"model": bad, "damage": where}))
            njson += 1
        ev({"a": "place", "f": "f1", "m": m, "size": 1, "have": 1, "how": "whole"}, None)
        got = m if len(o) == 2 * len(what[s["id"], "json"]) + 3 and o[-1].get("model") == s["json"] else "something else"
        ev({"a": "load", "f": "f1", "got": got, "wrote": got}, ("library, whole JSON model", o[-2:], {"model": s["json"]}))
    ctx.extra.update(binary_prefixes=ncut, json_damages=njson)
    nf = files(ctx, sess, ev)
    ctx.extra["files_read_by_commands_and_python"] = nf
    ctx.traces += len(sess)

    def describe(e, o):
        if o is None:
            raise core.ToolError("event not understood: %s" % e)
        ctx.violate("%s: %s, observed %s (%s)" % (o[0], "loaded" if e["got"] not in ("refused", "crash", "crash or panic") else e["got"], json.dumps(o[1])[:300],
                                                 "a damaged model is to be refused, a whole one to be loaded"), o[2])
    F.check(ctx, events, owner, describe)
    ctx.sample({"event": events[1], "load": events[2]})


def assertion(x):
    """The decoder of binary models (a dependency) fails an assertion for a few cut files, where the library says no otherwise."""
    return "panic" in x and "flexbuffers" in x.get("at", "")


def tables(v, path=()):
    """Paths of the weight tables and of the reductions."""
    if isinstance(v, dict):
        if all(k in v for k in SIZES):
            yield "table", path
            return
        if "reduction" in v:
            yield "reduction", path
        for k in v:
            yield from tables(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from tables(x, path + (i,))


def at(v, path):
    for k in path:
        v = v[k]
    return v


def damages(ctx, model):
    rng = ctx.rng

    def d(path, key, f):
        m = copy.deepcopy(model)
        f(at(m, path), key)
        return m

    def rm(x, k):
        del x[k]

    def to(val):
        def f(x, k):
            x[k] = val
        return f
    for k in ("global_config", "entry_reduction"):
        yield "missing", k, d((), k, rm)
        for val in (None, 3, "x", True):
            yield "kind", "%s is %s" % (k, val), d((), k, to(val))
    for val in (None, 3, "x", [], {}, [model], {"weights": {}}):
        yield "garbage", json.dumps(val)[:40], val
    for kind, p in tables(model):
        where = "/".join(map(str, p))
        if kind == "reduction":
            yield "missing", where + "/reduction", d(p, "reduction", rm)
            for val in (None, 3, "x"):
                yield "kind", "%s/reduction is %s" % (where, val), d(p, "reduction", to(val))
            r = at(model, p)["reduction"]
            if isinstance(r, dict) and "type" in r:
                yield "missing", where + "/reduction/type", d(p + ("reduction",), "type", rm)
                for val in ("Nothing", "", None, 3):
                    yield "kind", "%s/reduction/type is %s" % (where, val), d(p + ("reduction",), "type", to(val))
            continue
        yield "missing", where, d(p[:-1], p[-1], rm)
        for val in (None, 3, "x"):
            yield "kind", "%s is %s" % (where, val), d(p[:-1], p[-1], to(val))
        t = at(model, p)
        for k in SIZES + ["weights"]:
            yield "missing", "%s/%s" % (where, k), d(p, k, rm)
            for val in (None, "x", -1, 1.5, True):
                yield "kind", "%s/%s is %s" % (where, k, val), d(p, k, to(val))
        n, mi, st = t["feature_index_size"], t["model_index_size"], t["feature_state_size"]
        w = t["weights"]
        state = [0.5] * st

        def fit(where, f):
            m = copy.deepcopy(model)
            f(at(m, p))
            return "misfit", where, m

        def row(i, v):
            def f(t):
                t["weights"][str(i)] = v
            return f
        for i in sorted({n, n + 1, n * 2, 1 << 20, n + rng.randrange(1000)}):
            yield fit("row %d of %d" % (i, n), row(i, [state]))
        for i in sorted({0, n - 1, rng.randrange(n)}):
            for q in sorted({0, 1, st - 1, st + 1, st * 2} - {st}):
                models = [list(state)] * rng.randint(0, mi - 1) + [[0.25] * q]
                yield fit("row %d has a state of %d numbers, not %d" % (i, q, st), row(i, models))
            yield fit("row %d has %d models, not %d" % (i, mi + 1, mi), row(i, [state] * (mi + 1)))
            yield fit("row %d has no models but a number" % i, row(i, 3))
            yield fit("row %d has numbers for models" % i, row(i, [0.5] * st))
            yield fit("row %d has a string for a number" % i, row(i, [["x"] + state[1:]]))
        yield fit("no room for a row", lambda t: t.update(feature_index_size=0))
        if w:
            top = max(map(int, w))
            yield fit("sizes smaller than the rows", lambda t: t.update(feature_index_size=top))
            yield fit("a larger state than the rows have", lambda t: t.update(feature_state_size=st + 1, feature_state_size_shift=3))
            yield fit("a smaller state than the rows have", lambda t: t.update(feature_state_size=st - 1))
            if max(len(v) for v in w.values()) > 1:
                yield fit("fewer models than the rows have", lambda t: t.update(model_index_size=1, model_index_size_shift=0))


# ------------------------------------------------------------------ commands and Python

def files(ctx, sess, ev):
    """The same through files, read by the commands and by the Python package."""
    rng, d = ctx.rng, ctx.work
    reml = core.cli(hooks=True)
    stage = core.python_pkg()
    py = next(p for p in PY if shutil.which(p))
    jobs, pysess = [], []
    empty = os.path.join(d, "empty.dat")
    open(empty, "w").close()
    for k in range(ctx.pick(170, 1500)):
        s = rng.choice(sess)
        b = os.path.join(d, "x%d" % k)
        how, where, n, size = "whole", "whole", 1, 1
        form = rng.choice(["bin", "bin", "json"])
        by = rng.choice(["export-model", "train", "python"] if form == "bin" else ["import-model", "python"])
        j = dict(k=k, s=s, form=form, by=by, base=b)
        if form == "bin":
            j["save"] = {"op": "save", "ws": "w", "slot": "s", "fmt": "bin", "file": b}
            size = s["len"]
            n = rng.choice([0, 1, 2, 3, size - 1, size - 2, size // 2, rng.randrange(size), rng.randrange(size), size, size])
            where = "first %d of %d bytes" % (n, size)
            if rng.random() < .15:
                how, n, where = "garbage", size, "garbage"
                j["bytes"] = rng.choice([b"\x00", b"no model", b"{}", json.dumps(s["json"]).encode(), bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 7])))])
        else:
            text = json.dumps(s["json"])
            x = rng.random()
            if x < .3:
                how, where, m = rng.choice(list(damages(ctx, s["json"])))
                text = json.dumps(m)
            elif x < .7:
                size = len(text)
                n = rng.choice([0, 1, 2, size - 1, size // 2, rng.randrange(size), rng.randrange(size)])
                where = "first %d of %d characters" % (n, size)
                text = text[:n]
            if by == "python" and how == "whole" and n < size:
                by = j["by"] = "import-model"
            j["text"] = text
        j.update(how=how, where=where, n=n, size=size, m="m%d" % s["id"])
        jobs.append(j)
    # the real library writes the binary models
    core.run_sessions(core.harness("dev"), [{"id": j["k"], "ops": j["s"]["ops"] + [j["save"]]} for j in jobs if "save" in j])
    for j in jobs:
        if "save" in j:
            j["ref"] = open(j["base"], "rb").read()
            if len(j["ref"]) != j["size"]:
                raise core.ToolError("saving the same model twice gives different lengths")
            open(j["base"], "wb").write(j.get("bytes", j["ref"][:j["n"]]))
        else:
            open(j["base"], "w").write(j["text"])

    def one(j):
        out = j["base"] + ".out"
        if os.path.exists(out):
            os.remove(out)
        args = {"export-model": ["export-model", j["base"]], "import-model": ["import-model", j["base"], "-o", out],
                "train": ["train", "-i", j["base"], "-d", empty, "-o", out, "--data-format", "vw-text"]}[j["by"]]
        rc, so, se = T.run(reml, args, timeout=60)
        if rc is None:
            return "hang", "hang", (rc, se[-300:])
        if rc < 0:
            return "crash", "crash", (rc, se[-300:])
        if j["by"] == "export-model":
            wrote = so.encode() if so else None
        else:
            wrote = open(out, "rb").read() if os.path.exists(out) else None
        if j["form"] == "json" and wrote is not None:
            # what was imported, exported again
            rc2, so2, se2 = T.run(reml, ["export-model", out], timeout=60)
            wrote = so2.encode() if rc2 == 0 else b"not a model"
        if wrote is None:
            w = "none"
        elif j["by"] == "train":
            w = j["m"] if wrote == j["ref"] else "something else"
        else:
            try:
                w = j["m"] if json.loads(wrote) == j["s"]["json"] else "something else"
            except ValueError:
                w = "something else"
        return ("refused" if rc else w), w, (rc, se[-300:])
    clis = [j for j in jobs if j["by"] != "python"]
    with ThreadPoolExecutor(core.CORES) as ex:
        for j, r in zip(clis, ex.map(one, clis)):
            j["res"] = r
    pys = [j for j in jobs if j["by"] == "python"]
    fresh = {"op": "new", "ws": "r", "config": {"globalConfig": {}, "entryReduction": {"typename": "Coin"}}}
    po = core.run_sessions([py, os.path.join(core.VERIF, "tools", "pydrive.py")],
                           [{"id": j["k"], "ops": [fresh, {"op": "dump", "ws": "r"},
                                                   {"op": "loadfile", "ws": "r", "path": j["base"], "fmt": j["form"]},
                                                   {"op": "dump", "ws": "r"}]} for j in pys],
                           env={"PYTHONPATH": stage, "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"})
    for j in pys:
        o = po[j["k"]]
        if len(o) < 4:
            j["res"] = ("crash", "crash", o[-1])
            continue
        after = o[3].get("model")
        w = "none" if after == o[1].get("model") else j["m"] if after == j["s"]["json"] else "something else"
        ok = "ok" in o[2]
        # flexbuffers' own assertions (a panic) also refuse a cut binary model
        refused = "err" in o[2] or (j["form"] == "bin" and "unwrap()" not in o[2].get("panic", "unwrap()"))
        j["res"] = ("refused" if refused else w if ok else "panic", w, o[2])
    for j in jobs:
        ev({"a": "reset"}, None)
        ev({"a": "place", "f": "f1", "m": j["m"], "size": j["size"], "have": j["n"], "how": j["how"]}, None)
        got, wrote, x = j["res"]
        ev({"a": "load", "f": "f1", "got": got, "wrote": wrote},
           ("%s, %s model, %s (%s)" % (j["by"], j["form"], j["where"], j["how"]), x, {"config": j["s"]["uni"]["config"], "ops": j["s"]["ops"], "text": j.get("text"), "cut": j["n"], "by": j["by"]}))
    return len(jobs)
