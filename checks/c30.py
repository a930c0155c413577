"""C30 Success means that everything asked for was completely written."""
import json, os, random, resource, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import core, filemodel as F, trainmodel as T

KEYS = ("f1", "f2", "f3")       # predictions, model, standard output


def run(ctx):
    F.exhaustive(ctx)
    reml = core.cli(hooks=True)
    corp = T.corpus(ctx, ctx.pick(150, 400))
    rng, d = ctx.rng, ctx.work
    kinds = ["train"] * 10 + ["export-model"] * 2 + ["import-model"] * 2 + ["config new", "gen-schema", "gen-completions"]
    jobs = [dict(k=k, cmd=kinds[k % len(kinds)]) for k in range(ctx.pick(90, 600))]
    for j in jobs:
        plan(rng, j, corp, os.path.join(d, "o%d" % j["k"]))

    def work(j):
        return one(reml, j, random.Random("%d-%d" % (ctx.seed, j["k"])), ctx.pick(5, 12))
    with ThreadPoolExecutor(core.CORES) as ex:
        res = list(ex.map(work, jobs))
    events, owner = [], []
    runs = failures = partial = 0
    for j, rs in zip(jobs, res):
        for e, o in rs:
            events.append(e)
            owner.append(o)
            if e["a"] == "run":
                runs += 1
                failures += e["exit"] == "failure"
                partial += any(0 < x["have"] < x["size"] for x in e["outs"])
    if failures < runs // 10 or partial < 10 or failures > runs * .9:
        raise core.ToolError("vacuous: %d runs, %d failures, %d partial outputs" % (runs, failures, partial))
    ctx.extra.update(runs=runs, failed_runs=failures, partial_outputs=partial)
    ctx.traces += runs

    def describe(e, o):
        if o is None:
            raise core.ToolError("event not understood: %s" % e)
        ctx.violate("%s: %s" % (o["what"], json.dumps(e)[:600]), o)
    F.check(ctx, events, owner, describe)
    ctx.sample(events[:3])


def plan(rng, j, corp, base):
    j["base"] = base
    kind = j["kind"] = rng.choice(["simple", "cb"])
    fmt = rng.choice(["vw", "json"] + (["dsjson"] if kind == "cb" else []))
    j["cfg"] = T.stack(rng, kind)
    n = rng.choice([0, 1, 2, 5, 20, 60, 300, 1500]) if j["cmd"] == "train" else rng.choice([0, 1, 4])
    texts = [T.render(rng, rng.choice(corp[kind]["lab"]), fmt) for _ in range(min(n, 40))]
    texts = [rng.choice(texts) for _ in range(n)] if n else []
    T.write(base + ".dat", texts, fmt, kind)
    json.dump(j["cfg"], open(base + ".json", "w"))
    j["train"] = ["train", "-d", base + ".dat", "--data-format", T.CLIFMT[fmt], "-c", base + ".json",
                  "--num-parse-threads", str(rng.choice([0, 0, 1, 2, 4])), "--queue-size", str(rng.choice([1, 7, 512]))]
    outs = []
    if j["cmd"] == "train":
        outs = rng.choice([["f1"], ["f2"], ["f1", "f2"], ["f1", "f2"], ["f1", "f3"], ["f2", "f3"], ["f1", "f2", "f3"]])
        j["period"] = rng.choice(["*2", "1", "50", "400"])
    elif j["cmd"] == "import-model":
        outs = ["f2"]
    else:
        outs = ["f3"]
    j["outs"] = outs


def args(j, paths):
    c = j["cmd"]
    if c == "train":
        a = (["--quiet"] if "f3" not in j["outs"] else []) + list(j["train"])
        if "f3" in j["outs"]:
            a += ["--progress", j["period"]]
        if "f1" in j["outs"]:
            a += ["-p", paths["f1"]]
        if "f2" in j["outs"]:
            a += ["-o", paths["f2"]]
        return a
    if c == "export-model":
        return ["export-model", j["base"] + ".bin"]
    if c == "import-model":
        return ["import-model", j["base"] + ".js", "-o", paths["f2"]]
    if c == "config new":
        return ["config", "new"] + sorted({"simple": ["Coin"], "cb": ["CbExploreAdfGreedy"]}[j["kind"]])
    if c == "gen-completions":
        return ["gen-completions", "bash"]
    return [c]


def call(reml, a, stdout=None, limit=None, timeout=60):
    e = dict(os.environ, RUST_BACKTRACE="0", TERM="xterm", COLUMNS="80")

    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        # standard error goes through a pipe, which the limit does not concern
        p = subprocess.run([reml] + a, env=e, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=pre, restore_signals=False)
        return p.returncode, p.stderr.decode("utf8", "replace")[-300:]
    except subprocess.TimeoutExpired:
        return None, "no end within %d s" % timeout


def one(reml, j, rng, nlimits):
    b = j["base"]
    if j["cmd"] in ("export-model", "import-model"):
        rc, se = call(reml, ["--quiet"] + j["train"] + ["-o", b + ".bin"])
        if rc:
            raise core.Refused(j["train"], se)
        with open(b + ".js", "wb") as f:
            rc, se = call(reml, ["export-model", b + ".bin"], f)
        if rc:
            raise core.Refused("export-model", se)
    ref = {}
    out = []
    rc, se, got, _ = attempt(reml, j, b + ".ref", None, {})
    if rc != 0 or any(got[f] is None for f in j["outs"]):
        raise core.Refused(args(j, {f: f for f in KEYS}), se)
    ref = got
    sizes = {f: len(ref[f]) for f in j["outs"]}
    lims = {0, max(sizes.values()), 1 << 30}
    for f in j["outs"]:
        lims |= {max(0, sizes[f] - 1), sizes[f], sizes[f] + 1}
        lims.add(rng.randrange(sizes[f] + 1))
    lims |= {rng.choice([1, 8191, 8192, 8193, 16384])}
    out.append(({"a": "reset"}, None))
    lims = sorted(lims)
    for n, l in enumerate(lims if len(lims) <= nlimits else sorted(rng.sample(lims, nlimits))):
        # what was there before: nothing, something longer, something shorter
        old = {}
        for f in j["outs"]:
            x = rng.choice(["none", "none", "longer", "shorter"])
            if f != "f3" and x != "none":
                old[f] = b"old " * (sizes[f] // 2 + 2) if x == "longer" else b"old"
        rc, se, got, before = attempt(reml, j, b + ".run", l, old)
        outs = []
        for f in j["outs"]:
            g = got[f]
            outs.append(dict(f=f, m=j["cmd"] + f, size=sizes[f], have=len(g or b""), same=g is not None and ref[f].startswith(g),
                             kept=g == before.get(f) and (g is not None or True)))
        e = {"a": "run", "limit": min(l, 1 << 30), "exit": "success" if rc == 0 else "hang" if rc is None else "crash" if rc < 0 else "failure", "outs": outs}
        a = args(j, {f: f for f in KEYS})
        o = {"what": "reml %s, files limited to %d bytes, exit %s (%s)" % (" ".join(a), l, rc, se), "args": a, "limit": l, "config": j["cfg"],
             "data": open(b + ".dat").read()[:3000], "sizes": sizes}
        out.append((e, o))
        # a model left behind in part is refused, a whole one is what it should be
        if "f2" in j["outs"] and got["f2"] is not None and ref["f2"].startswith(got["f2"]):
            with open(b + ".left", "wb") as f:
                f.write(got["f2"])
            with open(b + ".exp", "wb") as f:
                rc, se = call(reml, ["export-model", b + ".left"], f)
            whole = got["f2"] == ref["f2"]
            e2 = {"a": "load", "f": "f2", "got": (j["cmd"] + "f2") if rc == 0 else "refused" if rc and rc > 0 else "crash"}
            e2["wrote"] = "none" if os.path.getsize(b + ".exp") == 0 else j["cmd"] + "f2"
            out.append((e2, dict(o, what=o["what"] + "; then export-model of what was left, exit %s (%s)" % (rc, se))))
    return out


def attempt(reml, j, base, limit, old):
    paths = {f: base + "." + f for f in KEYS}
    for f in KEYS:
        if os.path.exists(paths[f]):
            os.remove(paths[f])
        if f in old:
            with open(paths[f], "wb") as g:
                g.write(old[f])
    a = args(j, paths)
    if "f3" in j["outs"]:
        with open(paths["f3"], "wb") as g:
            rc, se = call(reml, a, g, limit)
    else:
        rc, se = call(reml, a, None, limit)
    got = {f: open(paths[f], "rb").read() if os.path.exists(paths[f]) else None for f in j["outs"]}
    return rc, se, got, old
