"""Binding of spec/Pipeline.tla and spec/Training.tla: runs of the real training command."""
import hashlib, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, parsemodel as P, wsmodel as W

CLIFMT = {"vw": "vw-text", "json": "json", "dsjson": "dsjson"}


def model(ctx):
    """Exhaustive check of the pipeline design, and of the properties' ability to fail."""
    base = dict(WS={"MV_w1", "MV_w2"} | ({"MV_w3"} if ctx.thorough else set()), MaxQ=2)
    inv = ["Outcome", "Bounded", "Exclusive", "Order", "NoDeadlock"]
    r = core.tlc(ctx, "Pipeline", dict(base, MaxN=ctx.pick(3, 4), Fault="none"), invariants=inv, properties=["Refines", "Terminates"],
                 timeout=3000)
    ctx.add_tlc(r)
    ctx.require_actions(r, ["RRead", "RSendP", "RWaitP", "RSendL", "RWaitL", "RBreak", "REof", "RCrash", "Takes", "Publishes", "Readies", "Exits",
                            "LRecv", "LLearn", "LFail", "LDone", "Finish"])
    for fault, props, invs in (("keep", ["Terminates"], []), ("die", ["Terminates"], []), ("late", ["Terminates"], [])):
        r = core.tlc(ctx, "Pipeline", dict(WS={"MV_w1", "MV_w2"}, MaxQ=1, MaxN=4, Fault=fault), properties=props, invariants=invs,
                     expect_error=True, tag=fault)
        if r.ok or "violated" not in r.error:
            raise core.ToolError("the faulty pipeline %s satisfies the properties: %s" % (fault, r.error))
    ctx.extra["faulty_designs_rejected"] = ["keep", "die", "late"]


def corpus(ctx, num, tag=""):
    """Labelled and unlabelled examples with their renderings, by kind."""
    ex = P.generate(ctx, num, ("simple",), NSS={"", "a", "b", "c"}, NAMES={"x", "y", "z"}, STRS={"red", "blue"},
                    VALS={"1", "2", "-3.5", "0.25", "0"}, MaxParts=1, MaxNs=3, MaxItems=4, depth=20, tag="ts" + tag)
    cb = P.generate(ctx, num, ("cb",), NSS={"", "a", "b", "c"}, NAMES={"x", "y", "z"}, STRS={"red", "blue"},
                    VALS={"1", "2", "-3.5", "0.25", "0"}, MaxParts=4, MaxNs=2, MaxItems=3, tag="tc" + tag)
    out = {}
    for kind, xs in (("simple", ex), ("cb", cb)):
        out[kind] = {"lab": [e for e in xs if e["m"]["label"]["k"] != "none" and e["m"]["actions"]],
                     "unlab": [e for e in xs if e["m"]["label"]["k"] == "none" and e["m"]["actions"]]}
        if len(out[kind]["lab"]) < 20 or not out[kind]["unlab"]:
            raise core.ToolError("too few examples")
    return out


def render(rng, e, fmt):
    r = rng.choice([r for r in e["r"] if r["f"] == fmt])
    return r["text"]


def write(path, texts, fmt, kind, rng=None):
    """One line per example; bandit examples in VW text as blocks followed by a blank line."""
    sep = "\n\n" if (fmt == "vw" and kind == "cb") else "\n"
    data = sep.join(texts) + (sep if texts else "")
    if rng and rng.random() < .3:
        data = data.rstrip("\n")
    with open(path, "w") as f:
        f.write(data)


def heavy(fmt, kind, n):
    """An example that takes long to parse."""
    feats = {"h%d" % i: 0.001 for i in range(n)}
    if fmt == "vw":
        t = " ".join("h%d:0.001" % i for i in range(n))
        return "1 |a " + t if kind == "simple" else "shared |b y\n0:1:0.5 |a %s\n|a y" % t
    if fmt == "json":
        if kind == "simple":
            return json.dumps({"label": 1, "features": {"a": feats}})
        return json.dumps({"label": {"action": 0, "cost": 1, "probability": 0.5}, "actions": [{"a": feats}, {"a": {"y": 1}}]})
    return json.dumps({"_label_cost": 1, "_label_probability": 0.5, "_labelIndex": 0, "c": {"_multi": [{"a": feats}, {"a": {"y": 1}}]}})


def stack(rng, kind):
    g = W.global_config(rng, bits=rng.choice([6, 10, 14]), interactions=True)
    r = W.cb_stack(rng) if kind == "cb" else W.coin(rng)
    return {"globalConfig": g, "entryReduction": r}


def run(reml, args, log=None, seed=None, timeout=60):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["TERM"] = "xterm"
    if log:
        e["REML_VERIF_LOG"] = log
        if os.path.exists(log):
            os.remove(log)
    if seed is not None:
        e["REML_VERIF_SEED"] = str(seed)
    try:
        p = subprocess.run([reml] + args, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")


def sha(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def steps(log, inline):
    """The log as steps of Training (examples numbered in the order they were read)."""
    out, num, workers, nread, nlearn = [], {}, {}, 0, 0
    if not os.path.exists(log):
        return out, []
    for line in open(log):
        m = re.match(r"(\w+) ([0-9a-f]+) ThreadId\((\d+)\)\n", line)
        if not m:
            break      # cut short when the process died
        step, i, th = m.groups()
        if step == "read":
            nread += 1
            num[i] = nread
            out.append({"a": "read", "x": nread})
        elif step in ("take", "publish"):
            out.append({"a": step, "x": num.get(i, 0), "w": workers.setdefault(th, "w%d" % (len(workers) + 1))})
        elif step == "learned" and inline:
            nlearn += 1
            out.append({"a": "learned", "x": nlearn})
        elif step in ("recv", "learned"):
            out.append({"a": step, "x": num.get(i, 0)})
        else:
            out.append({"a": step})
    return out, sorted(workers.values())
