"""C18 Feature identity depends only on names, seed and width."""
import json
from vlib import core, parsemodel as P

SEEDS = ("0", "1", "7", "4294967295", "2147483648", "123456789")
# names and seeds whose hash lies within 1500 of 2^32 (found by search): unnamed features wrap around
WRAP = [("0", "n3963130"), ("0", "n14798241"), ("7", "n4449540"), ("7", "n13164305")]

# names that look like numbers, places, literals or markup of the formats
ODD = {"0", "1", "2", "17", "007", "-1", "3.5", "1e3", "+2", "0x1f", "4294967297", "true", "null", "nan", "a=b", "$", "#1", "'t", "a/b", "X", "x,y", "ns",
       "a", "b"}


def text(fmt, ns, id_):
    k, n, s, off = id_
    if fmt == "vw":
        if k == "p":
            return "1 |%s %s" % (ns, " ".join([":0.5"] * (off + 1)))
        return "1 |%s %s" % (ns, n if k == "n" else "%s:%s" % (n, s))
    v = [0.5] * (off + 1) if k == "p" else {n: 1.0 if k == "n" else s}
    nn = ns or (" " if fmt == "dsjson" else ":default")
    if fmt == "json":
        return json.dumps({"features": {nn: v}}, ensure_ascii=False)
    return json.dumps({"c": {nn: v, "_multi": [{nn: v}]}}, ensure_ascii=False)


def run(ctx):
    r = core.tlc(ctx, "FeatureId", dict(SEEDS={"0", "1"}, BITS={1, 31}, NSS={"a"}, NAMES={"x"}, STRS={"v"}, OFFS={0, 1}, FMTS={"vw"}),
                 invariants=["Injective", "InStep"], properties=["Stable"], constraints=["Small"], view="State", tag="laws")
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Next"] if "Next" in r.coverage else list(r.coverage)[:1])
    qs = []
    names = {"x", "y", "7", "Käse", "a-b.c", "n" * 17, "abcdefgh" * 17, "q" * 300} | {"f%d" % i for i in range(ctx.pick(6, 40))} | ODD
    r = core.tlc(ctx, "FeatureId", dict(SEEDS=set(SEEDS), BITS={1, 2, 5, 10, 18, 24, 30, 31}, NSS={"", "a", "b", "ünï", "ns_" * 50, "z"},
                                        NAMES=names, STRS={"red", "9l", "s" * 40}, OFFS={0, 1, 2, 17}, FMTS={"vw", "json", "dsjson"}),
                 spec="GenSpec", invariants=["EmitQuery"], tag="gen", coverage=False)
    qs = [q for q in r.prints if q["id"][1] not in ODD or ctx.thorough or
          (q["seed"] in ("0", "4294967295") and q["ns"] in ("", "a") and q["id"][2] in ("", "red"))]
    ctx.states += r.distinct
    for seed, ns in WRAP:
        for b in (1, 18, 31):
            for off in (0, 1, 500, 1600):
                for f in ("vw", "json", "dsjson"):
                    qs.append({"seed": seed, "bits": b, "ns": ns, "id": ["p", "", "", off], "fmt": f})
    # a share of the queries at the narrower widths; every key at 31 bits first
    wide = [q for q in qs if q["bits"] == 31]
    narrow = [q for q in qs if q["bits"] != 31]
    ctx.rng.shuffle(wide)
    ctx.rng.shuffle(narrow)
    narrow = narrow[:ctx.pick(8000, 60000)] + [q for q in narrow[ctx.pick(8000, 60000):] if q["id"][3] >= 500]
    if not ctx.thorough:
        # one format per key at 31 bits is needed; the others are sampled
        seen, keep = set(), []
        for q in wide:
            k = json.dumps([q["seed"], q["ns"], q["id"]])
            if k not in seen or ctx.rng.random() < .35:
                keep.append(q)
            seen.add(k)
        wide = keep
    qs = wide + narrow
    for prof in ("dev", "rel"):
        binary = core.harness(prof)
        sess = []
        for k in range(0, len(qs), 200):
            ops = []
            for q in qs[k:k + 200]:
                cb = q["fmt"] == "dsjson"
                ops.append({"op": "parse", "fmt": q["fmt"], "text": text(q["fmt"], q["ns"], q["id"]),
                            "ftype": "SparseCBAdf" if cb else "SparseSimple", "ltype": "CB" if cb else "Simple",
                            "seed": int(q["seed"]), "bits": q["bits"]})
            sess.append({"id": k, "ops": ops})
        obs = core.run_sessions(binary, sess)
        events, owner = [], []
        for s in sess:
            o = obs[s["id"]]
            o = o + [o[-1]] * (len(s["ops"]) - len(o))
            for q, op, ob in zip(qs[s["id"]:], s["ops"], o):
                e = dict(q)
                e["ok"] = "features" in ob
                e["h"] = e["x"] = 0
                if e["ok"]:
                    f = ob["features"]
                    sp = f["simple"] if "simple" in f else f["actions"][0]
                    want = q["id"][3] + 1
                    if len(sp) != 1 or len(sp[0]) != 2 or len(sp[0][1]) != want or ("shared" in f and f["shared"] != sp):
                        e["ok"] = False
                    else:
                        h = sp[0][0]
                        e["h"] = 0 if h == "default" else int(h[1:]) & 0x7FFFFFFF
                        x = sp[0][1][-1][0]
                        e["x"] = x if x < 2 ** 31 else -1
                        # all earlier unnamed features of the list are in step as well
                        if want > 1 and q["bits"] == 31:
                            xs = [y[0] for y in sp[0][1]]
                            if any((xs[0] + j) % 2 ** 31 != y for j, y in enumerate(xs)):
                                e["x"] = -1
                events.append(e)
                owner.append((op, ob))
        ctx.traces += len(events)
        ctx.sample({"profile": prof, "events": events[:3]})
        cs = dict(SEEDS={"0"}, BITS={1}, NSS={"a"}, NAMES={"x"}, STRS={"v"}, OFFS={0}, FMTS={"vw"})
        matched, _ = core.validate_trace(ctx, "FeatureIdTrace", events, cs, tag="-" + prof)
        if matched < len(events):
            op, ob = owner[matched]
            ctx.violate("the place of a feature breaks the laws: %s (seed %s, %s bits) -> %s [%s build]"
                        % (op["text"][:120], op["seed"], op["bits"], str(ob)[:300], prof),
                        {"op": op, "observed": ob, "event": events[matched], "profile": prof})
