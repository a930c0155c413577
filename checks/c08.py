"""C08 A configuration means the same however it is written."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import core, configmodel as G, expandmodel as X, reducemodel as R, wsmodel as W

BASES = [["Coin"], ["Binary", "Coin"], ["CbMtr", "Coin"], ["CbIps", "Coin"], ["Greedy", "CbMtr", "Coin"], ["Softmax", "CbMtr", "Coin"],
         ["SquareCb", "CbMtr", "Coin"], ["Greedy", "CbIps", "Coin"], ["Softmax", "CbIps", "Coin"], ["Elementwise", "Coin"], ["Debug", "Coin"]]


def run(ctx):
    r = core.tlc(ctx, "ConfigMC", dict(VALUES={0, 1, 2} if ctx.thorough else {0, 1}, LAYERS=2, FROMS={2, 3}, SYNTAXES={"json", "yaml"}, MaxOther=ctx.pick(2, 3)),
                 overrides=dict(OPTS="SmallOpts"), invariants=["TypeOK", "Faithful", "Terse"], properties=["Same", "Different"], timeout=1500, tag="laws")
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Sets", "Spells", "Leaves", "Cuts", "Uncut", "Translates", "Reorder", "Spoil"])
    # every subset of the options of the global section and of one layer, written out with their defaults
    r = core.tlc(ctx, "ConfigMC", dict(VALUES={0}, LAYERS=2, FROMS={2}, SYNTAXES={"json", "yaml"}, MaxOther=0),
                 overrides=dict(OPTS="WideOpts"), invariants=["Say", "TypeOK"], timeout=1500, tag="wide")
    ctx.add_tlc(r)
    ss = subsets(ctx, r.prints) + sweep(ctx) + walks(ctx, ctx.pick(2500, 15000))
    ctx.extra["spellings"] = sum(len(s["spells"]) for s in ss)
    for prof in ("dev", "rel"):
        obs = core.run_sessions(core.harness(prof), [{"id": s["id"], "ops": s["ops"]} for s in ss], timeout=900)
        tab = core.intern_table()
        evs = [events(s, obs[s["id"]], tab) for s in ss]
        X.validate(ctx, ss, evs, lambda s, w, e: "a configuration does not mean what it says [%s]: %s" % (prof, json.dumps(w)[:1200]), "-" + prof, "ConfigTrace")
        ctx.sample([e for e, _ in evs[-1]])
    commands(ctx)


def probes(ctx, kinds, bits, seed, nsname):
    """What is asked of every workspace of a session."""
    r = ctx.rng
    cb = any(k.startswith("Cb") for k in kinds) or kinds[0] in ("Greedy", "Softmax", "SquareCb")
    bin_ = "Binary" in kinds
    ops = []
    for j in range(3):
        ex = R.example(r, bits, R.BASEVALS, maxact=3)
        spec = ex if cb else {"simple": R.part(r, bits, R.BASEVALS)}
        lab = R.cb(R.label(r, ex)) if cb else {"binary": r.random() < .5} if bin_ else {"simple": [r.choice([1.0, -2.0, 60.0, -100.0]), r.choice([1.0, 2.0])]}
        ops.append(({"op": "feats", "f": "e%d" % j, "spec": spec, "seed": seed}, {"op": "x", "f": "e%d" % j, "label": lab}))
    return [f for f, _ in ops], [x for _, x in ops]


def asks(ws, exs, dump):
    out = []
    for x in exs:
        out.append({"op": "predict", "ws": ws, "f": x["f"]})
        out.append({"op": "learn", "ws": ws, "f": x["f"], "label": x["label"]})
    out.append({"op": "ptl", "ws": ws, "f": exs[0]["f"], "label": exs[0]["label"]})
    out += [{"op": "predict", "ws": ws, "f": x["f"]} for x in exs]
    if dump:
        out.append({"op": "dump", "ws": ws, "full": True})
    return out


def session(ctx, k, kinds, spells, written_of, bits, seed):
    """spells: [(config, written, cut, spoilt, syntax)]"""
    r = ctx.rng
    fs, exs = probes(ctx, kinds, bits, seed, "")
    ops, plan = list(fs), [None] * len(fs)
    for j, (cfg, w, cut, bad, syn) in enumerate(spells):
        o = {"op": "new", "ws": "w"}
        if syn == "yaml":
            o["yaml"] = G.to_yaml(r, cfg)
        elif r.random() < .8:
            o["text"] = G.to_json(r, cfg)
        else:
            o["config"] = cfg
        ops.append(o)
        plan.append(("new", j))
        if not bad:
            a = asks("w", exs, bits < 12)
            ops += a
            plan += [("ask", j)] * len(a)
        ops.append({"op": "drop", "ws": "w"})
        plan.append(None)
    opts = {}
    for j in range(len(kinds) + 1):
        for n in G.section(kinds, j):
            opts[(j, n)] = len(opts) + 1
    return {"id": k, "kinds": kinds, "spells": spells, "ops": ops, "plan": plan, "opts": opts}


def subsets(ctx, prints):
    r = ctx.rng
    out = []
    gl = list(G.GLOBAL)
    for kinds in BASES:
        if kinds[0] in ("Greedy", "Softmax") and kinds[1] == "CbIps":
            continue
        names = list(G.OPTIONS[kinds[0]])
        todo = []
        for p in prints:
            if all(j == 0 or i <= len(names) for j, i, _ in p["written"]):
                todo.append(p)
        if not ctx.thorough and len(todo) > 700:
            todo = r.sample(todo, 700)
        spells = []
        for p in todo:
            w = [[0, gl[i - 1], 0] if j == 0 else [1, names[i - 1], 0] for j, i, _ in p["written"] if not (kinds[0] == "CbIps" and j == 1)]
            cut = len(kinds) + 1
            if G.cut_from(kinds) == 2 and r.random() < .6:
                cut = 2
            spells.append((G.spelled(r, kinds, w, cut, order=p["order"] == 1), w, cut, False, p["syntax"]))
        for j in range(0, len(spells), 16):
            out.append(session(ctx, len(out), kinds, [(G.spelled(r, kinds, [], len(kinds) + 1), [], len(kinds) + 1, False, "json")] + spells[j:j + 16], None, 18, 0))
    return out


def sweep(ctx):
    """Every option of every layer, misspelt in every way and of every wrong type."""
    out = []
    seen = set()
    for kinds in BASES:
        spells = []
        for j in [0] + [i for i, k in enumerate(kinds, 1) if k not in seen]:
            if j == 0 and kinds != ["Coin"]:
                continue
            names = dict(G.section(kinds, j))
            if j:
                seen.add(kinds[j - 1])
                if kinds[j - 1] in G.CHILD:
                    names[G.CHILD[kinds[j - 1]]] = None
            for n, opt in names.items():
                def put(key, val, drop):
                    cfg = G.spelled(ctx.rng, kinds, [], len(kinds) + 1)
                    x = cfg["entryReduction"]
                    for i in range(1, j):
                        x = x["config"][G.CHILD[kinds[i - 1]]]
                    o = cfg["globalConfig"] if j == 0 else x.setdefault("config", {})
                    old = o.pop(n, None) if drop else o.get(n)
                    o[key] = old if val is None else val
                    spells.append((cfg, [], len(kinds) + 1, True, "json"))
                for m in G.misspellings(n):
                    put(m, opt[0] if opt else None, True)
                for bad in opt[2] if opt else []:
                    cfg = G.spelled(ctx.rng, kinds, [], len(kinds) + 1)
                    x = cfg["entryReduction"]
                    for i in range(1, j):
                        x = x["config"][G.CHILD[kinds[i - 1]]]
                    (cfg["globalConfig"] if j == 0 else x.setdefault("config", {}))[n] = bad
                    spells.append((cfg, [], len(kinds) + 1, True, ctx.rng.choice(["json", "yaml"])))
        for i in range(0, len(spells), 40):
            out.append(session(ctx, 900000 + 100 * len(seen) + len(out), kinds, spells[i:i + 40], None, 18, 0))
    return out


def walks(ctx, n):
    """Random meanings of random stacks, each in several spellings, some spoilt."""
    r = ctx.rng
    out = []
    for k in range(n):
        kinds = list(r.choice(BASES))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            kinds.insert(r.randrange(len(kinds)), "Debug")
        if kinds[0] == "SquareCb" and "CbIps" in kinds:
            kinds[kinds.index("CbIps")] = "CbMtr"
        opts = [(j, o) for j in range(len(kinds) + 1) for o in G.section(kinds, j) if (j, o) != (0, "numBits") and not (o == "cbType")]
        spells = []
        nb = r.randint(1, len(G.GLOBAL["numBits"][1])) if r.random() < .93 else 0
        bits = G.value(kinds, 0, "numBits", nb)
        hs = r.choice([0, 0, 1, 2, 3])
        seed = G.value(kinds, 0, "hashSeed", hs)
        opts.remove((0, "hashSeed"))
        fixed = [[0, "numBits", nb], [0, "hashSeed", hs]]
        for _ in range(r.randint(1, 2)):
            other = {o: r.randint(1, len(G.section(kinds, o[0])[o[1]][1])) for o in r.sample(opts, min(len(opts), r.choice([0, 0, 1, 2, 3])))}
            meaning = [list(o) + [v] for o, v in other.items()] + [x for x in fixed if x[2]]
            low = max([x[0] for x in meaning] + [0])
            for _ in range(r.randint(2, 4)):
                cuts = [c for c in range(G.cut_from(kinds), len(kinds) + 1) if c > low]
                cut = r.choice(cuts) if cuts and r.random() < .6 else len(kinds) + 1
                w = meaning + [list(o) + [0] for o in opts + [(j, "cbType") for j, q in enumerate(kinds, 1) if q == "CbMtr"] + [x[:2] for x in map(tuple, fixed) if not x[2]]
                               if o not in other and o[0] < cut and r.random() < .4]
                cfg = G.spelled(r, kinds, w, cut)
                syn = r.choice(["json", "yaml"])
                spells.append((cfg, w, cut, False, syn))
                if r.random() < .6:
                    spells.append((G.spoil(r, kinds, cfg), w, cut, True, syn))
        out.append(session(ctx, 100000 + k, kinds, spells, None, bits, seed))
    return out


def events(s, obs, tab):
    evs = [({"a": "config", "from": G.cut_from(s["kinds"]), "layers": len(s["kinds"])}, None)]
    ops = s["ops"]
    got = {}
    obs = obs + [obs[-1]] * (len(ops) - len(obs))
    for op, p, o in zip(ops, s["plan"], obs):
        if p is None:
            continue
        cfg, w, cut, bad, syn = s["spells"][p[1]]
        where = {"stack": s["kinds"], "configuration": op.get("text") or op.get("yaml") or op.get("config") or cfg, "spoilt": bad, "observed": o}
        if p[0] == "new":
            if not ("ok" in o or "err" in o):
                return evs + [({"a": "failed"}, where)]
            got[p[1]] = [o] if "ok" in o else None
            first = where
        elif got[p[1]] is not None:
            if any(x in o for x in ("panic", "err", "crash")):
                return evs + [({"a": "failed"}, where)]
            if op["op"] == "dump":
                red = R.inner(o["model"])
                got[p[1]].append(red["reduction"]["weights"])
            elif op["op"] != "learn":
                got[p[1]].append(o)
        got.setdefault(("w", p[1]), {k: v for k, v in where.items()})
    for j, (cfg, w, cut, bad, syn) in enumerate(s["spells"]):
        if j not in got:
            break
        ref = got[j] is None
        evs.append(({"a": "spell", "written": [[a, s["opts"][(a, b)], c] for a, b, c in w], "cut": cut, "spoilt": bad, "refused": ref,
                     "token": 0 if ref or len(got[j]) < 2 else tab(got[j])}, got[("w", j)]))
    return evs


def commands(ctx):
    """What the command line prints for a stack, and what it says of configurations."""
    r = ctx.rng
    exe = core.cli(hooks=False)
    d = os.path.join(ctx.work, "cli")
    os.makedirs(d, exist_ok=True)
    env = dict(core.env(), RUST_BACKTRACE="0")

    def reml(*a):
        p = subprocess.run([exe] + list(a), capture_output=True, text=True, timeout=60, cwd=d, env=env)
        return p.returncode, p.stdout, p.stderr
    ss = []
    for kinds in BASES:
        if kinds[0] == "Debug" or "CbIps" in kinds:
            continue        # a debug reduction has no default stack to print
        for extra in ([], ["--latest"]):
            rc, so, se = reml("config", "new", G.NAME[kinds[0]], *extra)
            every = [[j, n, 0] for j in range(len(kinds) + 1) for n in G.section(kinds, j)]
            try:
                cfg = json.loads(so)
            except ValueError:
                cfg = {"not json": so[:500], "stderr": se[-500:]}
            spells = [(cfg, every, len(kinds) + 1, False, "json"), (G.spelled(r, kinds, [], G.cut_from(kinds)), [], G.cut_from(kinds), False, "json")]
            if rc != 0:
                ctx.violate("reml config new %s fails: %s" % (G.NAME[kinds[0]], (so + se)[-300:]), {"reduction": kinds[0]})
            ss.append(session(ctx, len(ss), kinds, spells, None, 18, 0))
    for name in ["coin", "", "Unknown", "CbAdf ", "CBAdf", "SquareCb"]:
        rc, so, se = reml("config", "new", name)
        if rc == 0 or "panicked" in se:
            ctx.violate("reml config new %r: %s" % (name, (so + se)[-300:]), {"reduction": name})
    # checking a file says what creating a workspace from it would say
    for k, s in enumerate(walks(ctx, ctx.pick(150, 1000))):
        sp = [x for x in s["spells"] if x[4] == "json"]
        if sp:
            ss.append(dict(session(ctx, 1000 + k, s["kinds"], sp, None, 18, 0), check=True))
    tab = core.intern_table()
    plain = [s for s in ss if not s.get("check")]
    obs = core.run_sessions(core.harness("dev"), [{"id": s["id"], "ops": s["ops"]} for s in plain])
    evs = [events(s, obs[s["id"]], tab) for s in plain]

    def check(s, j):
        f = os.path.join(d, "c%d-%d.json" % (s["id"], j))
        text = G.to_json(ctx.rng, s["spells"][j][0])
        with open(f, "w") as fh:
            fh.write(text)
        rc, so, se = reml("config", "check", f)
        # an answer of the command, not of a crash
        good = (rc == 0 and so.strip() == "ok") or (rc == 1 and "ok" not in so.split() and "panicked" not in se)
        return rc, so, se, good, text
    jobs = [(s, j) for s in ss for j in range(len(s["spells"]))]
    with ThreadPoolExecutor(core.CORES) as ex:
        res = list(ex.map(lambda a: check(*a), jobs))
    seen = {}
    for (s, j), (rc, so, se, good, text) in zip(jobs, res):
        cfg, w, cut, bad, syn = s["spells"][j]
        where = {"stack": s["kinds"], "configuration": text, "spoilt": bad, "reml config check": {"exit": rc, "stdout": so[-300:], "stderr": se[-300:]}}
        e = {"a": "spell", "written": [[a, s["opts"][(a, b)], c] for a, b, c in w], "cut": cut, "spoilt": bad, "refused": rc != 0, "token": 0} if good else {"a": "failed"}
        seen.setdefault(s["id"], []).append((e, where))
    allev = []
    for s in ss:
        head = ({"a": "config", "from": G.cut_from(s["kinds"]), "layers": len(s["kinds"])}, None)
        e = evs[plain.index(s)] if s in plain else [head]
        allev.append(e + seen[s["id"]])
    X.validate(ctx, ss, allev, lambda s, w, e: "the command line and a configuration: %s" % json.dumps(w)[:1200], "-cli", "ConfigTrace")
