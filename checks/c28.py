"""C28 The published schema describes the configurations that are accepted."""
import json, os, subprocess
from vlib import core, configmodel as G, expandmodel as X
from checks import c08


def run(ctx):
    r = core.tlc(ctx, "ConfigMC", dict(VALUES={0, 1}, LAYERS=2, FROMS={2, 3}, SYNTAXES={"json"}, MaxOther=2),
                 overrides=dict(OPTS="SmallOpts"), invariants=["TypeOK", "Faithful", "Terse"], properties=["Same", "Different"], timeout=1500, tag="laws")
    ctx.add_tlc(r)
    ctx.require_actions(r, ["Sets", "Spells", "Leaves", "Cuts", "Uncut", "Spoil"])
    schemas = published(ctx)
    ss = c08.sweep(ctx) + c08.walks(ctx, ctx.pick(600, 5000))
    cfgs = [sp[0] for s in ss for sp in s["spells"]]
    got = conform(schemas, cfgs)
    # what is accepted is what creating a workspace says
    obs = core.run_sessions(core.harness("dev"), [{"id": k, "ops": [{"op": "new", "ws": "w", "config": c} for c in cfgs[k::40]]} for k in range(40)])
    made = [None] * len(cfgs)
    for k in range(40):
        for i, o in enumerate(obs[k]):
            made[k + 40 * i] = "ok" in o
    for name, sch in schemas.items():
        evs, n = [], 0
        for s in ss:
            e = [({"a": "config", "from": G.cut_from(s["kinds"]), "layers": len(s["kinds"])}, None)]
            for cfg, w, cut, bad, syn in s["spells"]:
                good, ok = got[name][n], made[n]
                n += 1
                where = {"schema": name, "stack": s["kinds"], "configuration": cfg, "spoilt": bad, "conforms": good, "accepted": ok}
                wr = [[a, s["opts"][(a, b)], c] for a, b, c in w]
                e.append(({"a": "spell", "written": wr, "cut": cut, "spoilt": bad, "refused": not ok, "token": 0}, where))
                g = cfg.get("globalConfig")
                if isinstance(g, dict) and (g.get("numBits") in (256, [4]) or g.get("hashSeed") == 4294967296):
                    continue        # a number too large: schemas written for 32-bit and 8-bit formats do not bound them
                e.append(({"a": "schema", "written": wr, "cut": cut, "spoilt": bad, "conforms": good}, where))
            evs.append(e)
        evs.append([({"a": "config", "from": 2, "layers": 1}, None)] + defaults(sch))
        X.validate(ctx, ss + [{"ops": []}], evs, lambda s, w, e: "a schema and the configurations accepted disagree: %s" % json.dumps(w)[:1200], "-" + name, "ConfigTrace")
        ctx.sample([e for e, _ in evs[3]][:5])
    ctx.extra["configurations"] = len(cfgs)


def published(ctx):
    exe = core.cli(hooks=False)
    p = subprocess.run([exe, "gen-schema"], capture_output=True, text=True, timeout=60, env=core.env())
    out = {}
    try:
        out["generated"] = json.loads(p.stdout)
    except ValueError:
        ctx.violate("reml gen-schema prints no schema: %s" % (p.stdout + p.stderr)[-400:], {})
    with open(os.path.join(core.REPO, "schemas", "config", "latest", "schema.json")) as f:
        out["latest"] = json.load(f)
    return out


def conform(schemas, cfgs):
    p = subprocess.run(["python3-vt", os.path.join(core.VERIF, "tools", "conforms.py")], input=json.dumps({"schemas": schemas, "configs": cfgs}),
                       capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise core.ToolError("validating against the schema failed: %s" % p.stderr[-800:])
    return json.loads(p.stdout)


def defaults(sch):
    """The defaults a schema documents, layer 0 the global section, layer 1 each reduction."""
    out = []
    d = sch.get("definitions", {})

    def same(a, b):
        return abs(a - b) <= 1e-6 if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) else a == b and type(a) == type(b)
    places = [(0, d.get("GlobalConfig", {}), G.GLOBAL)] + [(1, d.get(G.NAME[k], {}).get("properties", {}).get("config", {}), G.OPTIONS[k]) for k in G.OPTIONS if k != "CbIps"]
    for layer, props, opts in places:
        for n, (val, _, _) in opts.items():
            has = props.get("properties", {}).get(n, {}).get("default", "none documented")
            out.append(({"a": "default", "layer": layer, "option": 1, "value": 0 if same(val, has) else 1}, {"option": n, "documented default": val, "in the schema": has}))
    return out
