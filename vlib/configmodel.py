"""Binding of spec/Stack.tla and spec/Config.tla: concrete configurations for abstract ones."""
import re
from . import core

NAME = {"Coin": "Coin", "Binary": "Binary", "CbMtr": "CbAdf", "CbIps": "CbAdf", "Greedy": "CbExploreAdfGreedy",
        "Softmax": "CbExploreAdfSoftmax", "SquareCb": "CbExploreAdfSquareCb", "Debug": "Debug", "Elementwise": "ElementwiseInteraction"}
CHILD = {"Binary": "regressor", "CbMtr": "regressor", "CbIps": "regressor", "Greedy": "cbAdf", "Softmax": "cbAdf", "SquareCb": "cbAdf",
         "Debug": "next", "Elementwise": "regressor"}
NUM = ["4", True, [1.0], {}, None]
# option -> (documented default, other valid values, values to refuse)
OPTIONS = {
    "Coin": {"alpha": (4.0, [1.0, 10, 0.5], NUM), "beta": (1.0, [0.5, 2, 8.0], NUM), "l1Lambda": (0.0, [0.5, 0.25], NUM), "l2Lambda": (0.0, [0.5, 1], NUM),
             "lossFunction": ({"Squared": {}}, [{"Logistic": {}}], ["squared", {"Square": {}}, 3, None, True]),
             "linkFunction": ("Identity", ["Logistic"], ["identity", "Logit", 1, None, True, ""])},
    "Binary": {},
    "CbMtr": {"cbType": ("mtr", ["mtr"], ["MTR", "Mtr", "dm", 1, None, True, "", {}])},
    "CbIps": {"cbType": ("ips", ["ips"], ["IPS", "Ips", "dr", 1, None, True, "", {}])},
    "Greedy": {"epsilon": (0.05, [0.0, 0.5, 1], NUM)},
    "Softmax": {"uniformEpsilon": (0.0, [0.2, 1], NUM), "lambda": (1.0, [0.5, 4, -2.0], NUM)},
    "SquareCb": {"uniformEpsilon": (0.0, [0.2, 1], NUM), "gammaScale": (10.0, [1.0, 100, 2.5], NUM), "gammaExponent": (0.5, [0.25, 1, 0.0], NUM)},
    "Debug": {"id": ("", ["x", "a b"], [5, None, True, ["x"]]), "prediction": (False, [True], [1, "true", None]), "label": (False, [True], [0, "x", None]),
              "features": (False, [True], [1, "no", None]), "indent": (0, [3, 1], [-1, "2", 1.5, None, True])},
    "Elementwise": {"one": ("Default", [{"Name": "a"}, {"Name": ""}], ["a", {"Named": "a"}, {"Name": 1}, 5, None, "default"]),
                    "two": ("Default", [{"Name": "b"}, {"Name": "a"}], ["b", {"name": "b"}, {"Name": None}, True, None, ""]),
                    "keepOriginalFeatures": (False, [True], [1, "true", None, 0])},
}
GLOBAL = {"numBits": (18, [1, 2, 5, 8, 12], [-1, 256, 1.5, "4", None, True, [4]]),
          "hashSeed": (0, [1, 7, 4294967295], [-1, 4294967296, 1.5, "0", None, False]),
          "constantFeatureEnabled": (True, [False], [1, "true", None, 0, []]),
          "interactions": ([], [[["Default", "Default"]], [[{"Name": "a"}, {"Name": "b"}]], [["Default", {"Name": "a"}, {"Name": "a"}]]],
                           ["ab", 1, None, [1], [["a", "b"]], ["Default"], [[{"Named": "a"}, "Default"]], [[{"Name": 1}, "Default"]], {}, True])}


def misspell(r, name):
    return r.choice(misspellings(name))


def misspellings(name):
    x = [name[0].upper() + name[1:], name + "s", name[:-1], name + " ", " " + name, name.lower(), name.upper(), name.replace("E", "_e"),
         "".join("_" + c.lower() if c.isupper() else c for c in name)]
    words = re.findall(r"[A-Z]?[a-z0-9]+", name)
    x += [words[0], words[-1].lower(), words[-1], "".join(w[0].lower() for w in words), name[:3], "-".join(w.lower() for w in words), "_" + name, name.replace("s", "z")]
    known = {o for d in list(OPTIONS.values()) + [GLOBAL] for o in d} | set(CHILD.values())
    return sorted({y for y in x if y not in known and y})


def wellformed(r, kind, form, child):
    """A written layer: child is the configuration beneath, or None when omitted."""
    o = {}
    for k, (d, others, _) in OPTIONS[kind].items():
        if form == "all" or (form == "some" and r.random() < .5) or (k == "cbType" and kind == "CbIps"):
            o[k] = d if r.random() < .3 else r.choice(others)
            if k == "cbType":
                o[k] = d
    if child is not None:
        o[CHILD[kind]] = child
    items = list(o.items())
    r.shuffle(items)
    out = {"typename": NAME[kind], "config": dict(items)}
    if not items and form == "bare" and r.random() < .7:
        del out["config"]
    if r.random() < .3:
        out = dict(reversed(list(out.items())))
    return out


ILL = ["unknown", "type", "scalar", "beside", "child", "name"]


def malformed(r, kind, form, child):
    x = wellformed(r, kind, r.choice(["bare", "some", "all"]), child)
    x.setdefault("config", {})
    opts = list(OPTIONS[kind])
    ch = CHILD.get(kind)
    if form == "child" and not ch:
        form = "type"
    if form == "type" and not opts:
        form = "unknown"
    if form == "unknown":
        known = set(opts) | {ch}
        cand = [misspell(r, o) for o in opts + ([ch] if ch else [])] + ["zz", "", "typename", "config", "numBits"]
        k = r.choice([c for c in cand if c not in known])
        x["config"][k] = r.choice([1, 0.5, "x", None, False, {}, x["config"].get(ch)] + [x["config"].get(o) for o in opts])
        if r.random() < .4 and k.lower() in [o.lower() for o in opts]:
            x["config"] = {a: b for a, b in x["config"].items() if a.lower() != k.lower() or a == k}
    elif form == "type":
        k = r.choice(opts)
        x["config"][k] = r.choice(OPTIONS[kind][k][2])
    elif form == "scalar":
        x["config"] = r.choice([1, 0, "x", "", True, False, 2.5, "{}"])
    elif form == "beside":
        x[r.choice(["options", "Config", "name", "type", "cfg", "", "config "])] = r.choice([{}, 1, None, x["config"]])
    elif form == "child":
        x["config"][ch] = r.choice([None, 1, "Coin", "", True, {}, {"config": {}}, {"typename": 1}, {"typename": None}, {"typename": ["Coin"]},
                                    {"typeName": "Coin"}, {"typename": "Coin", "conf": {}}, {"typename": ""}, {"typename": "coin"}])
    elif form == "name":
        n = x["typename"]
        x["typename"] = r.choice([n.lower(), n.upper(), n[:-1], n + "X", " " + n, n + " ", n[0].lower() + n[1:], "", "Unknown", "_" + n, 5, None, [n], {n: {}}, n + "Config"])
    return x


def layer(r, kind, form, child, names=None):
    if kind == "Unknown":
        return {"typename": r.choice(["Unknown", "Nothing", "Sgd", "Gd", "CoinBetting", "Cb", "None", "CbExploreAdf"]), "config": r.choice([{}, {"alpha": 1.0}])}
    return wellformed(r, kind, form, child) if form in ("bare", "some", "all") else malformed(r, kind, form, child)


def entry(r, stack):
    """[[kind, form], ...] from the top."""
    c = None
    for kind, form in reversed(stack):
        c = layer(r, kind, form, c)
    return c


def overall(r, glob, stack, bits=None):
    g = {"numBits": bits or r.choice([1, 2, 5])}
    for k, (d, others, _) in GLOBAL.items():
        if k != "numBits" and r.random() < .3:
            g[k] = r.choice([d] + others)
    top = {"globalConfig": g, "entryReduction": entry(r, stack)}
    if glob == "bits":
        g["numBits"] = r.choice([32, 33, 40, 63, 64, 128, 255, 32])
    elif glob == "interaction":
        n = ["Default", {"Name": "a"}, {"Name": "b"}]
        g["interactions"] = [[r.choice(n), r.choice(n)] for _ in range(r.randint(0, 1))]
        g["interactions"].insert(r.randint(0, len(g["interactions"])), [r.choice(n) for _ in range(r.choice([0, 1, 4, 5]))])
    elif glob == "unknown":
        g[r.choice([misspell(r, r.choice(list(GLOBAL))), "alpha", "bits", "num_bits", "hash_seed"])] = r.choice([1, True, [], 4])
    elif glob == "type":
        k = r.choice(list(GLOBAL))
        g[k] = r.choice(GLOBAL[k][2])
    elif glob == "top":
        x = r.random()
        if x < .5:
            top[r.choice(["GlobalConfig", "global", "reduction", "schema", "$Schema", "entry_reduction", "metrics", ""])] = r.choice([{}, 1, None, "x"])
        elif x < .65:
            del top["entryReduction"]
        elif x < .8:
            top["entryReduction"] = r.choice([None, 1, "Coin", {}, {"config": {}}, True])
        elif x < .9:
            top["globalConfig"] = r.choice([1, "x", None, True])
        else:
            top["entryReductions"] = top.pop("entryReduction")
    return top


# ------------------------------------------------------------------ spellings (spec/Config.tla)

DEFAULT_CHAIN = {"Binary": ["Coin"], "CbMtr": ["Coin"], "CbIps": ["Coin"], "Elementwise": ["Coin"],
                 "Greedy": ["CbMtr", "Coin"], "Softmax": ["CbMtr", "Coin"], "SquareCb": ["CbMtr", "Coin"], "Debug": None}


def cut_from(kinds):
    """The first layer (counted from 1) from which on the stack is the default child of the layer above."""
    for p in range(2, len(kinds) + 1):
        if DEFAULT_CHAIN[kinds[p - 2]] == kinds[p - 1:]:
            return p
    return len(kinds) + 1


def section(kinds, layer):
    return GLOBAL if layer == 0 else OPTIONS[kinds[layer - 1]]


def value(kinds, layer, name, v):
    d, others, _ = section(kinds, layer)[name]
    return d if v == 0 else others[v - 1]


def spelled(r, kinds, written, cut, order=True, schema=None):
    """A configuration: written is [[layer, option name, value number]]."""
    def mix(d):
        items = list(d.items())
        if order:
            r.shuffle(items)
        return dict(items)

    def opts(layer):
        return {n: value(kinds, layer, n, v) for j, n, v in written if j == layer}
    below = None
    for j in range(min(len(kinds), cut - 1), 0, -1):
        k = kinds[j - 1]
        o = opts(j)
        if k == "CbIps":
            o["cbType"] = "ips"
        if below is not None:
            o[CHILD[k]] = below
        x = {"typename": NAME[k], "config": mix(o)}
        if not o and r.random() < .6:
            del x["config"]
        below = mix(x)
    top = {"globalConfig": mix(opts(0)), "entryReduction": below}
    if schema or (schema is None and r.random() < .2):
        top["$schema"] = r.choice(["https://raw.githubusercontent.com/jackgerrits/reductionml/main/schemas/config/0.1.0/schema.json", "x", ""])
    return mix(top)


def spoil(r, kinds, cfg):
    """The same with something misspelt, unknown or of the wrong type, anywhere in it."""
    import copy
    cfg = copy.deepcopy(cfg)
    layers, x, j = [], cfg["entryReduction"], 0
    while isinstance(x, dict):
        layers.append(x)
        c = CHILD.get(kinds[j])
        x = x.get("config", {}).get(c) if c else None
        j += 1
    j = r.randrange(len(layers) + 2)
    if j >= len(layers):
        g = cfg["globalConfig"]
        x = r.random()
        if x < .4:
            k = r.choice(list(GLOBAL))
            g[k] = r.choice(GLOBAL[k][2])
        elif x < .8:
            k = r.choice(list(GLOBAL))
            m = misspell(r, k)
            g[m] = g.pop(k) if k in g and r.random() < .6 else GLOBAL[k][0]
        else:
            cfg[r.choice(["GlobalConfig", "global", "reduction", "schema", "$Schema", "entry_reduction", "metrics", "numBits", ""])] = r.choice([{}, 1, None, "x", 18])
        return cfg
    x, k = layers[j], kinds[j]
    bad = malformed(r, k, r.choice(["unknown", "unknown", "type", "type", "scalar", "beside", "child", "name"]), x.get("config", {}).get(CHILD.get(k)))
    x.clear()
    x.update(bad)
    return cfg


def number(r, v, yaml):
    if isinstance(v, int):
        return str(v)
    t = repr(v)
    if v == int(v) and abs(v) < 1e6:
        return r.choice(["%d" % v if v or not t.startswith("-") else t, "%d.0" % v, "%d.00" % v] + ([] if yaml else ["%de0" % v]))
    return t


def to_json(r, v):
    """JSON text with varied spacing and numbers."""
    ws = r.choice(["", " ", "\n", "\n\t "])
    if isinstance(v, dict):
        return "{" + ws + ("," + ws).join(js(r, k) + r.choice([":", " : "]) + to_json(r, x) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ("," + ws).join(to_json(r, x) for x in v) + ws + "]"
    if isinstance(v, str):
        return js(r, v)
    if v is None or isinstance(v, bool):
        return {None: "null", True: "true", False: "false"}[v]
    return number(r, v, False)


def js(r, s):
    import json
    if r.random() < .05 and s:
        return '"' + "".join("\\u%04x" % ord(c) for c in s) + '"'
    return json.dumps(s)


def to_yaml(r, v, ind=0, flow=False):
    """YAML text (no leading newline for scalars and flow collections)."""
    import json
    if isinstance(v, dict):
        if not v:
            return "{}"
        if flow or r.random() < .2:
            return "{" + ", ".join(ystr(r, k, True) + ": " + to_yaml(r, x, 0, True) for k, x in v.items()) + "}"
        out = ""
        for k, x in v.items():
            t = to_yaml(r, x, ind + 2)
            out += "\n" + " " * ind + ystr(r, k) + ":" + (t if t.startswith("\n") else " " + t) + ("  # %s" % k if r.random() < .05 and k and not t.startswith("\n") else "")
        return out
    if isinstance(v, list):
        if not v:
            return "[]"
        if flow or r.random() < .5:
            return "[" + ", ".join(to_yaml(r, x, 0, True) for x in v) + "]"
        out = ""
        for x in v:
            t = to_yaml(r, x, ind + 2)
            if t.startswith("\n"):
                t = t[1 + ind + 2:] if not isinstance(x, list) else t
            out += "\n" + " " * ind + "- " + t
        return out
    if isinstance(v, str):
        return ystr(r, v, flow)
    if v is None or isinstance(v, bool):
        return {None: "null", True: "true", False: "false"}[v]
    return number(r, v, True)


def ystr(r, s, flow=False):
    import json, re
    plain = re.fullmatch(r"[A-Za-z$][\w$]*", s) and s.lower() not in ("true", "false", "null", "yes", "no", "on", "off", "y", "n", "nan", "inf")
    if plain and r.random() < .7:
        return s
    if "'" not in s and "\n" not in s and r.random() < .5:
        return "'" + s + "'"
    return json.dumps(s)
