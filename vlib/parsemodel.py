"""Binding of spec/Parse.tla: abstract examples with their renderings, and what parsers made of them."""
import struct
from . import core

NSS = {"", "a", "b", "Zeta", "ünï", "a_namespace_with_a_long_name_0123456789"}
NAMES = {"x", "y1", "7", "Käse", "a-b.c", "long_feature_name_abcdefghijklmnopqrstuvwxyz_0123456789"}
STRS = {"red", "9lives", "v w".replace(" ", "_"), "Wert_ß"}
VALS = {"1", "1.0", "2", "-3.5", "0.25", "1e2", "0", "-7.25e-3", "123456.789"}


def f32(tok):
    v = struct.unpack("f", struct.pack("f", float(tok)))[0]
    return repr(0.0 if v == 0 else v)


def generate(ctx, num, kinds=("simple", "cb"), NSS=NSS, NAMES=NAMES, STRS=STRS, VALS=VALS, MaxParts=4, MaxNs=3, MaxItems=3, depth=24,
             tag="gen"):
    r = core.tlc(ctx, "Parse", dict(NSS=set(NSS), NAMES=set(NAMES), STRS=set(STRS), VALS=set(VALS), KINDS=set(kinds),
                                    MaxParts=MaxParts, MaxNs=MaxNs, MaxItems=MaxItems),
                 invariants=["TypeOK", "LabelFits", "Distinct", "Emit"], simulate=num, depth=depth, tag=tag)
    ctx.transitions += r.generated
    ctx.states += r.generated
    if len(r.prints) < num // 3:
        raise core.ToolError("TLC produced only %d examples" % len(r.prints))
    return r.prints


def exhaustive(ctx, **kw):
    """Every abstract example within small bounds, with its renderings."""
    out = []
    for kinds, b in (({"simple"}, dict(MaxParts=1, MaxNs=2, MaxItems=ctx.pick(1, 2), VALS={"1", "2"} if not ctx.thorough else {"2"})),
                     ({"cb"}, dict(MaxParts=ctx.pick(2, 3), MaxNs=1, MaxItems=1, VALS={"2"}))):
        c = dict(NSS={"", "a"}, NAMES={"x"}, STRS={"red"}, KINDS=kinds, **b)
        r = core.tlc(ctx, "Parse", c, invariants=["TypeOK", "LabelFits", "Distinct", "Emit"], tag="all" + min(kinds))
        ctx.add_tlc(r)
        ctx.require_actions(r, ["AddNs", "Finish"])
        out += r.prints
    return out


def escaped(rng, text):
    """The same JSON text with characters of its strings written as escape sequences."""
    out, inside, esc = [], False, False
    share = rng.choice([.05, .3, 1.0])
    for c in text:
        if esc or c == "\\":
            esc = not esc
            out.append(c)
        elif c == '"':
            inside = not inside
            out.append(c)
        elif inside and (ord(c) > 126 or rng.random() < share) and ord(c) < 0x10000:
            out.append("\\u%04x" % ord(c) if c != "/" or rng.random() < .5 else "\\/")
        else:
            out.append(c)
    return "".join(out)


def ftypes(kind):
    return ("SparseSimple", "Simple") if kind == "simple" else ("SparseCBAdf", "CB")


def id_json(ns, id_, names=None):
    """A text with one feature only (JSON), to learn its place."""
    import json
    k = id_[0]
    if k == "p":
        n = int(id_[1:])
        v = [0] * n + [1]
    elif k == "s":
        n, s = id_[1:].split("=", 1)
        v = {n: s}
    else:
        v = {id_[1:]: 1}
    return json.dumps({"features": {ns or ":default": v}}, ensure_ascii=False)


def place(obs, id_):
    """(namespace hash, index) of the last feature seen by a lone-feature parse"""
    sp = obs["features"]["simple"]
    return sp[0][0], sp[0][1][-1][0]


def got(obs):
    """Observation -> what ParseTrace compares."""
    def part(sp):
        if sp is None:
            return []
        out = []
        for item in sp:
            if len(item) != 2:
                out.append(["corrupt", 0, str(item)])
            for i, v in item[1]:
                out.append([item[0], i, repr(float(v[1])) if not isinstance(v[1], str) else v[1]])
        return out
    f = obs["features"]
    if "simple" in f:
        shared, actions = [], [part(f["simple"])]
    else:
        shared, actions = part(f["shared"]), [part(a) for a in f["actions"]]
    lab = obs.get("label")
    if lab is None:
        l = {"k": "none"}
    elif "simple" in lab:
        l = {"k": "simple", "v": repr(float(lab["simple"][0][1])), "w": repr(float(lab["simple"][1][1]))}
    elif "cb" in lab:
        l = {"k": "cb", "a": lab["cb"][0], "c": repr(float(lab["cb"][1][1])), "p": repr(float(lab["cb"][2][1]))}
    else:
        l = {"k": str(lab)}
    return {"shared": shared, "actions": actions, "label": l}


def meaning(m):
    """Meaning as emitted -> numbers in the common notation (weight 1 when not written)."""
    def part(p):
        return [{"ns": x["ns"], "id": x["id"], "v": f32(x["v"])} for x in p]
    l = dict(m["label"])
    if l["k"] == "simple":
        l["v"], l["w"] = f32(l["v"]), f32(l["w"] or "1")
    elif l["k"] == "cb":
        l["c"], l["p"] = f32(l["c"]), f32(l["p"])
    return {"shared": part(m["shared"]), "actions": [part(a) for a in m["actions"]], "label": l}
