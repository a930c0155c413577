"""The Python package, driven like the harness: a session (JSON) per line on standard input, its
observations ("@@" and JSON) on standard output.  Run with the directory of the staged package in
PYTHONPATH; every call goes through the public names of `reductionml`."""
import json, struct, sys, types

try:
    import typing_extensions  # noqa: F401
except ImportError:
    import typing
    m = types.ModuleType("typing_extensions")
    m.NotRequired, m.TypedDict = typing.NotRequired, typing.TypedDict
    sys.modules["typing_extensions"] = m

import reductionml as reml
from reductionml import _reductionml as low

FMT = {"vw": reml.FormatType.VwText, "json": reml.FormatType.Json, "dsjson": reml.FormatType.DsJson}
FT = {"SparseSimple": reml.FeaturesType.SparseSimple, "SparseCBAdf": reml.FeaturesType.SparseCbAdf}
LT = {"Simple": reml.LabelType.Simple, "CB": reml.LabelType.CB, "Binary": reml.LabelType.Binary}


def bits(x):
    if not isinstance(x, float):
        return ["not a float", repr(x)]
    b = struct.unpack("<I", struct.pack("<f", x))[0]
    if struct.unpack("<f", struct.pack("<f", x))[0] != x and x == x:
        return ["not single precision", repr(x)]
    return 0 if b == 0x80000000 else b


def label_json(l):
    if l is None:
        return None
    if type(l) is reml.SimpleLabel:
        return {"simple": [bits(l.value), bits(l.weight)]}
    if type(l) is reml.CbLabel:
        return {"cb": [l.action, bits(l.cost), bits(l.probability)]}
    return {"other": repr(type(l))}


def pred_json(p):
    if type(p) is reml.ScalarPred:
        return {"type": "Scalar", "prediction": bits(p.prediction), "raw": bits(p.raw_prediction)}
    kind = {reml.ActionScoresPred: "ActionScores", reml.ActionProbsPred: "ActionProbs"}.get(type(p))
    return {"type": kind or repr(type(p)), "v": [[a, bits(x)] for a, x in p.value]}


def make_label(v, how):
    if "simple" in v:
        a, w = v["simple"]
        if how == 1 and w == 1.0:
            return reml.SimpleLabel(a)
        return reml.SimpleLabel(value=a, weight=w) if how == 2 else reml.SimpleLabel(a, w)
    a, c, p = v["cb"]
    return reml.CbLabel(action=a, cost=c, probability=p) if how == 2 else reml.CbLabel(a, c, p)


def feats_kind(f):
    return {reml.SparseFeatures: "simple", reml.CbAdfFeatures: "cb"}.get(type(f), repr(type(f)))


def fnv(data):
    h, g, m = 0xcbf29ce484222325, 0x9e3779b97f4a7c15, (1 << 64) - 1
    for x in data:
        h = ((h ^ x) * 0x100000001b3) & m
        g = ((((g << 7) | (g >> 57)) & m ^ x) * 0xff51afd7ed558ccd) & m
    return "%016x%016x" % (h, g)


class Session:
    def __init__(self):
        self.ws, self.ex, self.slots, self.parsers = {}, {}, {}, {}

    def parser(self, op):
        if not op.get("keep"):
            return self.new_parser(op)
        k = json.dumps([op["fmt"], op.get("config")])
        if k not in self.parsers:       # one parser for many examples
            self.parsers[k] = self.new_parser(op)
        return self.parsers[k]

    def new_parser(self, op):
        fmt = FMT[op["fmt"]]
        if "config" in op:      # the parser a workspace offers
            return reml.Workspace.create_from_config(op["config"]).create_parser(fmt)
        return low.create_parser(fmt, FT[op["ftype"]], LT[op["ltype"]], op["seed"], op["bits"])

    def junk(self, v):
        """Things that do not go through JSON."""
        if isinstance(v, dict):
            if list(v) == ["!"]:
                return {"set": {1, 2}, "object": object(), "bytes": b"abc", "tuple": (1, 2), "complex": 1j, "type": int,
                        "ws": next(iter(self.ws.values()), None), "bytearray": bytearray(b"xyz")}[v["!"]]
            return {(int(k[1:]) if k.startswith("#") else k): self.junk(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.junk(x) for x in v]
        return v

    def run(self, op):
        k = op["op"]
        if k == "new":
            w = reml.Workspace.create_from_config(op["config"])
            self.ws[op["ws"]] = w
            t = w.entry_reduction_types
            return {"ok": {"label": str(t.input_label_type).split(".")[-1], "features": str(t.input_features_type).split(".")[-1],
                           "prediction": str(t.output_prediction_type).split(".")[-1]}}
        if k == "make":
            if "text" not in op:
                f = reml.SparseFeatures() if op["ftype"] == "SparseSimple" else reml.CbAdfFeatures()
                l = None
            else:
                f, l = self.parser(op).parse(json.loads(op["text"]) if op["dict"] else op["text"])
            self.ex[op["f"]] = (f, l)
            return {"features": feats_kind(f), "label": label_json(l)}
        if k == "recycle":
            del self.ex[op["f"]]
            return {"ok": True}
        if k in ("predict", "learn", "ptl"):
            w = self.ws[op["ws"]]
            f, l = self.ex[op["f"]]
            if k == "predict":
                return pred_json(w.predict(f))
            if op.get("label"):
                l = make_label(op["label"], op["how"])
                want = {q: [bits(float(struct.unpack("f", struct.pack("f", x))[0])) if isinstance(x, float) else x for x in v]
                        for q, v in op["label"].items()}
                if label_json(l) != want:
                    return {"label": label_json(l), "made of": want}
            if k == "learn":
                w.learn(f, l)
                return {"ok": True}
            return pred_json(w.predict_then_learn(f, l))
        if k == "dump":
            return {"model": self.ws[op["ws"]].serialize_to_json()}
        if k == "save":
            w = self.ws[op["ws"]]
            if op["fmt"] == "bin":
                b = w.serialize()
                self.slots[op["slot"]] = b
                if op.get("file"):
                    open(op["file"], "wb").write(bytes(b))
                return {"len": len(b), "fnv": fnv(b)}
            j = w.serialize_to_json()
            if op.get("file"):
                json.dump(j, open(op["file"], "w"))
            self.slots[op["slot"]] = json.loads(json.dumps(j)) if op["text"] else j
            return {"model": j}
        if k == "load":
            d = self.slots[op["slot"]]
            if op.get("file"):
                d = open(op["file"], "rb").read() if op["fmt"] == "bin" else json.load(open(op["file"]))
            if op["fmt"] == "bin":
                d = {"list": list, "bytes": bytes, "bytearray": bytearray}[op["as"]](d)
                self.ws[op["ws"]] = reml.Workspace.create_from_model(d)
            else:
                self.ws[op["ws"]] = reml.Workspace.create_from_json_model(d)
            return {"ok": True}
        if k == "loadfile":
            if op["fmt"] == "bin":
                w = reml.Workspace.create_from_model(open(op["path"], "rb").read())
            else:
                w = reml.Workspace.create_from_json_model(json.load(open(op["path"])))
            self.ws[op["ws"]] = w
            return {"ok": True}
        if k == "refuse":
            return self.refuse(op)
        raise SystemExit("op " + k)

    def refuse(self, op):
        c = op["call"]
        try:
            if c == "config":
                reml.Workspace.create_from_config(self.junk(op["config"]))
            elif c == "model":
                reml.Workspace.create_from_model(bytes(op["data"]) if op.get("slot") not in self.slots else cut(self.slots[op["slot"]], op["cut"]))
            elif c == "jsonmodel":
                reml.Workspace.create_from_json_model(self.junk(op["model"]))
            elif c == "text":
                p = self.parser(op)
                if "dict" in op:
                    p.parse(self.junk(op["dict"]))
                else:
                    p.parse(op["text"])
            elif c == "call":
                w = self.ws[op["ws"]]
                f = self.ex[op["f"]][0] if op.get("f") in self.ex else self.junk(op.get("features"))
                if op["m"] == "predict":
                    w.predict(f)
                else:
                    l = make_label(op["label"], 0) if "label" in op else self.junk(op["junk"])
                    (w.learn if op["m"] == "learn" else w.predict_then_learn)(f, l)
            else:
                raise SystemExit("call " + c)
        except Exception as e:
            return {"refused": "exception", "what": "%s: %s" % (type(e).__name__, e)}
        except BaseException as e:
            if isinstance(e, (SystemExit, KeyboardInterrupt)):
                raise
            return {"refused": "panic", "what": "%s: %s" % (type(e).__name__, e)}
        return {"accepted": True}


def cut(d, k):
    return bytes(d)[:k % max(1, len(d))] if not isinstance(d, dict) else b""


def main():
    out = sys.stdout
    for line in sys.stdin:
        if not line.strip():
            continue
        sess = json.loads(line)
        st = Session()
        obs = []
        for op in sess["ops"]:
            try:
                obs.append(st.run(op))
            except (SystemExit, KeyboardInterrupt):
                raise
            except Exception as e:
                obs.append({"err": "%s: %s" % (type(e).__name__, e)})
            except BaseException as e:
                obs.append({"panic": "%s: %s" % (type(e).__name__, e)})
        out.write("@@" + json.dumps({"id": sess["id"], "obs": obs}) + "\n")
        out.flush()


main()
