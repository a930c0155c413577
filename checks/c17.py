"""C17 The same example means the same in every input format."""
from vlib import core, parsemodel as P


def run(ctx):
    exs = P.exhaustive(ctx)
    if not ctx.thorough:
        ctx.rng.shuffle(exs)
        exs = exs[:250]
    exs += P.generate(ctx, ctx.pick(400, 3000))
    for prof in ("dev", "rel"):
        binary = core.harness(prof)
        sess, meta = [], []
        per = 25
        n = 0
        for k in range(0, len(exs), per):
            part = exs[k:k + per]
            bits, seed = ctx.rng.choice([(31, 0), (18, 7), (24, 4294967295), (10, 1)])
            keys = sorted({(x["ns"], x["id"]) for e in part for p in [e["m"]["shared"]] + e["m"]["actions"] for x in p})
            ops, evs = [], []
            for ns, i in keys:
                ops.append({"op": "parse", "fmt": "json", "text": P.id_json(ns, i), "ftype": "SparseSimple", "ltype": "Simple",
                            "seed": seed, "bits": bits})
                evs.append({"a": "id", "ns": ns, "id": i})
            todo = []
            for e in part:
                ft, lt = P.ftypes(e["m"]["kind"])
                for r in e["r"]:
                    todo.append((e, r, ft, lt))
                    if r["f"] != "vw-text" and ctx.rng.random() < .25:
                        todo.append((e, dict(r, text=P.escaped(ctx.rng, r["text"])), ft, lt))
            ctx.rng.shuffle(todo)   # any examples before it
            pool = ctx.rng.random() < .5
            for j, (e, r, ft, lt) in enumerate(todo):
                o = {"op": "parse", "fmt": r["f"], "text": r["text"], "ftype": ft, "ltype": lt, "seed": seed, "bits": bits, "f": "f%d" % j}
                if pool:
                    o["pool"] = "p"
                ops.append(o)
                evs.append({"a": "parsed", "m": P.meaning(e["m"])})
                if pool and ctx.rng.random() < .7:
                    ops.append({"op": "recycle", "f": "f%d" % j, "pool": "p"})
                    evs.append(None)
            sess.append({"id": n, "ops": ops})
            meta.append(evs)
            n += 1
        obs = core.run_sessions(binary, sess)
        events, owner = [], []
        for s, evs in zip(sess, meta):
            events.append({"a": "reset"})
            owner.append(None)
            ob = obs[s["id"]]
            if len(ob) < len(evs):
                ob = ob + [ob[-1]] * (len(evs) - len(ob))
            for ev, o, op in zip(evs, ob, s["ops"]):
                if ev is None:
                    continue
                e = dict(ev)
                ok = "features" in o
                e["ok"] = ok
                if ev["a"] == "id":
                    if not ok:
                        ctx.violate("a lone feature is not parsed: %s: %s" % (op["text"], o), {"op": op, "obs": o})
                        return
                    e["hash"], e["idx"] = P.place(o, ev["id"])
                elif ok:
                    e["got"] = P.got(o)
                events.append(e)
                owner.append((op, o))
        ctx.traces += sum(1 for e in events if e["a"] == "parsed")
        ctx.sample({"profile": prof, "event": events[-1], "text": owner[-1][0]["text"]})
        start = bad = 0
        while start < len(events) and bad < 3:
            matched, _ = core.validate_trace(ctx, "ParseTrace", events[start:], tag="-" + prof)
            if matched >= len(events) - start:
                break
            i = start + matched
            op, o = owner[i]
            ctx.violate("%s text %r is parsed to %s, which is not what it means [%s build]" % (op["fmt"], op["text"], str(o)[:400], prof),
                        {"op": op, "observed": o, "event": events[i], "profile": prof})
            bad += 1
            j = i + 1
            while j < len(events) and events[j]["a"] != "reset":
                j += 1
            start = j
    ctx.extra["texts"] = ctx.traces
