"""C19, C20: pipelines. spec/Pipeline.tla, MCPipeline.tla, PipeTrace.tla; spec/Frames.tla, MCFrames.tla, FrameTrace.tla."""
import json, random
from core import MachineryError, parallel


def real(rng, st):
    """a concrete stage with this interface"""
    st = dict(st); ins, outs = st["ins"], st["outs"]
    opts = ["custom", "focus"]
    if st["free"]: opts += ["clip", "repeat", "clip"]
    else:
        if ins and len(ins) == len(outs) and len(set(outs)) == len(outs): opts += ["rename"] * 2
        if ins and outs == ["to_shuffler"] and len(ins) == 1: opts += ["toshuffler"] * 2
        if ins and not outs: opts += ["drop"] * 3
        if ins == ["quantity"] and outs == ["quantity"]: opts += ["fault"] * 3
    st["real"] = rng.choice(opts)
    if st["real"] == "drop": st["aslist"] = rng.random() < 0.6
    return st


def chain_session(rng, ch, i, datas):
    n = len(ch)
    stages = [real(rng, s) for s in ch]
    steps = [{"act": "mk", "list": list(range(1, n + 1))}]
    run = lambda p, D: {"act": "run", "p": p, "cols": D, "mode": "as is", "flat": rng.random() < 0.3}
    for D in datas: steps.append(run(0, D))
    if n > 1:
        if rng.random() < 0.5: steps.append({"act": "adds", "a": 1, "s": 2})
        else: steps += [{"act": "mk", "list": [1]}, {"act": "addp", "p": -1, "s": 2}]
        for k in range(3, n + 1): steps.append({"act": "addp", "p": -1, "s": k})
        for D in rng.sample(datas, 2): steps.append(run(-1, D))
    steps.append({"act": "call", "s": rng.randint(1, n), "cols": rng.choice(datas), "mode": "as is", "flat": False})
    return {"id": "chain%d" % i, "stages": stages, "steps": steps}


COLS = ["a", "b", "c", "quantity"]


def free_session(rng, i):
    n = rng.randint(3, 6)
    stages = []
    for _ in range(n):
        if rng.random() < 0.2: st = {"free": True, "ins": [], "outs": []}
        else:
            k = rng.random()
            if k < 0.2: st = {"ins": ["quantity"], "outs": ["quantity"]}
            elif k < 0.4: st = {"ins": rng.sample(COLS, rng.choice([0, 1, 1, 2])), "outs": rng.sample(COLS, rng.choice([2, 3, 4]))}
            elif k < 0.5: st = {"ins": [rng.choice(COLS)], "outs": ["to_shuffler"]}
            elif k < 0.65: st = {"ins": rng.sample(COLS, rng.choice([1, 2])), "outs": []}
            elif k < 0.8:
                m = rng.choice([1, 1, 2]); st = {"ins": rng.sample(COLS, m), "outs": rng.sample(COLS + ["x", "y"], m)}
            else: st = {"ins": rng.sample(COLS, rng.choice([0, 1, 2])), "outs": rng.sample(COLS + ["x"], rng.choice([0, 1, 2, 3]))}
            st["free"] = False
        stages.append(real(rng, st))
    steps = []
    for _ in range(rng.randint(8, 16)):
        k = rng.random()
        if k < 0.2: steps.append({"act": "mk", "list": [rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 3, 4]))]})
        elif k < 0.5: steps.append({"act": "addp", "p": rng.randint(0, 99), "s": rng.randint(1, n)})
        elif k < 0.54: steps.append({"act": "junk", "p": rng.randint(0, 99), "pipe": rng.random() < 0.5, "s": rng.randint(1, n), "k": rng.randint(0, 99)})
        elif k < 0.65: steps.append({"act": "adds", "a": rng.randint(1, n), "s": rng.randint(1, n)})
        else:
            e = {"cols": rng.sample(COLS, rng.randint(0, 4)), "mode": rng.choice(["as is", "fit", "fit", "fit", "lack"]), "k": rng.randint(0, 9), "flat": rng.random() < 0.3}
            if k < 0.92: e.update(act="run", p=rng.randint(0, 99))
            else: e.update(act="call", s=rng.randint(1, n))
            steps.append(e)
    return {"id": "free%d" % i, "stages": stages, "steps": steps}


def c19(ctx):
    rng = random.Random(ctx.seed * 6151 + 19)
    def enum(cols, ln, pr, label):
        f = ctx.path(label + ".json"); json.dump({"cols": cols, "len": ln, "print": pr}, open(f, "w"))
        r = ctx.tlc("MCPipeline", env={"CFG": f}, label=label, timeout=1500, workers=4)
        return [json.loads(x) for x in dict.fromkeys(r.tagged("CHAIN"))]
    two, three, _, _ = parallel([lambda: enum(["a", "b"], 3, True, "chains-2cols-3"), lambda: enum(["a", "b", "c"], 2, True, "chains-3cols-2"),
                           lambda: enum(["a", "b", "c"], 3, False, "theorem-3cols-3"), lambda: enum(["a", "b"], ctx.pick(4, 5), False, "theorem-2cols")], 4)
    if len(two) != 17 + 17 ** 2 + 17 ** 3 or len(three) != 65 + 65 ** 2: raise MachineryError("chains %d %d" % (len(two), len(three)))
    if not ctx.thorough:
        two = [c for c in two if len(c) < 3] + rng.sample([c for c in two if len(c) == 3], 2600)
        three = rng.sample(three, 1800)
    D2 = [[], ["a"], ["b"], ["a", "b"]]
    D3 = D2 + [["c"], ["a", "c"], ["b", "c"], ["a", "b", "c"]]
    for ch in two + three:
        for s in ch: s["ins"], s["outs"] = sorted(s["ins"]), sorted(s["outs"])
    jobs = [chain_session(rng, ch, i, D2) for i, ch in enumerate(two)]
    jobs += [chain_session(rng, ch, i + len(two), rng.sample(D3, 4)) for i, ch in enumerate(three)]
    jobs += [free_session(rng, i) for i in range(ctx.pick(1200, 12000))]
    judge(ctx, jobs, "sessions", "PipeTrace", tamper19)


def tamper19(recs):
    cor = []
    def add(pick, how, name):
        for r in recs:
            for i, s in enumerate(r["steps"]):
                if pick(s):
                    a = json.loads(json.dumps({**r, "steps": r["steps"][:i + 1]})); a["id"] = "corrupt-" + name
                    how(a["steps"][i]); cor.append(a); return
    add(lambda s: s["act"] == "mk" and s["outcome"] == "ValueError" and len(s["list"]) > 1, lambda s: (s.update(outcome="ok"), s["pshown"].append([[], []])), "accept")
    add(lambda s: s["act"] == "addp" and s["outcome"] == "ok", lambda s: (s.update(outcome="ValueError"), s["pshown"].pop()), "reject")
    add(lambda s: s["act"] == "run" and s["outcome"] == "ok" and len(s["got"]) > 1, lambda s: s["got"].pop(), "column")
    add(lambda s: s["act"] == "run" and s["outcome"] == "ValueError", lambda s: s["ran"].append(1), "ran")
    add(lambda s: s["outcome"] == "ok" and len(s["pshown"]) > 1, lambda s: s["pshown"][0][1].append("z"), "altered")
    add(lambda s: s["outcome"] == "ok" and s["shown"], lambda s: s["shown"][0][0].append("z"), "stage")
    return cor


def judge(ctx, jobs, kind, module, tamper):
    parts = [jobs[i::8] for i in range(8)]
    recs = []
    for p, res in zip(parts, ctx.run_drivers("drv_pipeline.py", [{kind: p} for p in parts], timeout=ctx.pick(500, 2500))):
        if "crash" in res: ctx.fail("crash", res["crash"], None); continue
        recs += res[kind]
    cor = tamper(recs)
    bad, CH = {}, 4000
    def one(k):
        ch = recs[k:k + CH] + (cor if k == 0 else [])
        f = ctx.path("%s%d.json" % (kind, k)); json.dump(ch, open(f, "w"))
        t = ctx.tlc(module, env={"DATA": f}, label="%s/%d" % (module, k), timeout=1500, workers=4)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    parallel([lambda k=k: one(k) for k in range(0, max(len(recs), 1), CH)], 3)
    for a in cor:
        if not bad.pop(a["id"], None): ctx.weak = ctx.weak or "tampered record accepted: " + a["id"]
    byid, jid = {r["id"]: r for r in recs}, {j["id"]: j for j in jobs}
    for i, fl in bad.items(): ctx.fail(fl[0][0], "%s %s" % (i, fl[0][1][:500]), {"job": jid[i], "record": byid[i]})
    ctx.traces += len(recs); ctx.cov[kind] = len(recs); ctx.cov["tampered_rejected"] = len(cor)
    if not ctx.fails and len(cor) < 5: raise MachineryError("nothing to tamper with")
    if not ctx.fails and len(recs) != len(jobs): raise MachineryError("records lost")
    n = {}
    if kind == "sessions":
        for r in recs:
            for s in r["steps"]: k = s["act"] + ("" if s["outcome"] == "ok" else " rejected"); n[k] = n.get(k, 0) + 1
    else:
        for r in recs:
            for o in r["ops"]: n[o["op"]] = n.get(o["op"], 0) + 1
    ctx.cov["steps"] = n
    ctx.sample(recs[0]); ctx.sample(recs[-1])


# ------------------------------------------------------------------------------------------------------------ C20
def P(op, ins=None, outs=None, **k):
    return {"op": op, "free": ins is None, "ins": ins or [], "outs": outs or [], **k}


def clip(lo, hi): return P("clip", lo=[lo] if lo is not None else [], hi=[hi] if hi is not None else [])
def rename(m, **k): return P("rename", [a for a, _ in m], [b for _, b in m], map=m, **k)
def drop(ns, **k): return P("drop", list(ns), [], names=list(ns), **k)
def focus(i, o, k, style): return P("focus", [i], [i] if i == o else [i, o], i=i, o=o, k=k, style=style)


CAT = [clip(0, None), clip(None, 6), clip(-3, 5), rename([["a", "b"], ["b", "a"]]), rename([["a", "x"]]), rename([["b", "quantity"]]), rename([["a", "to_shuffler"]], shuf=True),
       drop(["a"]), drop(["b"], bare=True), drop(["x"]), P("repeat", n=2), P("repeat", n=1), P("repeat", n=3), focus("a", "o", 1, "inplace"), focus("b", "b", 2, "assign"),
       focus("x", "o", 0, "values"), P("double", style="inplace"), P("double", style="inplace", focus=True), P("same", ["quantity"], ["quantity"])]

NAMES = ["a", "b", "quantity", "x", "c d", "é", "Z", "0", "A", "Quantity"]


def frame(rng, names=None):
    flat = rng.random() < 0.2
    labels = [0] if flat else rng.choice([[0], [0, 1], [1, 0], [0, 1, 2], [2, 5, 3], [7], [0, 1, 2, 3], [10, 9], ["north", "south"], list(range(12))])
    names = names or rng.sample(NAMES, rng.randint(1, 5))
    n = rng.choice([1, 2, 3, 5, 8])
    dt = rng.choice(["float", "float", "int"])
    draw = (lambda: 4 * rng.randint(-6, 9)) if dt == "int" else (lambda: rng.randint(-30, 40))
    same = rng.random() < 0.15         # two scenarios may hold equal data
    base = {nm: [draw() for _ in range(n)] for nm in names}
    cols = [[s, nm, list(base[nm]) if same else [draw() for _ in range(n)]] for s in labels for nm in names]
    lay = rng.choice(["grouped", "byname", "shuffled", "reversed"])
    if lay == "byname": cols.sort(key=lambda c: names.index(c[1]))
    elif lay == "shuffled": rng.shuffle(cols)
    elif lay == "reversed": cols.reverse()
    unit = rng.choice([1, 1, 1, 2 ** 30, 2 ** 27 + 1] + ([2.0 ** -40, (2 ** 27 + 1) * 2.0 ** -30] if dt == "float" else []))
    return {"flat": flat, "cols": cols, "n": n, "dtype": dt, "unit": unit, "index": rng.choice(["range", "range", "desc", "dates", "str", "dup", "float"]), "levels": rng.choice([None, None, ["scn", "type"]])}


def random_chain(rng, names):
    cols, ch, guar = set(names), [], None
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
        opts = ["clip", "repeat", "double"]
        have = sorted(cols if guar is None else guar)
        if have: opts += ["rename", "drop", "focus", "rename", "focus"] + (["same"] if "quantity" in have else [])
        k = rng.choice(opts)
        if k == "clip":
            a, b = sorted([rng.randint(-20, 30), rng.randint(-20, 30)]); o = clip(rng.choice([None, a]), rng.choice([None, b]))
        elif k == "repeat": o = P("repeat", n=rng.choice([1, 2, 3]))
        elif k == "double": o = P("double", style=rng.choice(["inplace", "new"]), focus=rng.random() < 0.5)
        elif k == "same": o = P("same", ["quantity"], ["quantity"], **rng.choice([{}, {"seed": 0}, {"seed": 3}]))
        elif k == "rename":
            old = rng.sample(have, rng.choice([1, 1, min(2, len(have))])); free = [n for n in NAMES + ["to_shuffler"] if n not in cols or n in old]
            if len(free) < len(old): continue
            o = rename([list(p) for p in zip(old, rng.sample(free, len(old)))])
        elif k == "drop":
            ns = rng.sample(have, rng.choice([1, 1, min(2, len(have))]))
            if len(ns) >= len(cols): continue
            o = drop(ns, bare=len(ns) == 1 and rng.random() < 0.5)
        else:
            i = rng.choice(have); o = focus(i, rng.choice([i] + [n for n in ["o", "p"] if n not in cols]), rng.choice([0, 1, 3]), rng.choice(["inplace", "values", "assign"]))
        ch.append(o)
        if not o["free"]:
            cols = (cols - set(o["ins"])) | set(o["outs"])
            guar = set(o["outs"]) if guar is None else (guar - set(o["ins"])) | set(o["outs"])
    return ch or [clip(0, None)]


def tamper20(recs):
    cor = []
    def add(pick, how, name):
        r = next((r for r in recs if not r["error"] and pick(r)), None)
        if r:
            a = json.loads(json.dumps(r)); a["id"] = "corrupt-" + name; how(a); cor.append(a)
    add(lambda r: r["frames"][1]["cells"], lambda a: a["frames"][1]["cells"][-1]["d"].__setitem__(-1, 12345), "value")
    add(lambda r: len(r["frames"][1]["rows"]) > 1, lambda a: a["frames"][1]["rows"].reverse() or a["frames"][1]["rows"].append("z"), "rows")
    add(lambda r: r["piped"][0]["cells"], lambda a: a["piped"][0]["cells"][0].update(n="zz"), "piped")
    add(lambda r: True, lambda a: a.update(intact=False), "intact")
    add(lambda r: r["ops"][0]["op"] == "repeat" and len({c["s"] for c in r["frames"][0]["cells"]}) > 1 and r["ops"][0]["n"] > 1, lambda a: [c.update(d=[777] * len(c["d"])) for c in a["frames"][1]["cells"][:1]], "repeat")
    add(lambda r: len(r["frames"][1]["cells"]) > 1, lambda a: a["frames"][1]["cells"].pop(), "lost")
    return cor


def c20(ctx):
    rng = random.Random(ctx.seed * 7717 + 20)
    cells = [{"s": "0", "z": 0, "n": "a", "d": [-8, 20]}, {"s": "0", "z": 0, "n": "b", "d": [4, 4]}, {"s": "1", "z": 1, "n": "a", "d": [0, 12]}, {"s": "1", "z": 1, "n": "b", "d": [-2, 9]}]
    f = ctx.path("mcframes.json"); json.dump({"ops": CAT, "len": ctx.pick(3, 4), "rows": ["0", "1"], "cells": cells}, open(f, "w"))
    r = ctx.tlc("MCFrames", env={"CFG": f}, label="MCFrames", timeout=1500)
    chains = [json.loads(x) for x in dict.fromkeys(r.tagged("CHAIN"))]
    ctx.cov["chains_enumerated"] = len(chains)
    short, long = [c for c in chains if len(c) < 3], [c for c in chains if len(c) >= 3]
    if len(long) > ctx.pick(1200, 15000): long = rng.sample(long, ctx.pick(1200, 15000))
    jobs = []
    for c in short * 3 + long:
        fr = frame(rng, ["a", "b"] if rng.random() < 0.6 else ["b", "a", "k"])
        jobs.append({"id": "m%d" % len(jobs), "ops": [CAT[i - 1] for i in c], "frame": fr})
    for i in range(ctx.pick(1800, 20000)):
        fr = frame(rng)
        jobs.append({"id": "r%d" % i, "ops": random_chain(rng, sorted({c[1] for c in fr["cols"]})), "frame": fr, "times": rng.choice([1, 1, 2])})
    judge(ctx, jobs, "frames", "FrameTrace", tamper20)
    ctx.assumptions += ["frames without repeated columns; no column created over an untouched one; frames keep at least one column", "values are multiples of 1/4 of a unit (1, tiny, huge, or needing the whole mantissa)"]
