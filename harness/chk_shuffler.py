"""C22: shuffler. spec/Shuffle.tla, MCShuffle.tla, ShuffleTrace.tla; schedules of spec/SolvePool.tla."""
import json, random
import chk_pipeline as P
from core import MachineryError, parallel


def pipe(rng, names):
    """a pipeline, usually ending in the shuffler column; scenario numbers play no role"""
    cols, guar, ch = set(names), None, []
    tgt = rng.choice(names)
    bad = rng.random()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        k = rng.choice(["clip", "repeat", "double", "focus", "drop", "rename"])
        have = sorted(cols if guar is None else guar)
        if k == "clip": a, b = sorted([rng.randint(-20, 30), rng.randint(-20, 30)]); o = P.clip(a, b)
        elif k == "repeat": o = P.P("repeat", n=rng.choice([1, 2]))
        elif k == "double": o = P.P("double", style=rng.choice(["inplace", "new"]), focus=rng.random() < 0.5)
        elif tgt not in have: continue
        elif k == "focus": o = P.focus(tgt, tgt, 0, rng.choice(["inplace", "values", "assign"]))
        elif k == "drop":
            ot = [x for x in have if x != tgt]
            if not ot: continue
            o = P.drop([rng.choice(ot)])
        else:
            new = next((x for x in ["u", "v", "w"] if x not in cols), None)
            if new is None: continue
            o = P.rename([[tgt, new]]); tgt = new
        if not o["free"]:
            if guar is not None and not set(o["ins"]) <= guar: continue
            ng = set(o["outs"]) if guar is None else (guar - set(o["ins"])) | set(o["outs"])
            if tgt not in ng: continue
            cols = (cols - set(o["ins"])) | set(o["outs"]); guar = ng
        ch.append(o)
    if bad < 0.12: return ch or [P.clip(0, None)]                      # no shuffler column
    if bad < 0.2: return ch + [P.rename([[tgt, "to_shuffler"]]), P.rename([["to_shuffler", "gone"]])]
    ch.append(P.rename([[tgt, "to_shuffler"]], shuf=rng.random() < 0.8))
    if rng.random() < 0.2: ch.append(P.P("repeat", n=2))
    return ch


def scen_of(fr, ch):
    n = len({str(c[0]) for c in fr["cols"]})
    for o in ch:
        if o["op"] == "repeat": n *= o["n"]
    return n


def session(rng, i, plans, realpool=False):
    names = rng.sample(["solar", "load", "a", "é x", "0", "to_shuffler", "", "Load"], rng.randint(1, 4))
    steps, scen = [], {}
    H = rng.choice([1, 2, 3, 6])
    unit = rng.choice([1, 1, 2 ** 30, 2 ** 27 + 1, 2.0 ** -40, (2 ** 27 + 1) * 2.0 ** -30])
    ints = isinstance(unit, int)
    for _ in range(rng.randint(1, 5)):
        nm = rng.choice(names)
        if rng.random() < 0.45:
            S = rng.choice([1, 2, 3, 5, 9, 13]) if i % 50 else 300
            rows = [[4 * rng.randint(-9, 50) for _ in range(H)] for _ in range(S)]
            steps.append({"act": "data", "name": nm, "rows": rows, "style": rng.choice(["float", "int" if ints else "float", "fort", "view"])}); scen[nm] = S
        else:
            while True:
                fr = P.frame(rng, rng.sample(["a", "b", "quantity", "é"], rng.randint(1, 4)))
                if not isinstance(fr["cols"][0][0], str): break
            if not ints: fr["dtype"] = "float"
            cols = sorted({c[1] for c in fr["cols"]})
            ch = pipe(rng, cols)
            if rng.random() < 0.1 and not ch[0]["free"]: fr["cols"] = [c for c in fr["cols"] if c[1] != ch[0]["ins"][0]] or fr["cols"]      # data lacking a column
            # only chains that are sound among themselves (C19 decides the others)
            cs, guar, need = sorted({c[1] for c in fr["cols"]}), None, None
            for o in ch:
                if not o["free"]:
                    need = set(o["ins"]) if need is None else need
                    guar = set(o["outs"]) if guar is None else (guar - set(o["ins"])) | set(o["outs"])
            ok = guar is not None and "to_shuffler" in guar and need <= set(cs)
            steps.append({"act": "pipe", "name": nm, "fr": fr, "ops": ch})
            if ok: scen[nm] = scen_of(fr, ch)
        if rng.random() < 0.5 and scen: steps.append({"act": "shuffle", "nb": rng.choice([0, 1, 2, 5, 11])})
    if scen: steps.append({"act": "shuffle", "nb": rng.choice([1, 3, 10, 20])})
    sampler = rng.choice(["range", "last", "mix", "down", "range", "default", "randint", "state"])
    return {"id": "s%d" % i, "steps": steps, "sampler": sampler, "seed": rng.randint(0, 99), "plan": rng.choice(plans), "realpool": realpool, "unit": unit}


def c22(ctx):
    rng = random.Random(ctx.seed * 4421 + 22)
    ctx.tlc("MCShuffle", label="MCShuffle", timeout=600)
    f = ctx.path("plan.json"); json.dump({"N": 4, "W": 3, "any": True}, open(f, "w"))
    r = ctx.tlc("SolvePool", env={"CFG": f}, label="SolvePool N4 W3", timeout=600)
    plans = [[[w - 1, i - 1] for w, i in json.loads(x)] for x in dict.fromkeys(r.tagged("PLAN"))]
    jobs = [session(rng, i, plans) for i in range(ctx.pick(1500, 15000))]
    jobs += [session(rng, len(jobs) + i, plans, True) for i in range(ctx.pick(16, 120))]
    spreads, aparts = [], []
    for i in range(ctx.pick(40, 300)):
        n = rng.choice([2, 3, 4]); order = list(range(n)); rng.shuffle(order)
        spreads.append({"id": "spread%d" % i, "sampler": rng.choice(["default", "default", "randint", "state"]), "seed": i, "workers": rng.choice([1, 2, 4, 8]), "order": order, "calls": 2, "nb": 700,
                        "tls": [["t%d" % k, rng.choice([1, 2, 3, 4]), rng.choice(["raw", "raw", "pipe"])] for k in range(n)], "realpool": i % 10 == 9})
    for i in range(ctx.pick(16, 100)):
        n = rng.choice([2, 3]); order = list(range(n)); rng.shuffle(order)
        aparts.append({"id": "apart%d" % i, "names": ["p%d" % k for k in range(n)], "workers": rng.choice([1, 2, 4]), "order": order, "calls": 2, "nb": 4, "S": rng.choice([1, 2]), "realpool": i % 8 == 7})
    parts = [{"sessions": jobs[i::8], "spreads": spreads[i::8], "aparts": aparts[i::8]} for i in range(8)]
    recs = []
    for res in ctx.run_drivers("drv_shuffler.py", parts, timeout=ctx.pick(500, 2500)):
        if "crash" in res: ctx.fail("crash", res["crash"], None); continue
        recs += res["recs"]
    jid = {j["id"]: j for j in jobs + spreads + aparts}
    for r in recs:
        if "error" in r: ctx.fail("error", r["id"] + " " + r["error"], jid[r["id"]])
    recs = [r for r in recs if "error" not in r]
    cor = []
    def tamper(pick, how, name):
        for r in recs:
            for i, s in enumerate(r["steps"]):
                if pick(s):
                    a = json.loads(json.dumps({**r, "steps": r["steps"][:i + 1]})); a["id"] = "corrupt-" + name; how(a["steps"][i]); cor.append(a); return
    shuf = lambda s: s["act"] == "shuffle" and s["outcome"] == "ok" and s["got"] and s["got"][0]
    tamper(shuf, lambda s: s["got"][0].pop(), "count")
    tamper(shuf, lambda s: s["got"][0][0].__setitem__(0, 123457), "row")
    tamper(lambda s: shuf(s) and s["scripted"] and any(len({tuple(x) for x in g}) > 1 for g in s["got"]),
           lambda s: [g.__setitem__(0, next(x for x in g if x != g[0])) for g in s["got"] if len({tuple(x) for x in g}) > 1], "selected")
    tamper(lambda s: shuf(s) and s["scripted"] and s["calls"], lambda s: s["calls"][0].update(hi=s["calls"][0]["hi"] - 1), "range")
    tamper(shuf, lambda s: (s["names"].pop(), s["got"].pop()), "name")
    tamper(lambda s: s["act"] == "pipe" and s["outcome"] == "ValueError", lambda s: s.update(outcome="ok"), "register")
    tamper(lambda s: s["act"] == "spread" and s["ma"] > 1 and s["mb"] == s["ma"], lambda s: s.update(b=s["a"]), "dependent")
    tamper(lambda s: s["act"] == "apart", lambda s: s["sets"].__setitem__(1, s["sets"][0]), "repeat")
    tamper(lambda s: s["act"] == "data", lambda s: s.update(intact=False), "intact")
    bad, CH = {}, 600
    def one(k):
        ch = recs[k:k + CH] + (cor if k == 0 else [])
        f = ctx.path("shuf%d.json" % k); json.dump(ch, open(f, "w"))
        t = ctx.tlc("ShuffleTrace", env={"DATA": f}, label="ShuffleTrace/%d" % k, timeout=1500, workers=3)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    parallel([lambda k=k: one(k) for k in range(0, max(len(recs), 1), CH)], 3)
    for a in cor:
        if not bad.pop(a["id"], None): ctx.weak = ctx.weak or "tampered record accepted: " + a["id"]
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items(): ctx.fail(fl[0][0], "%s %s" % (i, fl[0][1][:400]), {"job": jid[i], "record": byid[i]})
    if not ctx.fails and (len(cor) < 9 or len(recs) != len(jid)): raise MachineryError("records missing: %d corrupt, %d of %d" % (len(cor), len(recs), len(jid)))
    ctx.traces += len(recs)
    n = {}
    for r in recs:
        for s in r["steps"]: k = s["act"] + ("" if s.get("outcome", "ok") == "ok" else " rejected"); n[k] = n.get(k, 0) + 1
    ctx.cov.update(steps=n, schedules=len(plans), tampered_rejected=len(cor))
    ctx.sample(recs[0])
    ctx.assumptions += ["the pool replaced by a scheduler in most sessions (arguments and results pickled, per-worker random state); a share runs the real multiprocessing pool",
                        "independence: 700 rows of at most 4 scenarios must show every combination (chance of a miss below 1e-15)"]
