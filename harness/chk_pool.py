"""C06: schedules enumerated by spec/SolvePool.tla imposed on the real solver."""
import json, random
import gen, chk_adequacy as A
from core import MachineryError, parallel


def alone(sd, s):
    def V(v):
        if v["form"] in ("col", "mat"):
            return dict(v, v=[v["v"][s]])
        return v
    def E(e):
        return {k: (V(x) if isinstance(x, dict) and "form" in x else [E(q) for q in x] if k == "srcs" else x) for k, x in e.items()}
    return dict(sd, S=1, **{k: [E(e) for e in sd[k]] for k in ("cons", "prod", "link", "stor", "conv")})


def plans_for(ctx, N, W, any_):
    cfg = ctx.path("pool_%d_%d_%d.json" % (N, W, any_))
    json.dump({"N": N, "W": W, "any": bool(any_)}, open(cfg, "w"))
    r = ctx.tlc("SolvePool", env={"CFG": cfg}, workers=4, label="SolvePool/N=%d,W=%d,any=%d" % (N, W, any_), timeout=800)
    return sorted({json.dumps(json.loads(x)) for x in r.tagged("PLAN")})


def c06(ctx):
    rng = random.Random(31 * ctx.seed + 6)
    sizes = [(2, 2, 1), (3, 2, 1), (3, 3, 1), (4, 2, 0), (4, 3, 0)] + ctx.pick([], [(4, 3, 1), (5, 3, 0)])
    got = parallel([lambda a=a: plans_for(ctx, *a) for a in sizes], 4)
    plans = {}
    for (N, W, a), p in zip(sizes, got):
        plans.setdefault(N, set()).update(p)
    cap = ctx.pick(150, 1500)
    jobs, sds = [], {}
    def add(sd, ps):
        i = str(len(jobs)); sds[i] = sd
        jobs.append({"id": i, "sd": sd, "alone": [alone(sd, s) for s in range(sd["S"])], "plans": ps})
    nsched = {}
    for N, ps in sorted(plans.items()):
        ps = sorted(ps); nsched[N] = len(ps)
        rng.shuffle(ps)
        ps = ps[:cap]
        per = 6
        for k in range(0, len(ps), per):
            w = A.WANTS[(k // per) % len(A.WANTS)]
            while True:
                sd = gen.study(rng, want=w, maxnodes=3, maxS=N, maxH=4, feasible_bias=1.0, forms=rng.choice([["mat"], None, ["mat", "col"]]))
                if sd["S"] == N: break
            add(sd, [json.loads(p) for p in ps[k:k + per]])
    # more scenarios than workers, and the real pool
    for S in ctx.pick([17, 40], [17, 23, 40, 64, 100]):
        while True:
            sd = gen.study(rng, maxnodes=2, maxS=S, maxH=2, feasible_bias=1.0, forms=["mat", "col"])
            if sd["S"] == S: break
        order = list(range(1, S + 1)); rng.shuffle(order)
        add(sd, [[[rng.randint(1, 8), i] for i in order], "real"])
    for k in range(ctx.pick(10, 60)):
        while True:
            sd = gen.study(rng, want=A.WANTS[k % len(A.WANTS)], maxnodes=3, maxS=5, maxH=4, feasible_bias=1.0)
            if sd["S"] > 1: break
        add(sd, ["real", "real"])
    n = 8
    parts = [jobs[i::n] for i in range(n)]
    res = {}
    for part, r in zip(parts, ctx.run_drivers("drv_pool.py", parts, timeout=ctx.pick(300, 1500))):
        if isinstance(r, dict):
            for j in part:
                r1 = ctx.run_driver("drv_pool.py", [j], timeout=90)
                res[j["id"]] = r1[0] if isinstance(r1, list) else {"error": "crash " + r1["crash"]}
        else:
            for x in r: res[x["id"]] = x
    recs, runs = [], 0
    for j in jobs:
        r = res[j["id"]]
        if "error" in r:
            ctx.fail("raised", r["error"], {"study": j["sd"]}); continue
        if not r["unchanged"]:
            ctx.fail("study modified by solve", "study #%s" % j["id"], {"study": j["sd"], "before": r["before"], "after": r["after"]})
        sd = j["sd"]
        al = r["alone"]
        if any(a["outcome"] != "ok" for a in al):
            ctx.fail("raised", "scenario alone: %s" % [a["outcome"] for a in al], {"study": sd}); continue
        xs = []
        for a in al:
            sl = lambda M: M[0]
            O = a["O"]
            x = {k: [M[0] for M in O[k]] for k in ("given", "used", "flow", "lvl", "in", "out", "cdst")}
            x["csrc"] = [[M[0] for M in ms] for ms in O["csrc"]]
            xs.append({"x": x})
        for k, run in enumerate(r["runs"]):
            rec = A.record("%s.%d" % (j["id"], k), sd, run, "C06", True, xs)
            if rec["witness"]:
                rec["xtol"] = rec["tol"]
            recs.append(rec); runs += 1
    cor = []
    for rec in recs:       # binding: scenario columns exchanged must be noticed
        if rec["usable"] and rec["I"]["S"] > 1 and rec["O"]["given"]:
            c = json.loads(json.dumps(rec)); c["id"] = "corrupt%d" % len(cor)
            for M in c["O"]["given"]:
                M[0] = [v + (1 << 21) for v in M[0]]
            cor.append(c)
            if len(cor) == 2: break
    bad = A.validate(ctx, recs + cor, "C06", None, "pool")
    for c in cor:
        if not bad.pop(c["id"], None):
            ctx.weak = ctx.weak or "tampered record accepted"
    for i, fl in bad.items():
        j = int(i.split(".")[0])
        for cl, where in fl[:2]:
            ctx.fail(cl, "study #%s run %s %s" % (j, i, where), {"study": jobs[j]["sd"], "plan": jobs[j]["plans"][int(i.split(".")[1])],
                                                                    "runs": res[str(j)]["runs"], "alone": res[str(j)]["alone"]})
    ctx.traces += runs
    ctx.cov["schedules_enumerated"] = nsched
    ctx.cov["solves_compared"] = runs
    ctx.cov["tampered_records_rejected"] = len(cor)
    ctx.sample({"plan": jobs[0]["plans"][0], "study": jobs[0]["sd"]})
    if not cor and not ctx.fails:
        raise MachineryError("nothing usable recorded")
