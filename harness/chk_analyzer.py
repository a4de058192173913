"""C14-C18: the real analyzer on studies with synthetic results, judged by spec/AnalyzerTrace.tla."""
import json, random
import gen, chk_adequacy as AD
from core import MachineryError, parallel


def fix(x): return int(round(x * 100))
def fm(M): return [[fix(x) for x in r] for r in M]


def study(rng, want=(), universe=None, S=None, H=None, rich=False, crowd=None):
    """Study description with exactly representable values (quarters, costs in tenths, dyadic ratios)."""
    if crowd is None: crowd = rng.choice(["cons", "prod", "stor", "conv", "node", "net"]) if not universe and not S and rng.random() < 0.06 else ""
    S = S or rng.choice([1, 2, 3, 4] if not crowd else [1, 2]); H = H or rng.choice([1, 2, 3, 5] if not crowd else [1, 2, 3])
    MANY = ["%s%d" % (rng.choice(["e", "", "_"]), k) for k in range(rng.randint(11, 14))] if crowd else []
    q = lambda: rng.choice([0, 1, 2, 3, 5, 7, 10, 20, 0.25, 1.5, 12.75, rng.randint(0, 40)])
    c = lambda: rng.choice([0, 1, 2, 5, 10, -3, 0.5, 7.3, rng.randint(-9, 20)])
    V = lambda d: gen.value(rng, S, H, d)
    if universe:
        nets = [[n, list(universe["nodes"])] for n in universe["nets"]]
        enames, cnames = universe["names"], universe["convs"]
    else:
        nn = rng.choice([1, 2, 2, 3])
        names = rng.sample(["gas", "default", "h2", "a", "b", "e:", "", "Gas"], nn)
        if "default" not in names and rng.random() < 0.6: names[0] = "default"
        if rng.random() < 0.5: rng.shuffle(names)
        pool = rng.sample(gen.NAMES, 5)
        nets = [[n, rng.sample(pool, rng.randint(1, 4))] for n in names]
        if rng.random() < 0.15: nets.append(["empty", [] if rng.random() < 0.5 else ["lonely"]])
        if crowd == "node": nets[0][1] = MANY[:]
        if crowd == "net": nets += [[n, rng.sample(pool, 1)] for n in MANY]
        enames, cnames = ["load", "a", "b", "solar", "x", "default", "t", "é", "", "Load", "a ", " load", "nan", gen.LONG + "1", gen.LONG + "2"], ["conv", "a", "load", "z", "", "Conv", "conv ", "nan", gen.LONG + "1", gen.LONG + "2"]
    sd = {"H": H, "S": S, "nets": nets, "cons": [], "prod": [], "stor": [], "link": [], "conv": []}
    allnodes = [(n, x) for n, xs in nets if n != "empty" for x in xs]
    full = rng.choice(allnodes) if crowd else None
    for n, x in allnodes:
        here = lambda k, names: MANY if crowd == k and (n, x) == full else names
        cnt = lambda: rng.choice([0, 1, 1, 2, 3]) if not rich else rng.choice([1, 2, 3])
        pick = lambda k: rng.sample(enames, min(k, len(enames)))
        for e in here("cons", pick(cnt())): sd["cons"].append({"net": n, "node": x, "name": e, "qty": V(q), "cost": V(c)})
        for e in here("prod", pick(cnt())): sd["prod"].append({"net": n, "node": x, "name": e, "qty": V(q), "cost": V(c)})
        for e in here("stor", pick(rng.choice([0, 0, 1, 2]))):
            sd["stor"].append({"net": n, "node": x, "name": e, "cap": V(q), "fin": V(q), "fout": V(q), "cost": V(c), "init": rng.choice([0, 1, 3, 2.5]),
                               "eff": V(lambda: rng.choice([0, 1, 0.5, 0.99, 0.8]))})
        peers = [y for m, ys in nets if m == n for y in ys]
        for y in peers:
            if rng.random() < ((0.4 if crowd != "node" else 0.08) if y != x else 0.05):
                sd["link"].append({"net": n, "src": x, "dst": y, "qty": V(q), "cost": V(c)})
    for name in MANY if crowd == "conv" else rng.sample(cnames, min(len(cnames), rng.choice([0, 0, 1, 2, 3])) if not rich else rng.choice([1, 2, min(3, len(cnames))])):
        if not allnodes: break
        d = rng.choice(allnodes)
        srcs = rng.sample(allnodes, min(len(allnodes), rng.choice([1, 1, 2, 3, 4])))
        sd["conv"].append({"name": name, "net": d[0], "node": d[1], "max": V(lambda: rng.choice([0, 1, 2, 4, 8, 16, 40])), "cost": V(c),
                           "srcs": [{"net": n, "node": x, "ratio": V(lambda: rng.choice([1, 2, 0.5, 0.25, 4]))} for n, x in srcs]})
    return sd


def synth(rng, sd):
    """Result matrices: all different values where possible (quarters up to 40)."""
    S, H = sd["S"], sd["H"]
    def Mx(): return [[rng.randint(0, 160) / 4 for _ in range(H)] for _ in range(S)]
    k = lambda n: [Mx() for _ in range(n)]
    return {"given": k(len(sd["cons"])), "used": k(len(sd["prod"])), "flow": k(len(sd["link"])), "lvl": k(len(sd["stor"])), "in": k(len(sd["stor"])),
            "out": k(len(sd["stor"])), "cdst": k(len(sd["conv"])), "csrc": [k(len(c["srcs"])) for c in sd["conv"]]}


def model(sd, O):
    """The state A of spec/Analyzer.tla."""
    S, H = sd["S"], sd["H"]
    X = lambda V: fm(gen.expand(V, S, H))
    return {"S": S, "H": H, "nets": [{"name": n, "nodes": xs} for n, xs in sd["nets"]],
            "cons": [{"net": e["net"], "node": e["node"], "name": e["name"], "cost": X(e["cost"]), "asked": X(e["qty"]), "given": fm(g)} for e, g in zip(sd["cons"], O["given"])],
            "prod": [{"net": e["net"], "node": e["node"], "name": e["name"], "cost": X(e["cost"]), "avail": X(e["qty"]), "used": fm(g)} for e, g in zip(sd["prod"], O["used"])],
            "stor": [{"net": e["net"], "node": e["node"], "name": e["name"], "cost": X(e["cost"]), "cap": X(e["cap"]), "fin": X(e["fin"]), "fout": X(e["fout"]),
                      "eff": X(e["eff"]), "init": fix(e["init"]), "lvl": fm(a), "in": fm(b), "out": fm(c)} for e, a, b, c in zip(sd["stor"], O["lvl"], O["in"], O["out"])],
            "link": [{"net": e["net"], "node": e["src"], "dest": e["dst"], "cost": X(e["cost"]), "avail": X(e["qty"]), "used": fm(g)} for e, g in zip(sd["link"], O["flow"])],
            "conv": [{"name": e["name"], "net": e["net"], "node": e["node"], "cost": X(e["cost"]), "max": X(e["max"]), "flow": fm(g),
                      "srcs": [{"net": q["net"], "node": q["node"], "ratio": X(q["ratio"]), "flow": fm(f)} for q, f in zip(e["srcs"], fs)]}
                     for e, g, fs in zip(sd["conv"], O["cdst"], O["csrc"])]}


def units(rng, job, choices=((1, 1), (1, 1), (1 / 3, 1), (1e-4, 0.7), (7 / 3e6, 1e4), (3e5, 1 / 7))):
    """the same study with quantities and costs in other units: the driver hands the real code scaled numbers and scales its answers back"""
    u, w = rng.choice(choices)
    job.update(u=u, w=w)
    if (u, w) == (1, 1): return job
    sc = lambda v, f: [sc(x, f) for x in v] if isinstance(v, list) else v * f
    S = lambda e, qs: {k: dict(v, v=sc(v["v"], w if k == "cost" else u)) if k in qs or k == "cost" else sc(v, u) if k == "init" else v for k, v in e.items()}
    sd = dict(job["sd"])
    for k, qs in (("cons", ["qty"]), ("prod", ["qty"]), ("link", ["qty"]), ("stor", ["cap", "fin", "fout"]), ("conv", ["max"])): sd[k] = [S(e, qs) for e in sd[k]]
    return dict(job, real={"sd": sd, "O": {k: sc(v, u) for k, v in job["O"].items()}})


def judge(ctx, jobs, tamper):
    ru = random.Random(ctx.seed * 77 + 5)
    jobs = [units(ru, j) for j in jobs]
    n = 8
    parts = [jobs[i::n] for i in range(n) if jobs[i::n]]
    recs = []
    for p, (part, res) in enumerate(zip(parts, ctx.run_drivers("drv_analyzer.py", parts, timeout=ctx.pick(400, 2000)))):
        if isinstance(res, dict):
            ctx.fail("crash", res["crash"], part[:1]); continue
        for k, (j, asks) in enumerate(zip(part, res)):
            recs.append({"id": "%d.%d" % (p, k), "A": model(j["sd"], j["O"]), "asks": asks, "job": j})
    cor = []
    for r in recs:
        a = json.loads(json.dumps({x: r[x] for x in ("id", "A", "asks")}))
        if all(x["outcome"] == "ok" for x in a["asks"]) and tamper(a, len(cor)):
            a["id"] = "corrupt%d" % len(cor); cor.append(a)
            if len(cor) == 2: break
    bad = {}
    for k in range(0, len(recs), 400):
        ch = [{x: r[x] for x in ("id", "A", "asks")} for r in recs[k:k + 400]] + (cor if k == 0 else [])
        f = ctx.path("an%d.json" % k); json.dump(ch, open(f, "w"))
        t = ctx.tlc("AnalyzerTrace", env={"DATA": f}, timeout=900, label="AnalyzerTrace/%d" % k)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered answer accepted"
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items():
        ctx.fail(fl[0][0], "%s: %s" % (i, fl[0][1][:500]), byid[i]["job"])
    ctx.traces += len(recs)
    ctx.cov["answers_judged"] = sum(len(r["asks"]) for r in recs)
    ctx.cov["rows_judged"] = sum(len(a.get("rows", [])) for r in recs for a in r["asks"])
    ctx.cov["studies"] = len(recs)
    ctx.cov["tampered_records_rejected"] = len(cor)
    if recs:
        r = recs[0]; ctx.sample({"nets": r["A"]["nets"], "first answer": {k: (v if k != "rows" else v[:3]) for k, v in r["asks"][0].items()}})
    if len(cor) < 2 and not ctx.fails: raise MachineryError("nothing to tamper with")


def simple(what, quick, thorough, tamper):
    def f(ctx):
        rng = random.Random(ctx.seed * 31337 + sum(map(ord, ctx.prop)))
        jobs = []
        for i in range(ctx.pick(quick, thorough)):
            sd = study(rng, S=12, H=11) if i % 20 == 19 else study(rng)
            jobs.append({"sd": sd, "O": synth(rng, sd), "what": what})
        judge(ctx, jobs, tamper)
    return f


def t_table(a, k):
    for x in a["asks"]:
        if x["ask"] == "table" and len(x["rows"]) > 2:
            if k == 0: x["rows"][1][5][0] += 25
            else: x["rows"].append(x["rows"][0])
            return True
    return False


def t_mat(a, k):
    for x in a["asks"]:
        if "m" in x and x["m"]:
            x["m"][-1][-1] += 100; return True
    return False


def t_query(a, k):
    for x in a["asks"]:
        if x["ask"] == "query" and len(x["rows"]) > 2 and x["names"]:
            if k == 0: x["rows"].pop()
            else: x["names"][0] = "other"
            return True
    return False


c14 = simple("tables", 320, 2500, t_table)
c16 = simple("cost", 320, 2500, t_mat)
c17 = simple("balance", 440, 3000, t_mat)
c18 = simple("rac", 520, 3500, t_mat)

UNI = {"nets": ["default", "n2"], "nodes": ["a", "", "default"], "names": ["x", "", "load"], "convs": ["v", "a"]}


def sessions(ctx, name, cfg, simulate=None, seed=1):
    f = ctx.path("query_%s_%d.json" % (name, seed)); json.dump(cfg, open(f, "w"))
    if simulate:
        r = ctx.tlc("MCQuery", env={"CFG": f}, simulate=simulate, depth=cfg["len"] + 2, workers=1, seed=seed, label="MCQuery/" + name, timeout=900)
    else:
        r = ctx.tlc("MCQuery", env={"CFG": f}, workers=2, label="MCQuery/" + name, timeout=900, extra=["-seed", str(seed), "-fp", "1"])
    return [json.loads(x) for x in dict.fromkeys(r.tagged("RUN"))]


def c15(ctx):
    rng = random.Random(ctx.seed * 31337 + 15)
    kinds = ["cons", "prod", "stor", "link", "src", "dst"]
    shapes = [(3, 4), (1, 3), (2, 1), (11, 12)] if not ctx.thorough else [(3, 4), (1, 3), (2, 1), (1, 1), (4, 5), (11, 12)]
    base = dict(UNI, kinds=kinds)
    fns, where = [], []
    for s, (S, H) in enumerate(shapes):
        cfg = dict(base, mode="random", len=40, S=S, H=H)
        fns.append(lambda cfg=cfg, s=s: sessions(ctx, "random%d" % s, cfg, ctx.pick(120, 800), ctx.seed * 10 + s)); where.append((S, H))
    fns.append(lambda: sessions(ctx, "all", dict(base, mode="all", len=5, S=3, H=4), None, ctx.seed)); where.append((3, 4))
    jobs = []
    for (S, H), ss in zip(where, parallel(fns, 6)):
        rng.shuffle(ss)
        if len(ss) > 1000: ss = ss[:ctx.pick(3000, 40000)]
        per = max(1, len(ss) // ctx.pick(24, 60))
        for k in range(0, len(ss), per):
            sd = study(rng, universe=UNI, S=S, H=H, rich=rng.random() < 0.75)
            jobs.append({"sd": sd, "O": synth(rng, sd), "what": "query", "sessions": ss[k:k + per]})
    judge(ctx, jobs, t_query)
