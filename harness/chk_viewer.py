"""C23, C24: figures of the real plotting interface, judged by spec/ViewerTrace.tla."""
import json, random
import gen
from chk_analyzer import study, model
import chk_analyzer as AN
from core import MachineryError, parallel

COORD = [[2, 48], [9, 47], [4, 51], [-3, 40], [12, 42], [15, 50], [7, 46], [11, 45]]


def ints(rng, sd, kind):
    """A result with whole values: storage levels follow from the flows; kind "balanced" balances every node."""
    S, H = sd["S"], sd["H"]
    q = lambda: rng.choice([0, 0, 1, 2, 3, 5, 8, 13, rng.randint(0, 60)])
    if kind == "zero": q = lambda: 0
    Mx = lambda: [[q() for _ in range(H)] for _ in range(S)]
    k = lambda n: [Mx() for _ in range(n)]
    O = {"given": k(len(sd["cons"])), "used": k(len(sd["prod"])), "flow": k(len(sd["link"])), "lvl": k(len(sd["stor"])), "in": k(len(sd["stor"])),
         "out": k(len(sd["stor"])), "cdst": k(len(sd["conv"])), "csrc": [k(len(c["srcs"])) for c in sd["conv"]]}
    for i, e in enumerate(sd["stor"]):
        eff = gen.expand(e["eff"], S, H)
        for s in range(S):
            lv = e["init"]
            for t in range(H):
                lv = lv + O["in"][i][s][t] * eff[s][t]
                O["out"][i][s][t] = min(O["out"][i][s][t], int(lv))
                lv = round(lv - O["out"][i][s][t], 6)
                O["lvl"][i][s][t] = lv
    if kind == "balanced":
        for n, xs in sd["nets"]:
            for x in xs:
                at = lambda key, f="node": [i for i, e in enumerate(sd[key]) if e["net"] == n and e[f] == x]
                ps, cs = at("prod"), at("cons")
                for s in range(S):
                    for t in range(H):
                        d = sum(O["used"][i][s][t] for i in ps) + sum(O["out"][i][s][t] - O["in"][i][s][t] for i in at("stor"))
                        d += sum(O["flow"][i][s][t] for i in at("link", "dst")) - sum(O["flow"][i][s][t] for i in at("link", "src"))
                        d += sum(O["cdst"][i][s][t] for i in at("conv"))
                        d -= sum(O["csrc"][i][j][s][t] for i, c in enumerate(sd["conv"]) for j, w in enumerate(c["srcs"]) if w["net"] == n and w["node"] == x)
                        d -= sum(O["given"][i][s][t] for i in cs)
                        if not ps and not cs and d: return None
                        if d > 0:
                            if cs: O["given"][cs[-1]][s][t] += d
                            else: O["used"][ps[-1]][s][t] -= d
                        elif d < 0:
                            if ps: O["used"][ps[-1]][s][t] -= d
                            else: O["given"][cs[-1]][s][t] += d
                        if any(O["used"][i][s][t] < 0 for i in ps) or any(O["given"][i][s][t] < 0 for i in cs): return None
    return O


def requests(sd):
    S, H = sd["S"], sd["H"]
    out = []
    def add(el, i, j, where, name, kinds):
        for k in kinds:
            for p in (["monotone", "candles"] if el == "stor" else ["timeline", "monotone", "gaussian"]):
                fs = [(-1, -1)] if p == "timeline" else [(-1, s) for s in range(S)]
                if p in ("monotone", "gaussian"): fs = fs + [(t, -1) for t in range(H)] + sorted({(0, 0), (H - 1, S - 1)})
                for t, s in fs:
                    out.append({"ask": "plot", "net": where[0], "el": {"node": where[1], "id": name},
                                "r": {"el": el, "i": i + 1, "j": j, "kind": k, "plot": p, "t": t, "scn": s}})
    for i, e in enumerate(sd["cons"]): add("cons", i, 0, (e["net"], e["node"]), e["name"], ["", "asked", "given"])
    for i, e in enumerate(sd["prod"]): add("prod", i, 0, (e["net"], e["node"]), e["name"], ["", "avail", "used"])
    for i, e in enumerate(sd["link"]): add("link", i, 0, (e["net"], e["src"]), e["dst"], ["", "avail", "used"])
    for i, e in enumerate(sd["stor"]): add("stor", i, 0, (e["net"], e["node"]), e["name"], [""])
    for i, e in enumerate(sd["conv"]):
        add("dst", i, 0, (e["net"], e["node"]), e["name"], [""])
        for j, q in enumerate(e["srcs"]): add("src", i, j + 1, (q["net"], q["node"]), e["name"], [""])
    return out


def aggregates(rng, sd, n):
    out = []
    nets = [(m, xs) for m, xs in sd["nets"] if xs]
    for m, xs in nets:
        for x in xs:
            for s in range(sd["S"]):
                for p, c in [("", ""), ("used", "given"), ("avail", "asked"), ("avail", "given"), ("used", "asked")]:
                    out.append({"ask": "stack", "net": m, "node": x, "scn": s, "prod": p, "cons": c, "bare": p == "" and s == 0 and rng.random() < 0.5})
        out += [{"ask": "rac", "net": m}, {"ask": "rac", "net": m, "bare": True}]
        for s in range(sd["S"]):
            for t in range(sd["H"]):
                out.append({"ask": "map", "net": m, "t": t, "scn": s, "zoom": rng.choice([1, 2, 1.6]), "limit": rng.choice([0, 0, 10]), "bare": s == 0 and rng.random() < 0.3})
    rng.shuffle(out)
    return out[:n]


def frame(rng, sd, O, asks, **k):
    nodes = sorted({x for _, xs in sd["nets"] for x in xs})
    co = rng.sample(COORD, len(COORD))
    while len(co) < len(nodes): co.append([20 + len(co), 30 + len(co)])
    dates = rng.choice([None, None, ["2020-01-01", "2020-01-0%d" % rng.randint(2, 9)], ["2019-12-31 06:00", "2020-02-28 18:30"]])
    return dict({"sd": sd, "O": O, "asks": asks + [{"ask": "same"}], "coord": {n: co[i] for i, n in enumerate(nodes)}, "unit": rng.choice(["", "MW", "é"]), "dates": dates,
                 "exact": True, "balanced": False, "full": False}, **k)


def judge(ctx, jobs, tamper):
    n = 8
    ru = random.Random(ctx.seed * 77 + 6)        # powers of two: the arithmetic of the real code stays exact
    jobs = [j if j.get("solve") else AN.units(ru, j, ((1, 1), (1, 1), (2.0 ** -20, 1), (2.0 ** -9, 1), (2.0 ** 20, 1))) for j in jobs]
    parts = [jobs[i::n] for i in range(n) if jobs[i::n]]
    recs = []
    for p, (part, res) in enumerate(zip(parts, ctx.run_drivers("drv_viewer.py", parts, timeout=ctx.pick(500, 3000)))):
        if isinstance(res, dict):
            ctx.fail("crash", res["crash"], part[:1]); continue
        for k, (j, r) in enumerate(zip(part, res)):
            if r["O"] is None: ctx.cov["unsolved"] = ctx.cov.get("unsolved", 0) + 1; continue
            for a in r["asks"]:                                # defaults made explicit
                if a["ask"] == "stack": a["prod"], a["cons"] = a["prod"] or "used", a["cons"] or "asked"
            recs.append({"id": "%d.%d" % (p, k), "A": model(j["sd"], r["O"] if j.get("solve") else j["O"]), "asks": r["asks"], "job": j, "exact": j["exact"], "balanced": j["balanced"], "full": j["full"]})
    keys = ("id", "A", "asks", "exact", "balanced", "full")
    cor = []
    for r in recs:
        a = json.loads(json.dumps({x: r[x] for x in keys}))
        if r["exact"] and tamper(a, len(cor)):
            a["id"] = "corrupt%d" % len(cor); a["full"] = False; cor.append(a)
            if len(cor) == 4: break
    bad, chunks, cur, w = {}, [], [], 0
    for r in recs:
        cur.append({x: r[x] for x in keys}); w += len(r["asks"])
        if w > 4000: chunks.append(cur); cur, w = [], 0
    if cur: chunks.append(cur)
    if chunks: chunks[0] = chunks[0] + cor
    def run(k, ch):
        f = ctx.path("vw%d.json" % k); json.dump(ch, open(f, "w"))
        t = ctx.tlc("ViewerTrace", env={"DATA": f}, timeout=900, workers=2, label="ViewerTrace/%d" % k)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        return t.tagged("FAIL")
    for fl in parallel([lambda k=k, ch=ch: run(k, ch) for k, ch in enumerate(chunks)], 4):
        for l in fl:
            i, cl, wh = l.split("|", 2); bad.setdefault(i, []).append((cl, wh))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered figure accepted"
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items():
        if fl[0][0].startswith("MACHINERY"): raise MachineryError(fl[0][0])
        ctx.fail(fl[0][0], "%s: %s" % (i, fl[0][1][:500]), byid[i]["job"])
    ctx.traces += len(recs)
    ctx.cov["figures_judged"] = sum(len(r["asks"]) for r in recs)
    ctx.cov["studies"] = len(recs)
    ctx.cov["tampered_records_rejected"] = len(cor)
    if recs: ctx.sample({"nets": recs[0]["A"]["nets"], "first figure": recs[0]["asks"][0]})
    if len(cor) < 3 and not ctx.fails: raise MachineryError("nothing to tamper with")


def t23(a, k):
    want = ["timeline", "monotone", "gaussian", "candles"][k]
    for x in a["asks"]:
        if x["ask"] != "plot" or x["outcome"] != "ok" or x["r"]["plot"] != want: continue
        if want == "timeline": x["lines"][-1]["y"][-1] += 100
        elif want == "monotone": x["y"][0] += 100
        elif want == "gaussian":
            if not x["passed"]: continue
            x["failed"].append(x["passed"].pop())
        else: x["open"][0] += 10000
        return True
    return False


def t24(a, k):
    want = ["stack", "map", "rac", "stack"][k]
    for x in a["asks"]:
        if x["ask"] != want or x["outcome"] != "ok": continue
        if want == "stack":
            if not x["areas"] or not x["lines"]: continue
            if k: x["lines"][0][1][0] += 100
            else: x["areas"][-1][0] = "other"
        elif want == "map":
            w = [y for y in x["arrows"] if y[2] > 0]
            if not w: continue
            w[0][0], w[0][1] = w[0][1], w[0][0]
        else: x["m"][0][0] += 100
        return True
    return False


def small(rng, **k):
    while True:
        sd = study(rng, **k)
        for e in sd["stor"]: e["eff"] = gen.value(rng, sd["S"], sd["H"], lambda: rng.choice([0, 1, 0.5, 0.99, 0.8]))
        if any(xs for _, xs in sd["nets"]): return sd


KINDS = ["cons", "stor", "node", "prod", "conv", "net"]


def mc(ctx):
    fs = [lambda: ctx.tlc("MCViewer", workers=2, label="MCViewer/H1", timeout=900), lambda: ctx.tlc("MCViewer", cfg="MCViewer2", workers=4, label="MCViewer/H2", timeout=900)]
    parallel(fs if ctx.thorough else fs[:1], 2)


def c23(ctx):
    rng = random.Random(ctx.seed * 7919 + 23)
    mc(ctx)
    jobs = []
    for i in range(ctx.pick(56, 500)):
        sd = small(rng, S=11, H=12) if i % 14 == 13 else small(rng, crowd=KINDS[i // 14 % 6]) if i % 14 == 6 else small(rng)
        rq = requests(sd); rng.shuffle(rq)
        full = i % 8 == 0 and len(rq) < ctx.pick(500, 1500)
        if not full: rq = rq[:ctx.pick(110, 250)]
        if i % 6 == 0: rq.append({"ask": "ctor", "args": {"time_start": "2020-01-01"} if i % 12 else {"time_end": "2020-01-01"}})
        jobs.append(frame(rng, sd, ints(rng, sd, "any"), rq, full=full))
    judge(ctx, jobs, t23)


def c24(ctx):
    rng = random.Random(ctx.seed * 7919 + 24)
    mc(ctx)
    jobs = []
    for i in range(ctx.pick(96, 900)):
        sd = small(rng, S=11, H=12) if i % 24 == 23 else small(rng, crowd=KINDS[i // 12 % 6]) if i % 12 == 6 else small(rng)
        kind = "zero" if i % 16 == 5 else rng.choice(["any", "balanced", "balanced"])
        O = None
        for _ in range(30):
            O = ints(rng, sd, kind)
            if O: break
        if O is None: kind = "any"; O = ints(rng, sd, kind)
        if i % 5 == 1:                                       # a network where nothing flows, or without links
            for j, e in enumerate(sd["link"]):
                if e["net"] == sd["nets"][0][0]: O["flow"][j] = [[0] * sd["H"] for _ in range(sd["S"])]
            kind = "any"
        jobs.append(frame(rng, sd, O, aggregates(rng, sd, ctx.pick(60, 120)), balanced=kind == "balanced"))
    for i in range(ctx.pick(16, 150)):
        sd = gen.study(rng, want=rng.choice([(), ("stor", "conv", "link"), ("stor2", "link"), ("conv2", "link")]), qmode=rng.choice(["int", "float"]), costmode="int", feasible_bias=1)
        jobs.append(frame(rng, sd, None, [dict(a, prod=a["prod"] or "used") for a in aggregates(rng, sd, 60) if a["ask"] == "stack"], solve=True, exact=False, balanced=True))
    judge(ctx, jobs, t24)
