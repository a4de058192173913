"""C26: independent objects do not influence each other. spec/Isolation.tla, MCIsolation.tla, IsolationTrace.tla."""
import copy, json, random
import gen, chk_adequacy as A, chk_analyzer as AN, chk_pipeline as P
from core import MachineryError, parallel

TOL = 2000         # scaled costs: 2e-5 of everything the study could cost


def orders(ctx, lens, leak=False, simulate=None, seed=1):
    tag = "_".join(map(str, lens)) + ("s%d" % seed if simulate else "") + ("x" if leak else "")
    f = ctx.path("iso%s.json" % tag); json.dump({"lens": lens, "leak": leak}, open(f, "w"))
    r = ctx.tlc("MCIsolation", env={"CFG": f}, simulate=simulate, depth=sum(lens) + 3 if simulate else None, seed=seed, workers=1 if simulate else 2,
                label="MCIsolation/%s" % tag, timeout=600, expect_fail=leak, count=not leak)
    if leak:
        if "Invariant Isolated is violated" not in r.out: raise MachineryError("the broken variant of the model is not rejected")
        return []
    return [[o - 1 for o in json.loads(x)] for x in dict.fromkeys(r.tagged("RUN"))]


def scale(V, f):
    v = V["v"]
    V["v"] = f(v) if not isinstance(v, list) else [f(x) if not isinstance(x, list) else [f(y) for y in x] for x in v]


def twin_study(rng, sd):
    """same names and sizes, other values: all of them, or a single element's"""
    sd = copy.deepcopy(sd)
    els = [(k, i, f) for k, fs in (("cons", ("qty", "cost")), ("prod", ("qty", "cost")), ("link", ("qty", "cost")), ("conv", ("max", "cost")), ("stor", ("cap", "fin", "fout", "cost")))
           for i in range(len(sd[k])) for f in fs]
    if els and rng.random() < 0.4: els = [rng.choice(els)]
    for k, i, f in els:
        a = rng.choice([2, 3]); b = rng.choice([0, 1])
        scale(sd[k][i][f], lambda x: x * a + b)
    return sd


def twin_mats(rng, O):
    def m(M): return [[x + 0.25 * rng.randint(1, 40) for x in r] for r in M]
    return {k: [[m(M) for M in v] for v in O[k]] if k == "csrc" else [m(M) for M in O[k]] for k in O}


def study_obj(rng, sd):
    tail = [rng.choice(["look", "json", "load", "solve", "solve"]) for _ in range(rng.choice([2, 3]))]
    if "solve" not in tail: tail[-1] = "solve"
    return {"kind": "study", "sd": sd, "prog": ["part"] * 3 + tail}


def analysis_obj(rng, sd, O):
    return {"kind": "analysis", "sd": sd, "O": O, "prog": ["new"] + [rng.choice(["tables", "costs", "racs", "balances", "counts", "q1", "q2", "q3"]) for _ in range(rng.choice([3, 4, 5]))]}


def plot_obj(rng, sd, O, coord):
    return {"kind": "plot", "sd": sd, "O": O, "unit": rng.choice(["MW", "", "GW"]), "coord": coord, "dates": rng.choice([None, ["2020-01-01", "2020-02-01"], ["2021-01-01", "2021-02-01"]]),
            "prog": ["new"] + [rng.choice(["stack", "matrix", "map", "lines"]) for _ in range(rng.choice([2, 3]))]}


def links_in_order(sd):
    pos = {(n, x): k for k, (n, x) in enumerate((n, x) for n, xs in sd["nets"] for x in xs)}
    sd["link"].sort(key=lambda e: pos[(e["net"], e["src"])])


def family(rng, kind, n):
    """n objects of one kind, alike"""
    if kind == "study":
        sd = gen.study(rng, want=A.WANTS[rng.randrange(len(A.WANTS))], feasible_bias=1.0, maxnodes=3, qmode=rng.choice(["int", "float"]))
        return [study_obj(rng, sd)] + [study_obj(rng, twin_study(rng, sd) if rng.random() < 0.8 else gen.study(rng, maxnodes=3, feasible_bias=1.0)) for _ in range(n - 1)]
    if kind in ("analysis", "plot"):
        sd = AN.study(rng, rich=rng.random() < 0.5); links_in_order(sd)
        O, tag = AN.synth(rng, sd), "f%d" % rng.randrange(10**9)
        coord = {x: [round(rng.uniform(-5, 9), 2), round(rng.uniform(40, 55), 2)] for _, xs in sd["nets"] for x in xs}
        out = []
        for i in range(n):
            s, o, c = sd, O, coord
            if i:
                k = rng.random()
                if k < 0.6: o = twin_mats(rng, O)
                if k > 0.5: s = twin_study(rng, sd)
                if rng.random() < 0.5: c = {x: [v[0] + 1, v[1] - 1] for x, v in coord.items()}
            out.append(analysis_obj(rng, s, o) if kind == "analysis" else plot_obj(rng, s, o, c))
            if s is sd: out[-1]["share"] = tag        # the same study object, analysed more than once
        return out
    if kind == "pipe":
        while True:
            fr = P.frame(rng)
            ch = P.random_chain(rng, sorted({c[1] for c in fr["cols"]}))
            if not (isinstance(fr["cols"][0][0], str) and any(o["op"] in ("repeat", "focus") for o in ch)): break
        out = []
        for i in range(n):
            f, g, c = copy.deepcopy(fr), copy.deepcopy(fr), copy.deepcopy(ch)
            step = 4
            for col in g["cols"]: col[2] = [v + step for v in col[2]]
            if i:
                if rng.random() < 0.7:
                    for col in f["cols"]: col[2] = [v + 4 * rng.randint(0, 5) for v in col[2]]
                for o in c:
                    if o["op"] == "clip":
                        if o["lo"] and o["hi"]: o["hi"] = [o["hi"][0] + rng.choice([0, 8])]
                        elif o["lo"]: o["lo"] = [o["lo"][0] + rng.choice([0, 5])]
                    if o["op"] == "repeat": o["n"] = rng.choice([1, 2, 3])
                    if o["op"] == "focus": o["k"] = rng.choice([0, 2])
            out.append({"kind": "pipe", "ops": c, "fr": f, "fr2": g, "fault": {"loss": rng.choice([1, 5]), "max": rng.choice([2, 4]), "seed": rng.choice([0, 1, 7])},
                        "prog": ["compose"] + [rng.choice(["run", "run2", "fault"]) for _ in range(rng.choice([2, 3, 4]))]})
        return out
    names, H, S = rng.sample(["solar", "load", "a", "é"], rng.choice([1, 2, 3])), rng.choice([1, 3]), rng.choice([1, 2, 4])
    out = []
    for i in range(n):
        data = [[nm, [[rng.randint(-9, 60) for _ in range(H)] for _ in range(S)], rng.choice([None, -3, 0])] for nm in names]
        prog = ["new"]
        for _ in data: prog += ["add"] + (["shuffle"] if rng.random() < 0.3 else [])
        out.append({"kind": "shuf", "data": data, "nb": rng.choice([1, 3, 6]), "prog": prog + ["shuffle"]})
    return out


def c26(ctx):
    rng = random.Random(ctx.seed * 524287 + 26)
    orders(ctx, [2, 2], leak=True)
    small = [x for l in parallel([lambda v=v: orders(ctx, v) for v in ([3, 3], [4, 4], [2, 2, 2])], 3) for x in l]
    by = {}
    for o in small: by.setdefault(tuple(o.count(i) for i in range(max(o) + 1)), []).append(o)
    jobs = []
    def put(objs, order, drop=False): jobs.append({"id": "s%d" % len(jobs), "objs": objs, "order": order, "drop": drop})
    # every interleaving of short programs, objects of the same kind and alike
    for n, (lens, lst) in enumerate(sorted(by.items())):
        for i, o in enumerate(lst):
            kind = ("analysis", "pipe", "shuf", "study", "plot")[i % 5]
            objs = family(rng, kind, len(lens))
            for b, l in zip(objs, lens):
                head = {"study": ["part"] * 3, "analysis": ["new"], "plot": ["new"], "pipe": ["compose"], "shuf": ["new", "add"]}[kind]
                rest = [x for x in b["prog"] if x not in ("part", "new", "compose", "add")]
                if kind == "study" and l < 4: head = ["part"] * 2; rest = ["look", "json"]
                if kind == "study" and l >= 4: rest = ["solve"]
                while len(rest) < l: rest += rest
                if kind == "shuf": b["data"] = b["data"][:1]
                b["prog"] = (head + rest)[:l]
            put(objs, o)
    # longer programs, mixed kinds
    m, fam = ctx.pick(220, 3000), []
    for i in range(m):
        kind = ("study", "analysis", "plot", "pipe", "shuf", "study", "analysis")[i % 7]
        objs = family(rng, kind, 2)
        if rng.random() < 0.4: objs += family(rng, rng.choice(["study", "analysis", "plot", "pipe", "shuf"]), 1)
        fam.append(objs)
    def lens_of(objs): return tuple(len(o["prog"]) for o in objs)
    groups = {}
    for objs in fam: groups.setdefault(tuple(sorted(lens_of(objs))), []).append(objs)
    # interleavings for the lengths that occur, drawn by TLC
    def draw(g):
        ls, items = g
        return ls, orders(ctx, list(ls), simulate=len(items), seed=ctx.seed)
    for ls, runs in parallel([lambda g=g: draw(g) for g in sorted(groups.items())], 6):
        if not runs: raise MachineryError("no interleaving")
        for i, objs in enumerate(groups[ls]):
            objs = sorted(objs, key=lambda o: len(o["prog"]))
            put(objs, runs[i % len(runs)], drop=rng.random() < 0.3)
    # one after the other, the former gone
    for i in range(ctx.pick(60, 600)):
        objs = family(rng, ("analysis", "study", "plot", "pipe", "shuf")[i % 5], 3)
        put(objs, [k for k, o in enumerate(objs) for _ in o["prog"]], drop=True)
    parts = [jobs[i::8] for i in range(8)]
    recs = []
    for part, r in zip(parts, ctx.run_drivers("drv_isolation.py", parts, timeout=ctx.pick(600, 3000))):
        if isinstance(r, dict):
            ctx.fail("crash", r["crash"], part[:1]); continue
        for j, x in zip(part, r):
            dead = [i for i, a in enumerate(x["alone"]) if "died" in a]
            if dead and "died" in x["session"]: ctx.fail("crash", "objects die alone too: %s" % x["alone"][dead[0]], j); continue
            if dead or "died" in x["session"]:
                ctx.fail("crash", "dies only %s" % ("alone" if dead else "in company"), j); continue
            recs.append({"id": j["id"], "tol": TOL, "alone": [[e["out"] for e in a["events"]] for a in x["alone"]], "events": x["session"]["events"], "again": x["session"]["again"]})
    byid = {j["id"]: j for j in jobs}
    cor = []
    def tamper(name, how):
        for r in recs[len(cor):]:
            a = json.loads(json.dumps(r)); a["id"] = "corrupt-" + name
            if how(a): cor.append(a); return
    tamper("text", lambda a: a["events"][-1]["out"].update(t="zz") or True)
    tamper("later", lambda a: a["again"][0].update(t="zz") or True)
    tamper("own", lambda a: a["again"][-1].update(own="zz") or True)
    tamper("lost", lambda a: (a["events"].pop(), a["again"].pop()) and True)
    def num(a):
        for e in a["events"]:
            if e["out"]["n"]: e["out"]["n"][0] += 5 * TOL; return True
        return False
    tamper("cost", num)
    def one(k):
        ch = recs[k::4] + (cor if k == 0 else [])
        f = ctx.path("iso_rec%d.json" % k); json.dump(ch, open(f, "w"))
        t = ctx.tlc("IsolationTrace", env={"DATA": f}, workers=2, timeout=900, label="IsolationTrace/%d" % k)
        if set(t.tagged("DONE")) != {c["id"] for c in ch}: raise MachineryError("incomplete validation")
        return [l.split("|", 2) for l in t.tagged("FAIL")]
    bad = {}
    for l in parallel([lambda k=k: one(k) for k in range(4)], 4):
        for i, cl, w in l: bad.setdefault(i, []).append((cl, w))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered session accepted: " + c["id"]
    for i, fl in bad.items(): ctx.fail(fl[0][0], "%s: %s" % (i, fl[0][1][:400]), byid[i])
    if len(cor) < 5 and not ctx.fails: raise MachineryError("nothing to tamper with")
    ctx.traces += len(recs)
    kinds = {}
    for r in recs:
        for e in r["events"]:
            k = byid[r["id"]]["objs"][e["o"] - 1]["kind"] + " " + e["op"] + (" raised" if e["out"]["t"].startswith("raised") else ""); kinds[k] = kinds.get(k, 0) + 1
    ctx.cov.update(sessions=len(recs), exhaustive_short_interleavings=len(small), answers=kinds, tampered_sessions_rejected=len(cor))
    if recs: ctx.sample({k: recs[0][k] for k in ("id", "events")})
