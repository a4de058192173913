"""C11, C12: lives of studies / results and their JSON documents (spec/JsonLife.tla), judged by spec/JsonTrace.tla."""
import json, random
import gen, chk_build as CB, chk_adequacy as A
from core import MachineryError, parallel

OPS = ["consumption", "production", "storage", "link", "link", "to_converter", "to_converter", "converter"]


def sessions(ctx, n, seed):
    cfg = {"values": [{"ok": v["ok"], "m": v["m"]} for v in CB.VALS], "len": 14, "ops": OPS, "nets": ["default", "n2", "a::b"], "nodes": ["a", "b", "::"],
           "names": ["x", "y"], "convs": ["v", "w"], "sets": CB.OKSETS}
    f = ctx.path("life%d.json" % seed); json.dump(cfg, open(f, "w"))
    r = ctx.tlc("MCJsonLife", env={"CFG": f}, simulate=n, depth=16, workers=1, seed=seed, label="MCJsonLife/%d" % seed, timeout=900)
    return [json.loads(x) for x in dict.fromkeys(r.tagged("RUN"))]


def acts(rng, n, changes=True, twins=False):
    """A life of one object loaded and dumped several times."""
    out, objs, docs = [{"act": "new"}], 1, 0
    if twins:
        out.append({"act": "new", "twin": rng.randrange(10 ** 9)}); objs += 1
    while len(out) < n:
        k = rng.random()
        if k < 0.35 or docs == 0:
            out.append({"act": "dump", "i": rng.randint(1, objs)}); docs += 1
        elif k < 0.5:
            out.append({"act": "text", "d": rng.randint(1, docs)}); docs += 1
        elif k < 0.85:
            out.append({"act": "load", "d": rng.randint(1, docs)}); objs += 1
        elif changes:
            out.append({"act": "change", "i": rng.randint(1, objs)})
    return out


def judge(ctx, jobs, pairs, sds, prop):
    n = 8
    parts = [(jobs[i::n], pairs[i::n]) for i in range(n) if jobs[i::n] or pairs[i::n]]
    recs, got = [], []
    for p, ((jj, pp), res) in enumerate(zip(parts, ctx.run_drivers("drv_json.py", [{"values": CB.VALS, "lives": jj, "pairs": pp} for jj, pp in parts], timeout=ctx.pick(400, 1500)))):
        if "crash" in res:
            ctx.fail("crash", res["crash"], jj[:1]); continue
        for k, (j, steps) in enumerate(zip(jj, res["lives"])):
            recs.append({"id": "%s.%d.%d" % (j["kind"], p, k), "steps": steps, "job": {x: y for x, y in j.items() if x != "acts"}})
        got += res["pairs"]
    # tampered lives must be rejected
    cor = []
    for want, cl in (("load", "objs"), ("dump", "texts"), ("load", "eq"), ("change", "same"), ("load", "same")):
        for r in recs:
            i = next((k for k, s in enumerate(r["steps"]) if s["act"] == want and s["outcome"] == "ok" and k > 1), None)
            if i is None: continue
            a = json.loads(json.dumps({"id": r["id"], "steps": r["steps"][:i + 1], "deep": r["id"][:7] == "session"})); a["id"] = "corrupt%d" % len(cor)
            e = a["steps"][i]
            if cl == "objs":
                e["objs"][-1] = "c99" if r["id"][:7] != "session" else {"nets": [], "conv": []}
                if r["id"][:7] == "session" and r["steps"][i]["objs"][-1] == {"nets": [], "conv": []}: continue
            elif cl == "texts":
                if len(e["texts"]) < 2: continue
                e["texts"][0] = 9999
            elif cl == "same":
                # a change goes unnoticed by ==, or a copy is not equal
                k = len(e["objs"])
                if want == "change":
                    d = [[i + 1, j + 1] for i in range(k) for j in range(k) if [i + 1, j + 1] not in e["same"]]
                    if not d or r["id"][:7] == "session": continue
                    e["same"].append(d[0]); e["other"].remove(d[0])
                else:
                    d = [p for p in e["same"] if p[0] != p[1]]
                    if not d: continue
                    e["same"].remove(d[0]); e["other"].append(d[0])
            else:
                # only meaningful while the document's source is unchanged
                if any(s["act"] == "change" for s in a["steps"]): continue
                e["eq"] = False
            cor.append(a); break
    bad = {}
    for k in range(0, max(len(recs), 1), 3000):
        ch = [{"id": r["id"], "steps": r["steps"], "deep": r["id"][:7] == "session"} for r in recs[k:k + 3000]] + (cor if k == 0 else [])
        f = ctx.path("lives%d.json" % k)
        json.dump({"values": [{"ok": v["ok"], "m": v["m"]} for v in CB.VALS], "recs": ch}, open(f, "w"))
        t = ctx.tlc("JsonTrace", env={"DATA": f}, timeout=900, label="JsonTrace/%d" % k)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered life accepted: %s" % c["id"]
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items():
        ctx.fail(fl[0][0], i + " " + fl[0][1][:500], byid[i])
    ctx.traces += len(recs)
    ctx.cov["lives"] = len(recs)
    st = {}
    for r in recs:
        for s in r["steps"]:
            k = s["act"] + ("" if s["outcome"] == "ok" else " rejected"); st[k] = st.get(k, 0) + 1
    ctx.cov["steps"] = st
    ctx.cov["tampered_lives_rejected"] = len(cor)
    if recs: ctx.sample(recs[0])
    if len(cor) < 5 and not ctx.fails: raise MachineryError("nothing to tamper with")
    # the copy is solved as the original: structure, feasibility and same cost
    if pairs:
        arecs = []
        for g in got:
            sd = sds[int(g["id"])]
            if "error" in g:
                ctx.fail("copy", g["error"], sd); continue
            # X: the original's dispatch, as witness for the copy's
            I = gen.flat(sd)
            if not A.shape_ok(I, g["orig"]["O"]):
                ctx.fail("shape", "original result", sd); continue
            O = g["orig"]["O"]
            lp = [{"x": {**{k: [M[s] for M in O[k]] for k in O if k != "csrc"}, "csrc": [[M[s] for M in v] for v in O["csrc"]]}} for s in range(sd["S"])]
            arecs.append(A.record(g["id"], sd, g["copy"], "C06", True, lp))
        bad = A.validate(ctx, arecs, "C06", sds, "pairs")
        for i, fl in bad.items():
            ctx.fail(fl[0][0], "copy solves differently: study #%s %s" % (i, fl[0][1]), sds[int(i)])
        ctx.traces += len(arecs)
        ctx.cov["solved_copies"] = len(arecs)


def c11(ctx):
    rng = random.Random(ctx.seed * 7919 + 11)
    n = ctx.pick(120, 1500)
    runs = [x for p in parallel([lambda s=s: sessions(ctx, n, ctx.seed * 10 + s) for s in range(4)], 4) for x in p]
    jobs = [{"kind": "session", "acts": a, "version": rng.choice([None, None, "0.1", "9.9", "v1.0", " 2.0-rc1 ", "0"])} for a in runs]
    for i in range(ctx.pick(220, 3000)):
        sd = gen.study(rng, want=A.WANTS[i % len(A.WANTS)], size=(11, 12) if i % 30 == 29 else None)
        containers(rng, sd)
        jobs.append({"kind": "study", "sd": sd, "acts": acts(rng, 8, twins=i % 2 == 0)})
    sds = [gen.study(rng, want=A.WANTS[i % len(A.WANTS)], feasible_bias=1.0) for i in range(ctx.pick(110, 1500))]
    judge(ctx, jobs, [{"id": str(i), "sd": sd} for i, sd in enumerate(sds)], sds, "C11")


def containers(rng, sd):
    """every numeric container of the public contract"""
    KIN = {"scalar": ["py", "npnum", "np32"], "row": ["list", "np", "int32", "float32", "series", "seriesx", "view"],
           "col": ["list", "np", "df", "float32", "fort"], "mat": ["list", "np", "df", "dfx", "fort", "view", "float32"]}
    def vals():
        for k in ("cons", "prod", "stor", "link", "conv"):
            for e in sd[k]:
                for v in e.values():
                    if isinstance(v, dict) and "form" in v: yield v
                for q in e.get("srcs", []): yield q["ratio"]
    for v in vals():
        k = rng.choice(KIN[v["form"]])
        if k in ("int32", "float32", "np32") and sd["qmode"] in ("big", "huge"): continue
        if k == "int32":
            flatten = [x for x in (v["v"] if v["form"] == "row" else sum(v["v"], []))]
            if any(x != int(x) for x in flatten): continue
        v["kind"] = k
    if rng.random() < 0.3:        # numbers that use all their digits
        f = rng.choice([1 / 3, 1e-7 / 3, 7e9 / 3])
        sc = lambda x: [sc(y) for y in x] if isinstance(x, list) else x * f
        for k in ("cons", "prod", "stor", "link", "conv"):
            for e in sd[k]:
                for n, v in e.items():
                    if n == "init": e[n] = v * f
                    elif isinstance(v, dict) and n not in ("eff",) and v["kind"] != "int32": v["v"] = sc(v["v"])


SPECIAL = [0.1, 1e-9, 123456789.123, 1e15, 0.0, 1 / 3, 2.5e-300, 7.0]


def synth(rng, sd):
    S, H = sd["S"], sd["H"]
    mode = rng.choice(["int", "float", "zero", "special"])
    d = {"int": lambda: float(rng.randint(0, 50)), "float": lambda: rng.uniform(0, 100), "zero": lambda: 0.0, "special": lambda: rng.choice(SPECIAL)}[mode]
    M = lambda: [[d() for _ in range(H)] for _ in range(S)]
    return {"given": [M() for _ in sd["cons"]], "used": [M() for _ in sd["prod"]], "flow": [M() for _ in sd["link"]], "lvl": [M() for _ in sd["stor"]],
            "in": [M() for _ in sd["stor"]], "out": [M() for _ in sd["stor"]], "cdst": [M() for _ in sd["conv"]], "csrc": [[M() for _ in c["srcs"]] for c in sd["conv"]]}


def c12(ctx):
    rng = random.Random(ctx.seed * 104729 + 12)
    jobs = []
    for i in range(ctx.pick(260, 3500)):
        sd = gen.study(rng, want=A.WANTS[i % len(A.WANTS)], size=(11, 12) if i % 30 == 29 else None)
        # links in study order
        pos = {(n, x): k for k, (n, x) in enumerate((n, x) for n, xs in sd["nets"] for x in xs)}
        sd["link"].sort(key=lambda e: pos[(e["net"], e["src"])])
        j = {"kind": "result", "sd": sd, "O": synth(rng, sd), "acts": acts(rng, 8, twins=i % 2 == 0)}
        if rng.random() < 0.5:
            j["bench"] = {"modeler": [rng.random() for _ in range(rng.choice([0, 1, sd["S"]]))], "solver": [rng.random() for _ in range(sd["S"])],
                          "mapper": rng.choice([0, rng.random()]), "total": rng.random()}
        jobs.append(j)
    for i in range(ctx.pick(70, 1000)):
        jobs.append({"kind": "result", "sd": gen.study(rng, want=A.WANTS[i % len(A.WANTS)], feasible_bias=1.0), "acts": acts(rng, 8)})
    judge(ctx, jobs, [], [], "C12")
