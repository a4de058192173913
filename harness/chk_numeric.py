"""C08: numeric arguments (spec/Numeric.tla)."""
import json, random
import gen, chk_adequacy as A
from core import MachineryError

JUNKS = ["str", "none", "dict", "obj", "ragged", "set"]


def c08(ctx):
    cfg = ctx.path("numeric.json")
    mx = ctx.pick(3, 4)
    json.dump({"max": mx, "full": ctx.thorough, "salt": ctx.seed}, open(cfg, "w"))
    r = ctx.tlc("MCNumeric", env={"CFG": cfg}, workers=4, timeout=800)
    cases = [dict(json.loads(x), junk=False) for x in r.tagged("CASE")]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    fields = sorted({c["field"] for c in cases})
    for f in fields:
        for k in JUNKS:
            for H, S in ((1, 1), (2, 3)):
                cases.append({"H": H, "S": S, "dims": [], "field": f, "kind": k, "junk": True})
    parts = [cases[i::8] for i in range(8)]
    res = ctx.run_drivers("drv_numeric.py", parts, timeout=ctx.pick(400, 2500))
    recs = []
    for p, (part, rr) in enumerate(zip(parts, res)):
        if isinstance(rr, dict):
            ctx.fail("crash", rr["crash"], part[:3]); continue
        for k, (c, o) in enumerate(zip(part, rr)):
            recs.append(dict(c, id="%d.%d" % (p, k), outcome=o["outcome"], cells=o["cells"], table=o["table"], later=o["later"], intact=o["intact"], beyond=o["beyond"], text=o.get("text", "")))
    ok = [x for x in recs if x["outcome"] == "ok" and isinstance(x["cells"], list) and x["H"] > 1]
    cor = []
    if ok:
        a = json.loads(json.dumps(ok[0])); a["id"] = "corrupt0"; a["cells"][0][0] = 77; cor.append(a)
        a = json.loads(json.dumps(ok[-1])); a["id"] = "corrupt1"; a["table"][0] = a["table"][0][::-1] + [1]; cor.append(a)
        a = json.loads(json.dumps(ok[len(ok) // 2])); a["id"] = "corrupt2"; a["later"][0][0] = 99; cor.append(a)
        a = json.loads(json.dumps(ok[len(ok) // 3])); a["id"] = "corrupt3"; a["intact"] = False; cor.append(a)
    f = ctx.path("num.json"); json.dump(recs + cor, open(f, "w"))
    t = ctx.tlc("NumericTrace", env={"DATA": f}, timeout=800)
    if len(set(t.tagged("DONE"))) != len(recs) + len(cor):
        raise MachineryError("incomplete validation")
    bad = {}
    for l in t.tagged("FAIL"):
        i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered record accepted"
    byid = {x["id"]: x for x in recs}
    for i, fl in bad.items():
        x = byid[i]
        ctx.fail(fl[0][0], "%s H=%d S=%d dims=%s %s: %s" % (x["field"], x["H"], x["S"], x["dims"], x["kind"], fl[0][1]), x)
    ctx.traces += len(recs)
    ctx.cov["cases"] = len(recs)
    ctx.cov["accepted"] = sum(x["outcome"] == "ok" for x in recs)
    ctx.cov["tampered_records_rejected"] = len(cor)
    ctx.sample(recs[0]); ctx.sample(recs[len(recs) // 2])
    solved(ctx)


def solved(ctx):
    """The solver reads the same values: whole studies in every shape and container, judged by Adequacy with a witness."""
    rng = random.Random(5 + ctx.seed * 7)
    n = ctx.pick(160, 2000)
    sds = []
    KIN = {"scalar": ["py", "npnum", "np32", "np0"], "row": ["list", "np", "int32", "float32", "uint8", "series", "seriesx", "view"],
           "col": ["list", "np", "df", "dfx", "fort", "int16"], "mat": ["list", "np", "df", "dfx", "fort", "view", "float32"]}
    def rekind(e):
        for k, v in e.items():
            if isinstance(v, dict) and "form" in v:
                flat = [v["v"]] if v["form"] == "scalar" else [x for r in v["v"] for x in (r if isinstance(r, list) else [r])]
                ints = all(float(x).is_integer() and 0 <= x < 250 for x in flat)
                ks = KIN[v["form"]]
                if not ints: ks = [q for q in ks if q not in ("int32", "uint8", "int16", "float32", "np32")]
                v["kind"] = rng.choice(ks)
            elif k == "srcs":
                for q in v: rekind(q)
    for i in range(n):
        sd = gen.study(rng, want=A.WANTS[i % len(A.WANTS)], maxnodes=3, feasible_bias=1.0, qmode="int", costmode="int")
        for k in ("cons", "prod", "link", "stor", "conv"):
            for e in sd[k]: rekind(e)
        sds.append(sd)
    got = A.solve_all(ctx, [{"id": str(i), "sd": sd} for i, sd in enumerate(sds)])
    lps = A.lp_all(ctx, sds)
    recs = [A.record(str(i), sd, got[str(i)], "C08", True, lps[i]) for i, sd in enumerate(sds)]
    bad = A.validate(ctx, recs, "ALL", None, "shapes")
    for i, fl in bad.items():
        for cl, where in fl[:2]:
            ctx.fail("solved " + cl, "study #%s %s" % (i, where), {"study": sds[int(i)], "result": got[i]})
    ctx.traces += len(recs)
    ctx.cov["studies_solved"] = len(recs)
