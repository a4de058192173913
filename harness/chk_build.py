"""C09, C10: builder sessions generated from spec/StudyBuild.tla, replayed, and judged by spec/StudyTrace.tla."""
import json
from core import MachineryError, parallel

# catalogue of argument values for H = S = 2: meaning in hundredths, concrete form for the driver
def full(x): return [[x, x], [x, x]]
VALS = [
    {"ok": True, "m": full(500), "kind": "py", "raw": 5},                                    # 1
    {"ok": True, "m": [[100, 200], [100, 200]], "kind": "list", "raw": [1, 2]},              # 2
    {"ok": True, "m": [[300, 300], [0, 0]], "kind": "list", "raw": [[3], [0]]},              # 3
    {"ok": True, "m": [[100, 200], [300, 450]], "kind": "np", "raw": [[1, 2], [3, 4.5]]},    # 4
    {"ok": True, "m": full(-100), "kind": "py", "raw": -1},                                  # 5
    {"ok": True, "m": [[100, -100], [100, -100]], "kind": "series", "raw": [1, -1]},         # 6
    {"ok": True, "m": [[100, 200], [300, -50]], "kind": "df", "raw": [[1, 2], [3, -0.5]]},   # 7
    {"ok": True, "m": [[100, 100], [-200, -200]], "kind": "np", "raw": [[1], [-2]]},         # 8
    {"ok": False, "m": [], "kind": "list", "raw": [1, 2, 3]},                                # 9
    {"ok": False, "m": [], "kind": "junk", "raw": 0},                                        # 10
    {"ok": True, "m": full(50), "kind": "py", "raw": 0.5},                                   # 11
    {"ok": True, "m": [[100, 50], [100, 50]], "kind": "list", "raw": [1, 0.5]},              # 12
    {"ok": True, "m": [[50, 150], [50, 150]], "kind": "list", "raw": [0.5, 1.5]},            # 13
    {"ok": True, "m": full(100), "kind": "py", "raw": 1},                                    # 14
    {"ok": True, "m": full(0), "kind": "py", "raw": 0},                                      # 15
    {"ok": True, "m": full(200), "kind": "py", "raw": 2},                                    # 16
    {"ok": True, "m": [[50, 50], [50, -10]], "kind": "np", "raw": [[0.5, 0.5], [0.5, -0.1]]},# 17
    {"ok": True, "m": full(0), "kind": "omit", "raw": 0},                                    # 18 default cost
    {"ok": True, "m": full(99), "kind": "omit", "raw": 0},                                   # 19 default efficiency
    {"ok": True, "m": full(100), "kind": "omit", "raw": 0},                                  # 20 default ratio
    {"ok": True, "m": [[-100, 200], [300, 400]], "kind": "list", "raw": [[-1, 2], [3, 4]]},  # 21
    {"ok": True, "m": [[100, 100], [101, 100]], "kind": "np", "raw": [[1, 1], [1.01, 1]]},   # 22
    {"ok": False, "m": [], "kind": "np", "raw": [[1, 2, 3], [1, 2, 3]]},                     # 23
    # a hair out of range (the meaning bears the sign only: such a value is never kept)
    {"ok": True, "m": [[100, -1], [100, -1]], "kind": "list", "raw": [1, -1e-9]},            # 24
    {"ok": True, "m": full(101), "kind": "py", "raw": 1.000000001},                          # 25
    {"ok": True, "m": full(-1), "kind": "py", "raw": -1e-10},                                # 26
]
# the same catalogue for H = 4, S = 3: offending cells in the middle
def fat(x): return [[x] * 4 for _ in range(3)]
def rows(r): return [[int(round(x * 100)) for x in r] for _ in range(3)]
def cols(c): return [[int(round(x * 100))] * 4 for x in c]
def mat(m): return [[int(round(x * 100)) for x in r] for r in m]
def V(m, kind, raw, ok=True): return {"ok": ok, "m": m, "kind": kind, "raw": raw}
def R(kind, r): return V(rows(r), kind, r)
def C(kind, c): return V(cols(c), kind, [[x] for x in c])
def M(kind, m): return V(mat(m), kind, m)
VALS2 = [V(fat(500), "py", 5), R("list", [1, 2, 0, 7]), C("list", [3, 0, 2]), M("np", [[1, 2, 3, 4], [5, 6, 7, 8], [3, 4.5, 0, 9]]), V(fat(-100), "py", -1),
    R("series", [1, 3, -1, 2]), M("df", [[1, 2, 1, 1], [3, -0.5, 4, 4], [1, 1, 1, 1]]), C("np", [1, -2, 4]), V([], "list", [1, 2, 3], False), V([], "junk", 0, False),
    V(fat(50), "py", 0.5), R("list", [1, 0.5, 0.25, 0]), R("list", [0.5, 1.5, 0.5, 0.5]), V(fat(100), "py", 1), V(fat(0), "py", 0), V(fat(200), "py", 2),
    M("np", [[0.5] * 4, [0.5, 0.5, -0.1, 0.5], [0.5] * 4]), V(fat(0), "omit", 0), V(fat(99), "omit", 0), V(fat(100), "omit", 0),
    M("list", [[1, 2, 3, 4], [1, 2, 3, -4], [5, 6, 7, 8]]), M("np", [[1] * 4, [1, 1.01, 1, 1], [1] * 4]), V([], "np", [[1, 2, 3], [1, 2, 3], [4, 5, 6], [7, 8, 9]], False),
    V(rows([1, 2, -.01, 2]), "np", [1, 2, -1e-9, 2]), V(cols([1, 1.01, .5]), "list", [[1], [1.0000001], [.5]]), V(fat(-1), "npnum", -1e-12)]
assert len(VALS) == len(VALS2) and [v["ok"] for v in VALS] == [v["ok"] for v in VALS2]
SETS = {"q": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 21, 23, 24, 26], "c": [1, 2, 3, 4, 5, 6, 9, 10, 15], "cd": [1, 3, 6, 10, 18],
        "e": [11, 12, 13, 14, 15, 16, 17, 19, 22, 9, 5, 24, 25, 26], "r": [1, 2, 4, 9, 11, 20, 10], "m": [1, 2, 3, 4, 9, 10, 15]}
SMALL = {"q": [2, 7], "c": [3], "cd": [18], "e": [12, 13], "r": [20, 9], "m": [4]}
OKSETS = {"q": [1, 2, 3, 4, 15], "c": [1, 2, 3, 4, 5], "cd": [1, 3, 6, 18], "e": [11, 12, 14, 15, 19], "r": [1, 2, 4, 11, 20], "m": [1, 2, 3, 4, 15]}
W9 = ["network", "node", "node", "consumption", "consumption", "production", "production", "storage", "storage", "storage",
      "link", "link", "link", "to_converter", "to_converter", "converter", "converter"]
W10 = ["network", "network", "node", "node", "node", "consumption", "production", "production", "storage", "link", "link", "to_converter", "converter"]


def config(mode, length, sets, weights, nets=("default", "n2"), nodes=("a", "b"), names=("x", "y"), convs=("v", "w"), vals=VALS):
    return {"mode": mode, "len": length, "sets": sets, "weights": weights, "nets": list(nets), "nodes": list(nodes), "names": list(names),
            "convs": list(convs), "base": {"q": 4, "c": 1, "eff": 11}, "values": [{"ok": v["ok"], "m": v["m"]} for v in vals]}


def behaviours(ctx, name, cfg, simulate=None, seed=1):
    f = ctx.path("build_%s_%d.json" % (name, seed)); json.dump(cfg, open(f, "w"))
    if simulate:
        r = ctx.tlc("MCStudyBuild", env={"CFG": f}, simulate=simulate, depth=cfg["len"] + 2, workers=1, seed=seed, label="MCStudyBuild/" + name, timeout=900)
    else:
        r = ctx.tlc("MCStudyBuild", env={"CFG": f}, workers=4, label="MCStudyBuild/" + name, timeout=900)
    return [json.loads(x) for x in dict.fromkeys(r.tagged("RUN"))]


def judge(ctx, prop, runs, vals=VALS, hs=(2, 2)):
    n = 8
    parts = [runs[i::n] for i in range(n) if runs[i::n]]
    recs = []
    for p, (part, res) in enumerate(zip(parts, ctx.run_drivers("drv_build.py", [{"runs": x, "values": vals, "hs": hs} for x in parts], timeout=900))):
        if isinstance(res, dict):
            ctx.fail("crash", res["crash"], part[:2]); continue
        for k, steps in enumerate(res):
            recs.append({"id": "%d.%d" % (p, k), "steps": steps})
    cor = []
    for r in recs:
        i = next((k for k, s in enumerate(r["steps"]) if s["outcome"] == "ok" and s["call"]["op"] in ("consumption", "production")), None)
        if prop == "C09":
            i = next((k for k, s in enumerate(r["steps"]) if s["outcome"] == "ValueError"), None)
        if i is not None:
            a = json.loads(json.dumps(r)); a["id"] = "corrupt%d" % len(cor)
            if prop == "C09":
                if len(cor) == 0: a["steps"][i]["outcome"] = "ok"
                else: a["steps"][i]["after"]["conv"] += [{"name": "ghost", "dn": "", "dx": "", "max": [], "cost": [], "src": []}]
                a["steps"] = a["steps"][:i + 1]
            else:
                a["steps"] = a["steps"][:i + 1]
                a["steps"][i]["after"]["nets"].reverse(); a["steps"][i]["after"]["nets"] += [{"name": "ghost", "nodes": []}]
            cor.append(a)
            if len(cor) == 2: break
    bad, rejects, steps = {}, 0, 0
    chunks = [recs[i:i + 4000] for i in range(0, len(recs), 4000)]
    for k, ch in enumerate(chunks):
        ch = ch + (cor if k == 0 else [])
        f = ctx.path("sessions%d.json" % k); json.dump({"values": [{"ok": v["ok"], "m": v["m"]} for v in vals], "recs": ch}, open(f, "w"))
        t = ctx.tlc("StudyTrace", env={"DATA": f, "PROP": prop}, timeout=900, label="StudyTrace/%d" % k)
        done = dict(l.split("|") for l in t.tagged("DONE"))
        if len(done) != len(ch): raise MachineryError("incomplete validation %d/%d" % (len(done), len(ch)))
        rejects += sum(map(int, done.values()))
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered session accepted: %s" % c["id"]
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items():
        ctx.fail(fl[0][0], fl[0][1][:600], byid[i])
    ctx.traces += len(recs)
    add = lambda k, n: ctx.cov.__setitem__(k, ctx.cov.get(k, 0) + n)
    add("sessions", len(recs)); add("calls_judged", sum(len(r["steps"]) for r in recs))
    add("calls_the_spec_rejects", rejects); add("tampered_sessions_rejected", len(cor))
    ops = ctx.cov.get("calls_by_kind", {})
    for r in recs:
        for s in r["steps"]:
            k = s["call"]["op"] + (" ok" if s["outcome"] == "ok" else " rejected"); ops[k] = ops.get(k, 0) + 1
    ctx.cov["calls_by_kind"] = ops
    ctx.sample(recs[len(recs) // 2])
    if not cor and not ctx.fails: raise MachineryError("nothing to tamper with")


def c09(ctx):
    n = ctx.pick(150, 2500)
    fns = [lambda s=s: behaviours(ctx, "reject", config("random", 24, SETS, W9), n, ctx.seed * 10 + s) for s in range(4)]
    # crowded nodes: many elements per node, so that duplicates meet earlier ones anywhere
    fns.append(lambda: behaviours(ctx, "crowd", config("random", 36, OKSETS, W9 + W9[3:], nets=("default",), nodes=("a", ""), names=("x", "X", "", "u", "v", "x "), convs=("v", "w", "")), ctx.pick(120, 1500), ctx.seed * 10 + 7))
    fns.append(lambda: behaviours(ctx, "all4", config("all", ctx.pick(3, 4), SMALL, W9, nets=("default",), nodes=("a",), names=("x",), convs=("v",))))
    # every argument of every operation once on a prepared node: length 3 sequences network, node, call
    fns.append(lambda: behaviours(ctx, "args", config("all", 3, SETS, W9, nets=("default",), nodes=("a",), names=("x",), convs=("v",))))
    fns += [lambda s=s: behaviours(ctx, "reject34", config("random", 24, SETS, W9, vals=VALS2), n // 3, ctx.seed * 10 + 20 + s) for s in range(2)]
    fns.append(lambda: behaviours(ctx, "args34", config("all", 3, SETS, W9, nets=("default",), nodes=("a",), names=("x",), convs=("v",), vals=VALS2)))
    got = parallel(fns, 6)
    judge(ctx, "C09", [x for p in got[:-3] for x in p])
    judge(ctx, "C09", [x for p in got[-3:] for x in p], VALS2, (4, 3))


def c10(ctx):
    n = ctx.pick(150, 2500)
    fns = [lambda s=s: behaviours(ctx, "interleave", config("random", 28, OKSETS, W10, nets=("default", "n2", "a"), nodes=("a", "", "default", "a "), names=("", "a")), n, ctx.seed * 10 + s)
           for s in range(4)]
    tiny = {"q": [4], "c": [1], "cd": [18], "e": [11], "r": [20], "m": [4]}
    fns.append(lambda: behaviours(ctx, "all", config("all", ctx.pick(4, 5), tiny, W10, nets=("default", "n2") if not ctx.thorough else ("default",), nodes=("a", "b") if not ctx.thorough else ("a",), names=("x",), convs=("v",))))
    if ctx.thorough:
        fns.append(lambda: behaviours(ctx, "all2", config("all", 4, tiny, W10, nets=("default", "n2"), nodes=("a", "b"), names=("x",), convs=("v",))))
    runs = [x for p in parallel(fns, 6) for x in p]
    judge(ctx, "C10", runs)
