"""C01-C05, C07: dispatches returned by the real optimizer against spec/Adequacy.tla."""
import json, math, random
import gen
from core import MachineryError, PYVT

WANTS = [(), ("stor",), ("stor2",), ("stor2", "link"), ("conv",), ("conv2",), ("conv2", "stor2", "link"), ("link",),
         ("link", "self"), ("nets", "link"), ("nets", "conv", "stor")]
FOCUS = {"C01": WANTS, "C02": WANTS, "C05": WANTS, "C07": WANTS,
         "C03": [w for w in WANTS if any(x.startswith("stor") for x in w)],
         "C04": [w for w in WANTS if any(x.startswith("conv") for x in w)]}
LARGE = [(12, 3), (2, 26), (11, 12), (1, 170), (1, 48), (3, 14)]
CLIP = 1 << 25


def wide(n):
    n = int(n)
    l = n & 32767; n >>= 15
    m = n & 32767; n >>= 15
    return [n, m, l]


def matmax(M):
    return max([abs(v) for r in M for v in r] + [0])


class Scaler:
    """Fixed point image of an instance and of dispatches: quantities times Q, costs times K, efficiencies, ratios times 1000."""
    def __init__(self, I, costmode=None):
        m = 0.0
        for k, fs in (("cons", ["asked"]), ("prod", ["avail"]), ("link", ["avail"]), ("stor", ["cap", "fin", "fout"]), ("conv", ["max"])):
            for e in I[k]:
                m = max([m] + [matmax(e[f]) for f in fs])
        for e in I["stor"]:
            m = max(m, e["init"])
        for e in I["conv"]:
            for q in e["srcs"]:
                m = max([m] + [mx / r for rm, rr in zip(e["max"], q["ratio"]) for mx, r in zip(rm, rr)])
        self.Q = (1 << 23) / m if m > 0 else 1.0
        self.K = {"dec": 100, "fine": 1000, "lol": 1e-5}.get(costmode, 1)
        cm = 0
        for k in ("cons", "prod", "link", "stor", "conv"):
            for e in I[k]:
                cm = max(cm, matmax(e["cost"]))
        self.cmax = int(cm * self.K) + 1
        self.I = I

    def q(self, v):
        r = v * self.Q
        return int(max(-CLIP, min(CLIP, round(r))))

    def qm(self, M): return [[self.q(v) for v in r] for r in M]
    def cm(self, M): return [[int(round(v * self.K)) for v in r] for r in M]
    @staticmethod
    def em(M): return [[int(round(v * 1000)) for v in r] for r in M]

    def instance(self):
        I = self.I
        lim = lambda mx, rt: [[self.q(a / b) + 1 for a, b in zip(x, y)] for x, y in zip(mx, rt)]
        return {"H": I["H"], "S": I["S"], "nn": I["nn"], "E": 1000, "R": 1000,
                "cons": [{"node": e["node"], "asked": self.qm(e["asked"]), "cost": self.cm(e["cost"])} for e in I["cons"]],
                "prod": [{"node": e["node"], "avail": self.qm(e["avail"]), "cost": self.cm(e["cost"])} for e in I["prod"]],
                "link": [{"src": e["src"], "dst": e["dst"], "avail": self.qm(e["avail"]), "cost": self.cm(e["cost"])} for e in I["link"]],
                "stor": [{"node": e["node"], "cap": self.qm(e["cap"]), "fin": self.qm(e["fin"]), "fout": self.qm(e["fout"]),
                          "eff": self.em(e["eff"]), "cost": self.cm(e["cost"]), "init": self.q(e["init"])} for e in I["stor"]],
                "conv": [{"dst": e["dst"], "max": self.qm(e["max"]), "cost": self.cm(e["cost"]),
                          "srcs": [{"node": q["node"], "ratio": self.em(q["ratio"]), "lim": lim(e["max"], q["ratio"])} for q in e["srcs"]]}
                         for e in I["conv"]]}

    def result(self, O):
        r = {k: [self.qm(M) for M in O[k]] for k in ("given", "used", "flow", "lvl", "in", "out", "cdst")}
        r["csrc"] = [[self.qm(M) for M in ms] for ms in O["csrc"]]
        return r

    def tol(self):
        n = sum(len(self.I[k]) for k in ("cons", "prod", "link", "stor", "conv"))
        return 84 + 2 * n


def shape_ok(I, O):
    S, H = I["S"], I["H"]
    cnt = {"given": len(I["cons"]), "used": len(I["prod"]), "flow": len(I["link"]), "lvl": len(I["stor"]), "in": len(I["stor"]),
           "out": len(I["stor"]), "cdst": len(I["conv"]), "csrc": len(I["conv"])}
    if any(len(O[k]) != n for k, n in cnt.items()):
        return False
    for k in cnt:
        ms = O[k] if k != "csrc" else [M for v in O[k] for M in v]
        for M in ms:
            if len(M) != S or any(not isinstance(r, list) or len(r) != H for r in M):
                return False
            if any(v is None or not math.isfinite(v) for r in M for v in r):
                return False
    return [len(v) for v in O["csrc"]] == [len(e["srcs"]) for e in I["conv"]]


def stack_x(xs):
    """per scenario witness -> [element][scn][t]"""
    g = lambda k: [[x[k][i] for x in xs] for i in range(len(xs[0][k]))]
    r = {k: g(k) for k in ("given", "used", "flow", "lvl", "in", "out", "cdst")}
    r["csrc"] = [[[x["csrc"][i][j] for x in xs] for j in range(len(xs[0]["csrc"][i]))] for i in range(len(xs[0]["csrc"]))]
    return r


def record(rid, sd, got, prop, feasible=True, lp=None):
    I = gen.flat(sd)
    sc = Scaler(I, sd.get("costmode"))
    rec = {"id": rid, "I": sc.instance(), "usable": False, "outcome": got.get("outcome", "no answer"), "feasible": feasible,
           "observed": [], "expected": [], "shape": True, "tol": sc.tol(), "witness": False, "priced": False, "xtol": 24 + sc.tol() - 84,
           "round": wide(0), "O": {}, "X": {}, "Y": []}
    if rec["outcome"] == "ok":
        rec["observed"], rec["expected"] = got["struct"], gen.structure(sd)
        rec["shape"] = shape_ok(I, got["O"]) if rec["observed"] == rec["expected"] else False
        rec["usable"] = rec["shape"] and prop != "C07"
    if rec["usable"]:
        rec["O"] = sc.result(got["O"])
        if lp is not None and all(x.get("x") for x in lp):
            rec["witness"] = True
            rec["X"] = sc.result(stack_x([x["x"] for x in lp]))
            n = sum(len(I[k]) * (3 if k == "stor" else 2) for k in ("cons", "prod", "link", "stor", "conv")) + 1
            rec["round"] = wide(n * I["H"] * sc.cmax * (rec["xtol"] + 8))
            if all("y" in x for x in lp):
                p = lambda v: int(max(-131000, min(131000, round(v * sc.K))))
                pm = lambda M: [[p(v) for v in r] for r in M]
                rec["Y"] = [{"y": pm(x["y"]), "z": pm(x["z"]), "w": [pm(v) for v in x["w"]]} for x in lp]
                rec["priced"] = True
    return rec


def validate(ctx, recs, prop, sds, label):
    """Trace validation of the records by TLC; completeness of the run is checked."""
    f = ctx.path("trace_%s.json" % label)
    json.dump(recs, open(f, "w"))
    r = ctx.tlc("AdequacyTrace", env={"DATA": f, "PROP": prop}, label="AdequacyTrace/" + label, timeout=800)
    done = r.tagged("DONE")
    want = sum(x["I"]["S"] if x["usable"] else 1 for x in recs)
    if len(set(done)) != want:
        raise MachineryError("trace validation incomplete: %d of %d" % (len(set(done)), want))
    fails = [l.split("|", 2) for l in r.tagged("FAIL")]
    bad = {}
    for i, cl, where in fails:
        bad.setdefault(i, []).append((cl, where))
    ctx.cov["witness_rejected"] = ctx.cov.get("witness_rejected", 0) + len(r.tagged("XBAD"))
    ctx.cov["optimality_certificates"] = ctx.cov.get("optimality_certificates", 0) + len(r.tagged("CERT"))
    return bad


def corruptions(recs, prop, rng):
    """Tampered copies of good records: each must be rejected (the binding is live)."""
    out = []
    pool = [r for r in recs if r["outcome"] == "ok" and (r["usable"] or prop == "C07")]
    rng.shuffle(pool)
    for r in pool:
        if len(out) >= 3:
            break
        c = json.loads(json.dumps(r)); c["id"] = "corrupt%d" % len(out)
        O, I = c["O"], c["I"]
        big = 1 << 21
        s, t = rng.randrange(I["S"]), rng.randrange(I["H"])
        if prop == "C07":
            c["outcome"] = "ValueError: tampered" if c["feasible"] else "ok"
        elif prop == "C01" and O["used"]:
            O["used"][rng.randrange(len(O["used"]))][s][t] += big
        elif prop == "C02" and O["given"]:
            k = rng.randrange(len(O["given"])); O["given"][k][s][t] = I["cons"][k]["asked"][s][t] + big
        elif prop == "C03" and O["lvl"]:
            O["lvl"][rng.randrange(len(O["lvl"]))][s][t] += big
        elif prop == "C04" and O["cdst"]:
            O["cdst"][rng.randrange(len(O["cdst"]))][s][t] += 4 * big
        elif prop == "C05" and O["used"] and r["witness"]:
            n = sum(len(I[k]) * (3 if k == "stor" else 2) for k in ("cons", "prod", "link", "stor", "conv")) + 1
            top = max([1] + [v for k in ("cons", "prod", "link", "stor", "conv") for e in I[k] for row in e["cost"] for v in row])
            ks = [k for k in range(len(O["used"])) if I["prod"][k]["cost"][s][t] << 24 > 4 * n * I["H"] * top * (r["xtol"] + 8)]     # beyond the rounding
            if not ks: continue
            O["used"][ks[0]][s][t] += 1 << 24
        else:
            continue
        out.append(c)
    return out


def solve_all(ctx, jobs, timeout=600):
    n = 8
    parts = [jobs[i::n] for i in range(n) if jobs[i::n]]
    got = {}
    for part, res in zip(parts, ctx.run_drivers("drv_solve.py", parts, timeout=timeout)):
        if isinstance(res, dict):
            # the process died: find the culprit by running each study alone
            for j in part:
                r1 = ctx.run_driver("drv_solve.py", [j], timeout=60)
                got[j["id"]] = r1[0] if isinstance(r1, list) else {"id": j["id"], "outcome": "crash " + r1["crash"]}
        else:
            for r in res:
                got[r["id"]] = r
    return got


def lp_all(ctx, sds, timeout=600):
    n = 8
    idx = [list(range(i, len(sds), n)) for i in range(n) if i < len(sds)]
    res = ctx.run_drivers("vt_lp.py", [[gen.flat(sds[k]) for k in part] for part in idx], py=PYVT, timeout=timeout)
    out = [None] * len(sds)
    for part, r in zip(idx, res):
        if isinstance(r, dict):
            raise MachineryError("witness generator failed: " + r["crash"])
        for k, v in zip(part, r):
            out[k] = v
    return out


def interesting(sd):
    nstor = {}
    for e in sd["stor"]:
        nstor[(e["net"], e["node"])] = nstor.get((e["net"], e["node"]), 0) + 1
    return {"several storages on a node": any(v > 1 for v in nstor.values()), "storage": bool(sd["stor"]),
            "converter": bool(sd["conv"]), "several sources": any(len(c["srcs"]) > 1 for c in sd["conv"]),
            "several networks": len(sd["nets"]) > 1, "self link": any(l["src"] == l["dst"] for l in sd["link"]),
            "several scenarios": sd["S"] > 1, "links": bool(sd["link"])}


def random_part(ctx, prop, n):
    rng = random.Random(1000003 * ctx.seed + sum(map(ord, prop)))
    focus = FOCUS[prop]
    sds = []
    for i in range(n):
        fb = {"C07": 0.6, "C02": 0.7, "C03": 0.7}.get(prop, 1.0)          # initial level above some capacity: may or may not be feasible
        w = focus[i % len(focus)]
        big = i % 7 == 6
        size = LARGE[i // 30 % len(LARGE)] if i % 30 == 29 else None          # two-digit scenario and step numbers, many nodes
        sds.append(gen.study(rng, want=w, feasible_bias=fb, maxnodes=(12 if size[0] * size[1] < 60 else 3) if size else 6 if big else 4, maxS=5 if big else 3, maxH=8 if big else 5, size=size))
    got = solve_all(ctx, [{"id": str(i), "sd": sd, "real": i % 20 == 3} for i, sd in enumerate(sds)])     # some with the real process pool
    lps = lp_all(ctx, sds) if prop in ("C02", "C03", "C05", "C07") else [None] * n
    recs, skipped = [], 0
    for i, sd in enumerate(sds):
        feas = True
        if prop in ("C02", "C03", "C07"):
            fs = []
            m = (1 << 23) / Scaler(gen.flat(sd)).Q if gen.flat(sd)["nn"] else 1
            for x in lps[i]:
                if x["feasible"]: fs.append(True)
                elif x["viol"] is not None and x["viol"] > 1e-3 * max(m, 1e-9): fs.append(False)
                else: fs.append(None)
            if False in fs: feas = False
            if (feas and None in fs) or (not feas and prop != "C07"):
                skipped += 1; continue
        recs.append(record(str(i), sd, got[str(i)], prop, feas, lps[i] if prop == "C05" else None))
    cor = corruptions(recs, prop, rng)
    bad = validate(ctx, recs + cor, prop, sds, "random")
    for c in cor:
        if not bad.pop(c["id"], None):
            ctx.weak = ctx.weak or "tampered record accepted (%s)" % c["id"]
    for i, fl in bad.items():
        for cl, where in fl[:3]:
            ctx.fail(cl, "study #%s %s" % (i, where), {"study": sds[int(i)], "result": got[i], "clause": cl, "where": where})
    ctx.traces += len(recs)
    kinds = {}
    for sd in sds:
        for k, v in interesting(sd).items():
            kinds[k] = kinds.get(k, 0) + bool(v)
    ctx.cov["random_studies"] = kinds
    ctx.cov["random_studies"]["total"] = n
    ctx.cov["tampered_records_rejected"] = len(cor)
    if prop == "C07":
        ctx.cov["infeasible_studies"] = sum(1 for r in recs if not r["feasible"])
    ctx.cov["skipped_near_boundary" if prop == "C07" else "skipped_infeasible"] = skipped
    ctx.sample({"study": sds[0], "outcome": got["0"].get("outcome")})
    if not cor:
        raise MachineryError("no record could be tampered with: nothing usable was recorded") if not ctx.fails else None


FAMS = {"C01": ["Merit", "Grid", "Ring", "Store", "Store2", "Conv"], "C02": ["Merit", "Grid", "Ring", "Store", "Store2", "Conv"],
        "C03": ["Store", "Store2"], "C04": ["Conv"], "C05": ["Merit", "Grid", "Ring", "Store", "Store2", "Conv"],
        "C07": ["Drain"]}
SIZE = {"Merit": 648, "Grid": 864, "Ring": 576, "Store": 6912, "Store2": 576, "Conv": 3888, "Drain": 1728}


def to_sd(insts, r):
    """One study whose scenarios are model instances of the same structure (initial levels equal)."""
    I0 = insts[0]["I"]
    H, S = I0["H"], len(insts)
    E, R = I0["E"], I0["R"]
    if r.random() < 0.5 and S > 1:
        nets = [["net", ["n%d" % k for k in range(1, I0["nn"] + 1)]]]
        where = {k: ("net", "n%d" % k) for k in range(1, I0["nn"] + 1)}
    elif I0["link"]:
        nets = [["default", ["x%d" % k for k in range(1, I0["nn"] + 1)]]]
        where = {k: ("default", "x%d" % k) for k in range(1, I0["nn"] + 1)}
    else:          # no link: every node may live in a network of its own, all under the same name
        nets = [["w%d" % k, ["x"]] for k in range(1, I0["nn"] + 1)]
        where = {k: ("w%d" % k, "x") for k in range(1, I0["nn"] + 1)}
    mat = lambda get, d=1: {"form": "mat", "kind": r.choice(["np", "list", "df"]),
                            "v": [[v / d if d != 1 else v for v in get(x["I"])[0]] for x in insts]}
    sd = {"H": H, "S": S, "nets": nets, "costmode": "int", "cons": [], "prod": [], "link": [], "stor": [], "conv": []}
    for i, e in enumerate(I0["cons"]):
        n = where[e["node"]]
        sd["cons"].append({"net": n[0], "node": n[1], "name": "c%d" % i, "qty": mat(lambda I: I["cons"][i]["asked"]), "cost": mat(lambda I: I["cons"][i]["cost"])})
    for i, e in enumerate(I0["prod"]):
        n = where[e["node"]]
        sd["prod"].append({"net": n[0], "node": n[1], "name": "p%d" % i, "qty": mat(lambda I: I["prod"][i]["avail"]), "cost": mat(lambda I: I["prod"][i]["cost"])})
    for i, e in enumerate(I0["link"]):
        sd["link"].append({"net": where[e["src"]][0], "src": where[e["src"]][1], "dst": where[e["dst"]][1],
                           "qty": mat(lambda I: I["link"][i]["avail"]), "cost": mat(lambda I: I["link"][i]["cost"])})
    for i, e in enumerate(I0["stor"]):
        n = where[e["node"]]
        g = lambda f, d=1: mat(lambda I: I["stor"][i][f], d)
        sd["stor"].append({"net": n[0], "node": n[1], "name": "s%d" % i, "cap": g("cap"), "fin": g("fin"), "fout": g("fout"),
                           "eff": g("eff", E), "cost": g("cost"), "init": e["init"]})
    for i, e in enumerate(I0["conv"]):
        n = where[e["dst"]]
        sd["conv"].append({"name": "v%d" % i, "net": n[0], "node": n[1], "max": mat(lambda I: I["conv"][i]["max"]), "cost": mat(lambda I: I["conv"][i]["cost"]),
                           "srcs": [{"net": where[q["node"]][0], "node": where[q["node"]][1],
                                     "ratio": mat(lambda I: I["conv"][i]["srcs"][k]["ratio"], R)} for k, q in enumerate(e["srcs"])]})
    # elements in study order (cons/prod/stor are listed node by node)
    perm = {}
    pos = {tuple(w): k for k, w in where.items()}
    for k in ("cons", "prod", "stor"):
        perm[k] = sorted(range(len(sd[k])), key=lambda j: pos[(sd[k][j]["net"], sd[k][j]["node"])])
        sd[k] = [sd[k][j] for j in perm[k]]
    perm["link"] = sorted(range(len(sd["link"])), key=lambda j: pos[(sd["link"][j]["net"], sd["link"][j]["src"])])
    xs = []
    for x in insts:
        if not x["feasible"]:
            xs = None; break
        g = lambda f, p=None: [[D[f][i] for D in x["X"]] for i in (p if p is not None else range(len(x["X"][0][f])))]
        xs.append({"x": {"given": g("given", perm["cons"]), "used": g("used", perm["prod"]), "flow": g("flow", perm["link"]),
                   "lvl": g("lvl", perm["stor"]), "in": g("in", perm["stor"]), "out": g("out", perm["stor"]), "cdst": g("cdst"),
                   "csrc": [[[D["csrc"][v][k] for D in x["X"]] for k in range(len(x["X"][0]["csrc"][v]))] for v in range(len(x["X"][0]["csrc"]))]}})
    return sd, xs


def model_part(ctx, prop):
    """Every behaviour of small instance families in TLC, then the real optimizer on the very same instances."""
    from core import parallel
    per = ctx.pick(160, 2500) if prop != "C07" else ctx.pick(430, 2500)
    rng = random.Random(77 * ctx.seed + 5)

    def family(f):
        mod = max(1, SIZE[f] // per)
        cfg = ctx.path("cfg_%s.json" % f)
        json.dump({"fam": f, "mod": mod, "res": ctx.seed % mod, "salt": ctx.seed % 9973}, open(cfg, "w"))
        r = ctx.tlc("MCAdequacy", env={"CFG": cfg}, workers=3, label="MCAdequacy/" + f, timeout=800)
        return [json.loads(x) for x in r.tagged("INST")]
    fams = FAMS[prop]
    allf = dict(zip(fams, parallel([lambda f=f: family(f) for f in fams], 4)))
    jobs, recs_src = [], []
    for f in fams:
        insts = sorted(allf[f], key=lambda x: json.dumps(x["I"], sort_keys=True))
        rng.shuffle(insts)
        if not insts:
            raise MachineryError("family %s is empty" % f)
        groups = {}
        for x in insts:
            key = tuple(e["init"] for e in x["I"]["stor"])
            groups.setdefault(key, []).append(x)
        for key, g in groups.items():
            size = 1 if prop == "C07" else 6
            for k in range(0, len(g), size):
                sd, xs = to_sd(g[k:k + size], rng)
                recs_src.append((sd, xs, all(x["feasible"] for x in g[k:k + size])))
            if prop == "C07":      # several scenarios: one infeasible scenario is enough
                for k in range(0, len(g) - 2, 7):
                    sd, xs = to_sd(g[k:k + 3], rng)
                    recs_src.append((sd, xs, all(x["feasible"] for x in g[k:k + 3])))
        ctx.cov["instances_" + f] = len(insts)
    got = solve_all(ctx, [{"id": "m%d" % i, "sd": sd} for i, (sd, _, _) in enumerate(recs_src)])
    recs = [record("m%d" % i, sd, got["m%d" % i], prop, feas, xs) for i, (sd, xs, feas) in enumerate(recs_src)]
    bad = validate(ctx, recs, prop, None, "model")
    if prop == "C07":
        ctx.cov["model_infeasible"] = sum(1 for r in recs if not r["feasible"])
    for i, fl in bad.items():
        for cl, where in fl[:3]:
            ctx.fail(cl, "model instance %s %s" % (i, where), {"study": recs_src[int(i[1:])][0], "result": got[i], "where": where})
    ctx.traces += len(recs)
    ctx.sample({"model instance": allf[fams[0]][0]}, n=5)


def std(prop, quick, thorough):
    def f(ctx):
        random_part(ctx, prop, ctx.pick(quick, thorough))
        model_part(ctx, prop)
    return f

c01 = std("C01", 480, 5000)
c02 = std("C02", 480, 5000)
c03 = std("C03", 400, 4000)
c04 = std("C04", 400, 4000)
c05 = std("C05", 600, 5000)
c07 = std("C07", 600, 6000)
