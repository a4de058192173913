"""Random study descriptions (plain data, no hadar import)."""
import random

FORMS = ["scalar", "row", "col", "mat"]


def expand(V, S, H):
    f, v = V["form"], V["v"]
    if f == "scalar":
        return [[v] * H for _ in range(S)]
    if f == "row":
        return [list(v) for _ in range(S)]
    if f == "col":
        return [[v[s][0]] * H for s in range(S)]
    return [list(r) for r in v]


def value(rng, S, H, draw, forms=None, kinds=None):
    f = rng.choice(forms or FORMS)
    if f == "scalar":
        v, kinds0 = draw(), ["py"]
    elif f == "row":
        v, kinds0 = [draw() for _ in range(H)], ["list", "np", "series"]
    elif f == "col":
        v, kinds0 = [[draw()] for _ in range(S)], ["list", "np", "df"]
    else:
        v, kinds0 = [[draw() for _ in range(H)] for _ in range(S)], ["list", "np", "df"]
    return {"form": f, "kind": rng.choice(kinds or kinds0), "v": v}


LONG = "a rather long name, like those of real installations "
NAMES = ["a", "", "b", "c", "node 1", "fr", "de", "load", "Z", "x.y", "éà", "10", "default", "n/a", "A", "a b", ":k", "a::b", "::", "FR", " a", "a ", "None", LONG + "1", LONG + "2"]
ENAMES = ["load", "Load", "solar", "nuclear", "a", "b", "cell", "x", "import", "in", "load2", "é", "0", "name", "t", "", "A", "a ", " load", "nan", LONG + "1", LONG + "2", "-1"]


def qdraw(rng, mode):
    if mode == "int":
        return lambda: rng.choice([0, 1, 2, 3, 5, 8, 10, 13, 20])
    if mode == "float":
        return lambda: rng.choice([0.0, round(rng.uniform(0, 30), 3), round(rng.uniform(0, 30), 1), float(rng.randint(0, 30))])
    if mode == "big":
        return lambda: rng.choice([0, rng.randint(1000, 90000), float(rng.randint(10**5, 10**6)), rng.randint(10**5, 9 * 10**5) + 0.5])
    if mode == "huge":
        return lambda: rng.choice([0, rng.randint(10**7, 9 * 10**8), rng.randint(1, 9) * 10**8, float(rng.randint(10**7, 10**9))])
    if mode == "tiny":
        return lambda: rng.choice([0, round(rng.uniform(0, 0.05), 6), round(rng.uniform(0, 0.001), 6)])
    return lambda: round(rng.uniform(0, 1), 4)   # small


def cdraw(rng, mode):
    if mode == "int":
        return lambda: rng.randint(0, 20)
    if mode == "zero":
        return lambda: 0
    if mode == "neg":
        return lambda: rng.randint(-6, 12)
    if mode == "dec":
        return lambda: round(rng.uniform(0, 50), 2)
    if mode == "fine":
        return lambda: rng.randint(0, 300) / 1000
    if mode == "lol":
        return lambda: rng.randint(1, 90) * 10**5
    return lambda: rng.randint(1000, 9000)       # big


def study(rng, want=(), maxnodes=5, maxS=4, maxH=6, forms=None, costmode=None, qmode=None, feasible_bias=0.95, size=None):
    """want: element kinds that must appear ("stor", "stor2", "conv", "conv2", "link", "self", "nets")."""
    S, H = rng.choice([1, 1, 2, 3, maxS]), rng.choice([1, 2, 3, 3, 4, maxH])
    crowd = rng.choice(["cons", "prod", "stor", "conv", "node", "net", "link"]) if not size and rng.random() < 0.06 else ""
    if crowd: S, H = min(S, 2), min(H, 3)
    if size: S, H = size
    MANY = ["%s%d" % (rng.choice(["e", "", "_"]), k) for k in range(rng.randint(11, 14))] if crowd else []
    qmode = qmode or rng.choice(["int", "int", "float", "float", "big", "small", "int", "int", "float", "float", "big", "small", "huge", "tiny"])
    costmode = costmode or rng.choice(["int", "int", "dec", "neg", "big", "zero", "int", "int", "int", "dec", "neg", "big", "zero", "lol", "mix", "fine"])
    if size and costmode == "mix": costmode = "int"
    q, cst = qdraw(rng, qmode), cdraw(rng, "int" if costmode == "mix" else costmode)
    V = lambda d, fs=None: value(rng, S, H, d, fs or forms)
    nnet = rng.choice([1, 1, 2, 3]) if "conv" not in want and "conv2" not in want and "nets" not in want else rng.choice([1, 2, 2, 3])
    netnames = rng.sample(["default", "default", "gas", "h2", "elec", "a", "b", "e:", "g::h", "c::", "", "Gas"], nnet + 1)
    netnames = list(dict.fromkeys(netnames))[:nnet]
    nets = []
    for n in netnames:
        nets.append([n, rng.sample(NAMES, rng.randint(1, maxnodes))])
    if len(nets) > 1 and rng.random() < 0.6:     # same node names in two networks
        nets[1][1] = list(dict.fromkeys(nets[0][1][:2] + nets[1][1]))[:maxnodes]
    if rng.random() < 0.1: nets.insert(rng.randint(0, len(nets)), ["no node", []])
    if crowd in ("node", "link"): nets[0][1] = MANY[:]
    if crowd == "net": nets += [[n, rng.sample(NAMES, 1)] for n in MANY]
    allnodes = [(n, x) for n, xs in nets for x in xs]
    sd = {"H": H, "S": S, "nets": nets, "cons": [], "prod": [], "link": [], "stor": [], "conv": [],
          "qmode": qmode, "costmode": costmode}
    lolc = lambda: cst() + {"big": rng.choice([0, 0, 10, 500]), "lol": rng.choice([0, 0, 10**6]), "mix": 10**5, "fine": rng.choice([0, 0.1, 1])}.get(costmode, rng.choice([0, 0, 10, 100]))
    full = rng.choice(allnodes)      # where it is crowded
    for net, node in allnodes:
        for name in MANY if crowd == "cons" and (net, node) == full else rng.sample(ENAMES, rng.choice([0, 1, 1, 2, 3])):
            sd["cons"].append({"net": net, "node": node, "name": name, "qty": V(q), "cost": V(lolc)})
        for name in MANY if crowd == "prod" and (net, node) == full else rng.sample(ENAMES, rng.choice([0, 1, 1, 2, 3])):
            sd["prod"].append({"net": net, "node": node, "name": name, "qty": V(q), "cost": V(cst)})
    # links
    pl = 0.45 if "link" in want else 0.3
    if crowd == "node": pl = 0.06
    for net, xs in nets:
        for a in xs:
            for b in xs:
                if crowd == "link" and net == nets[0][0]:
                    if a != b and MANY[0] in (a, b):      # a hub with many neighbours
                        sd["link"].append({"net": net, "src": a, "dst": b, "qty": V(q), "cost": V(cst)})
                elif (a != b and rng.random() < pl) or (a == b and rng.random() < (0.5 if "self" in want else 0.03)):
                    sd["link"].append({"net": net, "src": a, "dst": b, "qty": V(q), "cost": V(cst)})
    # storages
    ns = rng.choice([0, 0, 1, 2])
    if "stor" in want: ns = max(1, ns)
    if "stor2" in want: ns = rng.choice([2, 3, 4])
    if crowd == "stor": ns = len(MANY)
    hot = rng.choice(allnodes)
    used = {}
    for i in range(ns):
        net, node = hot if rng.random() < 0.6 else rng.choice(allnodes)
        free = [x for x in ENAMES if x not in used.get((net, node), [])]
        name = rng.choice(free[:3] + [rng.choice(free)]) if crowd != "stor" else MANY[i]
        if crowd == "stor": net, node = full
        used.setdefault((net, node), []).append(name)
        cap = V(q)
        capm = min(min(r) for r in expand(cap, S, H))
        init = rng.choice([0, 0, capm, int(capm / 2), q()])
        if rng.random() < feasible_bias:
            init = min(init, capm)
        eff = V(lambda: rng.choice([1, 1.0, 0.9, 0.5, 0.99, 0.75, 0.333, 0, round(rng.uniform(0, 1), 3)]))
        sd["stor"].append({"net": net, "node": node, "name": name, "cap": cap, "fin": V(q), "fout": V(q), "eff": eff,
                           "cost": V(rng.choice([cst, lambda: 0])), "init": init})
    # converters
    nc = rng.choice([0, 0, 0, 1])
    if "conv" in want: nc = rng.choice([1, 1, 2])
    if "conv2" in want: nc = rng.choice([1, 2, 3])
    k0 = rng.choice([0, 0, 3])
    if crowd == "conv": nc = len(MANY)
    for k in range(nc):
        dst = rng.choice(allnodes)
        nsrc = rng.choice([1, 1, 2, 3]) if "conv2" not in want else rng.choice([1, 2, 2, 3])
        srcs = rng.sample(allnodes, min(nsrc, len(allnodes)))
        ratio = lambda: rng.choice([1, 1.0, 2, 0.5, 0.8, 0.25, 3, round(rng.uniform(0.1, 3), 3), 0.05, 12])
        mx = q
        if rng.random() < 0.25:       # a lossy converter of a small output
            ratio, mx = lambda: rng.choice([0.05, 0.1, 0.15, 0.125]), lambda: q() / 16
        sd["conv"].append({"name": ["conv", "load", "é", "", "Conv"][(k + k0) % 5] if crowd != "conv" else MANY[k], "net": dst[0], "node": dst[1], "max": V(mx), "cost": V(cst),
                           "srcs": [{"net": n, "node": x, "ratio": V(ratio)} for n, x in srcs]})
    # element lists are ordered by node as in the study
    order = {nx: i for i, nx in enumerate(allnodes)}
    for k in ("cons", "prod", "stor"):
        sd[k].sort(key=lambda e: order[(e["net"], e["node"])])
    return sd


def flat(sd):
    """Numeric instance: nodes numbered from 1, all values expanded to [scn][t] floats."""
    S, H = sd["S"], sd["H"]
    num, k = {}, 0
    for n, xs in sd["nets"]:
        for x in xs:
            k += 1
            num[(n, x)] = k
    X = lambda V: expand(V, S, H)
    order = sorted(range(len(sd["link"])), key=lambda i: num[(sd["link"][i]["net"], sd["link"][i]["src"])])
    return {"H": H, "S": S, "nn": k,
            "cons": [{"node": num[(e["net"], e["node"])], "asked": X(e["qty"]), "cost": X(e["cost"])} for e in sd["cons"]],
            "prod": [{"node": num[(e["net"], e["node"])], "avail": X(e["qty"]), "cost": X(e["cost"])} for e in sd["prod"]],
            "link": [{"src": num[(sd["link"][i]["net"], sd["link"][i]["src"])], "dst": num[(sd["link"][i]["net"], sd["link"][i]["dst"])],
                      "avail": X(sd["link"][i]["qty"]), "cost": X(sd["link"][i]["cost"])} for i in order],
            "stor": [{"node": num[(e["net"], e["node"])], "cap": X(e["cap"]), "fin": X(e["fin"]), "fout": X(e["fout"]),
                      "eff": X(e["eff"]), "cost": X(e["cost"]), "init": e["init"]} for e in sd["stor"]],
            "conv": [{"dst": num[(e["net"], e["node"])], "max": X(e["max"]), "cost": X(e["cost"]),
                      "srcs": [{"node": num[(q["net"], q["node"])], "ratio": X(q["ratio"])} for q in e["srcs"]]} for e in sd["conv"]]}


def structure(sd):
    """Element listing the result must have: [net, node, kind, names...] in study order."""
    out = []
    for n, xs in sd["nets"]:
        for x in xs:
            g = lambda k, f="name": [e[f] for e in sd[k] if e["net"] == n and e.get("node", e.get("src")) == x]
            out.append([n, x, g("cons"), g("prod"), g("stor"), g("link", "dst")])
    out.append(["", "", [c["name"] for c in sd["conv"]], [q for c in sd["conv"] for q in
               [c["name"]] + ["%s|%s" % (s["net"], s["node"]) for s in c["srcs"]]], [], []])
    return out
