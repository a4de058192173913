"""Independent LP (HiGHS through scipy, python3-vt): witness dispatch, prices, feasibility per scenario."""
import json, sys
import numpy as np
from scipy.optimize import linprog
from scipy.sparse import coo_matrix


def solve(I, s):
    H = I["H"]
    c, ub, cols, rows, vals, b = [], [], [], [], [], []
    nvar = 0
    names = []
    def var(cost, hi):
        nonlocal nvar
        c.append(cost); ub.append(hi); nvar += 1
        return nvar - 1
    nb = I["nn"] * H
    node = lambda n, t: (n - 1) * H + t
    b = [0.0] * nb
    def put(r, v, x):
        rows.append(r); cols.append(v); vals.append(x)
    lol = [[None] * H for _ in I["cons"]]; used = [[None] * H for _ in I["prod"]]; flow = [[None] * H for _ in I["link"]]
    lvl = [[None] * H for _ in I["stor"]]; fin = [[None] * H for _ in I["stor"]]; fout = [[None] * H for _ in I["stor"]]
    cd = [[None] * H for _ in I["conv"]]; cs = [[[None] * H for _ in v["srcs"]] for v in I["conv"]]
    for t in range(H):
        for i, e in enumerate(I["cons"]):
            b[node(e["node"], t)] += e["asked"][s][t]
            v = lol[i][t] = var(e["cost"][s][t], e["asked"][s][t]); put(node(e["node"], t), v, 1)
        for i, e in enumerate(I["prod"]):
            v = used[i][t] = var(e["cost"][s][t], e["avail"][s][t]); put(node(e["node"], t), v, 1)
        for i, e in enumerate(I["link"]):
            v = flow[i][t] = var(e["cost"][s][t], e["avail"][s][t])
            if e["src"] != e["dst"]:
                put(node(e["src"], t), v, -1); put(node(e["dst"], t), v, 1)
        for i, e in enumerate(I["stor"]):
            lvl[i][t] = var(e["cost"][s][t], e["cap"][s][t])
            fin[i][t] = var(0, e["fin"][s][t]); put(node(e["node"], t), fin[i][t], -1)
            fout[i][t] = var(0, e["fout"][s][t]); put(node(e["node"], t), fout[i][t], 1)
        for i, e in enumerate(I["conv"]):
            cd[i][t] = var(e["cost"][s][t], e["max"][s][t]); put(node(e["dst"], t), cd[i][t], 1)
            for k, q in enumerate(e["srcs"]):
                cs[i][k][t] = var(0, e["max"][s][t] / q["ratio"][s][t] if q["ratio"][s][t] else None); put(node(q["node"], t), cs[i][k][t], -1)
    zr, wr = {}, {}
    for i, e in enumerate(I["stor"]):
        for t in range(H):
            r = zr[(i, t)] = len(b); b.append(e["init"] if t == 0 else 0.0)
            put(r, lvl[i][t], 1); put(r, fout[i][t], 1); put(r, fin[i][t], -e["eff"][s][t])
            if t: put(r, lvl[i][t - 1], -1)
    for i, e in enumerate(I["conv"]):
        for k, q in enumerate(e["srcs"]):
            for t in range(H):
                r = wr[(i, k, t)] = len(b); b.append(0.0)
                put(r, cs[i][k][t], q["ratio"][s][t]); put(r, cd[i][t], -1)
    if nvar == 0:
        ok = all(abs(x) < 1e-12 for x in b)
        return {"feasible": ok, "viol": 0 if ok else 1, "x": dict(given=[], used=[], flow=[], lvl=[], **{"in": []}, out=[], cdst=[], csrc=[]),
                "y": [[0] * H for _ in range(I["nn"])], "z": [], "w": []}
    A = coo_matrix((vals, (rows, cols)), shape=(len(b), nvar)).tocsr()
    bounds = list(zip([0] * nvar, ub))
    sol = linprog(c, A_eq=A, b_eq=b, bounds=bounds, method="highs")
    out = {}
    if sol.status == 0:
        out["feasible"], out["viol"] = True, 0
        x = sol.x; y = sol.eqlin.marginals
        g = lambda V: [[float(x[v]) for v in r] for r in V]
        out["x"] = {"given": [[I["cons"][i]["asked"][s][t] - float(x[lol[i][t]]) for t in range(H)] for i in range(len(lol))],
                    "used": g(used), "flow": g(flow), "lvl": g(lvl), "in": g(fin), "out": g(fout), "cdst": g(cd), "csrc": [g(v) for v in cs]}
        out["cost"] = float(sol.fun)
        out["y"] = [[float(y[node(n, t)]) for t in range(H)] for n in range(1, I["nn"] + 1)]
        out["z"] = [[float(y[zr[(i, t)]]) for t in range(H)] for i in range(len(I["stor"]))]
        out["w"] = [[[float(y[wr[(i, k, t)]]) for t in range(H)] for k in range(len(e["srcs"]))] for i, e in enumerate(I["conv"])]
    elif sol.status == 2:
        # distance to feasibility: minimise the total violation of the equalities
        m = len(b)
        from scipy.sparse import hstack, identity
        A2 = hstack([A, identity(m), -identity(m)]).tocsr()
        s2 = linprog([0] * nvar + [1] * (2 * m), A_eq=A2, b_eq=b, bounds=bounds + [(0, None)] * (2 * m), method="highs")
        out["feasible"] = False
        out["viol"] = float(s2.fun) if s2.status == 0 else None
    else:
        out["feasible"], out["viol"] = None, None
    return out


if __name__ == "__main__":
    jobs = json.load(open(sys.argv[1]))
    json.dump([[solve(I, s) for s in range(I["S"])] for I in jobs], open(sys.argv[2], "w"))
