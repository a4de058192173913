"""Shared by the builder drivers: concrete arguments and the projection in the form of spec/StudyBuild.tla."""
from hdutil import *

def concrete(v):
    k = v["kind"]
    if k == "junk":
        return "abc"
    return mk({"v": v["raw"], "kind": k})

def z(M):
    out = []
    for r in M:
        out.append([int(round(x * 100)) if isinstance(x, (int, float)) and abs(x * 100 - round(x * 100)) < 1e-6 else -99999 for x in r])
    return out

def shape(st):
    p = project(st)
    nets = [{"name": n, "nodes": [{"name": x,
              "cons": [{"name": a, "quantity": z(q), "cost": z(c)} for a, q, c in cs],
              "prod": [{"name": a, "quantity": z(q), "cost": z(c)} for a, q, c in ps],
              "stor": [{"name": a, "capacity": z(cap), "flow_in": z(fi), "flow_out": z(fo), "cost": z(c), "init": z([[i]])[0][0] // 100, "eff": z(e)} for a, cap, fi, fo, c, i, e in ss],
              "link": [{"dest": d, "quantity": z(q), "cost": z(c)} for d, q, c in ls]} for x, cs, ps, ss, ls in nodes]} for n, nodes in p["nets"]]
    conv = [{"name": a if a == b else "%s/%s" % (a, b), "dn": dn or "", "dx": dx or "", "max": z(m) if dn else [], "cost": z(c) if dn else [],
             "src": [{"net": k[0], "node": k[1], "ratio": z(r)} for k, r in src]} for a, b, dn, dx, m, c, src in p["conv"]]
    if (p["H"], p["S"]) != HS: nets = []
    return {"nets": nets, "conv": conv}

HS = (2, 2)

VALKEYS = ("quantity", "cost", "capacity", "flow_in", "flow_out", "eff", "ratio", "max")


def kwargs(call, vals, skip=("h", "op")):
    kw = {}
    for k, v in call.items():
        if k in skip: continue
        if k in VALKEYS:
            if vals[v - 1]["kind"] == "omit": continue
            kw[k] = concrete(vals[v - 1])
        elif k == "init": kw["init_capacity"] = v
        else: kw[k] = v
    return kw
