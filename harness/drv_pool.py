"""Solve studies under imposed worker schedules, twice, and each scenario alone."""
from hdutil import *

def solve(st):
    try:
        res = hd.LPOptimizer().solve(st)
        return {"outcome": "ok", "struct": structure(res), "O": matrices(res)}
    except Exception as e:
        return {"outcome": exc(e)}

def one(job):
    r = {"id": job["id"]}
    try:
        MODE["fake"] = True
        FakePool.plan = staticmethod(lambda n: [(0, i) for i in range(n)])
        r["alone"] = [solve(build(sd)) for sd in job["alone"]]
        st = build(job["sd"])
        before = project(st)
        plans = job["plans"]
        r["runs"] = []
        for plan in plans:
            if plan == "real":
                MODE["fake"] = False
            else:
                MODE["fake"] = True
                p = [(w, i - 1) for w, i in plan]
                FakePool.plan = staticmethod(lambda n, p=p: p if len(p) == n else [(k % 3, n - 1 - k) for k in range(n)])
            r["runs"].append(solve(st))
        r["unchanged"] = project(st) == before
        if not r["unchanged"]:
            r["before"], r["after"] = before, project(st)
    except Exception as e:
        r["error"] = exc(e)
    return r

main(lambda jobs: [one(j) for j in jobs])
