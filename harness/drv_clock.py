"""Solve studies and record the durations reported with the result, and how long the caller waited."""
import time
from hdutil import *

us = lambda x: max(-2 * 10**9, min(2 * 10**9, int(round(float(x) * 1e6))))

def one(job):
    r = {"id": job["id"], "S": job["sd"]["S"]}
    MODE["fake"] = not job["real"]
    try:
        st = build(job["sd"])
        r["runs"] = []
        opt = hd.LPOptimizer()
        for _ in range(job["times"]):
            t = time.time()
            res = opt.solve(st)
            w = time.time() - t
            b = res.benchmark
            r["runs"].append({"wall": us(w), "bench": {"modeler": [us(x) for x in b.modeler], "solver": [us(x) for x in b.solver], "mapper": us(b.mapper), "total": us(b.total)}})
    except Exception as e:
        r["error"] = exc(e)
    return r

main(lambda jobs: [one(j) for j in jobs])
