"""Solve study descriptions with the real optimizer and record what came out."""
from hdutil import *

def one(job):
    r = {"id": job["id"]}
    MODE["fake"] = not job.get("real", False)
    try:
        st = build(job["sd"])
    except Exception as e:
        r["outcome"] = "build " + exc(e)
        return r
    try:
        res = hd.LPOptimizer().solve(st)
    except Exception as e:
        r["outcome"] = exc(e)
        return r
    r["outcome"] = "ok"
    try:
        r["struct"] = structure(res)
        r["O"] = matrices(res)
    except Exception as e:
        r["outcome"] = "unreadable result " + exc(e)
    return r

main(lambda jobs: [one(j) for j in jobs])
