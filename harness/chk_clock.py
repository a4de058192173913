"""C25: durations reported with every result."""
import json, random
import gen, chk_adequacy as A
from core import MachineryError

SLACK = 100000     # 100 ms: clock readings taken a moment apart
FINE = 2000        # 2 ms: rounding of durations taken from one clock

def c25(ctx):
    rng = random.Random(17 * ctx.seed + 25)
    ctx.tlc("SolveClock", workers=4, timeout=300, label="SolveClock/N=2")
    jobs = []
    for k in range(ctx.pick(60, 400)):
        size = [None, (2, 60), None, (13, 2), (1, 9), (5, 3)][k % 6]
        sd = gen.study(rng, want=A.WANTS[k % len(A.WANTS)], maxnodes=3, feasible_bias=1.0, size=size)
        jobs.append({"id": str(k), "sd": sd, "real": k % 5 == 4, "times": 3})
    parts = [jobs[i::4] for i in range(4)]
    recs = []
    for part, r in zip(parts, ctx.run_drivers("drv_clock.py", parts, timeout=ctx.pick(300, 900))):
        if isinstance(r, dict):
            ctx.fail("crash", r["crash"], None); continue
        for j, x in zip(part, r):
            if "error" in x: ctx.fail("raised", x["error"], {"study": j["sd"]}); continue
            for n, run in enumerate(x["runs"]):
                recs.append({"id": "%s.%d" % (x["id"], n), "S": x["S"], "wall": run["wall"], "slack": SLACK, "fine": FINE, "bench": run["bench"]})
    if not recs: raise MachineryError("nothing recorded")
    cor, long = [], max(recs, key=lambda r: max(r["bench"]["solver"] or [0]))
    ctx.cov["longest_scenario_us"] = max(long["bench"]["solver"] or [0])
    for f in (lambda b: b["modeler"].append(1), lambda b: b.update(total=0), lambda b: b["solver"].pop(), lambda b: b.update(total=-5), lambda b: b.update(mapper=b["total"] + 10**7), lambda b: b["solver"].__setitem__(0, 10**9)):
        c = json.loads(json.dumps(long if len(cor) == 1 else recs[len(cor)])); c["id"] = "corrupt%d" % len(cor); f(c["bench"]); cor.append(c)
    data = ctx.path("clock.json"); json.dump(recs + cor, open(data, "w"))
    r = ctx.tlc("ClockTrace", env={"DATA": data}, workers=4)
    done = {x for x in r.tagged("DONE")}
    if done != {c["id"] for c in recs + cor}: raise MachineryError("records not judged: %d of %d" % (len(done), len(recs + cor)))
    bad = {}
    for x in r.tagged("FAIL"):
        i, cl, wh = x.split("|", 2); bad.setdefault(i, []).append((cl, wh))
    for c in cor:
        if not bad.pop(c["id"], None): ctx.weak = ctx.weak or "tampered record accepted"
    by = {c["id"]: c for c in recs}
    for i, fl in bad.items():
        ctx.fail(fl[0][0], "study #%s: %s" % (i, fl[0][1]), {"record": by[i], "study": jobs[int(i.split(".")[0])]["sd"]})
    ctx.traces += len(recs)
    ctx.cov["tampered_records_rejected"] = len(cor)
    ctx.sample(recs[0])
