"""C21: fault generation. spec/Fault.tla, MCFault.tla, FaultTrace.tla."""
import json, random
import chk_pipeline as P
from core import MachineryError, parallel

HOWS = ["same", "fresh", "reseed", "same", "use", "fork", "reseed", "pickle", "fork", "fresh"]


def c21(ctx):
    rng = random.Random(ctx.seed * 9091 + 21)
    def mc(H, lo, hi, n):
        f = ctx.path("mcfault%d%d%d%d.json" % (H, lo, hi, n)); json.dump({"H": H, "lo": lo, "hi": hi, "n": n}, open(f, "w"))
        ctx.tlc("MCFault", env={"CFG": f}, label="MCFault H%d %d-%d n%d" % (H, lo, hi, n), workers=2, timeout=1500)
    grid = [(4, 2, 3, 3), (4, 1, 2, 3), (3, 0, 2, 3), (5, 2, 2, 3), (4, 3, 9, 3)] + ([(5, 2, 4, 4), (6, 2, 3, 3), (6, 1, 3, 3), (5, 0, 2, 4)] if ctx.thorough else [])
    parallel([lambda g=g: mc(*g) for g in grid], 4)
    calls = []
    for i in range(ctx.pick(2400, 24000)):
        fr = P.frame(rng, rng.sample(["a", "x", "Z", "é"], rng.randint(0, 2)) + ["quantity"])
        if rng.random() < 0.5:
            names = [c[1] for c in fr["cols"]]
        n = rng.choice([1, 2, 3, 5, 8, 10]) if i % 20 else rng.choice([24, 36])
        for c in fr["cols"]: c[2] = [(4 if fr["dtype"] == "int" else 1) * rng.randint(-9, 40) for _ in range(n)]
        fr["n"] = n
        lo = rng.choice([0, 1, 1, 2, 2, 3, 4, 6]); hi = lo + rng.choice([0, 0, 1, 1, 2, 3, 10])
        f = rng.choice([0, 1, 1, 0.5, 0.2, 0.05, 0.8])
        if n > 20: f = rng.choice([0, 0.02, 0.05, 0.1])
        if f == 1 and lo == 0: lo, hi = 1, max(hi, 1)
        calls.append({"id": "call%d" % i, "frame": fr, "loss": rng.choice([4, 8, 400, 1, 2, 10]), "f": f, "lo": lo, "hi": hi,
                      "seed": rng.choice([None, None, 0, 1, 42]), "piped": rng.random() < 0.3})
    draws = []
    for i in range(ctx.pick(64, 400)):
        seed = rng.choice([None, None, 0, 1, 7, 123456])
        draws.append({"id": "draws%d" % i, "H": rng.choice([60, 100]), "S": rng.choice([1, 2, 4]), "f": rng.choice([0.5, 0.3]), "lo": rng.choice([1, 2, 5]), "hi": rng.choice([5, 6, 12]),
                      "seed": seed, "how": rng.sample(HOWS, 6)})
    means = []
    for i, (a, b, lo, hi, cnt, H) in enumerate([(1, 2, 1, 1, "total", 20), (1, 10, 1, 1, "total", 50), (9, 10, 1, 1, "total", 10), (3, 10, 30, 30, "last", 12), (1, 20, 100, 120, "last", 40),
                                               (1, 2, 99, 99, "last", 7), (1, 4, 2, 5, "bounds", 30), (1, 10, 3, 3, "bounds", 100), (7, 10, 1, 4, "bounds", 8), (1, 100, 1, 1, "total", 60), (1, 250, 1, 1, "total", 20)]):
        means.append({"id": "mean%d" % i, "a": a, "b": b, "lo": lo, "hi": hi, "count": cnt, "H": H, "S": 40, "calls": ctx.pick(30, 150)})
    # around 1000 lone outages each: a begin or a duration that can occur is missing with a probability below 1e-20
    spreads = [{"id": "spread%d" % i, "H": H, "lo": lo, "hi": hi, "f": f, "S": 50, "calls": ctx.pick(60, 240)}
               for i, (H, lo, hi, f) in enumerate([(8, 1, 4, 0.1), (6, 1, 2, 0.15), (10, 2, 5, 0.08), (9, 3, 3, 0.1), (12, 1, 9, 0.08), (7, 0, 3, 0.2), (5, 4, 20, 0.2)])]
    seedjobs = [{"id": "seeds%d" % i, "H": H, "lo": lo, "hi": lo + 4, "seeds": rng.sample([0, 1, 2, 3, 5, 7, 10, 42, 100, 1000, 123456, 2**31, 2**32 - 1], 9)} for i, (H, lo) in enumerate([(100, 1), (200, 3), (90, 2)])]
    parts = [{"calls": calls[i::8], "draws": draws[i::8], "means": means[i::8], "spreads": spreads[i::8], "seeds": seedjobs[i::8]} for i in range(8)]
    recs = []
    for res in ctx.run_drivers("drv_fault.py", parts, timeout=ctx.pick(500, 2500)):
        if "crash" in res: ctx.fail("crash", res["crash"], None); continue
        recs += res["recs"]
    jid = {j["id"]: j for j in calls + draws + means + spreads + seedjobs}
    for r in recs:
        if "error" in r: ctx.fail("error", r["id"] + " " + r["error"], jid[r["id"]])
    recs = [r for r in recs if "error" not in r]
    cor = []
    def tamper(pick, how, name):
        r = next((r for r in recs if pick(r)), None)
        if r: a = json.loads(json.dumps(r)); a["id"] = "corrupt-" + name; how(a); cor.append(a)
    def q(r): return next(c for c in r["after"]["cells"] if c["n"] == "quantity")
    isc = lambda r: r["kind"] == "call"
    tamper(lambda r: isc(r) and len(r["after"]["cells"]) > 1 and any(c["n"] != "quantity" for c in r["after"]["cells"]),
           lambda a: next(c for c in a["after"]["cells"] if c["n"] != "quantity")["d"].__setitem__(0, 7777), "other")
    tamper(isc, lambda a: q(a)["d"].__setitem__(0, q(a)["d"][0] + a["loss"] * 50), "gain")
    tamper(lambda r: isc(r) and r["freq"] == "zero", lambda a: q(a)["d"].__setitem__(-1, q(a)["d"][-1] - a["loss"]), "zero")
    tamper(lambda r: isc(r) and r["lo"] >= 2 and len(q(r)["d"]) > 3 and r["freq"] == "zero", lambda a: (q(a)["d"].__setitem__(0, q(a)["d"][0] - a["loss"]), a.update(freq="mid")), "short")
    tamper(lambda r: isc(r) and r["loss"] > 1, lambda a: q(a)["d"].__setitem__(-1, q(a)["d"][-1] - 1), "fraction")
    tamper(lambda r: r["kind"] == "draws" and r["seeded"], lambda a: a["calls"][0][0].__setitem__(0, 99), "seed")
    tamper(lambda r: r["kind"] == "draws" and not r["seeded"], lambda a: a["calls"].__setitem__(1, a["calls"][0]), "repeat")
    tamper(lambda r: r["kind"] == "mean" and r["a"] < r["b"], lambda a: a.update(total=a["total"] + int(0.1 * a["runs"] * a["H"])), "mean")
    tamper(lambda r: r["kind"] == "spread", lambda a: a["begins"].pop(0), "begin")
    tamper(lambda r: r["kind"] == "spread" and r["hi"] > r["lo"] + 1, lambda a: a["lasting"].remove(max(a["lo"], 1)), "lasting")
    tamper(lambda r: r["kind"] == "seeds", lambda a: a["profiles"].__setitem__(2, a["profiles"][4]), "seeds")
    bad, CH = {}, 1000
    def one(k):
        ch = recs[k:k + CH] + (cor if k == 0 else [])
        f = ctx.path("fault%d.json" % k); json.dump(ch, open(f, "w"))
        t = ctx.tlc("FaultTrace", env={"DATA": f}, label="FaultTrace/%d" % k, timeout=1500, workers=4)
        if len(set(t.tagged("DONE"))) != len(ch): raise MachineryError("incomplete validation")
        for l in t.tagged("FAIL"):
            i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    parallel([lambda k=k: one(k) for k in range(0, max(len(recs), 1), CH)], 3)
    for a in cor:
        if not bad.pop(a["id"], None): ctx.weak = ctx.weak or "tampered record accepted: " + a["id"]
    byid = {r["id"]: r for r in recs}
    for i, fl in bad.items(): ctx.fail(fl[0][0], "%s %s" % (i, fl[0][1][:400]), {"job": jid[i], "record": byid[i]})
    if not ctx.fails and (len(cor) < 11 or len(recs) != len(jid)): raise MachineryError("records missing: %d corrupt, %d of %d" % (len(cor), len(recs), len(jid)))
    ctx.traces += len(recs)
    ctx.cov.update(calls=len(calls), repeated_draws=len(draws), means=[{k: r[k] for k in ("total", "runs", "H", "a", "b")} for r in recs if r["kind"] in ("mean", "sum")], tampered_rejected=len(cor))
    ctx.sample(recs[0])
    ctx.assumptions += ["outage durations admitted: minimal to maximal downtime, both included", "statistical clauses: bounds of six standard deviations or more"]
