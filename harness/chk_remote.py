"""C13: remote solving. Conversations enumerated by spec/MCRemote.tla, played by a scripted server, judged by spec/RemoteTrace.tla."""
import json, random
import gen, chk_json as J
from core import MachineryError

ERR = [{"code": c, "status": "", "body": b} for c in (404, 403, 500) for b in ("text", "done", "queued")]
ENDS = [{"code": 200, "status": "TERMINATED", "body": ""}, {"code": 200, "status": "ERROR", "body": ""},
        {"code": 200, "status": "CANCELED", "body": ""}, {"code": 502, "status": "", "body": "text"}] + ERR
TOKENS = [None, "", "secret", "a&b=c d", "é/ü", "none", "0"]


def c13(ctx):
    rng = random.Random(ctx.seed * 31337 + 13)
    f = ctx.path("remote.json"); json.dump({"max": ctx.pick(5, 8), "ends": ENDS}, open(f, "w"))
    r = ctx.tlc("MCRemote", env={"CFG": f}, label="MCRemote", timeout=900)
    scripts = [json.loads(x) for x in dict.fromkeys(r.tagged("SCRIPT"))]
    n = sum(2 ** k for k in range(ctx.pick(5, 8) + 1)) * len(ENDS)
    if len(scripts) != n: raise MachineryError("conversations enumerated: %d of %d" % (len(scripts), n))
    going = [{"code": 200, "status": s, "body": ""} for s in ("QUEUED", "COMPUTING")]
    for k in (15, 40, 130, 400):           # patience: long conversations
        for end in ENDS[:2] + [ENDS[4], ENDS[10]]:
            q = rng.randint(0, k)
            scripts.append([going[0]] * q + [going[1]] * (k - q) + [end])
            scripts.append([rng.choice(going) for _ in range(k)] + [end])
    rng.shuffle(scripts)
    jobs = []
    for i, s in enumerate(scripts):
        sd = gen.study(rng, maxnodes=3, maxS=2, maxH=3)
        pos = {(n, x): k for k, (n, x) in enumerate((n, x) for n, xs in sd["nets"] for x in xs)}
        sd["link"].sort(key=lambda e: pos[(e["net"], e["src"])])
        jobs.append({"id": "c%d" % i, "script": s, "sd": sd, "O": J.synth(rng, sd), "job": rng.choice([i, i, "job-%d" % i, "%032x" % (i * 7919), 0, "Job_%dXy" % i, "7F-%d" % i]),
                     "message": rng.choice(["failure %d: é !" % i] * 3 + [""]), "also": rng.random() < 0.4, "progress": rng.choice([[1], [0], [3, 2, 1, 0], [5, 7, 0]])})
    ses = [jobs[i:i + 8] for i in range(0, len(jobs), 8)]
    ses = [{"prefix": ("" if i % 40 < 8 else "/hub/r%d" % i), "token": rng.choice(TOKENS), "jobs": js} for i, js in enumerate(ses)]
    parts = []
    for p in range(8):
        mine, waves, cur = ses[p::8], [], []
        for s in mine:
            if s["prefix"] == "": waves.append([s])        # alone on the bare server address
            else:
                cur.append(s)
                if len(cur) == 12: waves.append(cur); cur = []
        if cur: waves.append(cur)
        parts.append({"waves": waves})
    recs = []
    for p, res in zip(parts, ctx.run_drivers("drv_remote.py", parts, timeout=ctx.pick(400, 1500))):
        if "crash" in res: ctx.fail("crash or endless conversation", res["crash"], None); continue
        recs += res["recs"]
    byid = {j["id"]: j for j in jobs}
    # tampered records must be rejected
    cor = []
    def tamper(cond, how, what):
        r = next((r for r in recs if cond(r)), None)
        if r:
            a = json.loads(json.dumps(r)); a["id"] = "corrupt-" + what; how(a); cor.append(a)
    last = lambda r: r["script"][-1]
    tamper(lambda r: len(r["log"]) > 2, lambda a: a["log"].append(a["log"][-1]), "extra")
    tamper(lambda r: len(r["log"]) > 2, lambda a: a["log"].pop(), "short")
    tamper(lambda r: len(r["log"]) > 2, lambda a: a["log"].insert(1, a["log"][0]), "resubmit")
    tamper(lambda r: len(r["log"]) > 1, lambda a: a["log"][1].update(token=False), "token")
    tamper(lambda r: last(r)["status"] == "TERMINATED", lambda a: a["out"].update(same=False), "result")
    tamper(lambda r: last(r)["status"] == "ERROR", lambda a: a["out"].update(says=False), "message")
    tamper(lambda r: last(r)["code"] == 500, lambda a: a["out"].update(io=False), "io")
    f = ctx.path("recs.json"); json.dump(recs + cor, open(f, "w"))
    t = ctx.tlc("RemoteTrace", env={"DATA": f}, label="RemoteTrace", timeout=900)
    if len(set(t.tagged("DONE"))) != len(recs) + len(cor): raise MachineryError("incomplete validation")
    bad = {}
    for l in t.tagged("FAIL"):
        i, cl, w = l.split("|", 2); bad.setdefault(i, []).append((cl, w))
    for a in cor:
        if not bad.pop(a["id"], None): ctx.weak = ctx.weak or "tampered conversation accepted: " + a["id"]
    rid = {r["id"]: r for r in recs}
    for i, fl in bad.items():
        ctx.fail(fl[0][0], "%s %s" % (i, fl[0][1][:400]), {"record": rid[i], "job": byid[i]})
    if not ctx.fails and len(cor) < 7: raise MachineryError("nothing to tamper with")
    if not ctx.fails and len(recs) != len(jobs): raise MachineryError("conversations lost")
    ctx.traces += len(recs)
    ctx.cov["conversations"] = len(recs); ctx.cov["requests"] = sum(len(r["log"]) for r in recs)
    ctx.cov["tampered_rejected"] = len(cor)
    ctx.cov["longest"] = max(len(s) for s in scripts)
    for r in recs[:2]: ctx.sample(r)
    ctx.assumptions += ["error answers other than 403, 404 and 500 carry no result document", "the pause between polls is replaced by nothing"]
