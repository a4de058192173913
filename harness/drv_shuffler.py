"""Shuffler sessions on the real code."""
from hdutil import *
import drv_pipeline as P
from hadar.workflow.pipeline import Pipeline

CALLS = []


def note(lo, hi, n, idx):
    CALLS.append({"lo": int(lo), "hi": int(hi), "n": int(n)})
    return idx


def rng(low, high):          # like numpy's: (high, size=n) stands for (0, high, n)
    return (low, high) if high is not None else (0, low)


def s_range(low, high=None, size=None):
    low, high = rng(low, high); return note(low, high, size, np.arange(size) % max(high - low, 1) + low)


def s_last(low, high=None, size=None):
    low, high = rng(low, high); return note(low, high, size, np.full(size, high - 1))


def s_mix(low, high=None, size=None):
    low, high = rng(low, high); return note(low, high, size, (np.arange(size) * 3 + 1 + size) % (high - low) + low)


def s_down(low, high=None, size=None):
    low, high = rng(low, high); return note(low, high, size, high - 1 - np.arange(size) % max(high - low, 1))




SCRIPT = {"range": s_range, "last": s_last, "mix": s_mix, "down": s_down}


def q4(a):
    out = []
    for r in np.asarray(a).tolist():
        row = []
        for v in r:
            w = float(v) * 4 / P.U
            row.append(88888888 if w != w else (int(w) if w == int(w) and abs(w) < 10**8 else 99999999))
        out.append(row)
    return out


def raw(d):
    a = np.array([[v / 4 * P.U for v in r] for r in d["rows"]], dtype=float)
    if d["style"] == "int": a = np.round(a).astype(int)
    if d["style"] == "fort": a = np.asfortranarray(a)
    if d["style"] == "view":
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2)); b[::2, ::2] = a; a = b[::2, ::2]
    return a


def session(job):
    k = job["sampler"]
    P.U = job.get("unit", 1)
    scripted = k in SCRIPT
    if scripted: sh = hd.Shuffler(sampler=SCRIPT[k])
    elif k == "default": sh = hd.Shuffler()
    elif k == "randint": sh = hd.Shuffler(sampler=np.random.randint)
    else: sh = hd.Shuffler(sampler=np.random.RandomState(job["seed"]).randint)
    steps, kept, order = [], [], []
    FakePool.plan = staticmethod(lambda n: [(w, i) for w, i in job["plan"] if i < n] + [(0, i) for i in range(n) if i not in [x for _, x in job["plan"]]])
    MODE["fake"] = not job.get("realpool")
    res = []
    for a in job["steps"]:
        e = {x: y for x, y in a.items() if x not in ("style", "fr")}
        CALLS.clear()
        try:
            if a["act"] == "data":
                arr = raw(a); kept.append((arr, arr.copy())); e["rows"] = q4(arr)
                sh.add_data(a["name"], arr)
            elif a["act"] == "pipe":
                df = P.mk_frame(a["fr"]); kept.append((df, df.copy(deep=True))); e["frame"] = P.show(df, a["fr"]["flat"])
                st = [P.op_stage(o) for o in a["ops"]]
                p = Pipeline(stages=st)
                sh.add_pipeline(a["name"], df, p)
            elif a["act"] == "shuffle":
                r = sh.shuffle(a["nb"])
                e["names"] = list(r); e["got"] = [q4(r[n]) for n in r]; res.append((list(r), e["got"]))
                e["calls"] = [dict(c) for c in CALLS]
                e["scripted"], e["seen"] = scripted, not job.get("realpool")
                e["how"] = k
            e["outcome"] = "ok"
        except ValueError as x:
            e["outcome"] = "ValueError"; e["text"] = exc(x)
        except Exception as x:
            e["outcome"] = exc(x)
        if a["act"] == "shuffle" and e["outcome"] != "ok":
            e.update(names=[], got=[], calls=[], how=k, scripted=False, seen=False)
        e["intact"] = all(np.array_equal(x, y) if isinstance(x, np.ndarray) else P.same(x, y) for x, y in kept)
        steps.append(e)
    MODE["fake"] = True
    return {"id": job["id"], "steps": steps}


def spread(job):
    """many rows of few scenarios: which scenarios come together"""
    k = job["sampler"]
    sh = hd.Shuffler() if k == "default" else hd.Shuffler(sampler=np.random.randint) if k == "randint" else hd.Shuffler(sampler=np.random.RandomState(job["seed"]).randint)
    FakePool.plan = staticmethod(lambda n: [(w % job["workers"], i) for w, i in enumerate(job["order"]) if i < n])
    MODE["fake"] = not job.get("realpool")
    try:
        H = 2
        for n, m, kind in job["tls"]:
            vals = [[float(10 * (s + 1) + t) for t in range(H)] for s in range(m)]
            if kind == "raw": sh.add_data(n, np.array(vals))
            else:
                df = pd.DataFrame({(s, "a"): vals[s] for s in range(m)})
                sh.add_pipeline(n, df, hd.Clip() + hd.ToShuffler("a"))
        steps, runs = [], []
        for _ in range(job["calls"]):
            r = sh.shuffle(job["nb"])
            runs.append({n: [int(round(float(x[0]))) // 10 for x in r[n]] for n, m, kind in job["tls"]})
        M = {n: m for n, m, _ in job["tls"]}
        def add(what, n1, a, n2, b): steps.append({"act": "spread", "what": what, "a": a, "b": b, "ma": M[n1], "mb": M[n2], "intact": True})
        names = [n for n, _, _ in job["tls"]]
        for r in runs:
            for i, n1 in enumerate(names):
                add("rows of one timeline", n1, r[n1][:-1], n1, r[n1][1:])
                for n2 in names[i + 1:]: add("two timelines", n1, r[n1], n2, r[n2])
        for i in range(len(runs)):
            for j in range(i):
                for n1 in names:
                    for n2 in names: add("two calls", n1, runs[i][n1], n2, runs[j][n2])
        return {"id": job["id"], "steps": steps}
    except Exception as e:
        return {"id": job["id"], "error": exc(e)}
    finally:
        MODE["fake"] = True


def apart(job):
    """random pipelines: outages differ between timelines and calls, in every schedule"""
    sh = hd.Shuffler()
    FakePool.plan = staticmethod(lambda n: [(w % job["workers"], i) for w, i in enumerate(job["order"]) if i < n])
    MODE["fake"] = not job.get("realpool")
    try:
        df = pd.DataFrame(np.full((60, job["S"]), 1000.0), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(job["S"])]))
        for n in job["names"]:
            sh.add_pipeline(n, df, (hd.RepeatScenario(2) + hd.Fault(loss=1, occur_freq=0.5, downtime_min=1, downtime_max=4)) + hd.ToShuffler("quantity"))
        sets = []
        for _ in range(job["calls"]):
            r = sh.shuffle(job["nb"])
            sets += [[[int(round(1000 - v)) for v in row] for row in r[n]] for n in job["names"]]
        return {"id": job["id"], "steps": [{"act": "apart", "what": job["id"], "sets": sets, "intact": bool((df.values == 1000.0).all())}]}
    except Exception as e:
        return {"id": job["id"], "error": exc(e)}
    finally:
        MODE["fake"] = True


def handler(d):
    return {"recs": [session(j) for j in d["sessions"]] + [spread(j) for j in d["spreads"]] + [apart(j) for j in d["aparts"]]}


if __name__ == "__main__": main(handler)
