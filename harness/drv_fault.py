"""Fault stage on the real code."""
import random
from hdutil import *
import drv_pipeline as P


def params(d):
    k = {"loss": d["loss"] / 4 * P.U, "occur_freq": d["f"], "downtime_min": d["lo"], "downtime_max": d["hi"]}
    if d.get("seed") is not None: k["seed"] = d["seed"]
    return k


def call(d):
    P.U = d["frame"].get("unit", 1)
    df = P.mk_frame(d["frame"]); keep = df.copy(deep=True)
    r = {"id": d["id"], "kind": "call", "before": P.show(df, d["frame"]["flat"]), "loss": d["loss"], "lo": d["lo"], "hi": d["hi"],
         "freq": "zero" if d["f"] == 0 else "one" if d["f"] == 1 else "mid"}
    try:
        st = hd.Fault(**params(d))
        out = (hd.Clip() + st)(df) if d["piped"] else st(df)
        r["after"] = P.show(out)
        r["intact"] = P.same(df, keep)
        return r
    except Exception as e:
        return {"id": d["id"], "error": exc(e)}


def flat_frame(H, S):
    return pd.DataFrame(np.full((H, S), 1000.0), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(S)]))


def profiles(st, H, S):
    out = st(flat_frame(H, S))
    return [[int(round(1000.0 - v)) for v in out[(s, "quantity")].tolist()] for s in range(S)]


def draws(d):
    """several calls of one stage object, of fresh objects, after reseeding numpy and after restoring one state as forked workers have"""
    calls, st0 = [], np.random.get_state()
    mk = lambda: hd.Fault(loss=1, occur_freq=d["f"], downtime_min=d["lo"], downtime_max=d["hi"], **({"seed": d["seed"]} if d["seed"] is not None else {}))
    one = mk()
    try:
        for how in d["how"]:
            if how == "fork": np.random.set_state(st0)
            if how == "reseed": np.random.seed(7); random.seed(7)
            if how == "use": np.random.rand(13)
            st = mk() if how in ("fresh", "fork") else one
            if how == "pickle": st = pickle.loads(pickle.dumps(one))
            calls.append(profiles(st, d["H"], d["S"]))
        return {"id": d["id"], "kind": "draws", "calls": calls, "seeded": d["seed"] is not None}
    except Exception as e:
        return {"id": d["id"], "error": exc(e)}


def mean(d):
    try:
        st = hd.Fault(loss=1, occur_freq=d["a"] / d["b"], downtime_min=d["lo"], downtime_max=d["hi"])
        tot, runs = 0, 0
        for _ in range(d["calls"]):
            for p in profiles(st, d["H"], d["S"]):
                tot += p[-1] if d["count"] == "last" else sum(p); runs += 1
        return {"id": d["id"], "kind": "sum" if d["count"] == "bounds" else "mean", "total": tot, "runs": runs, "H": d["H"], "a": d["a"], "b": d["b"], "hi": d["hi"]}
    except Exception as e:
        return {"id": d["id"], "error": exc(e)}


def spread(d):
    """begins and durations of the outages that are alone in their scenario"""
    try:
        st = hd.Fault(loss=1, occur_freq=d["f"], downtime_min=d["lo"], downtime_max=d["hi"])
        begins, lasting, n = set(), set(), 0
        for _ in range(d["calls"]):
            for p in profiles(st, d["H"], d["S"]):
                on = [t for t, v in enumerate(p) if v]
                if not on or max(p) > 1 or on[-1] - on[0] + 1 != len(on): continue
                n += 1; begins.add(on[0])
                if on[-1] < d["H"] - 1: lasting.add(len(on))
        return {"id": d["id"], "kind": "spread", "H": d["H"], "lo": d["lo"], "hi": d["hi"], "begins": sorted(begins), "lasting": sorted(lasting), "alone": n}
    except Exception as e:
        return {"id": d["id"], "error": exc(e)}


def seeds(d):
    try:
        ps = [profiles(hd.Fault(loss=1, occur_freq=0.5, downtime_min=d["lo"], downtime_max=d["hi"], seed=s), d["H"], 1)[0] for s in d["seeds"]]
        return {"id": d["id"], "kind": "seeds", "profiles": ps}
    except Exception as e:
        return {"id": d["id"], "error": exc(e)}


def handler(d):
    return {"recs": [call(x) for x in d["calls"]] + [draws(x) for x in d["draws"]] + [mean(x) for x in d["means"]] + [spread(x) for x in d["spreads"]] + [seeds(x) for x in d["seeds"]]}


if __name__ == "__main__": main(handler)
