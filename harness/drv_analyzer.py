"""Ask the real analyzer everything about studies with given results."""
from hdutil import *

from drv_analyzer_lib import *

METH = {"network": "network", "node": "node", "scn": "scn", "t": "time", "cons": "consumption", "prod": "production", "stor": "storage", "link": "link",
        "src": "to_converter", "dst": "from_converter"}

U = {"q": 1, "cost": 1}
SUM = 1e-8        # what is left of sums that cancel

def val(x, col):
    return fx(x, 1 if col in ("eff", "ratio") else U["cost"] if col == "cost" else U["q"], 1e-11)

def sums(x): return fx(x, U["q"], SUM)
def costs(x):
    r = float(x) / (U["q"] * U["cost"]) * 10000
    return near(r, SUM) if np.isfinite(r) else -2000000002

def table_fast(ra, k):
    attr, cols, nm = COLS[k]
    df = getattr(ra, attr)
    if len(df) == 0: return []
    c = {x: df[x].tolist() for x in ["network", "node", nm, "scn", "t"] + cols}
    return [[str(c["network"][i]), str(c["node"][i]), str(c[nm][i]), whole(c["scn"][i]), whole(c["t"][i]), [val(c[x][i], x) for x in cols]] for i in range(len(df))]

def argof(sel):
    f, v = sel["form"], sel["v"]
    if f == "all": return None
    if f == "one": return v[0]
    if f == "list": return list(v)
    return slice(*[None if x == -1 else x for x in v])

def extend(obj, sel):
    m = getattr(obj, METH[sel["col"]])
    return m() if sel["form"] == "all" and sel["col"] != "network" else m(argof(sel))

def answer(df, kind):
    cols = COLS[kind][1]
    if isinstance(df, pd.Series):        # every index level removed
        if set(df.index) == set(cols): return [], [[[], [val(df[c], c) for c in cols]]]
        raise ValueError("answer is a series over %s" % list(df.index)[:5])
    if len(df) == 0: return [], []
    if set(df.columns) != set(cols): raise ValueError("columns %s" % list(df.columns))
    names = [str(n) for n in df.index.names]
    if names == ["None"] and len(df) == 1: names = []
    rows = []
    vals = df[cols].values.tolist()
    for ix, v in zip(df.index.tolist(), vals):
        ix = list(ix) if isinstance(ix, tuple) else [ix]
        if not names: ix = []
        rows.append([[whole(x) if n in ("scn", "t") else str(x) for n, x in zip(names, ix)], [val(y, c) for y, c in zip(v, cols)]])
    return names, rows

def refused(base, q):
    """extend with the selector named again, then with those not named yet, until there is an answer or a refusal"""
    try:
        cur = extend(base, q[-1])
        for col in ("node", "scn", "t", "cons"):
            if isinstance(cur, (pd.DataFrame, pd.Series)): return False
            if not any(s["col"] == col or (s["col"] in COLS and col in COLS) for s in q): cur = extend(cur, {"col": col, "form": "all", "v": []})
        return cur is None or not isinstance(cur, (pd.DataFrame, pd.Series))
    except Exception:
        return True

def ask(fn, **k):
    e = dict(k, what=json.dumps({x: y for x, y in k.items() if x in ("kind", "net", "node", "q")})[:200])
    try:
        e.update(fn()); e["outcome"] = "ok"
    except Exception as x:
        e["outcome"] = exc(x)
    return e

def M(a, f):
    a = np.asarray(a)
    return [[f(x) for x in r] for r in a.tolist()]

def one(job):
    sd, what = job["sd"], job["what"]
    real = job.get("real", job)
    U.update(q=job.get("u", 1), cost=job.get("w", 1))
    try:
        st = build(real["sd"]); res = result_of(real["sd"], real["O"])
        ra = hd.ResultAnalyzer(study=st, result=res)
    except Exception as e:
        return [{"ask": "build", "what": "analyzer", "outcome": exc(e)}]
    asks = []
    nets = sd["nets"]
    if what == "tables":
        for k in COLS: asks.append(ask(lambda: {"rows": table_fast(ra, k)}, ask="table", kind=k))
        C = lambda f: {"v": [whole(x) for x in f()]}
        asks.append(ask(lambda: C(lambda: ra.get_elements_inside()), ask="count", net="*", node="*"))
        for n, xs in nets:
            asks.append(ask(lambda: C(lambda: ra.get_elements_inside(network=n)), ask="count", net=n, node="*"))
            asks.append(ask(lambda: {"v": [str(x) for x in ra.nodes(n)]}, ask="nodes", net=n))
            for x in xs:
                asks.append(ask(lambda: C(lambda: ra.get_elements_inside(node=x, network=n)), ask="count", net=n, node=x))
                if n == "default": asks.append(ask(lambda: C(lambda: ra.get_elements_inside(node=x)), ask="count", net=n, node=x))
            if n == "default": asks.append(ask(lambda: {"v": [str(x) for x in ra.nodes()]}, ask="nodes", net=n))
        for k in COLS: asks.append(ask(lambda: {"rows": table_fast(ra, k)}, ask="table", kind=k))   # counting changed nothing
    if what == "cost":
        G = lambda **k: {"m": M(ra.get_cost(**k), costs)}
        for n, xs in nets:
            for x in xs:
                asks.append(ask(lambda: G(node=x, network=n), ask="cost", net=n, node=x))
                if n == "default": asks.append(ask(lambda: G(node=x), ask="cost", net=n, node=x))
            asks.append(ask(lambda: G(network=n), ask="cost", net=n, node="*"))
        asks.append(ask(lambda: G(), ask="cost", net="*", node="*"))
    if what == "balance":
        for n, xs in nets:
            for i, x in enumerate(xs):
                asks.append(ask(lambda: {"m": M(ra.get_balance(node=x, network=n), sums)}, ask="balance", net=n, node=x, first=i == 0))
            if xs: asks.append(ask(lambda: {}, ask="zero", net=n))
            if n == "default":
                for i, x in enumerate(xs): asks.append(ask(lambda: {"m": M(ra.get_balance(x), sums)}, ask="balance", net=n, node=x, first=i == 0))
    if what == "rac":
        for n, xs in nets:
            asks.append(ask(lambda: {"m": M(ra.get_rac(network=n), sums)}, ask="rac", net=n))
            if n == "default": asks.append(ask(lambda: {"m": M(ra.get_rac(), sums)}, ask="rac", net=n))
    if what == "query":
        before = snapshot(ra)
        for sess in job["sessions"]:
            handles = []
            for a in sess:
                base = ra if a["base"] == 0 else handles[a["base"] - 1][0]
                q = ([] if a["base"] == 0 else handles[a["base"] - 1][1]) + [a["sel"]]
                if a["again"]:
                    asks.append({"ask": "again", "what": json.dumps(q)[:300], "refused": refused(base, q), "outcome": "ok"})
                elif len(q) < 5:
                    try: handles.append((extend(base, a["sel"]), q))
                    except Exception as x:
                        asks.append({"ask": "query", "q": q, "what": json.dumps(q)[:300], "outcome": exc(x)}); break
                else:
                    kind = next(s["col"] for s in q if s["col"] in COLS)
                    asks.append(ask(lambda: dict(zip(("names", "rows"), answer(extend(base, a["sel"]), kind))), ask="query", q=q))
        asks.append(ask(lambda: {"v": snapshot(ra) == before}, ask="same"))
    return asks

main(lambda jobs: [one(j) for j in jobs])
