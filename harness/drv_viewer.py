"""Draw the real plots of studies with given results and read the figures back."""
import re
from hdutil import *
from drv_analyzer_lib import snapshot
import drv_analyzer_lib as AL

Q = [1]        # unit of the quantities handed to the real code
def fx(x):
    try: return AL.fx(float(x) / Q[0])
    except (TypeError, ValueError): return AL.fx(x)
def fx4(x): return AL.fx4(float(x) / Q[0])

METH = {"cons": "consumption", "prod": "production", "stor": "storage", "link": "link", "src": "to_converter", "dst": "from_converter"}

def L(a, f=fx): return [] if a is None else [f(x) for x in np.asarray(a, dtype=object).ravel().tolist()]

def axis(x, want):
    """positions on the expected time axis (-1: not there)"""
    if isinstance(want, pd.DatetimeIndex):   # the figure may round the nanoseconds of a date away
        x, w, tol = [d.timestamp() for d in pd.DatetimeIndex(x)], [d.timestamp() for d in want], 1e-2
    else:
        x, w, tol = [float(v) for v in x], list(want), 0
    return [next((i for i, e in enumerate(w) if abs(e - v) <= tol), -1) for v in x]

NAMES, UNIT = [], [""]

def caption(fig):
    """what the caption says: names of the study and numbers in the title, the unit on an axis or scale"""
    title = str(fig.layout.title.text or "")
    said = [n for n in NAMES if re.search(r"(?<!\S)" + re.escape(n) + r"(?!\S)", title)]
    ax = [fig.layout.xaxis.title.text, fig.layout.yaxis.title.text] + [t.marker.colorbar.title.text for t in fig.data if t.type == "scattermapbox"]
    return {"names": said, "nums": sorted({int(x) for x in re.findall(r"\d+", title) if len(x) < 9}), "unit": any(UNIT[0] in str(a) for a in ax if a)}

def bell(t):
    """mean and deviation of the normal curve that goes through the points (none: not a curve)"""
    p = [(float(a) / Q[0], float(b)) for a, b in zip(t.x, t.y) if b == b and float(b) > 1e-250]
    if len(p) < 5: return []
    k = max(range(len(p)), key=lambda i: p[i][1])
    k = min(max(k, 1), len(p) - 2)
    (x0, y0), (x1, y1), (x2, y2) = p[k - 1], p[k], p[k + 1]
    l0, l1, l2 = np.log(y0), np.log(y1), np.log(y2)
    h = x1 - x0
    c = (l0 - 2 * l1 + l2) / h ** 2
    if not c < 0: return []
    o2 = -1 / c
    m = x1 + o2 * (l2 - l0) / (2 * h)
    ok = all(abs(np.log(b) - (l1 + ((x1 - m) ** 2 - (a - m) ** 2) / 2 / o2)) < 1e-3 * (1 + abs(np.log(b))) for a, b in p)
    if not ok or not abs(m) < 1e5 or not o2 < 1e8: return [-9999999, 1]
    return [int(round(m * 100)), int(round(np.sqrt(o2) * 100))]

def plot(net, el, r, want):
    node = net.node(el["node"])
    m = getattr(node, METH[r["el"]])
    h = m(el["id"]) if r["kind"] == "" else m(el["id"], r["kind"])
    k = {}
    if r["t"] >= 0: k["t"] = r["t"]
    if r["scn"] >= 0: k["scn"] = r["scn"]
    fig = getattr(h, r["plot"])(**k)
    return dict(draw(fig, r, want), cap=caption(fig))

def draw(fig, r, want):
    d = list(fig.data)
    if r["plot"] == "timeline":
        return {"lines": [{"scn": int(re.findall(r"-?\d+", str(t.name))[-1]), "x": axis(t.x, want), "y": L(t.y)} for t in d]}
    if r["plot"] == "monotone":
        assert len(d) == 1
        return {"y": L(d[0].y)}
    if r["plot"] == "gaussian":
        pick = lambda n: sum([L(t.x) for t in d if t.name == n], [])
        curve = [t for t in d if t.mode == "lines"]
        return {"passed": pick("passed"), "failed": pick("failed"), "bell": bell(curve[0]) if len(curve) == 1 else []}
    assert len(d) == 1
    return {"open": L(d[0].open, fx4), "close": L(d[0].close, fx4), "x": axis(d[0].x, want)}

def stack(net, a, want, fn):
    k = {}
    if a["scn"] >= 0 and not a["bare"]: k["scn"] = a["scn"]
    if a["prod"] and not a["bare"]: k["prod_kind"] = a["prod"]
    if a["cons"] and not a["bare"]: k["cons_kind"] = a["cons"]
    fig = net.node(a["node"]).stack(**k)
    d = list(fig.data)
    ar = [t for t in d if t.fill is not None and t.fill != "none"]
    li = [t for t in d if t.fill is None or t.fill == "none"][::-1]
    return {"areas": [[str(t.name), L(t.y, fn)] for t in ar], "lines": [[str(t.name), L(t.y, fn)] for t in li], "x": [axis(t.x, want) for t in d], "cap": caption(fig)}

def number(x):
    m = re.findall(r"[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", str(x))
    return float(m[-1]) if m else float("nan")

def map_(net, a, coord):
    k = {"t": a["t"], "zoom": a["zoom"]}
    if not a["bare"]: k["scn"] = a["scn"]
    if a["limit"] > 0: k["limit"] = a["limit"] * Q[0]
    fig = net.map(**k)
    d = list(fig.data)
    where = {tuple(v): n for n, v in coord.items()}
    at = lambda lon, lat: where.get((float(lon), float(lat)), "?")
    mk = [t for t in d if t.mode == "markers"]
    ln = [t for t in d if t.mode == "lines" and t.fill != "toself"]
    ar = [t for t in d if t.mode == "lines" and t.fill == "toself"]
    assert len(ln) == len(ar)
    nodes = [[at(x, y), fx(number(q))] for t in mk for x, y, q in zip(t.lon, t.lat, t.text)]
    cols = [[at(x, y), fx(q)] for t in mk for x, y, q in zip(t.lon, t.lat, t.marker.color)]
    arrows = []
    for l, w in zip(ln, ar):
        s, e = at(l.lon[0], l.lat[0]), at(l.lon[-1], l.lat[-1])
        cx = np.mean([float(v) for v in w.lon if v is not None]); cy = np.mean([float(v) for v in w.lat if v is not None])
        ds = np.hypot(cx - float(l.lon[0]), cy - float(l.lat[0])); de = np.hypot(cx - float(l.lon[-1]), cy - float(l.lat[-1]))
        if ds < de: s, e = e, s                         # the arrow head shows the direction
        arrows.append([s, e, fx(number(w.text if isinstance(w.text, str) else list(w.text)[0]))])
    return {"nodes": nodes, "colors": cols, "arrows": arrows, "cap": caption(fig)}

def rac(net, want):
    fig = net.rac_matrix()
    d = list(fig.data)
    assert len(d) == 1
    sg = lambda z: (1 if z > 0 else -1 if z < 0 else 0) if z == z else 0
    return {"m": [[fx(x) for x in r] for r in d[0].text], "z": [[sg(float(x)) for x in r] for r in d[0].z], "x": axis(d[0].x, want), "y": [int(v) for v in d[0].y], "cap": caption(fig)}

def rnd(x):
    x = float(x) * 100
    return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 else -2000000002

def one(job):
    sd = job["sd"]
    asks = []
    NAMES[:] = sorted({x for _, xs in sd["nets"] for x in xs} | {e["name"] for k in ("cons", "prod", "stor", "conv") for e in sd[k]})
    UNIT[0] = job["unit"]
    Q[0] = job.get("u", 1)
    if "real" in job: job = dict(job, sd=job["real"]["sd"], O=job["real"]["O"]); sd = job["sd"]
    try:
        st = build(sd)
        if job.get("solve"):
            res = hd.LPOptimizer().solve(st)
            job["O"] = matrices(res)
        else:
            res = result_of(sd, job["O"])
        ra = hd.ResultAnalyzer(study=st, result=res)
        coord = {n: [float(v) for v in c] for n, c in job["coord"].items()}
        k = {"unit_symbol": job["unit"], "node_coord": coord}
        want = np.arange(sd["H"]).astype(float)
        if job["dates"]:
            k.update(time_start=job["dates"][0], time_end=job["dates"][1])
            want = pd.DatetimeIndex(pd.date_range(start=job["dates"][0], end=job["dates"][1], periods=sd["H"]))
        pl = hd.HTMLPlotting(agg=ra, **k)
    except Exception as e:
        return {"asks": [{"ask": "build", "what": "plotting", "outcome": exc(e)}], "O": job.get("O")}
    before = snapshot(ra)
    for a in job["asks"]:
        e = dict(a, what=json.dumps({x: y for x, y in a.items() if x not in ("ask", "el")})[:300])
        e.pop("el", None)
        try:
            if a["ask"] == "ctor":
                hd.HTMLPlotting(agg=ra, **a["args"])
            elif a["ask"] == "same": e["v"] = snapshot(ra) == before
            else:
                net = pl.network(a["net"]) if a["net"] != "default" or not a.get("bare") else pl.network()
                e.update(plot(net, a["el"], a["r"], want) if a["ask"] == "plot" else stack(net, a, want, rnd if job.get("solve") else fx) if a["ask"] == "stack"
                         else map_(net, a, coord) if a["ask"] == "map" else rac(net, want))
            e["outcome"] = "ok"
        except Exception as x:
            e["outcome"] = "ValueError" if type(x) is ValueError and (a["ask"] in ("ctor", "plot")) else exc(x)
        e.pop("args", None)
        asks.append(e)
    return {"asks": asks, "O": job.get("O")}

main(lambda jobs: [one(j) for j in jobs])
