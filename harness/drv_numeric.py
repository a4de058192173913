"""Build a study with one argument in the asked shape, container and field; read it back."""
import copy
from hdutil import *

def cells(dims, scale, isfloat):
    n = 1
    for d in dims: n *= d
    v = [(i + 1) * scale if scale != 1 else (float(i + 1) if isfloat else i + 1) for i in range(n)]
    if not dims: return v[0]
    return np.array(v).reshape(dims).tolist() if n else np.zeros(dims).tolist()

def back(x, scale):
    y = float(x) / scale
    return int(round(y)) if abs(y - round(y)) < 1e-4 else -1

def spoil(v):
    """the caller goes on using his container for something else"""
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, list): spoil(x)
            else: v[i] = 99
    elif isinstance(v, np.ndarray) and v.ndim: v[...] = 99
    elif isinstance(v, (pd.DataFrame, pd.Series)):
        v.iloc[:] = 99
        try: v.values[...] = 99        # the memory behind, when it can be written
        except ValueError: pass

def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, (pd.DataFrame, pd.Series)): return a.equals(b) and list(a.index) == list(b.index)
    if isinstance(a, np.ndarray): return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return bool(np.all(a == b))

JUNK = {"str": "abc", "none": None, "dict": {"a": 1}, "obj": object(), "ragged": [[1, 2], [3]], "set": {1}}

def one(c):
    H, S, dims, field, kind = c["H"], c["S"], c["dims"], c["field"], c["kind"]
    el, at = field.split(".")
    scale = 1 / 64 if at == "eff" else 1
    r = {"cells": [], "later": [], "table": [], "beyond": True, "intact": True}
    if c.get("junk"):
        value = JUNK[kind]
    else:
        raw = cells(dims, scale, kind == "float")
        if scale != 1 and kind in ("int64", "int32", "int16", "uint8"):
            kind = "float32"
        value = mk({"v": raw, "kind": "py" if kind == "float" else kind})
    keep = copy.deepcopy(value) if not c.get("junk") else None
    arg = lambda f, d: value if f == field else d
    try:
        st = hd.Study(horizon=H, nb_scn=S)
        st.network().node("a").node("b")
        st.network("n2").node("a")
        st.network().node("a").consumption(name="c", quantity=arg("cons.quantity", 500), cost=arg("cons.cost", 501))
        st.network().node("a").production(name="c", quantity=arg("prod.quantity", 502), cost=arg("prod.cost", 503))
        st.network().node("a").storage(name="c", capacity=arg("stor.capacity", 504), flow_in=arg("stor.flow_in", 505), flow_out=arg("stor.flow_out", 506),
                                       cost=arg("stor.cost", 507), init_capacity=0, eff=arg("stor.eff", 0.875))
        st.network().link(src="a", dest="b", quantity=arg("link.quantity", 508), cost=arg("link.cost", 509))
        st.network("n2").node("a").to_converter(name="c", ratio=arg("conv.ratio", 2))
        st.network().converter(name="c", to_network="default", to_node="b", max=arg("conv.max", 510), cost=arg("conv.cost", 511))
    except Exception as e:
        r["outcome"] = type(e).__name__
        r["text"] = str(e)[:100]
        return r
    r["outcome"] = "ok"
    nd = st.networks["default"].nodes["a"]
    obj = {"cons": lambda: nd.consumptions[0], "prod": lambda: nd.productions[0], "stor": lambda: nd.storages[0],
           "link": lambda: nd.links[0], "conv": lambda: st.converters["c"]}[el]()
    V = obj.src_ratios[("n2", "a")] if at == "ratio" else getattr(obj, at)
    try:
        r["cells"] = [[back(V[s, t], scale) for t in range(H)] for s in range(S)]
        r["intact"] = same(value, keep)
        spoil(value)
        r["later"] = [[back(V[s, t], scale) for t in range(H)] for s in range(S)]
    except Exception as e:
        r["cells"], r["text"] = [], exc(e)
    for s, t in [(S, 0), (0, H), (S, H), (S + 3, 0), (0, H + 3), (S, H - 1), (S - 1, H)]:
        try:
            V[s, t]; r["beyond"] = False
        except IndexError:
            pass
        except Exception:
            r["beyond"] = False
    try:
        z = [[0.0] * H for _ in range(S)]
        sd = {"S": S, "H": H, "nets": [["default", ["a", "b"]], ["n2", ["a"]]],
              "cons": [{"net": "default", "node": "a", "name": "c"}], "prod": [{"net": "default", "node": "a", "name": "c"}],
              "stor": [{"net": "default", "node": "a", "name": "c"}], "link": [{"net": "default", "src": "a", "dst": "b"}],
              "conv": [{"name": "c", "srcs": [{"net": "n2", "node": "a"}]}]}
        ra = hd.ResultAnalyzer(st, result_of(sd, {k: [z] for k in ("given", "used", "flow", "lvl", "in", "out", "cdst")} | {"csrc": [[z]]}))
        tab, col, f = {"cons.quantity": (ra.consumption, "asked", 1), "cons.cost": (ra.consumption, "cost", 1), "prod.quantity": (ra.production, "avail", 1),
               "prod.cost": (ra.production, "cost", 1), "stor.capacity": (ra.storage, "max_capacity", 1), "stor.flow_in": (ra.storage, "max_flow_in", 1),
               "stor.flow_out": (ra.storage, "max_flow_out", 1), "stor.cost": (ra.storage, "cost", 1), "stor.eff": (ra.storage, "eff", 1),
               "link.quantity": (ra.link, "avail", 1), "link.cost": (ra.link, "cost", 1), "conv.max": (ra.dest_converter, "max", 1),
               "conv.cost": (ra.dest_converter, "cost", 1), "conv.ratio": (ra.src_converter, "ratio", 1)}[field]
        m = [[None] * H for _ in range(S)]
        for _, row in tab.iterrows():
            s, t = int(row["scn"]), int(row["t"])
            m[s][t] = back(row[col], scale) if m[s][t] is None else -2
        r["table"] = [[-3 if x is None else x for x in q] for q in m]
        if field == "conv.max":      # the source table shows the limit divided by the ratio
            for _, row in ra.src_converter.iterrows():
                if back(row["max"] * 2, 1) != m[int(row["scn"])][int(row["t"])]:
                    r["table"], r["text"] = [], "source limit %r" % row["max"]
    except Exception as e:
        r["table"], r["text"] = [], exc(e)
    return r

main(lambda cs: [one(c) for c in cs])
