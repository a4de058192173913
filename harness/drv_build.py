"""Replay builder sessions on the real fluent API; record outcome and projected study after every call."""
import drv_build_lib
from drv_build_lib import *

ORDER = {"network": ["name"], "node": ["name"], "consumption": ["name", "cost", "quantity"], "production": ["name", "cost", "quantity"],
         "storage": ["name", "capacity", "flow_in", "flow_out", "cost", "init_capacity", "eff"], "link": ["src", "dest", "cost", "quantity"],
         "to_converter": ["name", "ratio"], "converter": ["name", "to_network", "to_node", "max", "cost"]}

def spoken(op, kw, style):
    """the same call with keywords, with positions, or leaving out what has its default value"""
    if style == 1:
        a = []
        for k in ORDER[op]:
            if k not in kw: break
            a.append(kw.pop(k))
        return a, kw
    if style == 2:
        if op == "network" and kw["name"] == "default": kw.pop("name")
        if op == "storage" and kw["init_capacity"] == 0: kw.pop("init_capacity")
    return [], kw

def session(run, vals):
    HS = drv_build_lib.HS
    st = hd.Study(horizon=HS[0], nb_scn=HS[1]) if HS[1] != 1 or len(run) % 2 else hd.Study(HS[0])
    handles, steps = [], []
    for n, c in enumerate(run):
        call = c["call"]
        h = st if call["h"] == 0 else handles[call["h"] - 1]
        a, kw = spoken(call["op"], kwargs(call, vals), (n + call["h"]) % 3)
        try:
            r = getattr(h, call["op"])(*a, **kw)
            out = "ok"
        except Exception as e:
            out = type(e).__name__
            r = None
        try:
            after = shape(st)
        except Exception as e:
            after = {"nets": [], "conv": []}; out = "unreadable " + exc(e)
        steps.append({"call": call, "outcome": out, "after": after})
        if out == "ok": handles.append(r)
        if (out == "ok") != c["ok"] or out.startswith("unreadable"): break
        if out == "ok" and r is not None and not all(hasattr(r, m) for m in (["network"] if call["op"] != "build" else [])):
            steps[-1]["outcome"] = "no handle returned"; break
        if r is None and out == "ok":
            steps[-1]["outcome"] = "no handle returned"; break
    else:
        # the study is what every handle builds
        for h in handles:
            if h.build() is not st and shape(h.build()) != steps[-1]["after"]: steps[-1]["outcome"] = "build() gives another study"
    return steps

def run(d):
    drv_build_lib.HS = tuple(d.get("hs", (2, 2)))
    return [session(r, d["values"]) for r in d["runs"]]

main(run)
