"""Reading analyzers: fixed point values and table snapshots."""
import numpy as np

def near(r, rel): return int(round(r)) if abs(r - round(r)) < (rel * max(abs(r), 1) if rel else 1e-4) and abs(r) < 2e9 else -2000000003

def fx(x, unit=1, rel=None):
    """fixed point times 100; anything else becomes a value that no expectation equals"""
    try: x = float(x) / unit
    except Exception: return -2000000001
    if not np.isfinite(x): return -2000000002
    return near(x * 100, rel)

def fx4(x):
    r = float(x) * 10000
    if not np.isfinite(r): return -2000000002
    return int(round(r)) if abs(r - round(r)) < 1e-2 and abs(r) < 2e9 else -2000000003

def whole(x):
    x = float(x)
    return int(x) if x == int(x) else -2000000003

COLS = {"cons": ("consumption", ["asked", "cost", "given"], "name"), "prod": ("production", ["avail", "cost", "used"], "name"),
        "stor": ("storage", ["capacity", "cost", "eff", "flow_in", "flow_out", "init_capacity", "max_capacity", "max_flow_in", "max_flow_out"], "name"),
        "link": ("link", ["avail", "cost", "used"], "dest"), "src": ("src_converter", ["flow", "max", "ratio"], "name"),
        "dst": ("dest_converter", ["cost", "flow", "max"], "name")}
def snapshot(ra):
    return [getattr(ra, COLS[k][0]).to_csv() for k in COLS] + [list(getattr(ra, COLS[k][0]).columns) for k in COLS]
