"""Pipelines on the real code: composition sessions (C19) and frames (C20)."""
from hdutil import *
from hadar.workflow.pipeline import (Stage, FocusStage, FreePlug, RestrictedPlug, Clip, Rename, Drop, Fault, RepeatScenario, ToShuffler, Pipeline)

RAN = []


def logged(cls):
    class L(cls):
        def _process_timeline(self, timeline):
            RAN.append(self.serial)
            return cls._process_timeline(self, timeline)
    L.__name__ = cls.__name__
    return L


def plug(ins, outs):
    if ins is None: return FreePlug()
    k = {}
    if ins: k["inputs"] = list(ins)
    if outs: k["outputs"] = list(outs)      # what is not given is no column
    return RestrictedPlug(**k)


JUNK = [lambda: 3, lambda: None, lambda: "clip", lambda: frame_cols(["a"], True), lambda: [hd.Clip(lower=0)], lambda: FreePlug(), lambda: hd.Clip]


class Custom(Stage):
    """Honest restricted or free stage working on the whole frame."""
    def __init__(self, ins=None, outs=None, inplace=False):
        Stage.__init__(self, plug=plug(ins, outs))
        self.ins, self.outs, self.inplace = ins, outs, inplace
    def _process_timeline(self, timeline):
        RAN.append(self.serial)
        if self.ins is None:
            timeline += 1
            return timeline
        gone = [n for n in self.ins if n not in self.outs]
        scns = list(timeline.columns.get_level_values(0).unique())
        if gone: timeline = timeline.drop(gone, axis=1, level=1)
        for s in scns:
            for n in self.outs: timeline[(s, n)] = 1.0
        return timeline


class CustomFocus(FocusStage):
    def __init__(self, ins=None, outs=None):
        FocusStage.__init__(self, plug=plug(ins, outs))
        self.ins, self.outs = ins, outs
    def _process_timeline(self, timeline):
        RAN.append(self.serial)
        return FocusStage._process_timeline(self, timeline)
    def _process_scenarios(self, n_scn, scenario):
        if self.ins is None: return scenario + 1
        scenario = scenario.drop([n for n in self.ins if n not in self.outs], axis=1)
        for n in self.outs: scenario[n] = 2.0
        return scenario


def stage(d):
    k, ins, outs = d["real"], d["ins"], d["outs"]
    if k == "clip": s = logged(Clip)(lower=-5)
    elif k == "repeat": s = logged(RepeatScenario)(2)
    elif k == "rename": s = logged(Rename)(**dict(zip(ins, outs)))
    elif k == "toshuffler": s = logged(ToShuffler)(ins[0])
    elif k == "drop": s = logged(Drop)(ins if d.get("aslist", True) or len(ins) != 1 else ins[0])
    elif k == "fault": s = logged(Fault)(loss=1, occur_freq=0.3, downtime_min=1, downtime_max=3)
    elif k == "focus": s = CustomFocus(None if d["free"] else ins, outs)
    else: s = Custom(None if d["free"] else ins, outs)
    return s


def frame_cols(cols, flat, scns=(0, 1)):
    if flat: return pd.DataFrame({c: [1.0, 2.0, 3.0] for c in cols})
    d = {(s, c): [1.0 + s, 2.0, 3.0] for s in scns for c in cols}
    df = pd.DataFrame(d)
    df.columns = pd.MultiIndex.from_tuples(list(d))
    return df


def clean(job, chain, cols):
    """no renaming onto a column that is there: the frame would get two columns of one name"""
    cols = set(cols)
    for i in chain:
        d = job["stages"][i - 1]
        if d["free"]: continue
        if d["real"] in ("rename", "toshuffler") and (cols - set(d["ins"])) & set(d["outs"]): return False
        cols = (cols - set(d["ins"])) | set(d["outs"])
    return True


def session(job):
    stages = [stage(d) for d in job["stages"]]
    for i, s in enumerate(stages): s.serial = i + 1
    pipes, chains, steps = [], [], []
    show = lambda x: [sorted(set(map(str, x.plug.inputs))), sorted(set(map(str, x.plug.outputs)))]
    for a in job["steps"]:
        e = dict(a); RAN.clear(); e["got"] = []
        if "p" in a:
            if not pipes: continue
            e["p"] = p = 1 + a["p"] % len(pipes)
        if a["act"] in ("run", "call"):
            x, ch = (pipes[p - 1], chains[p - 1]) if a["act"] == "run" else (stages[a["s"] - 1], [a["s"]])
            cols = set(a["cols"])
            if a["mode"] != "as is":
                cols |= set(x.plug.inputs)
                if a["mode"] == "lack" and x.plug.inputs: cols -= {sorted(x.plug.inputs)[a["k"] % len(x.plug.inputs)]}
            e["cols"] = cols = sorted(cols | {"keep"})
            if not clean(job, ch, cols): continue
        try:
            if a["act"] == "mk":
                ch = a["list"]; new = Pipeline(stages=[stages[i - 1] for i in ch])
            elif a["act"] == "addp":
                ch = chains[p - 1] + [a["s"]]; new = pipes[p - 1] + stages[a["s"] - 1]
            elif a["act"] == "adds":
                ch = [a["a"], a["s"]]; new = stages[a["a"] - 1] + stages[a["s"] - 1]
            elif a["act"] == "junk":
                new = None
                (pipes[p - 1] if a["pipe"] else stages[a["s"] - 1]) + JUNK[a["k"] % len(JUNK)]()
            else:
                new = None
                df = frame_cols(cols, a["flat"])
                r = x(df)
                per = {}
                for s, n in r.columns: per.setdefault(s, set()).add(str(n))
                got = list(per.values())
                e["got"] = sorted(got[0]) if all(g == got[0] for g in got) else ["scenarios differ"]
            e["outcome"] = "ok"
            if new is not None: pipes.append(new); chains.append(list(ch))
        except ValueError as x_:
            e["outcome"] = "ValueError"; e["text"] = exc(x_)
        except Exception as x_:
            e["outcome"] = exc(x_)
        e["ran"] = list(RAN)
        e["shown"] = [show(s) for s in stages]
        e["pshown"] = [show(p) for p in pipes]
        steps.append(e)
    return {"id": job["id"], "stages": [{k: d[k] for k in ("free", "ins", "outs")} for d in job["stages"]], "steps": steps}


# ------------------------------------------------------------------------------------------------- frames
class Cum(FocusStage):
    def __init__(self, i, o, k, style):
        FocusStage.__init__(self, plug=RestrictedPlug(inputs=[i], outputs=[i, o] if i != o else [i]))
        self.i, self.o, self.k, self.style = i, o, k, style
    def _process_scenarios(self, n_scn, scenario):
        z = int(n_scn) if isinstance(n_scn, (int, np.integer)) else 0
        v = scenario[self.i].cumsum() + self.k * z * U
        if self.style == "inplace":
            scenario[self.o] = v
            return scenario
        if self.style == "values":
            out = scenario.copy(); out[self.o] = np.asarray(v)
            return out
        return scenario.assign(**{self.o: v})


class Double(Stage):
    def __init__(self, style):
        Stage.__init__(self, plug=FreePlug()); self.style = style
    def _process_timeline(self, timeline):
        if self.style == "inplace":
            timeline.iloc[:, :] = timeline.values * 2
            return timeline
        return timeline * 2


class DoubleFocus(FocusStage):
    def __init__(self, style):
        FocusStage.__init__(self, plug=FreePlug()); self.style = style
    def _process_scenarios(self, n_scn, scenario):
        if self.style == "inplace":
            scenario.iloc[:, :] = scenario.values * 2
            return scenario
        return scenario * 2


U = 1         # unit of the numbers of a frame: every computation on multiples of it is exact


def op_stage(o):
    q = lambda b: None if not b else b[0] / 4 * U
    k = o["op"]
    if k == "clip": return hd.Clip(lower=q(o["lo"]), upper=q(o["hi"]))
    if k == "rename":
        if o.get("shuf"): return hd.ToShuffler(o["map"][0][0])
        return hd.Rename(**dict(o["map"]))
    if k == "drop": return hd.Drop(o["names"][0] if o.get("bare") else list(o["names"]))
    if k == "repeat": return hd.RepeatScenario(o["n"])
    if k == "focus": return Cum(o["i"], o["o"], o["k"], o["style"])
    if k == "double": return DoubleFocus(o["style"]) if o.get("focus") else Double(o["style"])
    if k == "same": return hd.Fault(loss=3, occur_freq=0, downtime_min=1, downtime_max=2, seed=o.get("seed"))
    raise RuntimeError(k)


def index(kind, n):
    if kind == "range": return pd.RangeIndex(n)
    if kind == "desc": return pd.Index(list(range(n, 0, -1)))
    if kind == "dates": return pd.date_range("2020-01-01", periods=n, freq="h")
    if kind == "str": return pd.Index(["r%d" % ((i * 7) % n) if n % 7 else "q%d" % i for i in range(n)])
    if kind == "dup": return pd.Index([i // 2 for i in range(n)])
    if kind == "float": return pd.Index([i * 0.5 - 1 for i in range(n)])
    raise RuntimeError(kind)


def mk_frame(d):
    arr = np.array([[v / 4 * U for v in col] for _, _, col in d["cols"]], dtype=float).T.reshape(d["n"], len(d["cols"]))
    if d["dtype"] == "int": arr = np.round(arr).astype("int64")
    if d["flat"]: columns = pd.Index([n for _, n, _ in d["cols"]])
    else: columns = pd.MultiIndex.from_tuples([(s, n) for s, n, _ in d["cols"]], names=d.get("levels"))
    return pd.DataFrame(arr, index=index(d["index"], d["n"]), columns=columns)


def show(df, flat=False):
    cells = []
    for j, c in enumerate(df.columns):
        s, n = (0, c) if flat else (c[0], c[1])
        vals = []
        for v in df.iloc[:, j].tolist():
            try: w = float(v) * 4 / U
            except Exception: w = float("nan")
            vals.append(88888888 if w != w else (int(w) if w == int(w) and abs(w) < 10**8 else 99999999))
        isnum = isinstance(s, (int, np.integer)) and not isinstance(s, bool)
        cells.append({"s": str(int(s)) if isnum else "'" + str(s), "z": int(s) if isnum else 0, "n": str(n), "d": vals})
    return {"rows": [str(i) for i in df.index], "cells": cells}


def same(a, b):
    try:
        pd.testing.assert_frame_equal(a, b, check_exact=True)
        return list(a.columns) == list(b.columns) and a.columns.nlevels == b.columns.nlevels and list(a.index) == list(b.index)
    except AssertionError:
        return False


def frames(job):
    r = {"id": job["id"], "ops": job["ops"], "frames": [], "piped": [], "intact": True, "error": ""}
    global U
    U = job["frame"].get("unit", 1)
    df = mk_frame(job["frame"])
    keep = df.copy(deep=True)
    r["frames"].append(show(df, job["frame"]["flat"]))
    stages = [op_stage(o) for o in job["ops"]]
    try:
        cur = df
        for s in stages:
            before = cur.copy(deep=True)
            nxt = s(cur)
            r["intact"] = r["intact"] and same(cur, before)
            r["frames"].append(show(nxt)); cur = nxt
        pipes = [Pipeline(stages=list(stages))]
        if len(stages) > 1:
            p = stages[0] + stages[1]
            for s in stages[2:]: p = p + s
            pipes.append(p)
        for p in pipes:
            for _ in range(job.get("times", 1)):
                r["piped"].append(show(p(df)))
                r["intact"] = r["intact"] and same(df, keep)
    except Exception as e:
        r["error"] = exc(e)
    r["intact"] = r["intact"] and same(df, keep)
    return r


def handler(d):
    return {"sessions": [session(j) for j in d.get("sessions", [])], "frames": [frames(j) for j in d.get("frames", [])]}


if __name__ == "__main__": main(handler)
