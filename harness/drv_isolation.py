"""Independent objects of one process: each one's program alone (own process) and all of them interleaved."""
import gc, hashlib, signal
from hdutil import *
import gen
import drv_pipeline as P
from hadar.workflow.pipeline import Pipeline


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def text(read, own=None):
    """an answer that must be the same whatever the company; own: what must stay as long as the process lives"""
    return lambda: {"t": dig(read()), "n": [], "own": dig(own()) if own else ""}


def fixed(v):
    d = {"t": dig(v), "n": [], "own": ""}
    return lambda: d


def table(df): return [df.to_csv(), [str(c) for c in df.columns], [str(n) for n in df.index.names]]
def arr(a): return [list(np.asarray(a).shape), [repr(float(x)) for x in np.asarray(a).flatten()]]


class StudyObj:
    """a study built in three parts, shown, serialized, loaded and solved"""
    def __init__(self, d): self.sd, self.done = d["sd"], 0
    def calls(self):
        sd, out = self.sd, []
        for n, xs in sd["nets"]:
            out.append(lambda st, n=n: st.network(n))
            for x in xs: out.append(lambda st, n=n, x=x: st.network(n).node(x))
        for e in sd["cons"]: out.append(lambda st, e=e: st.network(e["net"]).node(e["node"]).consumption(name=e["name"], cost=mk(e["cost"]), quantity=mk(e["qty"])))
        for e in sd["prod"]: out.append(lambda st, e=e: st.network(e["net"]).node(e["node"]).production(name=e["name"], cost=mk(e["cost"]), quantity=mk(e["qty"])))
        for e in sd["stor"]:
            out.append(lambda st, e=e: st.network(e["net"]).node(e["node"]).storage(name=e["name"], capacity=mk(e["cap"]), flow_in=mk(e["fin"]),
                       flow_out=mk(e["fout"]), cost=mk(e["cost"]), init_capacity=e["init"], eff=mk(e["eff"])))
        for e in sd["link"]: out.append(lambda st, e=e: st.network(e["net"]).link(src=e["src"], dest=e["dst"], cost=mk(e["cost"]), quantity=mk(e["qty"])))
        for e in sd["conv"]:
            for q in e["srcs"]: out.append(lambda st, e=e, q=q: st.network(q["net"]).node(q["node"]).to_converter(name=e["name"], ratio=mk(q["ratio"])))
            out.append(lambda st, e=e: st.network(e["net"]).converter(name=e["name"], to_network=e["net"], to_node=e["node"], max=mk(e["max"]), cost=mk(e["cost"])))
        return out
    def cost(self, res):
        sd, O = self.sd, matrices(res)
        I = gen.flat(sd)
        X = lambda V: gen.expand(V, sd["S"], sd["H"])
        links = [sd["link"][i] for i in self.link_order()]
        terms = [(O["given"], sd["cons"], "cost", "qty")], [(O["used"], sd["prod"], "cost", None), (O["flow"], links, "cost", None), (O["lvl"], sd["stor"], "cost", None), (O["cdst"], sd["conv"], "cost", None)]
        tot, big = [0.0] * sd["S"], 1.0
        for part in terms:
            for M, es, ck, qk in part:
                for m, e in zip(M, es):
                    c = X(e[ck]); q = X(e[qk]) if qk else None
                    for s in range(sd["S"]):
                        for t in range(sd["H"]):
                            v = (q[s][t] - m[s][t]) if q else m[s][t]
                            tot[s] += v * c[s][t]
        for es, qk in ((sd["cons"], "qty"), (sd["prod"], "qty"), (sd["link"], "qty"), (sd["stor"], "cap"), (sd["conv"], "max")):
            for e in es:
                c, q = X(e["cost"]), X(e[qk])
                big += sum(abs(a * b) for r, z in zip(c, q) for a, b in zip(r, z))
        return [int(round(v / big * 1e8)) for v in tot]
    def link_order(self):
        pos = {(n, x): k for k, (n, x) in enumerate((n, x) for n, xs in self.sd["nets"] for x in xs)}
        return sorted(range(len(self.sd["link"])), key=lambda i: pos[(self.sd["link"][i]["net"], self.sd["link"][i]["src"])])
    def do(self, op):
        if op == "part":
            if self.done == 0:
                self.st = hd.Study(horizon=self.sd["H"], nb_scn=self.sd["S"]); self.todo = self.calls()
            self.done += 1
            k = len(self.todo) // 3 + 1
            for f in self.todo[:k]: f(self.st)
            self.todo = self.todo[k:]
            return fixed(project(self.st))
        if op == "look": return text(lambda: project(self.st))
        if op == "json":
            doc = self.st.to_json()
            return text(lambda: doc)
        if op == "load":
            cp = hd.Study.from_json(self.st.to_json())
            return text(lambda: project(cp))
        if op == "solve":
            if not hasattr(self, "opt"): self.opt = hd.LPOptimizer()
            res = self.opt.solve(self.st)
            n = self.cost(res)
            return lambda: {"t": dig(structure(res)), "n": n, "own": dig(matrices(res))}


SHARED = {}


def study_of(d):
    """objects may be given the very same study"""
    if d.get("share") is None: return build(d["sd"])
    if d["share"] not in SHARED: SHARED[d["share"]] = build(d["sd"])
    return SHARED[d["share"]]


class AnalysisObj:
    """an analyzer of a study and its result"""
    def __init__(self, d): self.d = d
    def do(self, op):
        sd = self.d["sd"]
        if op == "new":
            self.ra = hd.ResultAnalyzer(study=study_of(self.d), result=result_of(sd, self.d["O"]))
            return fixed(0)
        ra = self.ra
        nx = [(n, x) for n, xs in sd["nets"] for x in xs]
        if op == "tables": return text(lambda: [table(x) for x in (ra.consumption, ra.production, ra.storage, ra.link, ra.src_converter, ra.dest_converter)])
        if op == "costs":
            a = [ra.get_cost(node=x, network=n) for n, x in nx] + [ra.get_cost(network=n) for n, xs in sd["nets"] if xs]
            return text(lambda: [arr(v) for v in a])
        if op == "racs":
            a = [ra.get_rac(network=n) for n, xs in sd["nets"]]
            return text(lambda: [arr(v) for v in a])
        if op == "balances":
            a = [ra.get_balance(node=x, network=n) for n, x in nx]
            return text(lambda: [arr(v) for v in a])
        if op == "counts":
            a = [ra.get_elements_inside(node=x, network=n) for n, x in nx] + [list(ra.nodes(n)) for n, xs in sd["nets"]] + [ra.horizon, ra.nb_scn]
            return text(lambda: repr(a))
        a = []
        for n, x in nx:
            if op == "q1" and any((e["net"], e["node"]) == (n, x) for e in sd["prod"]): a.append(ra.network(n).node(x).scn(0).time().production())
            if op == "q2" and any((e["net"], e["node"]) == (n, x) for e in sd["cons"]): a.append(ra.network(n).consumption().time(0).node(x).scn())
            if op == "q3" and any((e["net"], e["src"]) == (n, x) for e in sd["link"]): a.append(ra.network(n).time().scn().link().node(x))
            if op == "q3" and any((e["net"], e["node"]) == (n, x) for e in sd["stor"]): a.append(ra.network(n).scn().node(x).storage().time(slice(0, 2)))
        return text(lambda: [table(v) for v in a])


class PlotObj:
    """plots of a study and its result"""
    def __init__(self, d): self.d = d
    def do(self, op):
        sd = self.d["sd"]
        if op == "new":
            ra = hd.ResultAnalyzer(study=study_of(self.d), result=result_of(sd, self.d["O"]))
            self.pl = hd.HTMLPlotting(agg=ra, unit_symbol=self.d["unit"], node_coord=self.d["coord"], **({"time_start": self.d["dates"][0], "time_end": self.d["dates"][1]} if self.d["dates"] else {}))
            return fixed(0)
        pl, f = self.pl, []
        if op == "stack": f = [pl.network(n).node(x).stack() for n, xs in sd["nets"] for x in xs]
        elif op == "matrix": f = [pl.network(n).rac_matrix() for n, xs in sd["nets"] if xs]
        elif op == "map": f = [pl.network(n).map(t=0, zoom=2) for n, xs in sd["nets"] if xs]
        elif op == "lines": f = [pl.network(e["net"]).node(e["node"]).consumption(e["name"]).timeline() for e in sd["cons"]] + [pl.network(e["net"]).node(e["node"]).production(e["name"]).timeline() for e in sd["prod"]] + \
                                [pl.network(e["net"]).node(e["node"]).storage(e["name"]).candles() for e in sd["stor"]] + [pl.network(e["net"]).node(e["src"]).link(e["dst"]).monotone(t=0) for e in sd["link"]]
        data = lambda v: [[t.to_plotly_json() for t in v.data], v.layout.to_plotly_json()]
        return text(lambda: [data(v) for v in f])


class PipeObj:
    """a pipeline composed and run on several data"""
    def __init__(self, d): self.d = d
    def do(self, op):
        if op == "compose":
            self.stages = [P.op_stage(o) for o in self.d["ops"]]
            self.p = Pipeline(stages=self.stages)
            return text(lambda: [sorted(self.p.plug.inputs), sorted(self.p.plug.outputs)])
        if op == "fault":
            n, fd = 24, self.d["fault"]
            df = pd.DataFrame({(s, "quantity"): [100.0] * n for s in range(2)})
            r = hd.Fault(loss=fd["loss"], occur_freq=0.2, downtime_min=1, downtime_max=fd["max"], seed=fd["seed"])(df)
            return text(lambda: table(r))
        df = P.mk_frame(self.d["fr"] if op == "run" else self.d["fr2"])
        r = self.p(df)
        return text(lambda: [table(r), table(df)])


def s_first(low, high=None, size=None): return np.arange(size) % max(high - low, 1) + low


class ShufObj:
    """a shuffler with registered data"""
    def __init__(self, d): self.d, self.k = d, 0
    def do(self, op):
        if op == "new":
            self.sh = hd.Shuffler(sampler=s_first)
            return fixed(0)
        if op == "add":
            nm, rows, lo = self.d["data"][self.k]; self.k += 1
            if lo is None: self.sh.add_data(nm, np.array(rows, dtype=float))
            else:
                df = pd.DataFrame({(s, "a"): [float(v) for v in r] for s, r in enumerate(rows)})
                self.sh.add_pipeline(nm, df, hd.Clip(lower=lo) + hd.ToShuffler("a"))
            return fixed(0)
        r = self.sh.shuffle(self.d["nb"])
        return text(lambda: [[n, arr(r[n])] for n in sorted(r)])


KIND = {"study": StudyObj, "analysis": AnalysisObj, "plot": PlotObj, "pipe": PipeObj, "shuf": ShufObj}


def attempt(f):
    try: return f()
    except Exception as e:
        d = {"t": "raised " + exc(e), "n": [], "own": ""}
        return lambda: d


def play(objs, order, drop=False):
    """order: object per event -> events and what the answers are when all is over (drop: objects go when their program is over)"""
    live = [KIND[o["kind"]](o) for o in objs]
    pc, ev, kept = [0] * len(objs), [], []
    for i in order:
        op = objs[i]["prog"][pc[i]]; pc[i] += 1
        r = attempt(lambda: live[i].do(op))
        out = attempt(lambda: (lambda v: (lambda: v))(r()))()
        ev.append({"o": i + 1, "k": pc[i], "op": op, "out": out}); kept.append(r)
        del r
        if drop and pc[i] == len(objs[i]["prog"]):
            live[i] = None
            for j, e in enumerate(ev):
                if e["o"] == i + 1:
                    v = attempt(lambda: (lambda v: (lambda: v))(kept[j]()))(); kept[j] = lambda v=v: v
            gc.collect()
    return {"events": ev, "again": [attempt(lambda: (lambda v: (lambda: v))(r()))() for r in kept]}


def child(fn, secs):
    """run fn in a process forked from this one, which has done nothing but import"""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a)
        try:
            signal.alarm(secs)
            with os.fdopen(b, "w") as f: json.dump(fn(), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc(); os._exit(7)
    os.close(b)
    with os.fdopen(a) as f: s = f.read()
    _, st = os.waitpid(pid, 0)
    try: return json.loads(s) if st == 0 else {"died": st}
    except ValueError: return {"died": st}


def one(job):
    alone = [child(lambda o=o: play([o], [0] * len(o["prog"])), 120) for o in job["objs"]]
    sess = child(lambda: play(job["objs"], job["order"], job["drop"]), 200)
    return {"id": job["id"], "alone": alone, "session": sess}


if __name__ == "__main__": main(lambda jobs: [one(j) for j in jobs])
