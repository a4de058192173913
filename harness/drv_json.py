"""Lives of studies / results and their JSON documents on the real code."""
from hdutil import *
import copy, random
import drv_build_lib as B
from hadar.optimizer.domain.output import Result, Benchmark

def call_on(st, c, vals):
    kw = B.kwargs(c, vals, skip=("h", "op", "net", "node"))
    h = st.network(c["net"]).node(c["node"])
    getattr(h, c["op"])(**kw)

def proj_result(res):
    def M(a):
        a = np.asarray(a)
        return [list(a.shape), [repr(float(x)) for x in a.flatten()]]
    out = []
    for n, net in res.networks.items():
        for x, nd in net.nodes.items():
            out.append([n, x, [[c.name, M(c.quantity)] for c in nd.consumptions], [[c.name, M(c.quantity)] for c in nd.productions],
                        [[c.name, M(c.capacity), M(c.flow_in), M(c.flow_out)] for c in nd.storages], [[c.dest, M(c.quantity)] for c in nd.links]])
    out.append([[k, c.name, M(c.flow_dest), [[list(q), M(f)] for q, f in c.flow_src.items()]] for k, c in res.converters.items()])
    b = res.benchmark
    out.append([[float(v) for v in b.modeler], [float(v) for v in b.solver], float(b.mapper), float(b.total)])
    return json.dumps(out)

def tables(st, res):
    ra = hd.ResultAnalyzer(st, res)
    t = [x.to_csv(float_format="%.12g") for x in (ra.consumption, ra.production, ra.storage, ra.link, ra.src_converter, ra.dest_converter)]
    for n in st.networks:
        t.append(repr(ra.get_rac(network=n).tolist())); t.append(repr(ra.get_cost(network=n).tolist()))
    return json.dumps(t)

def floats(o):
    """20 and 20.0 are the same number"""
    if isinstance(o, dict): return {k: floats(v) for k, v in o.items()}
    if isinstance(o, list): return [floats(v) for v in o]
    return float(o) if isinstance(o, (int, float)) and not isinstance(o, bool) else o

def twin(job, seed):
    """a second object made like the first: the same, or with one number a hair away, or of another version"""
    rng = random.Random(seed)
    job = copy.deepcopy({k: v for k, v in job.items() if k[0] != "_"})
    cells = []
    def walk(o):
        for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
            if isinstance(v, (dict, list)): walk(v)
            elif isinstance(v, float) or (isinstance(v, int) and not isinstance(v, bool)): cells.append((o, k))
    if job["kind"] == "study":
        for k in ("cons", "prod", "stor", "link", "conv"):
            for e in job["sd"][k]:
                for f, v in e.items():
                    if isinstance(v, dict) and "form" in v: walk({"v": v["v"]}) if isinstance(v["v"], list) else cells.append((v, "v"))
                for q in e.get("srcs", []): walk({"v": q["ratio"]["v"]}) if isinstance(q["ratio"]["v"], list) else cells.append((q["ratio"], "v"))
    else: walk(job["O"])
    if cells and rng.random() < 0.8:
        o, k = rng.choice(cells)
        x = float(o[k])
        o[k] = x * (1 + rng.choice([1e-6, 1e-9, 1e-12])) if x else rng.choice([1e-5, 1e-9, 1e-12])
        if job["kind"] == "study" and not 0 <= o[k] <= 1 and 0 <= x <= 1: o[k] = x * (1 - 1e-9)      # stay a valid efficiency
    if job["kind"] == "study":
        st = build(job["sd"])
        if not cells or rng.random() < 0.1: st.version = "0.0.1"
        return st
    r = result_of(job["sd"], job["O"])
    if job.get("bench"): r.benchmark = Benchmark(**job["bench"])
    return r

def life(job, vals):
    """acts -> recorded steps"""
    kind, acts = job["kind"], job["acts"]
    objs, docs, steps, shows = [], [], [], []
    cls = hd.Study if kind in ("session", "study") else Result
    memo = {}
    def content(o):
        if kind == "session": return B.shape(o)
        if kind == "study": return json.dumps(floats(project(o)))
        k = (id(o), proj_result(o))          # objects stay alive: ids are unique
        if k not in memo: memo[k] = tables(job["_st"], o)
        return json.dumps([k[1], memo[k]])
    if kind == "result": job["_st"] = build(job["sd"])
    for a in acts:
        e = {k: v for k, v in a.items() if k != "ok"}
        e["eq"] = True
        try:
            if a["act"] == "new" and a.get("twin") is not None:
                objs.append(twin(job, a["twin"]))
            elif a["act"] == "new":
                if kind == "session": objs.append(hd.Study(horizon=2, nb_scn=2, version=job.get("version")))
                elif kind == "study": objs.append(build(job["sd"]))
                elif job.get("O") is not None:
                    r = result_of(job["sd"], job["O"])
                    if job.get("bench"): r.benchmark = Benchmark(**job["bench"])
                    objs.append(r)
                else:
                    objs.append(hd.LPOptimizer().solve(build(job["sd"])))
            elif a["act"] == "dump":
                docs.append(objs[a["i"] - 1].to_json()); shows.append(a["i"])
            elif a["act"] == "text":
                docs.append(json.loads(json.dumps(docs[a["d"] - 1]))); shows.append(shows[a["d"] - 1])
            elif a["act"] == "load":
                o = cls.from_json(docs[a["d"] - 1])
                objs.append(o)
                s = objs[shows[a["d"] - 1] - 1]
                e["eq"] = bool(o == s) and bool(s == o) and not bool(o != s)
            elif a["act"] == "change":
                if kind == "session": call_on(objs[a["i"] - 1], a["call"], vals)
                elif kind == "study": objs[a["i"] - 1].network("extra").node("extra").consumption(name="x%d" % len(steps), cost=1, quantity=[float(k) for k in range(job["sd"]["H"])])
                else:
                    # a consumer of one result writes into its arrays
                    for net in objs[a["i"] - 1].networks.values():
                        for nd in net.nodes.values():
                            for c in nd.consumptions + nd.productions + nd.links: c.quantity += 1.5
            e["outcome"] = "ok"
        except ValueError as x:
            e["outcome"] = "ValueError"; e["text"] = exc(x)
        except Exception as x:
            e["outcome"] = exc(x)
        try:
            e["objs"] = [content(o) for o in objs]
            e["texts"] = [json.dumps(d) for d in docs]
            e["same"] = [[i + 1, j + 1] for i in range(len(objs)) for j in range(len(objs)) if bool(objs[i] == objs[j])]
            e["other"] = [[i + 1, j + 1] for i in range(len(objs)) for j in range(len(objs)) if bool(objs[i] != objs[j])]
        except Exception as x:
            e["outcome"] = "unreadable " + exc(x); e["objs"] = []; e["texts"] = []; e["same"] = []; e["other"] = []
        steps.append(e)
        if e["outcome"] not in ("ok", "ValueError") or (e["outcome"] != "ok" and a["act"] != "change"): break
    if kind != "session":      # intern long contents: equality is all that matters
        ids = {}
        for e in steps:
            e["objs"] = ["c%d" % ids.setdefault(x, len(ids)) for x in e["objs"]]
    tid = {}
    for e in steps:
        e["texts"] = [tid.setdefault(x, len(tid)) for x in e["texts"]]
    return steps

def solve_pair(job):
    """solve a study and its round-tripped copy"""
    out = {"id": job["id"]}
    try:
        st = build(job["sd"])
        cp = hd.Study.from_json(json.loads(json.dumps(st.to_json())))
        for k, s in (("orig", st), ("copy", cp)):
            res = hd.LPOptimizer().solve(s)
            out[k] = {"outcome": "ok", "struct": structure(res), "O": matrices(res)}
    except Exception as e:
        out["error"] = exc(e)
    return out

def handler(d):
    return {"lives": [life(j, d["values"]) for j in d["lives"]], "pairs": [solve_pair(j) for j in d["pairs"]]}

main(handler)
