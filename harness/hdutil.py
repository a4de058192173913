"""Driver side helpers (runs with /opt/venv python, imports hadar from /repo)."""
import json, multiprocessing, multiprocessing.pool, os, pickle, sys, traceback

REAL_POOL = multiprocessing.Pool


class _Async:
    def __init__(self, fn):
        try:
            self.v, self.e = fn(), None
        except Exception as e:       # delivered on get(), as the real pool does
            self.v, self.e = None, e
    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return self.e is None


class FakePool:
    """multiprocessing.Pool replacement running tasks in this process in a chosen order.

    plan(n) -> list of (worker, task) giving execution order. Arguments and results go through pickle; numpy and
    python random states are per worker, copied from the parent at pool creation (fork semantics)."""
    plan = staticmethod(lambda n: [(i % 4, i) for i in range(n)])
    log = None
    live = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        import numpy as np, random
        self._np, self._rnd = np.random.get_state(), random.getstate()
        self.workers = {}
        self._init = (initializer, initargs)

    def _run(self, w, func, args, kwds=None):
        import numpy as np, random
        pn, pr = np.random.get_state(), random.getstate()
        first = w not in self.workers
        wn, wr = self.workers.get(w, (self._np, self._rnd))
        np.random.set_state(wn); random.setstate(wr)
        try:
            if first and self._init[0]:
                self._init[0](*self._init[1])
            f, a, k = pickle.loads(pickle.dumps((func, args, kwds or {})))
            return pickle.loads(pickle.dumps(f(*a, **k)))
        finally:
            self.workers[w] = (np.random.get_state(), random.getstate())
            np.random.set_state(pn); random.setstate(pr)

    def _map(self, func, tasks, star=False):
        tasks = list(tasks)
        plan = FakePool.plan(len(tasks))
        assert sorted(i for _, i in plan) == list(range(len(tasks)))
        if FakePool.log is not None:
            FakePool.log.append({"ev": "submit", "n": len(tasks)})
        out, err, order = [None] * len(tasks), None, []
        for w, i in plan:
            if FakePool.log is not None:
                FakePool.log.append({"ev": "run", "w": w, "i": i})
            try:
                out[i] = self._run(w, func, tuple(tasks[i]) if star else (tasks[i],))
            except Exception as e:
                err = err or e
            order.append(i)
        if err is not None:
            raise err
        return out, order

    def map(self, func, iterable, chunksize=None): return self._map(func, iterable)[0]
    def starmap(self, func, iterable, chunksize=None): return self._map(func, iterable, True)[0]
    def imap(self, func, iterable, chunksize=1): return iter(self._map(func, iterable)[0])
    def imap_unordered(self, func, iterable, chunksize=1):
        out, order = self._map(func, iterable)
        return iter([out[i] for i in order])
    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = _Async(lambda: self._map(func, iterable)[0])
        if callback and r.e is None: callback(r.v)
        if error_callback and r.e is not None: error_callback(r.e)
        return r
    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = _Async(lambda: self._map(func, iterable, True)[0])
        if callback and r.e is None: callback(r.v)
        if error_callback and r.e is not None: error_callback(r.e)
        return r
    def apply(self, func, args=(), kwds={}): return self._run(0, func, tuple(args), dict(kwds))
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        n = getattr(self, "_n", 0); self._n = n + 1
        r = _Async(lambda: self._run(n % 4, func, tuple(args), dict(kwds)))
        if callback and r.e is None: callback(r.v)
        if error_callback and r.e is not None: error_callback(r.e)
        return r
    def close(self): pass
    def terminate(self): pass
    def join(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


MODE = {"fake": True}


def pool_factory(*a, **k):
    return FakePool(*a, **k) if MODE["fake"] else REAL_POOL(*a, **k)


multiprocessing.Pool = pool_factory          # before hadar is imported
import hadar as hd                           # noqa: E402
import numpy as np                           # noqa: E402
import pandas as pd                          # noqa: E402
import logging
logging.disable(logging.CRITICAL)


def quiet():
    """solver chatter goes to the C-level stdout, already /dev/null for drivers"""


def mk(V):
    """Numeric argument in the form and container the description asks for."""
    v, k = V["v"], V["kind"]
    if k in ("py", "list"):
        return v
    if k == "np":
        return np.array(v)
    if k == "series":
        return pd.Series(v)
    if k == "df":
        return pd.DataFrame(v)
    if k == "npnum":
        return np.int64(v) if isinstance(v, int) else np.float64(v)
    if k == "np32":
        return np.int32(v) if isinstance(v, int) else np.float32(v)
    if k == "np0":
        return np.array(v)
    if k == "fort":
        return np.asfortranarray(np.array(v))
    if k == "view":                      # strided, non contiguous view
        a = np.array(v)
        b = np.zeros(tuple(2 * d for d in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == "seriesx":                   # labels must not matter
        return pd.Series(v, index=list(range(len(v), 0, -1)))
    if k == "dfx":
        a = np.array(v)
        return pd.DataFrame(a, index=["r%d" % (9 - i) for i in range(a.shape[0])], columns=list(range(a.shape[1], 0, -1)))
    return np.array(v, dtype=k)


def mkinit(x, k):
    """the same number as the types users have at hand"""
    ts = [None, None, np.float64] + ([np.float32] if float(np.float32(x)) == x else []) + ([np.int64, np.int32, np.uint16] if float(x).is_integer() and 0 <= x < 60000 else [])
    t = ts[k % len(ts)]
    return x if t is None else t(x)


def build(sd):
    size = [int, int, int, np.int64, np.int32][(sd["H"] + 2 * sd["S"] + 3 * len(sd["prod"])) % 5]
    st = hd.Study(horizon=size(sd["H"]), nb_scn=size(sd["S"]))
    for n, xs in sd["nets"]:
        h = st.network(n)
        for x in xs:
            h = h.node(x)
    for e in sd["cons"]:
        st.network(e["net"]).node(e["node"]).consumption(name=e["name"], cost=mk(e["cost"]), quantity=mk(e["qty"]))
    for e in sd["prod"]:
        st.network(e["net"]).node(e["node"]).production(name=e["name"], cost=mk(e["cost"]), quantity=mk(e["qty"]))
    for k, e in enumerate(sd["stor"]):
        st.network(e["net"]).node(e["node"]).storage(name=e["name"], capacity=mk(e["cap"]), flow_in=mk(e["fin"]),
            flow_out=mk(e["fout"]), cost=mk(e["cost"]), init_capacity=mkinit(e["init"], k + len(sd["cons"])), eff=mk(e["eff"]))
    for e in sd["link"]:
        st.network(e["net"]).link(src=e["src"], dest=e["dst"], cost=mk(e["cost"]), quantity=mk(e["qty"]))
    for e in sd["conv"]:
        for q in e["srcs"]:
            st.network(q["net"]).node(q["node"]).to_converter(name=e["name"], ratio=mk(q["ratio"]))
        st.network(e["net"]).converter(name=e["name"], to_network=e["net"], to_node=e["node"], max=mk(e["max"]), cost=mk(e["cost"]))
    return st


def structure(res):
    out = []
    for n, net in res.networks.items():
        for x, nd in net.nodes.items():
            out.append([n, x, [c.name for c in nd.consumptions], [c.name for c in nd.productions],
                        [c.name for c in nd.storages], [c.dest for c in nd.links]])
    out.append(["", "", [c for c in res.converters], [q for c, v in res.converters.items() for q in
               [v.name] + ["%s|%s" % k for k in v.flow_src]], [], []])
    return out


def matrices(res):
    """Result matrices in study order (lists of [scn][t] lists)."""
    L = lambda a: np.asarray(a, dtype=float).tolist()
    O = {k: [] for k in ("given", "used", "flow", "lvl", "in", "out", "cdst", "csrc")}
    for net in res.networks.values():
        for nd in net.nodes.values():
            O["given"] += [L(c.quantity) for c in nd.consumptions]
            O["used"] += [L(c.quantity) for c in nd.productions]
            O["flow"] += [L(c.quantity) for c in nd.links]
            for c in nd.storages:
                O["lvl"].append(L(c.capacity)); O["in"].append(L(c.flow_in)); O["out"].append(L(c.flow_out))
    for v in res.converters.values():
        O["cdst"].append(L(v.flow_dest))
        O["csrc"].append([L(f) for f in v.flow_src.values()])
    return O

# ------------------------------------------------------------------ study projection
def val(V, S, H):
    """Every entry of a numerical value, read through element access."""
    return [[num(V[s, t]) for t in range(H)] for s in range(S)]


def num(x):
    x = x.item() if isinstance(x, np.generic) else x
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return x
    return repr(x)


def project(st):
    """Observable content of a study through its public attributes, values read at every (scenario, step)."""
    S, H = st.nb_scn, st.horizon
    v = lambda V: val(V, S, H)
    nets = []
    for n, net in st.networks.items():
        nodes = []
        for x, nd in net.nodes.items():
            nodes.append([x,
                [[c.name, v(c.quantity), v(c.cost)] for c in nd.consumptions],
                [[c.name, v(c.quantity), v(c.cost)] for c in nd.productions],
                [[c.name, v(c.capacity), v(c.flow_in), v(c.flow_out), v(c.cost), num(c.init_capacity), v(c.eff)] for c in nd.storages],
                [[c.dest, v(c.quantity), v(c.cost)] for c in nd.links]])
        nets.append([n, nodes])
    convs = []
    for n, c in st.converters.items():
        convs.append([n, c.name, c.dest_network, c.dest_node, v(c.max) if hasattr(c.max, "flatten") else num(c.max), v(c.cost) if hasattr(c.cost, "flatten") else num(c.cost),
                      [[list(k), v(r)] for k, r in c.src_ratios.items()]])
    return json.loads(json.dumps({"H": num(H), "S": num(S), "version": st.version, "nets": nets, "conv": convs}))

# ------------------------------------------------------------------ synthetic results
def result_of(sd, O):
    """Result object holding the given matrices (study order, see gen.structure / matrices)."""
    from hadar.optimizer.domain.output import (Result, OutputNetwork, OutputNode, OutputConsumption, OutputProduction,
                                               OutputStorage, OutputLink, OutputConverter)
    A = lambda M: np.array(M, dtype=float).reshape(sd["S"], sd["H"])
    it = {k: iter(O[k]) for k in O}
    nets = {}
    for n, xs in sd["nets"]:
        nodes = {}
        for x in xs:
            sel = lambda k, f="node": [e for e in sd[k] if e["net"] == n and e[f] == x]
            nodes[x] = OutputNode(
                consumptions=[OutputConsumption(name=e["name"], quantity=A(next(it["given"]))) for e in sel("cons")],
                productions=[OutputProduction(name=e["name"], quantity=A(next(it["used"]))) for e in sel("prod")],
                storages=[OutputStorage(name=e["name"], capacity=A(next(it["lvl"])), flow_in=A(next(it["in"])), flow_out=A(next(it["out"]))) for e in sel("stor")],
                links=[OutputLink(dest=e["dst"], quantity=A(next(it["flow"]))) for e in sel("link", "src")])
        nets[n] = OutputNetwork(nodes=nodes)
    convs = {}
    for e in sd["conv"]:
        fs = next(it["csrc"])
        convs[e["name"]] = OutputConverter(name=e["name"], flow_src={(q["net"], q["node"]): A(f) for q, f in zip(e["srcs"], fs)},
                                           flow_dest=A(next(it["cdst"])))
    return Result(networks=nets, converters=convs)


def exc(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


def main(handler):
    """driver entry point: payload file in, result file out; harness bugs exit 3"""
    try:
        data = json.load(open(sys.argv[1]))
        out = handler(data)
        json.dump(out, open(sys.argv[2], "w"))
    except Exception:
        traceback.print_exc()
        sys.exit(3)
