"""Mutation screening (development aid, no check uses it): python3 tools/mutate.py OUT.jsonl [FILE ...]
Writes the mutants of hadar that compile and pass the stable tests; tools/mutrun.py then runs the checks on them."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

SWAP = {"flow_in": "flow_out", "flow_out": "flow_in", "capacity": "init_capacity", "network": "node", "node": "network", "src": "dest", "dest": "src", "avail": "used", "used": "avail",
        "asked": "given", "given": "asked", "scn": "t", "t": "scn", "horizon": "nb_scn", "nb_scn": "horizon", "inputs": "outputs", "outputs": "inputs", "cost": "quantity",
        "dest_network": "dest_node", "lower": "upper", "downtime_min": "downtime_max", "consumption": "production", "production": "consumption", "consumptions": "productions",
        "h": "scn", "tile": "repeat", "repeat": "tile", "from_converter": "to_converter", "to_converter": "from_converter", "flow_dest": "flow_src", "max": "min"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Mod: None}

def sites(tree):
    """functions that mutate a fresh copy of the tree, by (index, variant)"""
    nodes = list(ast.walk(tree))
    out = []
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare): out.append((i, "cmp"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and BIN[type(n.op)]: out.append((i, "bin"))
        if isinstance(n, ast.BoolOp): out.append((i, "bool")); out += [(i, "drop%d" % k) for k in range(len(n.values))]
        if isinstance(n, (ast.If, ast.IfExp)): out += [(i, "true"), (i, "false")]
        if isinstance(n, ast.Constant) and type(n.value) in (int, float): out += [(i, "inc"), (i, "zero")] if n.value else [(i, "inc")]
        if isinstance(n, ast.Constant) and type(n.value) is bool: out.append((i, "not"))
        if isinstance(n, ast.Constant) and type(n.value) is str and n.value in SWAP: out.append((i, "swapstr"))
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load): out.append((i, "swapattr"))
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load): out.append((i, "swapname"))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): out.append((i, "del"))
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) : out.append((i, "unwrap"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args: out.append((i, "strip"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)): out.append((i, "unary"))
    return out

def apply(src, i, v):
    tree = ast.parse(src)
    n = list(ast.walk(tree))[i]
    line = getattr(n, "lineno", 0)
    repl = None
    if v == "cmp": n.ops[0] = CMP[type(n.ops[0])]()
    elif v == "bin": n.op = BIN[type(n.op)]()
    elif v == "bool": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif v.startswith("drop"): del n.values[int(v[4:])]; repl = n.values[0] if len(n.values) == 1 else None
    elif v in ("true", "false"): n.test = ast.Constant(v == "true")
    elif v == "inc": n.value += 1
    elif v == "zero": n.value = 0
    elif v == "not": n.value = not n.value
    elif v == "swapstr": n.value = SWAP[n.value]
    elif v == "swapattr": n.attr = SWAP[n.attr]
    elif v == "swapname": n.id = SWAP[n.id]
    elif v == "del": repl = ast.Pass()
    elif v == "unwrap": repl = n.args[0]
    elif v == "strip": repl = n.func.value
    elif v == "unary": repl = n.operand
    if repl is not None:
        class R(ast.NodeTransformer):
            def visit(self, m): return repl if m is n else self.generic_visit(m)
        tree = R().visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)), line

def main():
    out, files = sys.argv[1], sys.argv[2:]
    rng = random.Random(5)
    if not files:
        files = [os.path.relpath(os.path.join(d, f), "/repo") for d, _, fs in os.walk("/repo/hadar") for f in fs if f.endswith(".py") and f != "__init__.py"]
    work = []
    for f in files:
        src = open("/repo/" + f).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for i, v in sites(ast.parse(src)):
            try: m, line = apply(src, i, v)
            except Exception: continue
            if m in seen: continue
            seen.add(m); work.append((f, i, v, line, base, m))
    print(len(work), "mutants", flush=True)
    dirs = []
    for k in range(8):
        d = plant.scratch(); dirs.append(d); plant.sh(["bash", plant.script("build.sh", d)])
        tf = os.path.join(d, "tests/optimizer/remote/test_optimizer.py"); tx = open(tf).read().replace("6984", str(7200 + k)); open(tf, "w").write(tx)   # the scratch copies run side by side
    import queue; q = queue.Queue(); [q.put(d) for d in dirs]
    fo = open(out, "a")
    def one(w):
        f, i, v, line, base, m = w
        d = q.get()
        try:
            open(os.path.join(d, f), "w").write(m)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NO_PROXY="localhost",
                       NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
            first = "tests/" + f.split("/")[1]
            try:   # every test of the repository is stable: the first failure decides
                r = subprocess.run(["/opt/venv/bin/python", "-c", "import os,sys,pytest; rc=int(pytest.main(sys.argv[1:])); os._exit(rc)", first, "tests", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore"],
                                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                miss = r.returncode
            except Exception as e: miss = [repr(e)]
            if not miss:
                import difflib
                df = "\n".join(x for x in difflib.unified_diff(base.splitlines(), m.splitlines(), lineterm="", n=1))
                fo.write(json.dumps({"file": f, "site": i, "v": v, "line": line, "diff": df, "src": m}) + "\n"); fo.flush()
        finally:
            shutil.copy("/repo/" + f, os.path.join(d, f)); q.put(d)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, work))
    for d in dirs: shutil.rmtree(d)

if __name__ == "__main__": main()
